import itertools
import numpy as np
from vm import gen, ref, util
RULE = ("one case = a block of signals: all signals over small alphabets (zero included) up to a length bound are enumerated, further blocks are random signals with plateaus, "
        "ties, zeros and zero runs on random time axes; the oracle recomputes extrema from runs of equal values; distinct non-trivial = distinct (turning pattern) seen")
ALPH = [(-1., 0., 1.), (0., 1., 2.), (-2., -1., 3., 0.)]
BLK = 2000


def blocks(tier):
    out = []
    for a, alph in enumerate(ALPH):
        top = {"quick": (9, 9, 7), "thorough": (12, 12, 9)}[tier][a]
        for n in range(2, top + 1):
            tot = len(alph) ** n
            for s in range(0, tot, BLK):
                out.append((a, n, s, min(tot, s + BLK)))
    return out


B = {t: blocks(t) for t in ("quick", "thorough")}
RND = {"quick": 260, "thorough": 4000}
CASES = {t: len(B[t]) + RND[t] for t in B}
EXHAUSTIVE = "all signals over {-1,0,1}, {0,1,2} up to length 9 (thorough 12) and over {-2,-1,0,3} up to length 7 (thorough 9)"


def monitor(c, e, T, S):
    r = e.find_extrema(T, S)
    c.check(len(r) == 5, "find_extrema does not return five items")
    mx, mn = ref.extrema_simple(S)
    z = ref.zeros(S)
    c.check(np.array_equal(r[0], T[mx]) and np.array_equal(r[1], S[mx]), "maxima differ", S=S, T=T, got=r[0], got_val=r[1], expected=T[mx])
    c.check(np.array_equal(r[2], T[mn]) and np.array_equal(r[3], S[mn]), "minima differ", S=S, T=T, got=r[2], got_val=r[3], expected=T[mn])
    c.check(np.array_equal(np.asarray(r[4], dtype=float), z), "zero crossings differ", S=S, got=r[4], expected=z)
    a = np.sort(np.r_[mx, mn])
    k = np.isin(a, mx)
    c.check(bool(np.all(k[1:] != k[:-1])), "maxima and minima do not alternate", S=S)
    c.ev()
    return len(mx), len(mn), len(z)


def case(c):
    from PyEMD import EMD
    e = EMD(extrema_detection="simple")
    i = c.idx
    bl = B[c.tier]
    if i < len(bl):
        a, n, s, t = bl[i]
        alph = np.array(ALPH[a])
        T = np.arange(n, dtype=float)
        k = len(alph)
        for x in range(s, t):
            d = []
            y = x
            for _ in range(n):
                d.append(y % k)
                y //= k
            S = alph[d]
            q = monitor(c, e, T, S)
            if q[0] + q[1]:
                c.sig(a, n, q)
        c.count("enumerated signals", t - s)
        c.sample(alphabet=ALPH[a], length=n, block=[s, t])
        return
    r = c.rng
    for _ in range(60):
        kind, S = gen.signal(r, scaled=r.random() < .5)
        how = ""
        if r.random() < .4:  # small alphabet, longer
            n = int(r.integers(5, 60))
            S = r.choice([-1., 0., 0., 1., 2.], size=n)
            if r.random() < .5:
                S = np.repeat(S, r.integers(1, 4, size=n))
        if r.random() < .4:
            S, how = gen.typed(r, S)
        T = gen.taxis(r, len(S)) if r.random() < .5 else np.arange(len(S), dtype=float)
        c.note(S=S, T=T, kind=kind, how=how)
        q = monitor(c, e, T, S)
        if q[0] + q[1] > 1:
            c.sig("r", kind, how, min(q[0], 8), min(q[1], 8), min(q[2], 8))
    c.count("random signals", 60)
