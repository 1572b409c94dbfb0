from fractions import Fraction as Fr
import numpy as np
from vm import gen, ref, util
RULE = ("one case = 12 random signals (plateaus, ties, shelves included) on uniform / irregular / offset / tiny-step / long time axes; each reported extremum is compared with the exact "
        "rational vertex of its parabola; distinct non-trivial = distinct (signal kind, axis kind, counts) with at least two extrema")
CASES = {"quick": 1300, "thorough": 25000}


def exact(T, S, p, i, n):
    tp, t0, tn = Fr(float(T[p])), Fr(float(T[i])), Fr(float(T[n]))
    sp_, s0, sn_ = Fr(float(S[p])), Fr(float(S[i])), Fr(float(S[n]))
    sp, sn = (s0 - sp_) / (t0 - tp), (sn_ - s0) / (tn - t0)
    a = (sn - sp) / (tn - tp)
    b = (sp * (tn - t0) + sn * (t0 - tp)) / (tn - tp)
    d = -b / (2 * a)
    return t0 + d, s0 + b * d / 2, float(min(t0 - tp, tn - t0)), float(max(abs(s0 - sp_), abs(sn_ - s0)))


def axis(r, n):
    m = int(r.integers(0, 9))
    if m < 6:
        return gen.taxis(r, n, True), "t%d" % m
    if m == 6:
        return np.arange(n) + float(r.choice([1e3, 1e6, -1e7])), "offset"
    if m == 7:
        return np.arange(n) * float(r.choice([1e-9, 1e-3, 1e6])), "scaled"
    return np.cumsum(r.uniform(.2, 3, n)) + float(r.choice([1e5, 1e8])), "irregular offset"


def case(c):
    from PyEMD import EMD
    e = EMD(extrema_detection="parabol")
    r = c.rng
    for _ in range(12):
        long = r.random() < .06
        n = int(r.integers(500, 4000)) if long else None
        kind, S = gen.signal(r, n=n, lo=3, hi=120)
        if r.random() < .15:
            S = r.choice([-1., 0., 0., 1., 2.], size=len(S))
        how = ""
        if r.random() < .3:
            S, how = gen.typed(r, S, tiny=False)
        elif r.random() < .2:  # amplitude has no meaning for where the turning points are
            k = int(r.choice([-60, -30, -16, -12, 12, 40]))
            S, how = S / max(float(np.max(np.abs(S))), 1e-300) * 10. ** k, "x1e%d" % k
        T, ak = axis(r, len(S))
        if np.any(np.diff(T) <= 0):
            continue
        c.note(S=S, T=T, kind=kind, axis=ak, how=how)
        got = e.find_extrema(T, S)
        c.ev()
        z = ref.zeros(S)
        c.check(np.array_equal(np.asarray(got[4], float), z), "zero crossings differ", got=got[4], expected=z)
        for name, gp, gv, (st, en) in (("maxima", got[0], got[1], ref.turning(S)[0]), ("minima", got[2], got[3], ref.turning(S)[1])):
            c.check(len(gp) == len(st) and len(gv) == len(st), "%d %s reported, signal has %d" % (len(gp), name, len(st)), got=gp, turning=st)
            ks = range(len(st)) if len(st) < 80 else sorted(set(r.integers(0, len(st), 60)) | {0, len(st) - 1})
            for k in ks:
                p = st[k] - 1 if st[k] == en[k] else st[k]
                t, v, h, ds = exact(T, S, p, en[k], en[k] + 1)
                dt = abs(Fr(float(gp[k])) - t)
                dv = abs(Fr(float(gv[k])) - v)
                c.check(float(dt) <= 1e-9 * h + 8 * np.finfo(float).eps * abs(float(t)), "%s %d: position %r, vertex is at %r" % (name, k, gp[k], float(t)), got=gp)
                c.check(float(dv) <= 1e-9 * ds + 8 * np.finfo(float).eps * abs(float(v)), "%s %d: value %r, vertex has %r" % (name, k, gv[k], float(v)), got=gv)
                if st[k] != en[k]:
                    mid = (T[st[k]] + T[en[k]]) / 2
                    c.check(abs(gp[k] - mid) <= 1e-9 * h + 8 * np.finfo(float).eps * abs(mid), "flat extremum not at the centre of the run", got=gp)
                    c.count("flat extrema")
                c.count("vertices compared")
            c.check(bool(np.all(np.diff(gp) > 0)), name + " positions do not increase", got=gp)
        k = len(got[0]) + len(got[2])
        if k > 1:
            c.sig(kind, how, ak, min(k, 12))
    c.sample(kind=kind, axis=ak, N=len(S), extrema=k if len(S) else 0)
