import numpy as np
from vm import gen, ref, util
RULE = ("one case = one double-precision signal decomposed by the MATLAB-compatible variant under one stopping setting, limit and time axis; tables, numbering, reconstruction, iteration and extrema counts are checked, components under the "
        "fixed-sift rule are compared with an executable sifting model, and extrema/zero crossings with the run-length oracle; distinct non-trivial = distinct (signal kind, rule, limit, axis, components)")
CASES = {"quick": 12000, "thorough": 200000}
TIMEOUT = 60


def fixed(start, T, k, noise=None):
    """k sifts; returns (candidate, sifts done, ran out of extrema)"""
    h = np.array(start)
    cfg = ref.full(dict(extrema_detection="simple", nbsym=2))
    for i in range(k):
        if ref.counts(T, h)[0] < 3:
            return h, i, True
        up, lo, _, _ = ref.envelopes(T, h, cfg)
        h = h - .5 * (up + lo)
        if noise is not None:
            h = h + 1e-14 * max(np.abs(up).max(), np.abs(lo).max()) * noise.normal(size=len(h))
    return h, k, False


def detection(c, M):
    r = c.rng
    n = int(r.integers(3, 60))
    S = r.integers(-2, 3, n).astype(float) if r.random() < .6 else gen.signal(r, n=n)[1]
    T = gen.taxis(r, n) if r.random() < .4 else np.arange(n, dtype=float)
    if r.random() < .2:
        S = S * float(r.choice([1e-170, 1e-290, 1e200]))
    c.note(S=S, T=T)
    mp, mv, np_, nv, z = M.findExtrema(T, S)
    c.ev()
    mx, mn = ref.extrema_simple(S)
    c.check(np.array_equal(mp, T[mx]) and np.array_equal(mv, S[mx]), "maxima are not the interior peaks", got=mp, want=T[mx])
    c.check(np.array_equal(np_, T[mn]) and np.array_equal(nv, S[mn]), "minima are not the interior troughs", got=np_, want=T[mn])
    c.check(np.array_equal(np.asarray(z, float), ref.zeros(S)), "zero crossings are wrong", got=z, want=ref.zeros(S))
    c.count("extrema tables compared")
    c.sig("detect", len(mx), len(mn), len(ref.zeros(S)))


def case(c):
    from PyEMD.EMD_matlab import EMD as M
    r = c.rng
    e = M()
    if r.random() < .25:
        return detection(c, M)
    kind, S = gen.signal(r, lo=2, hi=300)
    if kind == "decades" and np.ptp(S) < 1e-8 * np.abs(S).max():
        S = S - np.mean(S)  # its slow trend would be as small as the rounding errors: thousands of components made of them
    rule = str(r.choice(["default", "FIXE", "FIXE", "FIXE_H"]))
    k = int(r.integers(1, 9)) if r.random() < .8 else int(r.integers(9, 26))
    if rule != "default":
        setattr(e, rule, k)
    m = gen.number(r, int(r.choice([-1, -1, 0, 2, 3, 4, 6])))
    T = gen.taxis(r, len(S)) if r.random() < .35 else None
    c.note(kind=kind, S=S, rule=rule, k=k, maxImf=m, T=T)
    s0 = S.copy()
    im, ext, it, no = M.emd(e, S, T, m) if (m != -1 or r.random() < .5) else M.emd(e, S, T)
    c.ev()
    c.check(np.array_equal(S, s0), "the signal was modified")
    c.check(sorted(im) == list(range(no)), "components are not numbered 0..%d: %s" % (no - 1, sorted(im)))
    c.check(sorted(ext) == sorted(im) and sorted(it) == sorted(im), "tables do not match: %s %s %s" % (sorted(im), sorted(ext), sorted(it)))
    c.check(no >= 1 and (m < 2 or no <= m), "limit %d but %d components" % (m, no))
    X = np.array([im[i] for i in range(no)])
    c.check(X.shape == (no, len(S)), "shape %s" % (X.shape,), X=X)
    if not np.all(np.isfinite(X)):
        c.fail("non-finite components", X=X)
    d = float(np.max(np.abs(X.sum(axis=0) - S)))
    c.check(d <= 1e-10 + util.tol_sum(X, S) * 4, "components do not sum to the signal (error %g)" % d, X=X)
    c.check(all(isinstance(it[i], (int, np.integer)) and it[i] >= 0 and ext[i] >= 0 for i in im), "negative or non-integer counts %s %s" % (it, ext))
    A = np.arange(len(S), dtype=float) if T is None else T
    done = 0
    for i in range(no - 1):  # the last one is the residue (or the trend)
        if np.ptp(X[i]) <= max(1e-9 * np.ptp(S), 1e-13 * np.abs(S).max()):
            c.count("components made of rounding errors")
            continue
        left = ref.counts(A, X[i])[0]
        start = S - np.sum(X[:i], axis=0)
        if np.ptp(start) <= 1e-11 * np.abs(S).max() or rule == "FIXE" and np.ptp(fixed(start, A, k)[0]) <= 1e-13 * np.abs(S).max():
            c.count("residues whose oscillations are rounding errors")
            break
        if rule == "FIXE":
            c.check(it[i] <= k + 1, "component %d took %d passes under a fixed number of %d sifts" % (i, it[i], k))
            if it[i] == k + 1:
                done += 1
            else:
                c.check(left < 3, "component %d was sifted %d instead of %d times although it has %d extrema" % (i, it[i] - 1, k, left), X=X)
            h, n, out = fixed(start, A, k)
            sc = max(np.abs(X[i]).max(), np.abs(start).max(), 1e-300)
            if np.max(np.abs(h - X[i])) > 1e-7 * sc:
                hs = [fixed(start, A, k, np.random.default_rng(j)) for j in range(5)]
                if all(x[1] == n and np.max(np.abs(x[0] - h)) < 1e-8 * sc for x in hs):
                    c.fail("component %d is not the result of %d sifts (difference %g of %g)" % (i, k, np.max(np.abs(h - X[i])), sc), X=X, model=h)
                c.count("ambiguous (decided by rounding)")
                break
            c.count("components compared with the sifting model")
        elif it[i] <= 500 and left >= 3:
            c.check(ext[i] == left, "component %d has %d extrema, table says %d" % (i, left, ext[i]), X=X)
            c.count("extrema counts checked")
    c.sig(kind, rule, m, T is None, min(no, 7))
    c.sample(kind=kind, N=len(S), rule=rule, k=k, maxImf=m, components=no, iterations=[int(it[i]) for i in range(no)])
