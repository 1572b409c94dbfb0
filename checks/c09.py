import numpy as np
from vm import gen, ref, util
RULE = ("one case = one signal/configuration decomposed with several time axes: transformed, missing, irregular (against the model) and invalid ones, on EMD, EEMD and CEEMDAN; "
        "distinct non-trivial = distinct (class, detection, relation, signal kind, rows)")
CASES = {"quick": 1700, "thorough": 30000}


def axis_int(r, n):
    return np.sort(r.choice(6 * n + 4, size=n, replace=False)).astype(str(r.choice(["int64", "int32", "float32", "float64"])))


def plain(c):
    r = c.rng
    kind, S = gen.signal(r, lo=3, hi=260, kinds=gen.OSC)
    N = len(S)
    cfg = gen.config(r, detection=["simple", "parabol", "parabol"])
    det = cfg["extrema_detection"]
    m = gen.max_imf(r)
    e = util.make_emd(r, cfg)
    c.note(kind=kind, S=S, cfg=cfg, max_imf=m)
    run = lambda T: [x.copy() for x in (e.emd(S, T, max_imf=m),) + tuple(e.get_imfs_and_residue())]
    base = run(None)
    c.ev()
    sc = util.ampl(S)
    if det == "simple":
        for T in (gen.taxis(r, N), gen.taxis(r, N)[::-1].copy(), np.zeros(N) if r.random() < .3 else axis_int(r, N)):
            got = run(T)
            c.check(all(util.same(a, b) for a, b in zip(base, got)), "sample-based result depends on the time values", T=T, base=base[0], got=got[0])
            c.sig("EMD", "any axis", kind, len(base[1]))
            c.count("axes compared", 1)
    else:
        # no axis means unit spacing
        got = run(np.arange(N) if r.random() < .5 else np.arange(N, dtype=float))
        c.check(all(util.same(a, b) for a, b in zip(base, got)), "no axis and unit spacing give different results", base=base[0], got=got[0])
        dt = float(r.choice([2.**-k for k in (40, 30, 20, 7, 1)] + [4., 2.**20]))
        got = run(np.arange(N) * dt)
        c.check(all(util.same(a, b) for a, b in zip(base, got)), "no axis and uniform spacing %g give different results" % dt, base=base[0], got=got[0])
        # affine change of an irregular axis
        T = gen.taxis(r, N)
        c.note(T=T)
        b0 = run(T)
        a = float(r.choice([1e-6, .37, 3., 2., 1e6, .125, 1e-9, 1e-12, 1e12]))
        sh = float(r.choice([0., 1., -7.25, 1e3])) * (T[-1] - T[0]) / max(N, 1)
        T2 = a * T + sh
        dd = np.abs(np.diff(T2) / (a * np.diff(T)) - 1).max() if N > 1 else 0
        if dd < 1e-12:
            b1 = run(T2)
            if not (b0[1].shape == b1[1].shape and util.spread(b0[1], b1[1]) <= 1e-6 * sc + 1e-9):
                if util.settled(c, S, cfg, T, m) and util.settled(c, S, cfg, T2, m):
                    c.fail("result changes under shift/rescale of the time axis (spread %g)" % util.spread(b0[1], b1[1]), T=T, a=a, shift=sh, base=b0[1], got=b1[1])
            else:
                c.sig("EMD", "affine", kind, len(b0[1]))
                c.count("affine pairs equal")
        # far away: integer axes can be moved without any rounding
        if r.random() < .5:
            Ti = np.cumsum(r.integers(1, 6, N)).astype(str(r.choice(["int64", "float64"])))
            sh = int(r.choice([-10 ** 9, -5 * 10 ** 6, -70000, 10 ** 5, 10 ** 9, 17 * 10 ** 8])) if Ti.dtype != np.int64 or r.random() < .5 else int(r.choice([17 * 10 ** 17, -4 * 10 ** 18]))
            full, m = m, int(r.choice([1, 2, 3]))
            g0, g1 = run(Ti), run(Ti + Ti.dtype.type(sh))
            if not all(util.same(a, b) for a, b in zip(g0, g1)) and not (g0[1].shape == g1[1].shape and util.spread(g0[1], g1[1]) <= 1e-6 * sc + 1e-9):
                if util.settled(c, S, cfg, Ti.astype(float), m):
                    c.fail("moving the integer time axis (%s) by %d changes the result" % (Ti.dtype, sh), T=Ti, base=g0[0], got=g1[0])
            m = full
            c.count("integer axes moved")
        # actual spacing
        util.judged(c, S, b0[1], cfg, T, m, ("value", "stop"))
        c.sig("EMD", "irregular", kind, len(b0[1]))
        # repeated values
        k = int(r.integers(1, N))
        Td = T.copy()
        Td[k] = Td[k - 1]
        c.note(T=Td)
        c.raises(Exception, lambda: e.emd(S, Td, max_imf=m), "time axis with a repeated value accepted")
        c.count("repeated value rejected")
    for k in (int(r.choice([-1, 1])), int(r.integers(2, 9)), -(N - 1)):
        L = max(N + k, 0)
        if L != N:
            c.note(Tlen=L)
            c.raises(Exception, lambda: e.emd(S, np.arange(L, dtype=float), max_imf=m), "time axis of length %d accepted for a signal of length %d" % (L, N))
            c.count("wrong length rejected")
    c.sample(kind=kind, N=N, cfg=cfg, rows=len(base[0]))


def ensemble(c):
    from PyEMD import CEEMDAN, EEMD
    r = c.rng
    which = str(r.choice(["EEMD", "CEEMDAN"]))
    cls = EEMD if which == "EEMD" else CEEMDAN
    N = int(r.integers(12, 70))
    kind, S = gen.signal(r, n=N, kinds=gen.SMOOTH)
    det = str(r.choice(["simple", "parabol"]))
    seed = int(r.integers(0, 1 << 31))
    c.note(cls=which, kind=kind, S=S, det=det, seed=seed)

    def run(T):
        e = cls(trials=2, parallel=False, extrema_detection=det)
        e.noise_seed(seed)
        return e(S, T)
    base = run(None)
    c.ev()
    if det == "simple":
        T = gen.taxis(r, N)
        got = run(T)
        c.check(util.same(base, got), which + ": sample-based result depends on the time values", T=T, base=base, got=got)
        c.sig(which, "any axis", kind, len(base))
    else:
        got = run(np.arange(N, dtype=float))
        c.check(util.same(base, got), which + ": no axis and unit spacing differ", base=base, got=got)
        c.sig(which, "unit axis", kind, len(base))
        Td = gen.taxis(r, N)
        k = int(r.integers(1, N))
        Td[k] = Td[k - 1]
        c.raises(Exception, lambda: run(Td), which + ": time axis with a repeated value accepted")
    for L in (N - 1, N + 1):
        c.raises(Exception, lambda: run(np.arange(L, dtype=float)), which + ": time axis of other length accepted")
        c.count("wrong length rejected")


def case(c):
    (ensemble if c.rng.random() < .12 else plain)(c)
