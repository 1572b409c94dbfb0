import numpy as np
from vm import gen, util
RULE = ("one case = a batch: dtype twins (same values in a narrow type and in double precision) through EMD/EEMD/CEEMDAN, boundary lengths of every dtype, and the time line / type helpers "
        "on boundary and random values; distinct non-trivial = distinct (part, dtype, length class, detection, rows)")
CASES = {"quick": 4000, "thorough": 60000}
INTS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
FLTS = ["float16", "float32", "float64"]
BND = {"int8": 127, "uint8": 255, "int16": 32767, "uint16": 65535, "float16": 2048, "int32": 1000, "uint32": 1000, "int64": 1000, "uint64": 1000, "float32": 66000, "float64": 66000}


def cast(r, S, dt):
    s = S / max(np.max(np.abs(S)), 1e-300)
    if np.issubdtype(np.dtype(dt), np.floating):
        return (s * float(r.choice([1, 30, 1000]))).astype(dt)
    info = np.iinfo(dt)
    a = float(min(info.max, 100000))
    if info.min == 0:
        s = (s + 1) / 2
    return np.clip(np.round(s * a * float(r.choice([1, 1, .3]))), max(info.min, -a), a).astype(dt)


def compare(c, out, twin, S, what, settle):
    for a, b in zip(out, twin):
        c.check(np.shape(a) == np.shape(b) or not settle(), "%s: shape %s, double precision gives %s" % (what, np.shape(a), np.shape(b)))
        if np.shape(a) == np.shape(b) and util.spread(np.asarray(a, float), b) > 1e-8 * util.ampl(S) + 1e-9:
            c.check(not settle(), "%s differs from the double precision copy by %g" % (what, util.spread(np.asarray(a, float), b)), out=a, twin=b)


def twin_emd(c, dt=None, n=None):
    r = c.rng
    dt = dt or str(r.choice(INTS + FLTS))
    kind, S = gen.signal(r, n=n, lo=3, hi=300, scaled=False)
    order = str(r.choice(["=", "=", "=", ">"]))
    X = cast(r, S, dt)
    if order == ">":
        X = X.astype(np.dtype(dt).newbyteorder(">"))
    if n:
        cfg = dict(FIXE=1, extrema_detection=str(r.choice(["simple", "parabol"])))
        m = 1
    else:
        cfg = gen.config(r)
        m = gen.max_imf(r)
    D = X.astype(np.float64)
    c.note(kind=kind, S=X, dtype=str(X.dtype), cfg=cfg, max_imf=m, N=len(X))
    T = gen.taxis(r, len(X)) if r.random() < .2 and not n else None
    if T is not None and r.random() < .5:
        T = np.cumsum(r.integers(1, 5, len(X))).astype(str(r.choice(["int16", "int32", "float32", "uint8" if len(X) < 60 else "uint16"])))
    TD = None if T is None else T.astype(np.float64)
    c.note(T=T)
    a, b = util.make_emd(None, cfg), util.make_emd(None, cfg)
    o1, o2 = a.emd(X, T, max_imf=m), b.emd(D, TD, max_imf=m)
    c.ev()
    c.check(np.issubdtype(o1.dtype, np.floating) and o1.dtype.itemsize >= 8, "components of a %s signal have type %s" % (dt, o1.dtype))
    i1, i2 = a.get_imfs_and_residue(), b.get_imfs_and_residue()
    settle = lambda: n is not None or util.settled(c, D, cfg, TD, m)
    if len(o1) == len(o2) or len(i1[0]) != len(i2[0]):
        compare(c, (o1,) + tuple(i1), (o2,) + tuple(i2), D, "EMD of %s (N=%d)" % (X.dtype, len(X)), settle)
    util.check_recon(c, np.asarray(o1, float), D, "%s: " % X.dtype)
    c.sig("emd", str(X.dtype), len(X) if n else min(len(X) // 32, 6), cfg["extrema_detection"], len(o1))
    c.count("twin pairs")
    c.sample(dtype=str(X.dtype), N=len(X), cfg=cfg, rows=len(o1))


def boundary(c):
    r = c.rng
    dt = str(r.choice(list(BND)))
    n = BND[dt] + int(r.integers(-2, 5))
    twin_emd(c, dt, n)
    c.count("boundary lengths")


def ensemble(c):
    from PyEMD import CEEMDAN, EEMD
    r = c.rng
    which = str(r.choice(["EEMD", "CEEMDAN"]))
    dt = str(r.choice(INTS + FLTS))
    n = int(r.choice([40, 126, 127, 128, 129, 254, 255, 256, 257])) if r.random() < .4 else int(r.integers(10, 120))
    kind, S = gen.signal(r, n=n, kinds=gen.SMOOTH, scaled=False)
    X = cast(r, S, dt)
    D = X.astype(np.float64)
    seed = int(r.integers(0, 1 << 31))
    det = str(r.choice(["simple", "parabol"]))
    nk = str(r.choice(["normal", "uniform"]))
    c.note(cls=which, dtype=dt, S=X, seed=seed, det=det)
    cls = EEMD if which == "EEMD" else CEEMDAN

    def run(Y):
        e = cls(trials=2, parallel=False, extrema_detection=det, noise_kind=nk, FIXE=5)
        e.noise_seed(seed)
        return e(Y, None, 3), e.get_imfs_and_residue()[1]
    a, b = run(X), run(D)
    c.ev()
    if np.shape(a[0]) != np.shape(b[0]) or util.spread(a[0], b[0]) > 1e-6 * util.ampl(D):
        c.fail("%s of %s differs from its double precision copy" % (which, dt), out=a[0], twin=b[0])
    c.check(util.spread(a[1], b[1]) <= 1e-6 * util.ampl(D), "%s residue of %s differs from its double precision copy" % (which, dt), out=a[1], twin=b[1])
    c.sig(which, dt, n > 127, n > 255, det)
    c.count("ensemble twin pairs")


def helpers(c):
    from PyEMD import utils
    r = c.rng
    for dt in INTS + FLTS:
        d = np.dtype(dt)
        b = BND.get(dt, 3000)
        for n in sorted({1, 2, 3, int(r.integers(1, 400)), int(r.integers(1, 70000)), b - 1, b, b + 1, b + 2}):
            t = utils.get_timeline(n, d if r.random() < .5 else d.type)
            c.ev()
            c.check(len(t) == n and bool(np.all(t.astype(np.int64) == np.arange(n))) and bool(np.all(np.diff(t.astype(np.float64)) == 1)),
                    "time line of %d samples for %s is not 0..N-1" % (n, dt), timeline=t)
            c.check(np.issubdtype(t.dtype, np.floating) == np.issubdtype(d, np.floating), "time line for %s has type %s" % (dt, t.dtype))
        c.sig("timeline", dt)
    n = int(r.integers(1, 1000))
    t = utils.get_timeline(n)
    c.check(np.array_equal(t, np.arange(n)), "default time line is not 0..N-1", timeline=t)
    # big ones
    for dt in ("float32",):
        for n in ((1 << 24) + 3,) if c.idx % 400 == 9 else ():
            t = utils.get_timeline(n, np.dtype(dt))
            c.check(len(t) == n and bool(np.all(np.diff(t) == 1)), "time line of %d samples for %s repeats" % (n, dt))
            c.count("16M sample time line")
    for v in (0, 1, 127, 255, 256, 2048, 2049, 65503, 65504, 65505, 65534, 65535, 65536, 70000, (1 << 24) + 1, (1 << 31), (1 << 32) - 1, 1 << 32, 1 << 40, int(r.integers(0, 1 << 45))):
        for ref_ in ("int8", "uint8", "int16", "int32", "int64"):
            d = np.dtype(utils.smallest_inclusive_dtype(np.dtype(ref_), v))
            c.check(np.issubdtype(d, np.integer) and np.iinfo(d).max >= v, "integer type %s chosen for %d" % (d, v))
        for ref_ in ("float16", "float32", "float64"):
            d = np.dtype(utils.smallest_inclusive_dtype(np.dtype(ref_), v))
            c.check(np.issubdtype(d, np.floating) and np.finfo(d).max >= v, "float type %s chosen for %d" % (d, v))
        c.ev()
    for bad in ("complex128", "U3", "bool"):
        c.raises(ValueError, lambda: utils.smallest_inclusive_dtype(np.dtype(bad), 5), "type %s accepted" % bad)
    for _ in range(30):
        da, db = str(r.choice(INTS + FLTS[:3])), str(r.choice(INTS + FLTS[:3]))
        mk = lambda d: (r.normal(size=9) * 1000).astype(d) if d.startswith("f") else r.integers(max(np.iinfo(d).min, -(1 << 53)), min(np.iinfo(d).max, 1 << 53), 9, dtype=d, endpoint=True)
        x, y = mk(da), mk(db)
        x0, y0 = x.copy(), y.copy()
        u, v = utils.unify_types(x, y)
        c.ev()
        c.check(u.dtype == v.dtype, "unify_types(%s, %s) gives %s, %s" % (da, db, u.dtype, v.dtype))
        ex = lambda p, q: all(a == b for a, b in zip(p.tolist(), q.tolist()))
        c.check(ex(u, x0) and ex(v, y0), "unify_types(%s, %s) -> %s loses values" % (da, db, u.dtype), x=x0, y=y0, u=u, v=v)
        c.check(util.same(x, x0) and util.same(y, y0), "unify_types modified its argument")
        c.sig("unify", da, db)


def case(c):
    k = c.idx % 10
    if k < 6:
        twin_emd(c)
    elif k == 6:
        boundary(c)
    elif k < 9:
        ensemble(c)
    else:
        helpers(c)
