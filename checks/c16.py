import numpy as np
from vm import gen, util
RULE = ("one case = one CEEMDAN run on a generated signal (constant, short, integer, low precision, huge, tiny included) with random noise strength, kind, limit, thresholds and workers; judged: shape, finiteness, "
        "completeness, residue, limit; distinct non-trivial = distinct (signal kind, dtype, limit, noise kind, scaling, rows)")
CASES = {"quick": 1300, "thorough": 22000}
DT = ["float64"] * 5 + ["int16", "int64", "uint8", "float32", "float16"]


def case(c):
    from PyEMD import CEEMDAN
    r = c.rng
    kind, S = gen.signal(r, lo=3, hi=int(r.choice([40, 120, 260])))
    if r.random() < .15:
        S = S * float(r.choice([1e-9, 1e-12, 1e9, 1e12]))
    dt = str(r.choice(DT))
    if dt != "float64":
        s = S / max(np.abs(S).max(), 1e-300)
        S = s.astype(dt) if dt.startswith("f") else np.round((s + 1) * 100).astype(dt) if dt != "uint8" else np.round((s + 1) * 127).astype(dt)
    kw = dict(trials=int(r.integers(1, 6)), epsilon=float(r.choice([.005, .005, .05, .2, 1.])), noise_kind=str(r.choice(["normal", "uniform"])), beta_progress=bool(r.random() < .7))
    if r.random() < .3:
        kw["noise_scale"] = float(r.choice([.1, 3., 100.]))
    if r.random() < .3:
        kw["range_thr"] = float(r.choice([.001, .1, .5]))
    if r.random() < .3:
        kw["total_power_thr"] = float(r.choice([.001, .5, 5.]))
    emdcfg = {k: v for k, v in gen.config(r, thresholds=False).items()} if r.random() < .5 else {}
    par = r.random() < .08
    m = gen.number(r, gen.max_imf(r))
    if c.idx % 50 == 9:  # large ensembles, long signals
        if r.random() < .5:
            kw["trials"] = int(r.choice([30, 60]))
        else:
            S = np.cumsum(r.normal(size=int(r.integers(500, 1200))))
            kind, dt = "walk", "float64"
    T = gen.taxis(r, len(S)) if r.random() < .3 else None
    c.note(kind=kind, S=S, kw=kw, emd=emdcfg, max_imf=m, T=T, dtype=dt)
    e = CEEMDAN(parallel=par, **({"processes": 2} if par else {}), **kw, **emdcfg)
    e.noise_seed(int(r.integers(0, 1 << 31)))
    c.ev()
    out = e(S, T, m)
    c.count("runs")
    D = np.asarray(S, dtype=np.float64)
    N = len(D)
    c.check(isinstance(out, np.ndarray) and out.ndim == 2 and out.shape[1] == N and np.issubdtype(out.dtype, np.floating), "result is not rows of the signal's length: %s" % (np.shape(out),))
    c.check(bool(np.all(np.isfinite(out))), "non-finite components", out=out)
    sc = max(np.abs(D).max(), np.abs(out).max()) + 1e-300
    d = float(np.max(np.abs(np.sum(out, axis=0) - D))) / sc
    c.maxi("largest relative completeness error", d)
    c.check(d <= 1e-13 * (len(out) + 4), "components do not add up to the signal: relative error %g" % d, out=out)
    last = D - np.sum(out[:-1], axis=0)
    c.check(float(np.max(np.abs(out[-1] - last))) <= 1e-13 * (len(out) + 4) * sc, "the last component is not what the others leave over", out=out)
    im, res = e.get_imfs_and_residue()
    c.check(np.array_equal(im, out), "accessor components differ from the returned ones")
    c.check(np.shape(res) == (N,) and float(np.max(np.abs(res))) <= 1e-13 * (len(out) + 4) * sc, "residue is not zero to rounding: %g" % np.max(np.abs(res)), residue=res)
    if m > 0:
        c.check(len(out) <= m + 1, "%d components returned for limit %d" % (len(out), m), out=out)
    c.check(len(out) >= 1, "no component at all")
    c.sig(kind, dt, m, kw["noise_kind"], kw["beta_progress"], len(out))
    c.sample(kind=kind, N=N, dtype=dt, kw=kw, max_imf=m, rows=len(out), error=d)
