import numpy as np
from vm import gen, util
RULE = ("one case = one generated (signal kind, length, scale, dtype, layout) x (spline, detection, mirroring, stopping rule, thresholds, time axis, limit); "
        "the monitor judges shape, finiteness and sample-wise conservation of the returned array; distinct non-trivial = distinct "
        "(kind, spline, detection, stopping rule, nbsym, limit, number of rows) with at least two rows")
CASES = {"quick": 4500, "thorough": 90000}
DT = ["float64"] * 6 + ["float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16"]


def case(c):
    r = c.rng
    big = r.random() < .03
    kind, S = gen.signal(r, n=int(r.integers(600, 3000)) if big else None)
    cfg = gen.config(r, splines=["cubic", "akima", "pchip"] if big else None)
    if r.random() < .05:
        S = S * 1e9 / max(np.max(np.abs(S)), 1e-300)
        cfg = {k: v for k, v in cfg.items() if not k.endswith("_thr")}
    if c.idx % 70 == 7:
        (S, cfg), kind = gen.deep(r), "deep"
    dt = str(r.choice(DT))
    if dt != "float64":
        s = S / max(np.max(np.abs(S)), 1e-300)
        if dt.startswith("float"):
            S = (s * float(r.choice([1, 10, 1000]))).astype(dt)
        else:
            info = np.iinfo(dt)
            a = min(info.max, 30000) * (1 if r.random() < .5 else .05)
            S = np.round(s * a / 2 + (a / 2 if info.min == 0 else 0)).astype(dt)
    S, lay = util.layout(r, S)
    N = len(S)
    T = gen.taxis(r, N) if r.random() < .5 else None
    m = gen.number(r, gen.max_imf(r))
    c.note(kind=kind, S=S, cfg=cfg, T=T, max_imf=m, dtype=dt, layout=lay)
    e = util.make_emd(r, cfg)
    c.ev()
    if r.random() < .5:
        out = e.emd(S, T, max_imf=m)
    else:
        out = e(S, T, m)
    util.check_recon(c, out, S)
    c.count("rows judged", len(out))
    if len(out) >= 2:
        stop = "FIXE" if cfg.get("FIXE") else "FIXE_H" if cfg.get("FIXE_H") else "default"
        c.sig(kind, cfg["spline_kind"], cfg["extrema_detection"], stop, cfg["nbsym"], m, len(out))
        c.sample(kind=kind, N=N, dtype=dt, cfg=cfg, max_imf=m, rows=len(out))
