import numpy as np
from vm import gen, util
RULE = ("one case = one signal/configuration and its negated, time-reversed, shifted and scaled versions; components and residue of both runs are related to each other; "
        "distinct non-trivial = distinct (relation, signal kind, spline, detection, stopping rule, rows)")
CASES = {"quick": 2000, "thorough": 40000}


def run(cfg, S, T, m):
    e = util.make_emd(None, cfg)
    e.emd(S, T, max_imf=m)
    i, r = e.get_imfs_and_residue()
    return np.vstack((i, r[None, :]))


def case(c):
    r = c.rng
    rel = str(r.choice(["negate", "negate", "reverse", "reverse", "shift", "scale"]))
    kind, S = gen.signal(r, lo=3, hi=260, kinds=gen.SMOOTH if rel == "reverse" else gen.OSC)
    cfg = gen.config(r, stops=["FIXE"] if rel in ("shift", "scale") else None)
    cfg2 = dict(cfg)
    T = gen.taxis(r, len(S)) if r.random() < .3 else None
    m = gen.max_imf(r)
    T2 = T
    back = lambda X: X
    sc = util.ampl(S)
    if rel == "negate":
        S2, back = -S, lambda X: -X
    elif rel == "reverse":
        if len(np.unique(S)) != len(S):
            c.count("ties, skipped")
            return
        S2, back = S[::-1].copy(), lambda X: X[:, ::-1]
        T2 = None if T is None else (T[-1] - T)[::-1].copy()
    elif rel == "shift":
        cfg["total_power_thr"] = cfg2["total_power_thr"] = 0.
        a = float(r.choice([.5, -3., 20.])) * float(np.ptp(S) + 1e-3 * sc)
        S2 = S + a
        def back(X):
            X = X.copy(); X[-1] -= a; return X
        sc = max(sc, util.ampl(S2))
    else:
        a = float(r.choice([2., .25, 1024., 3.7, 1e-3, 1e4]))
        S2, back = S * a, lambda X: X / a
        for k, d in (("range_thr", .001), ("total_power_thr", .005)):
            cfg2[k] = cfg.get(k, d) * a
    c.note(relation=rel, kind=kind, S=S, cfg=cfg, T=T, max_imf=m)
    A, B = run(cfg, S, T, m), run(cfg2, S2, T2, m)
    c.ev()
    B = back(B)
    if A.shape != B.shape or util.spread(A, B) > 1e-7 * sc + 1e-300:
        if util.settled(c, S, cfg, T, m) and util.settled(c, S2, cfg2, T2, m):
            c.fail("%s: decomposition does not follow (rows %d vs %d, difference %g)" % (rel, len(A), len(B), util.spread(A, B)), A=A, B=B)
    else:
        c.count(rel + " pairs equal")
        c.sig(rel, kind, cfg["spline_kind"], cfg["extrema_detection"], util.stop_of(cfg), min(len(A), 6))
    c.sample(relation=rel, kind=kind, N=len(S), cfg=cfg, rows=len(A))
