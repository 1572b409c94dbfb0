import numpy as np
from vm import gen, util
RULE = ("one case = one double-precision signal and one configuration both implementations support, decomposed by the compiled function or class (fresh or reused instance) and by the regular EMD; components, residue and "
        "separated trend are compared; or one ensemble (serial or with two worker processes) with the compiled decomposer doing the trials; distinct non-trivial = distinct (entry point, signal kind, spline, detection, stopping rule, rows)")
CASES = {"quick": 3500, "thorough": 60000}
BUDGET = {"quick": 300, "thorough": 3000}
TIMEOUT = 60
SPL = ["cubic", "akima", "linear", "quadratic"]
KEYS = ("nbsym", "energy_ratio_thr", "std_thr", "svar_thr", "total_power_thr", "range_thr", "FIXE", "FIXE_H", "MAX_ITERATION")
REUSE = {}


def jitcfg(cfg):
    from PyEMD.experimental import jitemd
    d = jitemd.default_emd_config.copy()
    for k in KEYS:
        if k in cfg:
            d[k] = float(cfg[k])
    return d


def setup(tier):
    """compile every specialisation once, before the workers are forked"""
    from PyEMD.experimental import jitemd
    import pickle
    g = np.random.default_rng(0)
    try:
        pickle.loads(pickle.dumps(jitemd.JitEMD()))
    except Exception:
        pass  # judged by the cases
    for n in (5, 40):
        S = g.normal(size=n)
        T = np.arange(n, dtype=float)
        for det in ("simple", "parabol"):
            for spl in SPL:
                for cfg in ({}, dict(FIXE=2), dict(FIXE_H=2)):
                    try:
                        jitemd.emd(S, T, -1, spl, det, jitcfg(cfg))
                    except Exception:
                        pass  # judged by the cases


def split(rows, S):
    """(components, residue) of a returned array: residue row present exactly when not negligible"""
    return rows, np.asarray(S) - np.sum(rows, axis=0)


def ensemble(c):
    from PyEMD import EEMD, EMD
    from PyEMD.experimental.jitemd import JitEMD
    r = c.rng
    kind, S = gen.signal(r, lo=12, hi=120, kinds=gen.SMOOTH, scaled=False)
    cfg = gen.config(r, splines=SPL)
    trials, seed, w, m = int(r.integers(1, 5)), int(r.integers(0, 1 << 31)), float(r.choice([.05, .2])), gen.max_imf(r)
    T = np.arange(len(S), dtype=float)
    par = bool(r.random() < .2)
    c.note(entry="EEMD", parallel=par, kind=kind, S=S, cfg=cfg, trials=trials, seed=seed, noise_width=w, max_imf=m)
    outs = []
    for ext in (EMD(**cfg), JitEMD(config=jitcfg(cfg), spline_kind=cfg["spline_kind"], extrema_detection=cfg["extrema_detection"])):
        e = EEMD(trials=trials, noise_width=w, ext_EMD=ext, parallel=par, processes=2 if par else None)
        e.noise_seed(seed)
        outs.append(e.eemd(S, T, m))
        c.ev()
    a, b = outs
    if not util.close(a, b, util.ampl(S), 1e-7):
        tw = EEMD(trials=trials, noise_width=w, parallel=False)
        tw.noise_seed(seed)
        W = np.asarray([tw.generate_noise(w * abs(np.max(S) - np.min(S)), len(S)) for _ in range(trials)])
        # judged only when no trial of the ensemble hinges on rounding
        if all(util.settled(c, S + x, cfg, None, m) for x in W):
            c.fail("EEMD with the compiled decomposer differs from the one with the regular decomposer (rows %d vs %d, by %g)" % (len(b), len(a), util.spread(a, b)), regular=a, compiled=b)
        return
    c.count("parallel ensembles equal" if par else "ensembles equal")
    c.sig("EEMD", kind, cfg["spline_kind"], cfg["extrema_detection"], util.stop_of(cfg), len(a))


def case(c):
    from PyEMD import EMD
    from PyEMD.experimental import jitemd
    r = c.rng
    if r.random() < .08:
        return ensemble(c)
    kind, S = gen.signal(r, lo=3, hi=300)
    cfg = gen.config(r, splines=SPL)
    m = gen.max_imf(r)
    entry = str(r.choice(["function", "class", "call", "reused", "default"]))
    if entry == "default":  # nothing configured at all
        cfg = dict(spline_kind="cubic", extrema_detection="simple")
    T = np.arange(len(S), dtype=float)
    c.note(entry=entry, kind=kind, S=S, cfg=cfg, max_imf=m)
    e = EMD(**cfg)
    want = e.emd(S.copy(), None, m)
    wi, wr = e.get_imfs_and_residue()
    wr = np.asarray(wr)
    s0 = S.copy()
    J = None
    if entry == "function":
        got = jitemd.emd(S, T, m, cfg["spline_kind"], cfg["extrema_detection"], jitcfg(cfg))
    else:
        if entry == "reused":
            J = REUSE.setdefault((cfg["spline_kind"], cfg["extrema_detection"]), jitemd.JitEMD())
            J.config, J.spline_kind, J.extrema_detection = jitcfg(cfg), cfg["spline_kind"], cfg["extrema_detection"]
        elif entry == "default":
            J = jitemd.JitEMD()
        else:
            J = jitemd.JitEMD(config=jitcfg(cfg), spline_kind=cfg["spline_kind"], extrema_detection=cfg["extrema_detection"])
        got = J(S, T, m) if entry == "call" else J.emd(S, T, m)
    c.ev()
    c.check(np.array_equal(S, s0) and np.array_equal(T, np.arange(len(S))), "the compiled decomposer modified its input")
    sc = util.ampl(S)
    ok = got.shape == want.shape and util.spread(got, want) <= 1e-7 * sc
    what = "components differ (rows %d vs %d, by %g)" % (len(got), len(want), util.spread(got, want))
    if ok and J is not None and len(wi) + (not np.allclose(wr, 0)) > 0 and len(got):
        a, b = e.get_imfs_and_trend(), J.get_imfs_and_trend()
        ok = util.close(a[0], b[0], sc) and util.spread(a[1], b[1]) <= 1e-7 * sc + 1.1e-8  # a negligible residue may stay in the trend
        what = "separated trend differs (%s vs %s, %s)" % (np.shape(a[0]), np.shape(b[0]), util.spread(a[1], b[1]))
        c.count("separated trends compared")
    if not ok:
        if util.settled(c, S, cfg, None, m):
            c.fail("compiled vs regular: " + what, compiled=got, regular=want)
        return
    c.count("decompositions equal")
    c.sig(entry, kind, cfg["spline_kind"], cfg["extrema_detection"], util.stop_of(cfg), min(len(got), 6))
    c.sample(entry=entry, kind=kind, N=len(S), cfg=cfg, rows=len(got))
