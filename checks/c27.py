import numpy as np
from vm import gen, util
RULE = ("one case = one decomposer class, one set of settings and one signal; the settings are given in several ways (constructor, attributes, both, through the ensemble's constructor, as a configured external decomposer, explicitly "
        "spelled-out documented defaults, on an instance that ran with other settings before) and all results must be bit-identical; or one unsupported setting that must be rejected; "
        "distinct non-trivial = distinct (class, ways compared, names of the settings given, rows)")
CASES = {"quick": 1500, "thorough": 30000}
TIMEOUT = 120
# the documented defaults
EMD_DEF = dict(spline_kind="cubic", nbsym=2, extrema_detection="simple", FIXE=0, FIXE_H=0, MAX_ITERATION=1000, energy_ratio_thr=.2, std_thr=.2, svar_thr=.001, total_power_thr=.005, range_thr=.001)
EE_DEF = dict(trials=100, noise_width=.05, noise_kind="normal", separate_trends=False)
CE_DEF = dict(trials=100, epsilon=.005, noise_scale=1., noise_kind="normal", beta_progress=True, range_thr=.01, total_power_thr=.05)


def typed(r, cfg):
    """numbers as the numpy scalars a user's parameter sweep would hand over"""
    if r.random() < .7:
        return dict(cfg)
    return {k: (np.int64(v) if isinstance(v, int) and not isinstance(v, bool) else np.float64(v) if isinstance(v, float) else v) for k, v in cfg.items()}


def sets(o, cfg):
    for k, v in cfg.items():
        setattr(o, k, v)


def halves(r, cfg):
    ks = list(cfg)
    first = {k for k in ks if r.random() < .5}
    return {k: cfg[k] for k in ks if k in first}, {k: cfg[k] for k in ks if k not in first}


def other(r, cfg, default):
    """another configuration that sets at least the same names"""
    c = dict(default)
    c.update(gen.config(r))
    return c


def run(e, S, T, m, seed=None, copy=True):
    if seed is not None:
        e.noise_seed(seed)
    out = e(S.copy() if copy else S, T, m)
    im, res = e.get_imfs_and_residue()
    return [np.array(out), np.array(im), np.array(res)]


def compare(c, outs, what):
    ways = list(outs)
    a = outs[ways[0]]
    for w in ways[1:]:
        b = outs[w]
        for x, y in zip(a, b):
            c.check(util.same(x, y), "%s: settings given as '%s' and as '%s' give different results (%s vs %s, by %g)" % (what, ways[0], w, x.shape, y.shape, util.spread(x, y)), first=a[0], second=b[0])
        c.count("equal: " + w)
    c.ev(len(ways))


def plain(c):
    from PyEMD import EMD
    r = c.rng
    kind, S = gen.signal(r, hi=250)
    cfg = {k: v for k, v in gen.config(r).items() if r.random() < .8}
    T = gen.taxis(r, len(S)) if r.random() < .3 else None
    m = gen.max_imf(r)
    c.note(cls="EMD", S=S, cfg=cfg, T=T, max_imf=m)
    outs = {"constructor": run(EMD(**typed(r, cfg)), S, T, m)}
    e = EMD()
    sets(e, typed(r, cfg))
    outs["attributes"] = run(e, S, T, m)
    a, b = halves(r, cfg)
    e = EMD(**a)
    sets(e, b)
    outs["constructor and attributes"] = run(e, S, T, m)
    full = dict(EMD_DEF, **cfg)
    outs["with all defaults spelled out"] = run(EMD(**typed(r, full)), S, T, m)
    e = EMD(**other(r, cfg, {}))
    keep = bool(r.random() < .5)  # the same signal object before and after the settings changed
    if r.random() < .7:
        e(S if keep else gen.signal(r, hi=80)[1], T if keep else None, m if keep else 2)
    sets(e, full)
    outs["attributes after a run with other settings"] = run(e, S, T, m, copy=not keep)
    compare(c, outs, "EMD")
    c.sig("EMD", tuple(sorted(cfg)), util.stop_of(cfg), cfg.get("spline_kind"), len(outs["constructor"][0]))
    c.sample(cls="EMD", kind=kind, N=len(S), cfg=cfg, ways=list(outs))


def ensemble(c, which):
    from PyEMD import CEEMDAN, EEMD, EMD
    r = c.rng
    cls = EEMD if which == "EEMD" else CEEMDAN
    alldef = r.random() < .04  # including the default of 100 trials
    kind, S = gen.signal(r, lo=8, hi=40 if alldef else 100, kinds=gen.SMOOTH)
    cfg = {k: v for k, v in gen.config(r).items() if r.random() < .8}
    own = dict(trials=int(r.integers(1, 5)), noise_kind=str(r.choice(["normal", "uniform"])))
    if which == "EEMD":
        own.update(noise_width=float(r.choice([.05, .1, .5])), separate_trends=bool(r.random() < .5))
        default = EE_DEF
    else:
        own.update(epsilon=float(r.choice([.005, .05, .3])), noise_scale=float(r.choice([.5, 1., 3.])), beta_progress=bool(r.random() < .5))
        default = CE_DEF
        for k in ("range_thr", "total_power_thr"):  # one name for two settings: the ensemble's and the trial decomposer's
            cfg.pop(k, None)
    own = {k: v for k, v in own.items() if k == "trials" or r.random() < .7}
    if alldef:
        own.pop("trials")
    T = gen.taxis(r, len(S)) if r.random() < .25 else None
    m, seed = gen.max_imf(r), int(r.integers(0, 1 << 31))
    c.note(cls=which, S=S, emd=cfg, own=own, T=T, max_imf=m, seed=seed)
    outs = {"constructor": run(cls(parallel=False, **typed(r, own), **typed(r, cfg)), S, T, m, seed)}
    outs["external decomposer"] = run(cls(parallel=False, ext_EMD=EMD(**cfg), **own), S, T, m, seed)
    e = cls(parallel=False)
    sets(e, own)
    sets(e.EMD, cfg)
    outs["attributes"] = run(e, S, T, m, seed)
    full = dict(default, **own)
    d = {k: v for k, v in full.items() if not k.endswith("_thr")}  # (see above)
    outs["with all defaults spelled out"] = run(cls(parallel=False, **d, **dict({k: v for k, v in EMD_DEF.items() if which == "EEMD" or k not in CE_DEF}, **cfg)), S, T, m, seed)
    e = cls(parallel=False, trials=2, **{k: v for k, v in other(r, cfg, {}).items() if not k.endswith("_thr")})
    e.noise_seed(seed ^ 5)
    keep = bool(r.random() < .5)  # the same signal object before and after the settings changed
    e(S if keep else gen.signal(r, lo=8, hi=50, kinds=gen.SMOOTH)[1], T if keep else None, m if keep else 2)
    sets(e, full)
    sets(e.EMD, dict(EMD_DEF, **cfg))
    outs["attributes after a run with other settings"] = run(e, S, T, m, seed, copy=not keep)
    if which == "CEEMDAN":
        outs["seed at construction"] = run(cls(parallel=False, seed=seed, **own, **cfg), S, T, m)
        thr = dict(range_thr=float(r.choice([.01, .1, .5])), total_power_thr=float(r.choice([.05, 1., 5.])))
        a = run(cls(parallel=False, ext_EMD=EMD(**cfg), **own, **thr), S, T, m, seed)
        e = cls(parallel=False, ext_EMD=EMD(**cfg), **own)
        sets(e, thr)
        compare(c, {"thresholds in the constructor": a, "thresholds as attributes": run(e, S, T, m, seed)}, which)
    if r.random() < .15:
        e = cls(parallel=True, processes=int(r.integers(1, 4)), **own, **cfg)
        par = run(e, S, T, m, seed)
        ser = outs["constructor"]
        if not all(x.shape == y.shape and np.allclose(x, y, rtol=0, atol=1e-9 * util.ampl(S)) for x, y in zip(par, ser)):
            if which == "EEMD" or util.ce_settled(c, S, cfg, own.get("trials", 100), seed, own.get("epsilon", .005), m, own.get("noise_kind", "normal")):
                c.fail("%s: worker processes do not use the settings given (rows %d vs %d)" % (which, len(par[0]), len(ser[0])), parallel=par[0], serial=ser[0])
        c.count("compared with worker processes")
    compare(c, outs, which)
    c.sig(which, tuple(sorted(cfg)), tuple(sorted(own)), util.stop_of(cfg), len(outs["constructor"][0]))


def image(c):
    from PyEMD.EMD2d import EMD2D
    r = c.rng
    I = r.normal(size=(int(r.integers(8, 20)), int(r.integers(8, 20))))
    cfg = {k: v for k, v in dict(mse_thr=float(r.choice([.001, .01, .1])), mean_thr=float(r.choice([.001, .01, .1])), FIXE=int(r.integers(0, 4)), FIXE_H=int(r.integers(0, 3)), MAX_ITERATION=int(r.integers(2, 12))).items() if r.random() < .6}
    c.note(cls="EMD2D", image=I, cfg=cfg)
    go = lambda e: [e(I, 2)]
    e = EMD2D()
    sets(e, cfg)
    full = dict(dict(mse_thr=.01, mean_thr=.01, FIXE=0, FIXE_H=0, MAX_ITERATION=1000), **cfg)
    outs = {"constructor": go(EMD2D(**typed(r, cfg))), "attributes": go(e), "with all defaults spelled out": go(EMD2D(**full))}
    e = EMD2D(FIXE=2, mean_thr=.5)
    e(I[:8, :8], 1)
    sets(e, full)
    outs["attributes after a run with other settings"] = go(e)
    compare(c, outs, "EMD2D")
    c.sig("EMD2D", tuple(sorted(cfg)), len(outs["constructor"][0]))


def reject(c):
    from PyEMD import CEEMDAN, EEMD, EMD
    r = c.rng
    S = r.normal(size=int(r.integers(10, 60)))
    bad = str(r.choice(["bogus", "", "Simples", "cubics", "kubic", "none", "parabola", "gauss", "normal ", "nearest"]))
    k = str(r.choice(["extrema_detection", "spline_kind", "noise_kind"]))
    late = bool(r.random() < .5)
    cls = [EMD, EEMD, CEEMDAN][int(r.integers(0, 3))]
    if k == "noise_kind" and cls is EMD:
        cls = EEMD
    par = {} if cls is EMD else dict(parallel=False, trials=2)
    c.note(cls=cls.__name__, setting=k, value=bad, late=late, S=S)

    def go():
        if late:
            e = cls(**par)
            setattr(e if cls is EMD or k == "noise_kind" else e.EMD, k, bad)
        else:
            e = cls(**par, **{k: bad})
        return e(S)
    c.raises((ValueError, AssertionError), go, "%s accepts %s=%r and returns a result" % (cls.__name__, k, bad))
    c.ev()
    c.count("unsupported settings rejected")
    c.sig("reject", cls.__name__, k, bad, late)


def case(c):
    x = c.rng.random()
    if x < .45:
        plain(c)
    elif x < .62:
        ensemble(c, "EEMD")
    elif x < .76:
        ensemble(c, "CEEMDAN")
    elif x < .82:
        image(c)
    else:
        reject(c)
