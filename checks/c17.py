import numpy as np
from vm import cmodel, gen, util
RULE = ("one case = one CEEMDAN run compared, component by component, with the executable model driven by the same noise (taken from a twin instance with the same seed); rounding-decided cases (model replays with injected rounding "
        "disagree) are counted, not judged; distinct non-trivial = distinct (signal kind, trials, strength, scaling, limit, detection, rows)")
CASES = {"quick": 900, "thorough": 18000}


def case(c):
    from PyEMD import CEEMDAN, EMD
    r = c.rng
    N = int(r.integers(10, 90)) if r.random() < .8 else int(r.integers(90, 220))
    kind, S = gen.signal(r, n=N, kinds=gen.OSC)
    trials = int(r.choice([1, 2, 3, 4, 6]))
    kw = dict(epsilon=float(r.choice([.005, .05, .2, .6])), noise_kind=str(r.choice(["normal", "uniform"])), beta_progress=bool(r.random() < .6), noise_scale=float(r.choice([1., 1., .3, 4.])))
    thr = dict(range_thr=float(r.choice([.01, .01, .1, .5, 2.])), total_power_thr=float(r.choice([.05, .05, 1., 10.])))
    cfg = gen.config(r, thresholds=False)
    m = int(r.choice([-1, -1, -1, 0, 1, 2, 3, 5]))
    T = gen.taxis(r, N) if r.random() < .35 else None
    seed = int(r.integers(0, 1 << 31))
    par = r.random() < .05
    c.note(kind=kind, S=S, trials=trials, kw=kw, thr=thr, cfg=cfg, max_imf=m, T=T, seed=seed, parallel=par)
    e = CEEMDAN(trials=trials, parallel=par, **({"processes": 2} if par else {}), ext_EMD=EMD(**cfg), **kw, **thr)
    e.noise_seed(seed)
    tw = CEEMDAN(trials=trials, parallel=False, **kw)
    tw.noise_seed(seed)
    noises = np.asarray(tw.generate_noise(kw["noise_scale"], (trials, N)))
    c.ev()
    out = e(S, T, m)
    run = lambda j: cmodel.ceemdan(S, EMD(**cfg), noises if j is None else noises * (1 + 1e-14 * j.normal(size=noises.shape)), kw["epsilon"], T, m, kw["beta_progress"], jitter=j, **thr)
    try:
        want, margin = run(None)
    except cmodel.Degenerate:
        c.count("degenerate local mean, not judged")
        return
    sc = util.ampl(S - np.mean(S)) + 1e-9 * util.ampl(S)
    if want.shape != out.shape or util.spread(want, out) > 1e-8 * sc:
        dis = 0.
        try:
            for k in range(6):
                w2, _ = run(np.random.default_rng(k))
                dis = max(dis, util.spread(w2, want) / sc)
        except cmodel.Degenerate:
            dis = np.inf
        if dis > 1e-7 or margin < 1e-9 or (np.isfinite(util.spread(want, out)) and util.spread(want, out) <= 1e3 * dis * sc):
            c.count("ambiguous (decided by rounding)")
            return
        k = min(len(want), len(out))
        row = next((i for i in range(k) if np.max(np.abs(want[i] - out[i])) > 1e-8 * sc), k)
        c.fail("component %d differs from the algorithm (%d rows, model %d; replays agree to %g)" % (row, len(out), len(want), dis), out=out, want=want)
    c.count("rows equal to the model", len(out))
    c.sig(kind, trials, kw["epsilon"], kw["beta_progress"], m, cfg["extrema_detection"], len(out))
    c.sample(kind=kind, N=N, trials=trials, kw=kw, max_imf=m, rows=len(out), difference=util.spread(want, out))
