import numpy as np
from vm import gen, stubs, util
RULE = ("one case = one (signal, settings, seed) executed serially, again on the same instance, on fresh instances, with 1..8 workers, progress display and injected per-trial delays; all results are compared, and runs with "
        "another seed or without reseeding must differ; distinct non-trivial = distinct (decomposer, trials, worker count, variant)")
CASES = {"quick": 220, "thorough": 4000}


def case(c):
    from PyEMD import EEMD
    import sys, io
    r = c.rng
    which = str(r.choice(["synthetic", "real", "default"]))
    trials = int(r.choice([1, 2, 3, 5, 8, 11, 17, 24, 40]))
    N = int(r.integers(16, 90))
    kind, S = gen.signal(r, n=N, kinds=gen.SMOOTH, scaled=False)
    seed = int(r.integers(0, 1 << 32)) if r.random() < .8 else int(r.choice([0, 1, 2 ** 32 - 1]))
    nk = str(r.choice(["normal", "uniform"]))
    sep = bool(r.random() < .3)
    m = int(r.choice([-1, -1, 2]))
    cfg = gen.config(r, thresholds=False) if which == "real" else {}
    c.note(S=S, trials=trials, seed=seed, kind=nk, decomposer=which, separate=sep, max_imf=m, cfg=cfg)

    def mk(par, procs=None, delay=0.):
        kw = {}
        if which == "synthetic":
            kw["ext_EMD"] = stubs.Synthetic(delay=delay)
        elif which == "real":
            kw["ext_EMD"] = stubs.Real(cfg, delay=delay)
        return EEMD(trials=trials, noise_kind=nk, parallel=par, processes=procs, separate_trends=sep, noise_width=.2, **kw)

    def run(e, sd, progress=False):
        if sd is not None:
            e.noise_seed(sd)
        if progress:
            old, sys.stderr = sys.stderr, io.StringIO()
        try:
            o = e(S, None, m, progress=progress) if progress else e(S, None, m)
        finally:
            if progress:
                sys.stderr = old
        c.ev()
        return o.copy(), e.get_imfs_and_residue()[1].copy(), {k: np.array(v) for k, v in e.all_imfs.items()}

    tol = 1e-10 * util.ampl(S)
    a = mk(False)
    base = run(a, seed)

    def same(x, what):
        c.check(x[0].shape == base[0].shape and util.spread(x[0], base[0]) <= tol * 20 and util.spread(x[1], base[1]) <= tol * 20 * len(base[0]),
                what + ": different result for the same seed", got=x[0], base=base[0])
        c.check(x[2].keys() == base[2].keys() and all(x[2][k].shape == base[2][k].shape and util.spread(x[2][k], base[2][k]) <= tol * 20 for k in x[2]),
                what + ": the per-trial components are not the same trial by trial for the same seed")
        c.sig(which, trials, what)
        c.count("equal runs")

    def differ(x, what):
        c.check(x[0].shape != base[0].shape or util.spread(x[0], base[0]) > 1e-6 * float(np.ptp(S)), what + ": same result")
        c.count("different runs")

    if np.ptp(S) > 0:
        differ(run(a, None), "second run without reseeding")
        differ(run(mk(False), seed ^ 0x55), "other seed")
        differ(run(mk(False), seed ^ (1 << int(r.integers(0, 32)))), "other seed")
        differ(run(mk(False), None), "unseeded instance")
    same(run(a, seed), "reseeded instance")
    same(run(mk(False), seed, True), "serial with progress")
    p1 = int(r.choice([1, 2, 3, 4, 8]))
    b = mk(True, p1, .003)
    same(run(b, seed), "%d workers" % p1)
    differ(run(b, None), "second parallel run without reseeding") if np.ptp(S) > 0 else None
    same(run(b, seed, True), "%d workers with progress" % p1)
    if r.random() < .3:
        same(run(mk(True, None), seed), "default workers")
    # the position in the stream matters, not the history of the instance: same sequence of calls from the same seed
    x, y = mk(False), mk(True, 2)
    x.noise_seed(seed), y.noise_seed(seed)
    for k in range(2):
        o1, o2 = run(x, None), run(y, None)
        c.check(o1[0].shape == o2[0].shape and util.spread(o1[0], o2[0]) <= tol * 20, "run %d after seeding differs between serial and parallel" % (k + 1), serial=o1[0], parallel=o2[0])
    c.sample(decomposer=which, trials=trials, workers=p1, seed=seed, rows=len(base[0]))
