import io, os, shutil, sys, tempfile
import numpy as np
from vm import gen, stubs, util
RULE = ("one case = one (signal, settings, seed) run by CEEMDAN serially, reseeded, seeded at construction, with workers and injected delays that permute completion order (order read from the call log), with progress; all "
        "results compared; distinct noise checked over trials, seeds and consecutive runs; distinct non-trivial = distinct (trials, workers, completion order permutation, variant)")
CASES = {"quick": 110, "thorough": 3000}


def case(c):
    from PyEMD import CEEMDAN
    r = c.rng
    trials = int(r.choice([1, 2, 3, 4, 6, 9]))
    N = int(r.integers(16, 70))
    if c.idx % 20 == 5:
        trials, N = int(r.choice([20, 40, 50])), int(r.integers(12, 24))
    kind, S = gen.signal(r, n=N, kinds=gen.SMOOTH, scaled=False)
    seed = int(r.integers(0, 1 << 32)) if r.random() < .8 else int(r.choice([0, 0, 1, 2 ** 32 - 1]))
    nk = str(r.choice(["normal", "uniform"]))
    m = int(r.choice([-1, 2, 3]))
    eps = float(r.choice([.05, .2]))
    cfg = gen.config(r, stops=["FIXE", "default"], thresholds=False)
    c.note(S=S, trials=trials, seed=seed, kind=nk, max_imf=m, cfg=cfg, epsilon=eps)
    tmp = tempfile.mkdtemp(prefix="vm18.")
    logs = []

    def mk(par, procs=None, delay=0., **kw):
        log = os.path.join(tmp, "log%d" % len(logs))
        logs.append(log)
        return CEEMDAN(trials=trials, noise_kind=nk, parallel=par, processes=procs, epsilon=eps, ext_EMD=stubs.Real(cfg, delay=delay, log=log), **kw), log

    def run(e, sd, progress=False):
        if sd is not None:
            e.noise_seed(sd)
        old = sys.stderr
        if progress:
            sys.stderr = io.StringIO()
        try:
            o = e(S, None, m, progress=progress) if progress else e(S, None, m)
        finally:
            sys.stderr = old
        c.ev()
        return o.copy()

    settle = lambda: util.ce_settled(c, S, cfg, trials, seed, eps, m, nk)

    try:
        a, la = mk(False)
        base = run(a, seed)
        ref_ = stubs.read_log(la)

        def same(x, what):
            c.check((x.shape == base.shape and util.spread(x, base) <= 1e-8 * util.ampl(S)) or not settle(), what + ": different result for the same seed", got=x, base=base)
            c.sig(trials, what)
            c.count("equal runs")

        def differ(x, what):
            c.check(x.shape != base.shape or util.spread(x, base) > 1e-9 * float(np.ptp(S)), what + ": same result")
            c.count("different runs")

        # every trial's noise is a different one: the noise decompositions are the calls without limit
        W = [x[3] for x in ref_ if x[5] == -1 and len(x[3]) == N]
        if len(W) == trials:
            c.check(len({w.tobytes() for w in W}) == trials, "two trials use the same noise")
            Z = np.array(W) - np.mean(W, axis=1, keepdims=True)
            Z /= np.linalg.norm(Z, axis=1, keepdims=True)
            C = np.abs(Z @ Z.T) - np.eye(trials)
            c.check(float(C.max()) < .97, "noise of two trials is proportional")
            c.count("trial noises compared", trials)
        F = [x[3] for x in ref_ if x[5] == 1 and len(x[3]) == N][:trials]
        if len(F) == trials:
            c.check(len({w.tobytes() for w in F}) == trials, "two trials decompose the same noisy signal")
            c.count("noisy signals of the first stage compared", trials)
        if np.ptp(S) > 0:
            differ(run(a, None), "second run without reseeding")
            differ(run(mk(False)[0], seed ^ 0x3333), "other seed")
            s2 = seed ^ (1 << int(r.integers(0, 32)))
            differ(run(mk(False, seed=s2)[0], None) if r.random() < .5 else run(mk(False)[0], s2), "other seed")
            differ(run(mk(False)[0], None), "unseeded instance")
        same(run(a, seed), "reseeded instance")
        same(run(mk(False, seed=seed)[0], None), "seed at construction")
        same(run(mk(False)[0], seed, True), "progress")
        p = int(r.choice([1, 2, 3, 4, 8]))
        b, lb = mk(True, p, float(r.choice([.002, .01])))
        same(run(b, seed), "%d workers" % p)
        ev = [x for x in stubs.read_log(lb) if x[5] == 1][:trials]
        first = [stubs.digest(x[3]) for x in ref_ if x[5] == 1][:trials]
        if len(ev) == trials:
            perm = tuple(first.index(stubs.digest(x[3])) for x in sorted(ev, key=lambda x: x[2]) if stubs.digest(x[3]) in first)
            c.sig("order", p, perm)
            c.count("runs with permuted completion order", int(list(perm) != sorted(perm)))
        same(run(b, seed, True), "%d workers with progress" % p)
        if r.random() < .3:
            same(run(mk(True, int(r.choice([2, 5])), 0., seed=seed)[0], None), "workers, seed at construction")
        c.sample(trials=trials, workers=p, seed=seed, rows=len(base), N=N)
    finally:
        shutil.rmtree(tmp)
