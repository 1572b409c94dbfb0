import os, shutil, tempfile
import numpy as np
from vm import gen, stubs, util
RULE = ("one case = ensemble runs whose trial inputs are logged by the instrumented decomposer; noise = logged input - signal is judged for pairwise distinctness and independence (within and across calls, workers and "
        "instances), mean, width, distribution and whiteness, and the logged time axis and limit; distinct non-trivial = distinct (kind, width, dtype, workers, trials)")
CASES = {"quick": 1300, "thorough": 25000}
DT = ["float64", "float64", "float32", "float16", "int8", "uint8", "int16", "uint16", "int32"]


def ks(u):
    """Kolmogorov-Smirnov distance of u from uniform(0,1), times sqrt(n)"""
    u = np.sort(u)
    n = len(u)
    i = np.arange(n)
    return float(max(np.max((i + 1) / n - u), np.max(u - i / n))) * np.sqrt(n)


def erf(x):
    from scipy.special import erf as f
    return f(x)


def independent(c, X, what):
    """rows pairwise distinct and uncorrelated"""
    M, N = X.shape
    c.check(len({x.tobytes() for x in X}) == M, what + "two trials share the same noise")
    Z = X - X.mean(axis=1, keepdims=True)
    nrm = np.linalg.norm(Z, axis=1)
    if M > 1 and N >= 60 and nrm.min() > 0:
        C = (Z / nrm[:, None]) @ (Z / nrm[:, None]).T
        np.fill_diagonal(C, 0)
        k = float(np.max(np.abs(C))) * np.sqrt(N)
        c.maxi("largest |correlation|*sqrt(N) between two trials", k)
        c.check(k < min(8.0, .9 * np.sqrt(N)), what + "noise of two trials is correlated (%.1f sigma)" % k)
        for lag in (1, 2):  # shifted copies
            C = (Z[:, lag:] @ Z[:, :-lag].T) / np.outer(nrm, nrm)
            k = float(np.max(np.abs(C))) * np.sqrt(N)
            c.check(k < min(8.0, .9 * np.sqrt(N)), what + "noise of a trial is correlated with (shifted) noise of a trial (%.1f sigma, lag %d)" % (k, lag))


def case(c):
    from PyEMD import EEMD
    r = c.rng
    if c.idx % 12 == 11:
        return zero(c)
    if c.idx % 12 == 10:
        return kinds(c)
    par = r.random() < .4
    procs = int(r.choice([1, 2, 3, 4, 8])) if par else None
    trials = int(r.choice([1, 2, 5, 8, 16, 20]))
    N = int(r.choice([64, 200, 500, 1500, 3000]))
    if c.idx % 25 == 3:  # large ensembles
        trials, N = int(r.choice([70, 140, 300, 600])), int(r.choice([24, 64]))
    nk = str(r.choice(["normal", "uniform"]))
    w = float(r.choice([.01, .05, .05, .2, 1., 3.]))
    kind, S = gen.signal(r, n=N, kinds=gen.OSC, scaled=False)
    dt = str(r.choice(DT))
    s = S / max(np.abs(S).max(), 1e-300)
    if dt.startswith("float"):
        S = (s * float(r.choice([.1, 1, 50]))).astype(dt)
    else:
        ii = np.iinfo(dt)
        h = min(ii.max, 30000) if ii.min else min(ii.max, 60000)
        S = np.clip(np.round(s * h if ii.min else (s + 1) / 2 * h), max(ii.min, -h), h).astype(dt)
    D = S.astype(np.float64)
    width = w * float(D.max() - D.min())
    if width == 0:
        return
    m = gen.max_imf(r)
    T = gen.taxis(r, N) if r.random() < .4 else None
    seeded = r.random() < .6
    c.note(S=S, dtype=dt, noise_kind=nk, noise_width=w, trials=trials, processes=procs, T=T, max_imf=m, seeded=seeded)
    tmp = tempfile.mkdtemp(prefix="vm14.")
    try:
        noise = []
        insts = []
        for k in range(int(r.choice([1, 2, 2, 3]))):
            log = os.path.join(tmp, "log%d" % k)
            if not insts or r.random() < .4:
                stub = stubs.Synthetic(log=log, delay=.002 if par else 0)
                e = EEMD(trials=trials, noise_width=w, noise_kind=nk, parallel=par, processes=procs, ext_EMD=stub)
                if seeded:
                    e.noise_seed(int(r.integers(0, 1 << 31)))
                insts.append(e)
            else:
                e = insts[-1]
                stub.log = log
            c.ev()
            e(S, T, m)
            ev = stubs.read_log(log)
            c.check(len(ev) > 0, "trial decomposer was never called")
            for (_, _, _, x, t, mm, xd) in ev:
                c.check(mm == m, "trial got component limit %r instead of %r" % (mm, m))
                if T is None:
                    c.check(t is None or np.array_equal(np.asarray(t, float), np.arange(N)), "trial got a time axis that is not the sample numbers", t=t)
                else:
                    c.check(t is not None and np.array_equal(t, T), "trial got another time axis", t=t)
                noise.append(x - D)
            c.count("trial inputs logged", len(ev))
    finally:
        shutil.rmtree(tmp)
    X = np.array(noise)
    c.check(X.shape[1] == N and bool(np.all(np.isfinite(X))), "trial input has another length or is not finite")
    c.check(bool(np.all(X.std(axis=1) > 0)), "a trial got no noise")
    independent(c, X, "")
    eps = 4 * np.finfo(float).eps * np.abs(D).max()
    n = X.size
    std = width if nk == "normal" else width / np.sqrt(12)
    z = float(np.mean(X)) / (std / np.sqrt(n))
    c.maxi("largest |mean| in sigma", abs(z))
    c.check(abs(z) < 6.5, "noise mean is %g sigma off zero" % z)
    rel = float(np.std(X)) / std - 1
    srel = np.sqrt((2 if nk == "normal" else .8) / (4. * n)) * 6.5
    c.maxi("largest relative width error in units of its 6.5 sigma bound", abs(rel) / srel)
    c.check(abs(rel) < srel + 1e-3, "noise width is off by %+.1f%% (bound %.1f%%)" % (100 * rel, 100 * srel))
    if nk == "uniform":
        c.check(float(np.abs(X).max()) <= width / 2 * (1 + 1e-9) + eps, "uniform noise leaves its interval: %g > %g" % (np.abs(X).max(), width / 2))
        u = X.ravel() / width + .5
    else:
        u = .5 * (1 + erf(X.ravel() / (width * np.sqrt(2))))
    d = ks(u)
    c.maxi("largest Kolmogorov-Smirnov statistic", d)
    c.check(d < 3.6, "noise is not %s (KS statistic %.2f)" % (nk, d))
    for lag in (1, 2, 3):
        a = float(np.mean(X[:, lag:] * X[:, :-lag])) / std ** 2 * np.sqrt(X[:, lag:].size)
        c.check(abs(a) < 7, "noise is not white: lag %d autocorrelation at %.1f sigma" % (lag, a))
    c.sig(nk, w, dt, procs, trials)
    c.sample(noise_kind=nk, width=w, dtype=dt, trials=len(X), N=N, rel_width_error=rel, ks=d)


def zero(c):
    from PyEMD import EEMD, EMD
    r = c.rng
    kind, S = gen.signal(r, n=int(r.integers(20, 90)), kinds=gen.OSC, scaled=False)
    cfg = gen.config(r)
    m = gen.max_imf(r)
    trials = int(r.integers(1, 5))
    c.note(S=S, cfg=cfg, max_imf=m, trials=trials, zero_width=True)
    e = EEMD(trials=trials, noise_width=0, parallel=False, noise_kind=str(r.choice(["normal", "uniform"])), **cfg)
    T = gen.taxis(r, len(S)) if r.random() < .5 else None
    c.ev()
    p = EMD(**cfg).emd(S, T, max_imf=m)
    if not len(p):
        return
    out = e(S, T, m)
    c.check(out.shape == p.shape and util.spread(out, p) <= 1e-12 * util.ampl(S), "zero noise does not give the plain decomposition", out=out, plain=p)
    c.check(all(n == trials for n in e.ensemble_count()), "zero noise: trials differ in their component counts")
    c.count("zero width runs")
    c.sig("zero", kind, trials, len(p))


def kinds(c):
    from PyEMD import EEMD
    r = c.rng
    bad = str(r.choice(["gauss", "NORMAL", "", "white", "uniforn"]))
    par = bool(r.random() < .3)
    before = set(stubs.children())
    e = EEMD(trials=2, noise_kind=bad, parallel=par, processes=2)
    c.note(noise_kind=bad, parallel=par)
    c.ev()
    c.raises(Exception, lambda: e(r.normal(size=40)), "unknown noise kind %r accepted" % bad)
    c.raises(Exception, lambda: e.generate_noise(1., 10), "unknown noise kind %r accepted by generate_noise" % bad)
    c.check(not stubs.leaked(before), "worker processes left behind")
    c.count("unknown kinds rejected")
    # public generator: size, shape
    for nk in ("normal", "uniform"):
        g = EEMD(trials=1, noise_kind=nk, parallel=False)
        g.noise_seed(int(r.integers(0, 1 << 31)))
        for size in (int(r.integers(1, 50)), (3, 7)):
            x = g.generate_noise(2., size)
            c.check(np.shape(x) == (size if isinstance(size, tuple) else (size,)), "generate_noise gives shape %s for %s" % (np.shape(x), size))
    c.sig("kinds", bad, par)
