import os, shutil, tempfile
import numpy as np
from vm import gen, stubs, util
RULE = ("one case = one ensemble run with an instrumented trial decomposer that logs every call from every process; the offline checker accounts for every logged trial exactly once in the per-order collections, "
        "counts, means, deviations, residue and result; distinct non-trivial = distinct (decomposer, workers, trials, separated trends, counts per order)")
CASES = {"quick": 1300, "thorough": 25000}


def msort(X):
    X = np.asarray(X)
    return X[np.lexsort(X.T[::-1])] if len(X) else X


def case(c):
    from PyEMD import EEMD
    r = c.rng
    par = r.random() < .5
    trials = int(r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 23, 31, 33]))
    procs = int(r.choice([1, 2, 3, 5, 8])) if par else None
    which = str(r.choice(["synthetic", "synthetic", "sparse", "real"]))
    sep = bool(r.random() < .45)
    N = int(r.integers(5, 60)) if which != "real" else int(r.integers(20, 70))
    if c.idx % 40 == 5:
        trials = int(r.choice([70, 150, 300]))
    if which == "real":
        trials = min(trials, 12)
    if which == "sparse" and sep is False and trials < 3:
        trials = 5
    kind, S = gen.signal(r, n=N, kinds=gen.SMOOTH + ["quant"], scaled=False)
    m = int(r.choice([-1, -1, 1, 2, 3]))
    cfg = gen.config(r, thresholds=False) if which == "real" else {}
    tmp = tempfile.mkdtemp(prefix="vm13.")
    c.note(S=S, trials=trials, processes=procs, decomposer=which, separate=sep, max_imf=m, cfg=cfg)
    try:
        log = os.path.join(tmp, "log")
        delay = float(r.choice([0, 0, .004])) if par else 0.
        d = dict(synthetic=stubs.Synthetic, sparse=stubs.Sparse, real=lambda **k: stubs.Real(cfg, **k))[which](log=log, delay=delay)
        e = EEMD(trials=trials, ext_EMD=d, parallel=par, processes=procs, separate_trends=sep, noise_width=float(r.choice([.05, .2, 1.])), noise_kind=str(r.choice(["normal", "uniform"])))
        e.noise_seed(int(r.integers(0, 1 << 31)))
        runs = int(r.choice([1, 1, 2]))
        for k in range(runs):
            if os.path.exists(log):
                os.remove(log)
            c.ev()
            out = e(S, None, m)
            ev = stubs.read_log(log)
            judge(c, e, d, S, out, ev, trials, which, sep, m, cfg, procs)
    finally:
        shutil.rmtree(tmp)


def judge(c, e, d, S, out, ev, trials, which, sep, m, cfg, procs):
    N = len(S)
    c.check(len(ev) == trials, "%d trials were decomposed, %d configured" % (len(ev), trials))
    c.count("trials logged", len(ev))
    pids = len({x[0] for x in ev})
    c.maxi("largest number of worker processes seen in one run", pids)
    xs = [x[3] for x in ev]
    # what each trial must have produced
    prod = []
    for x in xs:
        if which == "real":
            f = stubs.Real(cfg)
            o = f.compute(x, None, m)
            prod.append(f.get_imfs_and_trend() if sep else (o, None))
        else:
            prod.append((type(d).rows(x, m), type(d).trend(x, m) if sep else None))
    K = max(len(p[0]) for p in prod)
    exp = [[p[0][o] for p in prod if len(p[0]) > o] for o in range(K)]
    if sep:
        exp.append([p[1] for p in prod])
    if not exp:
        c.count("no trial produced a component")
        return
    al = e.all_imfs
    c.check(sorted(al) == list(range(len(exp))), "orders listed %s, expected %d" % (sorted(al), len(exp)))
    c.check(out.shape == (len(exp), N), "result has shape %s, expected %s" % (out.shape, (len(exp), N)))
    cnt, mean, std = e.ensemble_count(), e.ensemble_mean(), e.ensemble_std()
    c.check([int(x) for x in cnt] == [len(x) for x in exp], "counts per order are %s, trials produced %s" % (list(cnt), [len(x) for x in exp]))
    scale = max(np.abs(np.array(x)).max() for x in exp) + 1e-300
    for o, x in enumerate(exp):
        x = np.array(x)
        got = np.asarray(al[o])
        c.check(got.shape == x.shape and bool(np.max(np.abs(msort(got) - msort(x))) <= 1e-12 * scale), "order %d: collection is not the set of that order's components" % o, got=got, expected=x)
        c.check(bool(np.max(np.abs(out[o] - x.mean(axis=0))) <= 1e-11 * scale), "order %d: result is not the mean over the trials that have it" % o, got=out[o], expected=x.mean(axis=0))
        c.check(bool(np.max(np.abs(mean[o] - x.mean(axis=0))) <= 1e-11 * scale), "order %d: ensemble_mean is not the mean" % o)
        c.check(bool(np.max(np.abs(std[o] - x.std(axis=0))) <= 1e-9 * scale), "order %d: ensemble_std is not the standard deviation" % o)
    im, res = e.get_imfs_and_residue()
    c.check(np.array_equal(im, out), "accessor does not give the returned components")
    c.check(bool(np.max(np.abs(res - (S - np.sum(out, axis=0)))) <= 1e-11 * scale), "residue is not the signal minus all components", residue=res)
    c.sig(which, procs, trials, sep, tuple(cnt) if len(cnt) < 8 else len(cnt))
    c.sample(decomposer=which, processes=procs, trials=trials, pids=pids, separate=sep, counts=[int(x) for x in cnt])
