import os, shutil, tempfile
import numpy as np
from vm import gen, stubs, util
RULE = ("one case = one ensemble configuration (EEMD/CEEMDAN, serial/parallel); the decomposer call log of a clean run enumerates the calls, then a fault is injected at every one of them (parallel: a sample of them), one run each; judged: the error "
        "surfaces, no worker survives, the next seeded run on the same instance equals a fresh instance's; distinct non-trivial = distinct (class, workers, trials, stage, fault position)")
CASES = {"quick": 90, "thorough": 2500}
EXHAUSTIVE = "serial cases: every decomposer call of the run is made to fail once"


def stage(k, trials):
    return "noise" if k <= trials else "first" if k <= 2 * trials else "later"


def snapshot(e, which):
    im, res = e.get_imfs_and_residue()
    out = [np.array(im), np.array(res)]
    if which == "EEMD":
        out += [np.array([int(x) for x in e.ensemble_count()]), np.array(e.ensemble_mean()), np.array(e.ensemble_std())]
    return out


def equal(a, b, tol):
    return len(a) == len(b) and all(x.shape == y.shape and util.spread(x, y) <= tol for x, y in zip(a, b))


def case(c):
    from PyEMD import CEEMDAN, EEMD
    r = c.rng
    which = str(r.choice(["EEMD", "CEEMDAN"]))
    par = r.random() < .4
    procs = int(r.choice([1, 2, 3, 4])) if par else None
    trials = int(r.choice([1, 2, 3, 4, 5, 7])) if not par else int(r.choice([1, 2, 4, 5, 9]))
    N = int(r.integers(20, 60))
    kind, S = gen.signal(r, n=N, kinds=gen.SMOOTH, scaled=False)
    S2 = gen.signal(r, n=int(r.integers(20, 60)), kinds=gen.SMOOTH, scaled=False)[1]
    sep = bool(which == "EEMD" and r.random() < .4)
    synth = bool(which == "EEMD" and r.random() < .5)
    seed = int(r.integers(0, 1 << 31))
    m = int(r.choice([-1, 2]))
    cfg = gen.config(r, stops=["FIXE", "default"], thresholds=False)
    prog = bool(r.random() < .15)
    c.note(cls=which, S=S, S2=S2, trials=trials, processes=procs, separate=sep, seed=seed, max_imf=m, cfg=cfg, progress=prog)
    tmp = tempfile.mkdtemp(prefix="vm25.")
    cls = EEMD if which == "EEMD" else CEEMDAN

    def stub(**kw):
        return stubs.Synthetic(**kw) if synth else stubs.Real(cfg, **kw)

    def mk(d):
        kw = dict(separate_trends=sep) if which == "EEMD" else {}
        return cls(trials=trials, ext_EMD=d, parallel=par, processes=procs, noise_kind="normal", **kw)

    def run(e, X, sd):
        e.noise_seed(sd)
        if prog:
            import io, sys
            old, sys.stderr = sys.stderr, io.StringIO()
            try:
                return e(X, None, m, progress=True)
            finally:
                sys.stderr = old
        return e(X, None, m)

    try:
        log = os.path.join(tmp, "log")
        e0 = mk(stub(log=log))
        run(e0, S, seed)
        clean = snapshot(e0, which)
        calls = stubs.read_log(log)
        f2 = mk(stub())
        run(f2, S2, seed + 1)
        clean2 = snapshot(f2, which)
        before = set(stubs.children())
        n = len(calls)
        c.check(n >= trials, "only %d decompositions for %d trials" % (n, trials))
        ks = list(range(1, n + 1))
        if par:
            ks = sorted(set(int(x) for x in r.integers(1, n + 1, 5)) | {1, n})
        elif len(ks) > 40:
            ks = sorted(set(ks[:2 * trials + 2]) | {n} | set(int(x) for x in r.integers(1, n + 1, 15)))
        tol = 1e-9 * util.ampl(S) if par else 0.
        for k in ks:
            d = stub(delay=.002 if par else 0.)
            e = mk(d)
            if r.random() < .5:  # earlier results exist
                run(e, S2, seed + 1)
            mark = os.path.join(tmp, "mark%d" % k)
            d.mark = mark
            d.error = stubs.FAULTS[int(r.integers(len(stubs.FAULTS)))]
            if par and k <= (trials if which == "EEMD" else 2 * trials):
                d.fail = {stubs.digest(calls[k - 1][3])}
            else:  # (later CEEMDAN stages run in the parent)
                d.calls, d.failat = 0, k - (2 * trials if par else 0)
            c.note(fault_at=k, of=n, error=d.error.__name__)
            c.ev()
            err = None
            try:
                res = run(e, S, seed)
            except stubs.Fault:
                pass
            except Exception as x:
                err = x
                ch = x
                ok = False
                while ch is not None:
                    ok |= isinstance(ch, stubs.Fault) or "injected fault" in str(ch)
                    ch = ch.__cause__ or ch.__context__
                c.check(ok, "a failing trial surfaced as an unrelated error %r" % (x,))
            else:
                if not os.path.exists(mark):
                    c.count("fault not reached")
                    continue
                c.fail("call %d of %d failed (%s) but a result was returned" % (k, n, stage(k, trials) if which == "CEEMDAN" else "trial"), result=res)
            err = None
            left = stubs.leaked(before)
            c.check(not left, "%d worker processes still alive after the failed run" % len(left))
            # the instance stays usable and carries nothing over
            d.fail, d.failat = set(), 0
            if r.random() < .5:
                run(e, S2, seed + 1)
                got, want = snapshot(e, which), clean2
            else:
                run(e, S, seed)
                got, want = snapshot(e, which), clean
            ok = equal(got, want, tol * 1e2)
            if not ok and par and which == "CEEMDAN":
                ok = not (util.ce_settled(c, S, cfg, trials, seed, .005, m) and util.ce_settled(c, S2, cfg, trials, seed + 1, .005, m))
            c.check(ok, "run after a failed one differs from a fresh instance's", got=got, want=want)
            left = stubs.leaked(before)
            c.check(not left, "%d worker processes still alive after a run" % len(left))
            c.count("faults injected")
            c.sig("error", which, par, d.error.__name__)
            c.sig(which, procs, trials, stage(k, trials) if which == "CEEMDAN" else "trial", k if k < 12 else 12, sep)
        c.sample(cls=which, processes=procs, trials=trials, calls=n, faults=len(ks))
    finally:
        shutil.rmtree(tmp)
