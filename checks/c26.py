import hashlib, os, random, sys, threading, time
import numpy as np
from vm import gen, util, zygote
RULE = ("one case = several decomposers of mixed classes and settings, either run in threads of their own (a line-level trace hook yields the interpreter at random lines of the package, so threads are interleaved inside calls) or driven by a random "
        "history of create / configure / call steps in one thread; every result is compared bit for bit with the same call made alone in a pristine process; distinct non-trivial = distinct thread-switch sequences or histories")
CASES = {"quick": 700, "thorough": 15000}
BUDGET = {"quick": 300, "thorough": 3000}
TIMEOUT = 120
JIT = ("cubic", "akima", "linear", "quadratic")


def setup(tier):
    from PyEMD.experimental import jitemd
    g = np.random.default_rng(0)
    jitemd.JitEMD()
    for det in ("simple", "parabol"):
        for spl in JIT:
            for n in (6, 50):
                try:
                    jitemd.emd(g.normal(size=n), np.arange(n, dtype=float), -1, spl, det, jitemd.default_emd_config.copy())
                except Exception:
                    pass


def build(which, cfg):
    from PyEMD import CEEMDAN, EEMD, EMD
    from PyEMD.EMD_matlab import EMD as MEMD
    if which == "EMD":
        return EMD(**cfg)
    if which == "EEMD":
        return EEMD(parallel=False, **cfg)
    if which == "CEEMDAN":
        return CEEMDAN(parallel=False, **cfg)
    if which == "Jit":
        from PyEMD.experimental.jitemd import JitEMD
        return JitEMD()
    return MEMD()


def configure(which, e, cfg):
    """settings given after construction"""
    if which == "Jit":
        for k, v in cfg.items():
            if k in ("spline_kind", "extrema_detection"):
                setattr(e, k, v)
            else:
                e.config[k] = float(v)
    elif which == "matlab":
        for k, v in cfg.items():
            setattr(e, k, v)
    else:
        for k, v in cfg.items():
            o = e if which == "EMD" or k in ("trials", "noise_width", "noise_kind", "epsilon", "beta_progress", "separate_trends", "noise_scale") else e.EMD
            setattr(o, k, v)


def invoke(which, e, S, T, m, seed):
    if which == "matlab":
        im, ext, it, no = type(e).emd(e, S, T, m)
        return [np.array([im[k] for k in sorted(im)]), np.array([ext[k] for k in sorted(ext)]), np.array([it[k] for k in sorted(it)]), np.array(no)]
    if which == "Jit":
        return [e.emd(S, np.arange(len(S), dtype=float), m)]
    if seed is not None:
        e.noise_seed(seed)
    out = e(S, T, m)
    im, res = e.get_imfs_and_residue()
    return [out.copy(), im.copy(), np.array(res)]


def alone(which, cfg, late, calls):
    e = build(which, cfg)
    configure(which, e, late)
    return [invoke(which, e, *q) for q in calls]


def random_cfg(r, which):
    if which == "matlab":
        return {str(r.choice(["FIXE", "FIXE_H"])): int(r.integers(1, 6))} if r.random() < .6 else {}
    cfg = gen.config(r, splines=JIT if which == "Jit" else None)
    for k in ("range_thr", "total_power_thr"):
        cfg.pop(k, None)
    for k in list(cfg):
        if r.random() < .3:
            del cfg[k]  # left at its default
    if which == "EEMD":
        cfg.update(trials=int(r.integers(1, 4)), noise_width=float(r.choice([.05, .3])), separate_trends=bool(r.random() < .3))
    if which == "CEEMDAN":
        cfg.update(trials=int(r.integers(1, 3)), epsilon=float(r.choice([.005, .2])), beta_progress=bool(r.random() < .7))
    return cfg


def random_calls(r, which, n, k):
    out = []
    for _ in range(k):
        S = gen.signal(r, n=n if r.random() < .75 else int(r.integers(10, 60)), kinds=gen.OSC, scaled=False)[1]
        T = gen.taxis(r, len(S)) if which != "Jit" and r.random() < .3 else None
        m = int(r.choice([-1, 2, 3])) if which in ("matlab", "CEEMDAN", "EEMD") else gen.max_imf(r)
        out.append((S, T, m, int(r.integers(0, 1 << 31)) if which in ("EEMD", "CEEMDAN") else None))
    return out


def compare(c, what, got, want):
    for i, (a, b) in enumerate(zip(got, want)):
        for k, (x, y) in enumerate(zip(a, b)):
            c.check(np.shape(x) == np.shape(y) and util.spread(x, y) == 0., "%s: call %d, result %d differs from the one obtained alone (by %g)" % (what, i, k, util.spread(x, y)), got=x, want=y)
            c.count("results compared with isolated runs")


def threads(c, r):
    n = int(r.integers(12, 60))
    jobs = []
    for _ in range(int(r.integers(2, 6))):
        which = str(r.choice(["EMD", "EMD", "EMD", "EEMD", "CEEMDAN", "matlab", "Jit"]))
        jobs.append((which, *((random_cfg(r, which), {}) if which not in ("matlab", "Jit") and r.random() < .6 else ({}, random_cfg(r, which))), random_calls(r, which, n, int(r.integers(1, 3)))))
    c.note(mode="threads", jobs=jobs)
    want = zygote.ask(alone, jobs)
    pkg = os.path.dirname(__import__("PyEMD").__file__)
    log = []  # thread index per traced line, run-length compressed
    ident = {}
    salt = int(r.integers(0, 1 << 30))
    prob = float(r.choice([.002, .02, .1]))

    def tracer_for(i):
        rnd = random.Random(salt + i)

        def line(frame, event, arg):
            if not log or log[-1] != i:
                log.append(i)
            if rnd.random() < prob:
                time.sleep(0 if rnd.random() < .5 else 2e-5)
            return line

        def glob(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(pkg) else None
        return glob

    got = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def body(i):
        gate.wait()
        sys.settrace(tracer_for(i))
        try:
            got[i] = ("ok", alone(*jobs[i]))
        except Exception as e:
            got[i] = ("exc", "%s: %s" % (type(e).__name__, e))
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    c.ev(len(jobs))
    c.count("thread switches inside the package", len(log))
    c.count("threads run", len(jobs))
    for i, (g, w) in enumerate(zip(got, want)):
        what = "thread %d of %d (%s)" % (i, len(jobs), jobs[i][0])
        if w[0] != "ok":
            c.count("isolated run failed: " + str(w[1])[:60])
            continue
        c.check(g[0] == "ok", what + " failed: " + str(g[1]))
        compare(c, what, g[1], w[1])
    c.sig("threads", hashlib.md5(repr(log).encode()).hexdigest())
    c.sample(mode="threads", classes=[j[0] for j in jobs], switches=len(log), first_switches=log[:30])


def history(c, r):
    """one thread: instances are created, configured and called in an interleaved order"""
    n = int(r.integers(12, 60))
    jobs, inst, pos, plan = [], [], [], []
    for _ in range(int(r.integers(2, 6))):
        which = str(r.choice(["EMD", "EMD", "EEMD", "CEEMDAN", "matlab", "Jit"]))
        jobs.append((which, *((random_cfg(r, which), {}) if which not in ("matlab", "Jit") and r.random() < .5 else ({}, random_cfg(r, which) if r.random() < .8 else {})), random_calls(r, which, n, int(r.integers(1, 4)))))
    c.note(mode="history", jobs=jobs)
    want = zygote.ask(alone, jobs)
    steps = [i for i, j in enumerate(jobs) for _ in range(2 + len(j[3]))]  # create, configure, calls...
    r.shuffle(steps)
    state = [0] * len(jobs)
    inst = [None] * len(jobs)
    got = [[] for _ in jobs]
    dead = [False] * len(jobs)
    for i in steps:
        which, cfg, late, calls = jobs[i]
        s = state[i]
        state[i] += 1
        if dead[i]:
            continue
        if s == 0:
            inst[i] = build(which, cfg)
        elif s == 1:
            configure(which, inst[i], late)
        else:
            try:
                got[i].append(invoke(which, inst[i], *calls[s - 2]))
                c.ev()
            except Exception as e:
                dead[i] = True
                if want[i][0] == "ok":
                    c.fail("%s: call %d failed (%s: %s) although it works alone" % (which, s - 2, type(e).__name__, e))
    for i, w in enumerate(want):
        if w[0] == "ok":
            compare(c, "instance %d of %d (%s), interleaved" % (i, len(jobs), jobs[i][0]), got[i], w[1])
    c.count("histories")
    c.sig("history", tuple(steps), tuple(j[0] for j in jobs))
    c.sample(mode="history", classes=[j[0] for j in jobs], steps=[int(s) for s in steps])


def case(c):
    zygote.ask(alone, [])
    (threads if c.rng.random() < .6 else history)(c, c.rng)
