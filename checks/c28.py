import copy, json, os, pickle, subprocess, sys, tempfile
import numpy as np
from vm import gen, util
RULE = ("one case = one decomposer (plain, ensemble, MATLAB-compatible, two-dimensional or compiled) with random settings, driven through a random history; at a random point it is deep-copied or pickled and restored (protocols 2-5); the copy's results, its "
        "next runs (noise included) and the original's are compared bit for bit with a twin that was never copied; or one seeded parallel ensemble in a fresh interpreter under one process start method; "
        "distinct non-trivial = distinct (class, way of copying, runs before, runs after, rows)")
CASES = {"quick": 1000, "thorough": 20000}
TIMEOUT = 150
BUDGET = {"quick": 300, "thorough": 3000}
JIT = ("cubic", "akima", "linear", "quadratic")


def setup(tier):
    try:
        from PyEMD.experimental import jitemd
        pickle.loads(pickle.dumps(jitemd.JitEMD()))
        for det in ("simple", "parabol"):
            for spl in JIT:
                jitemd.emd(np.random.default_rng(0).normal(size=40), np.arange(40.), -1, spl, det, jitemd.default_emd_config.copy())
    except Exception:
        pass  # judged by the cases


def build(r, which):
    from PyEMD import CEEMDAN, EEMD, EMD
    if which == "EMD":
        return EMD(**gen.config(r))
    if which in ("EEMD", "CEEMDAN"):
        cfg = gen.config(r, thresholds=False)
        cfg.setdefault("MAX_ITERATION", 30)
        for k in ("range_thr", "total_power_thr"):
            cfg.pop(k, None)
        own = dict(trials=int(r.integers(1, 4)), noise_kind=str(r.choice(["normal", "uniform"])))
        if which == "EEMD":
            return EEMD(parallel=False, noise_width=float(r.choice([.05, .3])), separate_trends=bool(r.random() < .4), **own, **cfg)
        return CEEMDAN(parallel=False, epsilon=float(r.choice([.005, .2])), beta_progress=bool(r.random() < .5), **own, **cfg)
    if which == "matlab":
        from PyEMD.EMD_matlab import EMD as M
        e = M()
        if r.random() < .6:
            setattr(e, str(r.choice(["FIXE", "FIXE_H"])), int(r.integers(1, 6)))
        return e
    if which == "Jit":
        from PyEMD.experimental.jitemd import JitEMD
        e = JitEMD(spline_kind=str(r.choice(JIT)), extrema_detection=str(r.choice(["simple", "parabol"])))
        if r.random() < .6:
            e.config[str(r.choice(["FIXE", "FIXE_H"]))] = float(r.integers(1, 6))
        return e
    from PyEMD.EMD2d import EMD2D
    return EMD2D(FIXE=int(r.integers(0, 3)))


def op(r, which):
    if which == "EMD2D":
        return r.normal(size=(int(r.integers(8, 16)), int(r.integers(8, 16)))), None, 2
    S = gen.signal(r, lo=8, hi=100 if which != "EMD" else 200, kinds=gen.SMOOTH, scaled=which not in ("EEMD", "CEEMDAN", "matlab"))[1]
    return S, None, int(r.choice([-1, 0, 2, 3])) if which != "matlab" else int(r.choice([0, 2, 3]))


def call(which, e, q):
    S, T, m = q
    S = S.copy()
    if which == "matlab":
        im, ext, it, no = type(e).emd(e, S, T, m)
        return [np.array([im[k] for k in sorted(im)]), np.array([ext[k] for k in sorted(ext)]), np.array(no)]
    if which == "Jit":
        return [e.emd(S, np.arange(len(S), dtype=float), m)] + [np.array(x) for x in e.get_imfs_and_trend()]
    if which == "EMD2D":
        return [e(S, m)]
    return [np.array(e(S, T, m))] + state(which, e)


def state(which, e):
    """what can be read back without running anything"""
    if which in ("EMD", "EEMD", "CEEMDAN"):
        try:
            out = [np.array(x) for x in e.get_imfs_and_residue()]
        except ValueError:
            return [np.array("nothing yet")]
        if which == "EEMD":
            out += [np.array(e.ensemble_count()), np.array(e.ensemble_mean()), np.array(e.ensemble_std())] + [np.array(e.all_imfs[k]) for k in e.all_imfs]
        if which == "EMD":
            out += [np.array(x) for x in e.get_imfs_and_trend()]
        return out
    if which == "Jit" and e.imfs is not None:
        return [np.array(x) for x in e.get_imfs_and_trend()]
    return []


def same(c, a, b, msg):
    c.check(len(a) == len(b) and all(util.same(x, y) for x, y in zip(a, b)), msg, expected=a[0] if a else None, got=b[0] if b else None)
    c.count("results compared")


def copying(c):
    r = c.rng
    which = str(r.choice(["EMD", "EEMD", "EEMD", "CEEMDAN", "CEEMDAN", "matlab", "Jit", "EMD2D"]))
    g = int(r.integers(0, 1 << 62))
    a, twin = build(np.random.default_rng(g), which), build(np.random.default_rng(g), which)
    seed = int(r.integers(0, 1 << 31))
    if which in ("EEMD", "CEEMDAN"):
        a.noise_seed(seed)
        twin.noise_seed(seed)
    way = str(r.choice(["deepcopy", "pickle2", "pickle3", "pickle4", "pickle5"]))
    before, after = [op(r, which) for _ in range(int(r.integers(0, 3)))], [op(r, which) for _ in range(int(r.integers(1, 3)))]
    extra = op(r, which)
    c.note(cls=which, build=g, seed=seed, way=way, before=before, after=after)
    for q in before:
        same(c, call(which, twin, q), call(which, a, q), "%s: two equally configured and seeded instances differ" % which)
    try:
        b = copy.deepcopy(a) if way == "deepcopy" else pickle.loads(pickle.dumps(a, int(way[-1])))
    except Exception as e:
        c.fail("%s cannot be copied by %s after %d runs: %r" % (which, way, len(before), e))
    c.check(type(b) is type(a), "%s: the copy is a %s" % (which, type(b)))
    s0 = state(which, twin)
    same(c, s0, state(which, b), "%s: a copy by %s reports other results than the original" % (which, way))
    same(c, s0, state(which, a), "%s: copying by %s changed what the original reports" % (which, way))
    # settings and results of the copy and of the original are their own
    if r.random() < .5:
        z = copy.deepcopy(a) if way == "deepcopy" else pickle.loads(pickle.dumps(a, int(way[-1])))
        call(which, z, extra)
        if which == "Jit":
            z.config["FIXE"] = 7.
        else:
            (z.EMD if which in ("EEMD", "CEEMDAN") else z).FIXE = 7
        if which in ("EEMD", "CEEMDAN"):
            z.noise_seed(seed + 1)
            z.trials = 1
        same(c, s0, state(which, a), "%s: using a copy changed the original's results" % which)
        c.count("copies used and thrown away")
    order = [(a, "the original, after a copy was made,"), (b, "the copy")]
    if r.random() < .5:
        order.reverse()
    want = [call(which, twin, q) for q in after]
    for e, name in order:
        for q, w in zip(after, want):
            same(c, w, call(which, e, q), "%s: %s (%s) behaves differently from an instance that was never copied" % (which, name, way))
    c.ev(len(before) + 3 * len(after))
    c.sig(which, way, len(before), len(after), len(want[0][0]))
    c.sample(cls=which, way=way, before=len(before), after=len(after))


SCRIPT = r'''
import json, sys
if __name__ == "__main__":
    import multiprocessing as mp
    p = json.load(open(sys.argv[1]))
    mp.set_start_method(p["method"])
    import logging; logging.disable(logging.CRITICAL)
    import numpy as np
    import PyEMD
    cls = getattr(PyEMD, p["cls"])
    S = np.array(p["S"])
    out = []
    for par in p["runs"]:
        e = cls(parallel=par > 0, processes=par or None, **p["cfg"])
        e.noise_seed(p["seed"])
        for _ in range(p["calls"]):
            x = e(S, None, p["m"])
        out.append(np.array(x))
    np.savez(p["out"], *out)
'''


def methods(c):
    r = c.rng
    which = str(r.choice(["EEMD", "CEEMDAN"]))
    cfg = gen.config(r, splines=["cubic", "akima", "pchip"], thresholds=False)
    cfg.setdefault("MAX_ITERATION", 30)
    cfg.update(trials=int(r.integers(2, 6)), noise_kind=str(r.choice(["normal", "uniform"])))
    S = gen.signal(r, lo=16, hi=120, kinds=gen.SMOOTH, scaled=False)[1]
    p = dict(cls=which, method=str(r.choice(["spawn", "forkserver", "fork"])), cfg=cfg, seed=int(r.integers(0, 1 << 31)), S=S.tolist(), m=int(r.choice([-1, 2])), calls=int(r.integers(1, 3)),
             runs=[0, int(r.integers(1, 4))])
    c.note(**{k: v for k, v in p.items() if k != "S"}, S=S)
    with tempfile.TemporaryDirectory() as d:
        p["out"] = os.path.join(d, "out.npz")
        json.dump(p, open(os.path.join(d, "p.json"), "w"))
        open(os.path.join(d, "main.py"), "w").write(SCRIPT)
        q = subprocess.run([sys.executable, "-W", "ignore", os.path.join(d, "main.py"), os.path.join(d, "p.json")], capture_output=True, text=True, timeout=120)
        c.check(q.returncode == 0, "%s in parallel with start method %s fails: %s" % (which, p["method"], q.stderr[-800:]))
        z = np.load(p["out"])
        out = [z[k] for k in z.files]
    c.ev(2)
    a, b = out
    if which == "EEMD":
        c.check(util.same(a, b), "EEMD with start method %s differs from the serial run with the same seed" % p["method"], serial=a, parallel=b)
    elif not util.close(a, b, util.ampl(S), 1e-9):
        emd = {k: v for k, v in cfg.items() if k not in ("trials", "noise_kind")}
        if p["calls"] == 1 and util.ce_settled(c, S, emd, cfg["trials"], p["seed"], .005, p["m"], cfg["noise_kind"]):
            c.fail("CEEMDAN with start method %s differs from the serial run with the same seed" % p["method"], serial=a, parallel=b)
    c.count("start method " + p["method"])
    c.sig("start", which, p["method"], p["runs"][1], p["calls"])


def case(c):
    if c.idx % 25 == 7:
        methods(c)
    else:
        copying(c)
