import copy, pickle, random
import numpy as np
from vm import gen, util, zygote
RULE = ("one case = a random history of 4-9 calls (mixed lengths, dtypes, limits, layouts, failing calls, changed settings, mutated results, reused buffers) on shared instances of one decomposer; every result is "
        "compared bit for bit with the one computed in a pristine process by a fresh instance, and snapshots of inputs, settings and global random state are compared around every call; "
        "distinct non-trivial = distinct (class, step, dtype, layout, rows)")
CASES = {"quick": 700, "thorough": 14000}
SET = ["energy_ratio_thr", "std_thr", "svar_thr", "total_power_thr", "range_thr", "nbsym", "spline_kind", "extrema_detection", "FIXE", "FIXE_H", "MAX_ITERATION",
       "trials", "noise_width", "noise_kind", "epsilon", "noise_scale", "beta_progress", "separate_trends", "parallel", "processes", "scale_factor",
       "MAXITERATIONS", "FIX", "FIX_H", "TIME", "THRESHOLD"]


def build(which, cfg):
    from PyEMD import CEEMDAN, EEMD, EMD
    from PyEMD.EMD_matlab import EMD as MEMD
    if which == "EMD":
        return EMD(**cfg)
    if which == "EEMD":
        return EEMD(parallel=False, **cfg)
    if which == "CEEMDAN":
        return CEEMDAN(parallel=False, **cfg)
    e = MEMD()
    for k, v in cfg.items():
        setattr(e, k, v)
    return e


def invoke(which, e, S, T, m, seed):
    if which == "matlab":
        im, ext, it, no = type(e).emd(e, S, T, m)
        return [np.array([im[k] for k in sorted(im)]), np.array([ext[k] for k in sorted(ext)]), np.array([it[k] for k in sorted(it)]), np.array(no)], [im[k] for k in im]
    if seed is not None:
        e.noise_seed(seed)
    out = e(S, T, m)
    im, res = e.get_imfs_and_residue()
    return [out.copy(), im.copy(), res.copy()], [out, im, res]


def fresh(which, cfg, S, T, m, seed):
    return invoke(which, build(which, cfg), S, T, m, seed)[0]


def settings(e):
    d = {}
    for o in (e, getattr(e, "EMD", None)):
        if o is not None:
            d.update({(type(o).__name__, k): copy.copy(getattr(o, k)) for k in SET if hasattr(o, k)})
    return d


def case(c):
    r = c.rng
    zygote.ask(fresh, [])
    which = str(r.choice(["EMD", "EMD", "EMD", "EEMD", "CEEMDAN", "matlab"]))
    if which == "matlab":
        cfg = {}
        if r.random() < .4:
            cfg["FIXE"] = int(r.integers(1, 6))
    else:
        cfg = gen.config(r)
    if which == "EEMD":
        cfg.update(trials=int(r.integers(1, 4)), noise_kind=str(r.choice(["normal", "uniform"])), noise_width=float(r.choice([.05, .3])), separate_trends=bool(r.random() < .3))
    if which == "CEEMDAN":
        cfg.update(trials=int(r.integers(1, 4)), noise_kind=str(r.choice(["normal", "uniform"])), epsilon=float(r.choice([.005, .2])), beta_progress=bool(r.random() < .7))
        for k in ("range_thr", "total_power_thr"):
            cfg.pop(k, None)
    small = which in ("EEMD", "CEEMDAN")
    lens = [int(x) for x in (r.integers(8, 60, 3) if small else r.integers(5, 220, 3))]  # few lengths, so that they recur
    hist = []
    for _ in range(int(r.integers(3, 7))):
        n = int(r.choice(lens))
        kind, S = gen.signal(r, n=n, kinds=gen.OSC, scaled=False)
        if which != "matlab" and r.random() < .3:
            dt = str(r.choice(["float32", "int16", "int64", "float16"]))
            S = (S / max(np.abs(S).max(), 1e-9) * 100).astype(dt)
        elif which == "EMD" and r.random() < .25:
            S = S / max(np.abs(S).max(), 1e-9) * float(r.choice([1e-5, 1e4, 3e8]))
        T = gen.taxis(r, n) if r.random() < .3 else None
        m = gen.max_imf(r) if which != "matlab" else int(r.choice([-1, -1, 2, 3]))
        hist.append([S, T, m, int(r.integers(0, 1 << 31)) if small else None])
    for _ in range(int(r.integers(1, 3))):  # recurring items
        hist.append(hist[int(r.integers(0, len(hist)))])
    c.note(cls=which, cfg=cfg, history=hist)
    want = zygote.ask(fresh, [(which, cfg) + tuple(h) for h in hist])
    e = build(which, cfg)
    other = build(which, cfg)
    buf = {n: {} for n in lens}
    kept = []
    for i, ((S0, T0, m, seed), (st, w)) in enumerate(zip(hist, want)):
        if st != "ok":
            if "died" in str(w):
                continue
            c.count("pristine run failed: " + str(w)[:60])
            continue
        lay = "plain"
        mode = r.random()
        if mode < .4 and which != "matlab":
            S, lay = util.layout(r, S0)
        elif mode < .6:  # caller reuses the same buffer for different signals
            b = buf[len(S0)].setdefault(S0.dtype, np.zeros(len(S0), S0.dtype))
            b[:] = S0
            S, lay = b, "reused"
        else:
            S = S0.copy()
        T = None if T0 is None else (T0.copy() if r.random() < .5 else util.layout(r, T0)[0])
        tgt = other if r.random() < .25 else e
        # disturb: failing call, settings roundtrip
        d = r.random()
        if d < .2:
            try:
                invoke(which, tgt, S0.copy(), np.arange(len(S0) + 2.), m, seed)
            except Exception:
                c.count("failing calls interleaved")
        elif d < .3 and which != "matlab":
            o = getattr(tgt, "EMD", tgt)
            old = o.nbsym, o.spline_kind, o.extrema_detection
            o.nbsym, o.spline_kind, o.extrema_detection = 5, "akima", "parabol" if old[2] == "simple" else "simple"
            try:
                invoke(which, tgt, S0.copy(), None, m, seed)
            finally:
                o.nbsym, o.spline_kind, o.extrema_detection = old
            c.count("settings changed and restored")
        sb, tb = S.tobytes(), None if T is None else T.tobytes()
        set0 = settings(tgt)
        g0, p0 = pickle.dumps(np.random.get_state()), random.getstate()
        c.ev()
        got, raw = invoke(which, tgt, S, T, m, seed)
        what = "%s step %d (N=%d, %s, %s): " % (which, i, len(S0), S0.dtype, lay)
        c.check(S.tobytes() == sb, what + "the signal was modified")
        c.check(T is None or T.tobytes() == tb, what + "the time axis was modified")
        c.check(settings(tgt) == set0, what + "settings changed: %s" % [(k, set0[k], settings(tgt)[k]) for k in set0 if settings(tgt).get(k) != set0[k]])
        c.check(pickle.dumps(np.random.get_state()) == g0 and random.getstate() == p0, what + "the global random state was used")
        for a in raw:
            c.check(not np.may_share_memory(a, S) and (T is None or not np.may_share_memory(a, T)), what + "result shares memory with the input")
        for k, (a, b) in enumerate(zip(got, w)):
            c.check(np.shape(a) == np.shape(b) and util.spread(a, b) == 0., what + "result %d differs from the one of a fresh instance in a fresh process (by %g)" % (k, util.spread(a, b)), got=a, want=b)
        c.count("results compared with pristine runs")
        c.sig(which, i, str(S0.dtype), lay, np.shape(got[0])[0])
        if r.random() < .3:  # caller destroys what it was given
            for a in raw:
                if a.flags.writeable:
                    a[...] = 7.5
        else:
            kept.append((what, tgt, raw, [a.copy() for a in raw]))
    for what, tgt, raw, cp in kept:
        c.check(all(np.array_equal(a, b) for a, b in zip(raw, cp)), what + "arrays it returned were changed by later calls")
        c.count("earlier results still intact", len(raw))
    c.sample(cls=which, cfg=cfg, lengths=[len(h[0]) for h in hist], rows=[int(np.shape(w[0])[0]) for st, w in want if st == "ok"])
