import numpy as np
from vm import gen, util
RULE = ("one case = a random history of decompositions (different lengths, limits, failing calls in between) on one instance of EMD, EEMD or CEEMDAN; "
        "after every call the accessors are compared with the returned array, the signal and a visualiser; distinct non-trivial = distinct "
        "(class, step, rows, residue appended?) observations")
CASES = {"quick": 1500, "thorough": 25000}


def check_emd(c, e, S, out, imfs, res):
    c.check(np.ndim(imfs) == 2 and np.shape(imfs)[1] == len(S) and np.shape(res) == (len(S),), "accessor shapes %s %s" % (np.shape(imfs), np.shape(res)))
    t = util.tol_sum(imfs, S)
    d = np.max(np.abs(np.sum(imfs, axis=0) + res - S))
    c.check(d <= t, "components plus residue do not give back the latest signal: %g" % d, imfs=imfs, residue=res)
    neg = bool(np.allclose(res, 0))
    exp = imfs if neg else np.vstack((imfs, res))
    c.check(out.shape == exp.shape and np.array_equal(out, exp), "returned array is not components followed by the non-negligible residue", out=out, imfs=imfs, residue=res)
    im, tr = e.get_imfs_and_trend()
    if neg and len(imfs):
        c.check(np.array_equal(im, imfs[:-1]) and np.array_equal(tr, imfs[-1]), "trend is not the slowest component although the residue is negligible", im=im, trend=tr)
    else:
        c.check(np.array_equal(im, imfs) and np.array_equal(tr, res), "trend is not the residue", im=im, trend=tr)
    return neg


def case(c):
    from PyEMD import CEEMDAN, EEMD, EMD, Visualisation
    r = c.rng
    which = str(r.choice(["EMD", "EMD", "EMD", "EEMD", "CEEMDAN"]))
    cfg = gen.config(r)
    log = []
    c.note(cls=which, cfg=cfg, history=log)
    if which == "EMD":
        e = util.make_emd(r, cfg)
    else:
        cls = EEMD if which == "EEMD" else CEEMDAN
        kw = dict(trials=int(r.integers(1, 5)), parallel=False)
        kw["separate_trends"] = bool(r.random() < .3)
        e = cls(ext_EMD=util.make_emd(r, cfg), **kw)
        e.noise_seed(int(r.integers(1, 1 << 20)))
    for f in ("get_imfs_and_residue",) + (("get_imfs_and_trend",) if which == "EMD" else ()):
        c.raises(Exception, getattr(e, f), f + " before any run did not raise")
    c.raises(Exception, lambda: Visualisation(e), "visualiser of a decomposer without results did not raise")
    last = None
    for step in range(int(r.integers(2, 6))):
        if last is not None and r.random() < .25:
            S = gen.signal(r, hi=60)[1]
            log.append(dict(bad_length=len(S)))
            c.raises(Exception, lambda: e(S, np.arange(len(S) + 1.)), "time axis of other length accepted")
        else:
            kind, S = gen.signal(r, hi=260 if which == "EMD" else 70, lo=2 if which == "EMD" else 6, kinds=None if which == "EMD" else gen.OSC)
            m = gen.max_imf(r)
            log.append(dict(kind=kind, S=S, max_imf=m))
            c.ev()
            raw = e(S, None, m)
            out = raw.copy()
            if which == "EMD" and r.random() < .3:  # what the caller does with its array is its own business
                raw[...] = np.nan
                c.count("returned array overwritten")
            last = (S, out)
        S, out = last
        imfs, res = e.get_imfs_and_residue()
        if which == "EMD":
            neg = check_emd(c, e, S, out, imfs, res)
        else:
            c.check(np.array_equal(imfs, out), "accessor components differ from the returned ones", out=out, imfs=imfs)
            d = np.max(np.abs(np.sum(imfs, axis=0) + res - S))
            c.check(d <= util.tol_sum(imfs, S) + 1e-13 * util.ampl(S), "components plus residue do not give back the latest signal: %g" % d, imfs=imfs, residue=res)
            neg = bool(np.allclose(res, 0))
        v = Visualisation(e)
        c.check(np.array_equal(v.imfs, imfs) and np.array_equal(v.residue, res), "visualiser does not show the latest result")
        if r.random() < .02:
            import matplotlib.pyplot as plt
            if len(imfs):
                v.plot_imfs(include_residue=True)
                ax = plt.gcf().axes
                got = [a.lines[0].get_ydata() for a in ax]
                plt.close("all")
                c.check(len(got) == len(imfs) + 1 and all(np.array_equal(a, b) for a, b in zip(got, list(imfs) + [res])), "visualiser plot does not show the latest result")
                c.count("plots read back")
        c.count("accessor rounds")
        c.sig(which, step, len(imfs), neg)
    c.sample(cls=which, cfg=cfg, steps=len(log), rows=len(imfs))
