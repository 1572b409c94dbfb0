import re
import numpy as np
from vm import gen, util
RULE = ("one case = one set of components (1 to 21 rows, explicit, attached to a decomposer, or both) drawn with one combination of residue, time axis, filter and scheme; the drawn panels, labels and curves are read back and compared; "
        "distinct non-trivial = distinct (plot, source, rows, residue, axis kind)")
CASES = {"quick": 1600, "thorough": 40000}


def panels():
    import matplotlib.pyplot as plt
    fig = plt.gcf()
    out = []
    for a in fig.axes:
        out.append((a.get_ylabel(), [(np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)) for l in a.lines], a.get_position().y0, a.get_title()))
    return out


class Attached:
    """stands for a decomposer: all the visualiser needs is its latest result"""
    def __init__(self, imfs, res):
        self.r = imfs, res

    def get_imfs_and_residue(self):
        return self.r


def flag(r, b):
    """the same choice as a Python bool, a numpy bool or a number"""
    return [b, b, np.bool_(b), int(b)][int(r.integers(0, 4))]


def case(c):
    import matplotlib.pyplot as plt
    from PyEMD import EMD, Visualisation
    r = c.rng
    plt.close("all")
    n = int(r.integers(8, 120))
    rows = int(r.choice([1, 1, 2, 3, 4, 5, 8, 12, 21]))
    X, R = r.normal(size=(rows, n)) * 10.0 ** r.uniform(-2, 3), r.normal(size=n)
    if r.random() < .15:
        X, R = np.round(X).astype(int), np.round(R * 9).astype(int)
    if r.random() < .12:  # nothing left over, or a silent component
        X, R = X * (r.random(rows) < .6)[:, None], R * 0
    src = str(r.choice(["explicit", "explicit", "attached", "decomposer", "both"]))
    emd = None
    if src == "decomposer":
        emd = EMD()
        for _ in range(int(r.integers(1, 3))):  # the latest run counts
            emd.emd(gen.signal(r, n=n, kinds=["normal", "tones_trend", "am", "walk"], scaled=False)[1], max_imf=gen.max_imf(r))
        X, R = emd.get_imfs_and_residue()
        X, R = X.copy(), np.array(R)
        rows = len(X)
        if rows == 0:
            c.count("nothing extracted, skipped")
            return
    elif src == "attached":
        emd = Attached(X.copy(), R.copy())
    elif src == "both":
        emd = Attached(r.normal(size=(int(r.integers(1, 5)), n)), r.normal(size=n))
    taxis = str(r.choice(["none", "array", "list", "range"]))
    t = None if taxis == "none" else np.cumsum(r.uniform(.1, 1, n)) - 3. if taxis == "array" else [float(v) for v in np.arange(n) * .5 + 2] if taxis == "list" else range(10, 10 + n)
    give = src in ("explicit", "both")
    c.note(src=src, X=X, R=R, t=None if t is None else list(t))
    bad = r.random()
    if bad < .12:
        what = str(r.choice(["no imfs", "no residue", "freq no imfs", "alpha"]))
        v = Visualisation()
        if what == "no imfs":
            c.raises(AttributeError, lambda: v.plot_imfs(residue=R if r.random() < .5 else None, t=t, include_residue=bool(r.random() < .5)), "plot without components accepted")
        elif what == "no residue":
            c.raises(AttributeError, lambda: v.plot_imfs(imfs=X, t=t), "residue requested but none given: accepted")
        elif what == "freq no imfs":
            c.raises(AttributeError, lambda: v.plot_instant_freq(np.arange(n) * .1), "frequency plot without components accepted")
        else:
            a = float(r.choice([.5, -.5, .51, -.7, 2., -3., 1e6]))
            c.raises((AssertionError, ValueError), lambda: Visualisation(emd).plot_instant_freq(np.arange(n) * .1, imfs=X, alpha=a, order=bool(r.random() < .5)), "filter strength %r accepted" % a)
        c.ev()
        c.count("rejected: " + what)
        c.sig("reject", what, src, rows)
        plt.close("all")
        return
    v = Visualisation(emd)
    x0, r0 = X.copy(), R.copy()
    if r.random() < .75:
        inc = bool(r.random() < .6)
        kw = {}
        if give:
            kw["imfs"] = X
            if inc or r.random() < .5:
                kw["residue"] = R
        if t is not None or r.random() < .5:
            kw["t"] = t
        if not inc or r.random() < .5:
            kw["include_residue"] = flag(r, inc)
        if give and r.random() < .3 and "residue" in kw:
            v.plot_imfs(X, R, kw.get("t"), flag(r, inc))
        else:
            v.plot_imfs(**kw)
        c.ev()
        P = panels()
        want_t = np.arange(n, dtype=float) if t is None else np.asarray(list(t), dtype=float)
        c.check(len(P) == rows + inc, "%d panels for %d components%s" % (len(P), rows, " and the residue" if inc else ""))
        for i, (lab, lines, _, title) in enumerate(P):
            data, name = (X[i], "IMF %d" % (i + 1)) if i < rows else (R, "Res")
            c.check(lab == name, "panel %d is labelled %r instead of %r" % (i, lab, name))
            c.check(len(lines) == 1, "panel %r has %d curves" % (name, len(lines)))
            c.check(np.array_equal(lines[0][1], data), "panel %r does not show the data" % name, shown=lines[0][1], data=data)
            c.check(np.array_equal(lines[0][0], want_t), "panel %r is not drawn over the time axis" % name, shown=lines[0][0], want=want_t)
        ys = [p[2] for p in P]
        c.check(all(a > b for a, b in zip(ys, ys[1:])), "panels are not in order from top to bottom")
        c.sig("imfs", src, rows, inc, taxis)
        c.count("component plots read back")
        c.sample(plot="imfs", src=src, rows=rows, residue=inc, axis=taxis)
    else:
        tt = np.arange(n) * float(r.choice([.01, 1., 3.])) + float(r.choice([0, 5.]))
        alpha = None if r.random() < .5 else float(r.uniform(-.49, .49))
        kw = dict(imfs=X) if give else {}
        if alpha is not None:
            kw["alpha"] = alpha
        if r.random() < .5:
            kw["order"] = bool(r.random() < .5)
        v.plot_instant_freq(tt, **(dict(kw, order=flag(r, kw["order"])) if "order" in kw else kw))
        c.ev()
        P = panels()
        c.check(len(P) == rows, "%d frequency panels for %d components" % (len(P), rows))
        import warnings
        for i, (lab, lines, _, _) in enumerate(P):
            c.check(re.search(r"IMF %d(?!\d)" % (i + 1), lab) is not None, "frequency panel %d is labelled %r" % (i, lab))
            c.check(len(lines) == 1 and np.array_equal(lines[0][0], tt) and lines[0][1].shape == (n,), "frequency panel %d is not drawn over the time axis" % i)
        # each panel belongs to its own component: drawing the component alone gives the same curve
        i = int(r.integers(0, rows))
        mine = P[i][1][0][1]
        plt.close("all")
        Visualisation().plot_instant_freq(tt, imfs=X[i:i + 1], **{k: q for k, q in kw.items() if k != "imfs"})
        alone = panels()[0][1][0][1]
        c.check(np.allclose(mine, alone, rtol=1e-6, atol=1e-6 * (np.abs(alone).max() + 1e-300)), "frequency panel %d does not show component %d" % (i, i + 1), shown=mine, alone=alone)
        c.sig("freq", src, rows, alpha is None)
        c.count("frequency plots read back")
    c.check(np.array_equal(X, x0) and np.array_equal(R, r0), "plotting modified the data")
    plt.close("all")
