import numpy as np
from scipy.interpolate import CubicSpline
from vm import gen, util
RULE = ("one case = 20 random sets of knots (2/3 to 40, even or very uneven spacing, offsets, ties in value) interpolated by every spline kind of the regular, compiled and MATLAB-compatible variant; knots hit, lines reproduced, "
        "axis shifts/scales, mirroring, superposition, locality of the evaluation points and agreement between variants are monitored; distinct non-trivial = distinct (kind, knots, spacing, variant)")
CASES = {"quick": 500, "thorough": 12000}
TIMEOUT = 150
LEAST = dict(cubic=3, akima=2, pchip=2, cubic_hermite=3, linear=2, slinear=2, quadratic=3)
LINEAR = ("cubic", "cubic_hermite", "linear", "slinear", "quadratic")  # linear in the values
JIT = ("cubic", "akima", "linear", "slinear", "quadratic")


def setup(tier):
    from PyEMD.experimental import jitemd
    e = np.array([[0., 1., 2.5, 4., 5.], [1., 0., 2., 1., 3.]])
    for k in JIT:
        jitemd.spline_points(np.arange(6.), e, k)
        if LEAST[k] <= 3:
            jitemd.spline_points(np.arange(3.), np.ascontiguousarray(e[:, :3]), k)


def knots(r, kind):
    n = int(r.integers(LEAST[kind], 6)) if r.random() < .4 else int(r.integers(LEAST[kind], 40))
    m = str(r.choice(["even", "even", "uneven", "close", "integer"]))
    d = {"even": np.ones(n), "uneven": r.uniform(.2, 4, n), "close": 10. ** r.uniform(-2, 1, n), "integer": r.integers(1, 9, n).astype(float)}[m]
    x = np.cumsum(d) + float(r.choice([0., -3., 50.]))
    x = x * float(r.choice([1., 1., .01, 100.]))
    y = r.normal(size=n) if r.random() < .7 else r.integers(-2, 3, n).astype(float)
    return m, x, y


def case(c):
    from PyEMD import EMD, splines
    from PyEMD.EMD_matlab import EMD as M
    from PyEMD.experimental import jitemd
    r = c.rng
    for _ in range(20):
        kind = str(r.choice(list(LEAST)))
        m, x, y = knots(r, kind)
        T = np.sort(np.r_[x, r.uniform(x[0], x[-1], int(r.integers(1, 60)))])
        T = T[np.r_[True, np.diff(T) > 0]]
        which = str(r.choice(["EMD"] * 3 + (["Jit"] if kind in JIT else []) + (["matlab"] if kind in JIT else [])))
        c.note(kind=kind, x=x, y=y, T=T, which=which)
        e = EMD(spline_kind=kind) if r.random() < .5 else EMD(spline_kind=kind.upper())

        def f(x, y, T):
            E = np.vstack((x, y))
            T = T.copy()
            t0, e0 = T.copy(), E.copy()
            t, v = e.spline_points(T, E) if which == "EMD" else jitemd.spline_points(T, E, kind) if which == "Jit" else M().splinePoints(T, E, kind)
            c.ev()
            c.check(np.array_equal(T, t0) and np.array_equal(E, e0), "the arguments were modified")
            c.check(np.array_equal(t, T), "%s: other positions were returned" % kind, t=t)
            v = np.asarray(v)
            c.check(v.shape == T.shape and bool(np.all(np.isfinite(v))), "%s: bad values" % kind, v=v)
            return v
        h = np.diff(x)
        ill = (h.max() / h.min()) ** 2 if kind in ("cubic", "quadratic") else h.max() / h.min()
        v = f(x, y, T)
        at = np.searchsorted(T, x)
        sc = max(np.abs(v).max(), np.abs(y).max(), 1e-300)
        tol = 1e-12 * max(ill, 1) * (1 + np.abs(x).max() / h.min() * 1e-2)
        if kind == "quadratic" and ill > 50:
            tol *= 1e3
        if r.random() < .4:  # positions beyond the knots have no value and are left out
            w = x[-1] - x[0]
            out = np.sort(np.r_[T, x[0] - w * r.random(int(r.integers(0, 4))) - 1e-3 * w, x[-1] + w * r.random(int(r.integers(0, 4))) + 1e-3 * w])
            t, u = e.spline_points(out, np.vstack((x, y))) if which == "EMD" else jitemd.spline_points(out, np.vstack((x, y)), kind) if which == "Jit" else M().splinePoints(out, np.vstack((x, y)), kind)
            c.check(len(t) == len(u) and np.array_equal(t, T) and np.max(np.abs(u - v)) <= tol * sc, "%s (%s): positions outside the knots change the result (%d positions, %d values, %d inside)" % (kind, which, len(t), len(u), len(T)))
            if len(x) == 3 and kind == "cubic":  # the three-knot routine itself
                t, u = splines.cubic_spline_3pts(x, y, out) if which != "matlab" else M().cubicSpline_3points(out, np.vstack((x, y)))
                c.check(len(t) == len(u) and np.array_equal(t, T) and np.max(np.abs(u - v)) <= 100 * tol * sc, "three-knot spline: %d positions, %d values, %d inside" % (len(t), len(u), len(T)))
                c.count("three-knot routine called directly")
            c.count("positions outside the knots")
        d = np.max(np.abs(v[at] - y))
        c.check(d <= tol * sc, "%s (%s): the curve misses a knot by %g" % (kind, which, d), v=v)
        c.maxi("largest miss of a knot / allowed", d / (tol * sc))
        q = int(r.integers(0, 6))
        if q == 0:
            a, b = r.normal(size=2)
            w = f(x, a * x + b, T)
            d = np.max(np.abs(w - a * T - b))
            s = abs(a) * np.abs(x).max() + abs(b)
            c.check(d <= 4 * tol * s, "%s (%s): a straight line is not reproduced (error %g)" % (kind, which, d), w=w)
        elif q == 1:
            a, b, k, s = float(r.choice([1e-3, 2., 1e4])), float(r.choice([0., -7., 30.])) * (x[-1] - x[0]), float(r.choice([-1., 5., 1e-6])), float(r.choice([0., 2.]))
            X2, T2 = a * x + b, a * T + b
            if np.any(np.diff(X2) <= 0) or np.any(np.diff(T2) <= 0) or np.any(T2 > X2[-1]) or np.any(T2 < X2[0]):
                continue
            w = (f(X2, k * y + s, T2) - s) / k
            slop = 64 * np.finfo(float).eps * max(abs(b), np.abs(X2).max()) / (a * h.min()) * 100 + 1e-14 * abs(s / k) / sc
            if np.any(np.diff(T2) <= 0) or not np.array_equal(np.searchsorted(T2, X2), at):
                continue
            d = np.max(np.abs(w - v))
            if kind in ("akima", "pchip"):  # weights switch at ties of the slopes
                sl = np.diff(y) / h
                g = np.abs(np.diff(np.r_[sl, -sl]))
                if np.any(np.abs(np.subtract.outer(sl, sl)[np.triu_indices(len(sl), 1)]) < 1e-6 * np.abs(sl).max()) or np.any(np.abs(sl) < 1e-9 * np.abs(sl).max()):
                    c.count("slope ties")
                    continue
                slop *= 1e3
            c.check(d <= (tol + slop) * 100 * sc, "%s (%s): shifting/scaling the axes changes the curve by %g" % (kind, which, d), v=v, w=w)
        elif q == 2 and kind != "quadratic":
            w = f(-x[::-1], y[::-1].copy(), -T[::-1])[::-1]
            d = np.max(np.abs(w - v))
            c.check(d <= 100 * tol * sc * (1e4 if kind == "akima" else 1), "%s (%s): the mirrored curve differs by %g" % (kind, which, d), v=v, w=w)
        elif q == 3 and kind in LINEAR:
            z = r.normal(size=len(y))
            a = float(r.normal() * 3)
            d = np.max(np.abs(f(x, y + a * z, T) - v - a * f(x, z, T)))
            c.check(d <= 100 * tol * (sc + abs(a) * 10), "%s (%s): superposition fails by %g" % (kind, which, d))
        elif q == 4:  # where the curve is asked for does not change it
            k = np.sort(r.choice(len(T), int(r.integers(1, len(T) + 1)), replace=False))
            d = np.max(np.abs(f(x, y, T[k]) - v[k]))
            c.check(d <= tol * sc, "%s (%s): the value at a position depends on the other positions (%g)" % (kind, which, d))
        elif kind == "cubic" and len(x) == 3:
            w = CubicSpline(x, y, bc_type="natural")(T)
            d = np.max(np.abs(w - v))
            c.check(d <= 100 * tol * sc, "cubic (%s): three knots do not give the natural spline (%g)" % (which, d), v=v, w=w)
        elif which != "EMD":
            w = v
            which = "EMD"
            d = np.max(np.abs(f(x, y, T) - w))
            c.check(d <= 100 * tol * sc, "%s: variants differ by %g" % (kind, d))
        elif kind in ("pchip", "linear", "slinear"):  # between knots the curve stays between their values
            i = np.clip(np.searchsorted(x, T, side="right") - 1, 0, len(x) - 2)
            lo, hi = np.minimum(y[i], y[i + 1]), np.maximum(y[i], y[i + 1])
            c.check(bool(np.all((v >= lo - tol * sc) & (v <= hi + tol * sc))), "%s: the curve overshoots its knots" % kind, v=v)
        c.count(kind + " curves")
        c.sig(kind, min(len(x), 8), m, which, q)
    c.sample(kind=kind, knots=len(x), spacing=m, variant=which)
