import numpy as np
from vm import gen, ref, util
RULE = ("one case = 6 random signals with >=3 extrema x spline x nbsym x detection (irregular axes with interpolated detection): knots and envelopes returned by the public "
        "envelope API are judged by structural invariants and against the mirroring/spline model; plus random knot sets through the spline API; distinct non-trivial = distinct "
        "(signal kind, spline, detection, nbsym, knots added left/right per envelope)")
CASES = {"quick": 9000, "thorough": 150000}



def kn_close(a, b, dx, dy):
    return a.shape == b.shape and np.all(np.abs(a[0] - b[0]) <= dx) and np.all(np.abs(a[1] - b[1]) <= dy)


def env_case(c):
    r = c.rng
    cfg = dict(spline_kind=str(r.choice(gen.SPLINES)), extrema_detection=str(r.choice(["simple", "parabol"])), nbsym=int(r.choice([1, 2, 2, 3, 4, 6, 10])))
    full = ref.full(cfg)
    det, nb = cfg["extrema_detection"], cfg["nbsym"]
    kind, S = gen.signal(r, kinds=gen.OSC, lo=4, hi=300)
    if r.random() < .35:  # few extrema: all the edge branches
        n = int(r.integers(5, 14))
        S = r.normal(size=n) if r.random() < .6 else r.integers(-3, 4, n).astype(float)
        kind = "tiny"
    N = len(S)
    X = ref.axis(S, gen.taxis(r, N, True) if r.random() < .5 else None, full)
    if r.random() < .15 and det == "parabol":
        X = X * float(r.choice([.01, 3.7])) + float(r.choice([0, 5.5, -40.]))
    e = util.make_emd(r, cfg)
    c.note(S=S, T=X, cfg=cfg, kind=kind)
    mp, mv, ip, iv, _ = e.find_extrema(X, S)
    c.ev()
    out = e.extract_max_min_spline(X, S)
    if len(mp) + len(ip) < 3:
        c.count("fewer than three extrema")
        return
    up, lo, kx, kn = (np.asarray(o) for o in out)
    span = X[-1] - X[0]
    sc = util.ampl(S)
    added = []
    for name, env, k, p, v in (("upper", up, kx, mp, mv), ("lower", lo, kn, ip, iv)):
        c.check(env.shape == (N,) and bool(np.all(np.isfinite(env))), name + " envelope is not one finite value per sample", env=env, knots=k)
        c.check(k.ndim == 2 and k.shape[0] == 2 and bool(np.all(np.diff(k[0]) > 0)), name + " knots do not strictly increase", knots=k)
        c.check(k[0, 0] <= X[0] and k[0, -1] >= X[-1], name + " knots do not span the signal", knots=k)
        i = np.searchsorted(k[0], p)
        c.check(bool(np.all(i < k.shape[1])) and np.array_equal(k[0][np.minimum(i, k.shape[1] - 1)], p) and np.array_equal(k[1][np.minimum(i, k.shape[1] - 1)], v),
                name + " knots do not contain every extremum unchanged", knots=k, pos=p, val=v)
        left, right = int(np.sum(k[0] < p[0])), int(np.sum(k[0] > p[-1]))
        c.check(left + right + len(p) == k.shape[1], name + " knots contain foreign points between the extrema", knots=k, pos=p)
        lim = nb
        c.check(left <= max(lim, 1) and right <= max(lim, 1), "%s: %d/%d points mirrored, nbsym is %d" % (name, left, right, nb), knots=k)
        added.append((left, right))
    rk = ref.knots(X, S, det, nb)
    dx, dy = 1e-9 * (abs(X).max() + 1), 1e-9 * sc
    ok = kn_close(kx, rk[0], dx, dy) and kn_close(kn, rk[1], dx, dy)
    if not ok:
        for j in range(80):  # ties at both ends and in both envelopes are settled independently
            q = ref.knots(X, S, det, nb, np.random.default_rng(j)) if det == "parabol" else rk
            if (kn_close(kx, q[0], 1e-6 * span, 1e-6 * sc) and kn_close(kn, q[1], 1e-6 * span, 1e-6 * sc)) or q[0].shape != rk[0].shape or q[1].shape != rk[1].shape:
                c.count("ambiguous mirroring")
                return
        c.fail("knots differ from the mirroring rules", expected=rk, max_knots=kx, min_knots=kn)
    for name, env, k in (("upper", up, kx), ("lower", lo, kn)):
        want = ref.spline(cfg["spline_kind"], k[0], k[1], X)
        err = float(np.max(np.abs(env - want)))
        tol = 1e-7 * max(np.abs(want).max(), np.abs(k[1]).max())
        if err > tol:
            # conditioning: perturb knot values by rounding
            g = np.random.default_rng(0)
            spread = max(float(np.max(np.abs(ref.spline(cfg["spline_kind"], k[0], k[1] + 1e-14 * np.abs(k[1]).max() * g.normal(size=k.shape[1]), X) - want))) for _ in range(4))
            c.check(err <= 1000 * spread, "%s envelope is not the %s spline through its knots (error %g)" % (name, cfg["spline_kind"], err), env=env, knots=k)
            c.count("ill-conditioned spline")
    c.count("envelope pairs judged")
    # the step functions on their own give the same thing
    a, b = e.prepare_points(X, S, mp, mv, ip, iv)
    c.check(np.array_equal(a, kx) and np.array_equal(b, kn), "prepare_points disagrees with the envelopes' knots")
    c.sig(kind, cfg["spline_kind"], det, nb, tuple(added), len(mp) + len(ip) if len(mp) + len(ip) < 6 else 6)
    c.sample(kind=kind, cfg=cfg, N=N, maxima=len(mp), minima=len(ip), added=added)


def spline_case(c):
    r = c.rng
    kind = str(r.choice(gen.SPLINES))
    e = util.make_emd(r, dict(spline_kind=kind))
    k = int(r.choice([3, 4, 5, int(r.integers(5, 40))]))
    x = np.cumsum(r.uniform(.3, 4, k)) * float(r.choice([1, 1, 100, .01])) + float(r.choice([0, 0, -30, 1000]))
    y = r.normal(size=k) * float(r.choice([1, 1e4, 1e-4]))
    lin = r.random() < .3
    if lin:
        a, b = r.normal(size=2)
        y = a * x + b
    t = np.unique(np.r_[x, r.uniform(x[0], x[-1], int(r.integers(3, 60)))])
    t = t[(t >= x[0]) & (t <= x[-1])]
    c.note(kind=kind, x=x, y=y, t=t)
    c.ev()
    _, s = e.spline_points(t, np.array([x, y]))
    c.check(np.shape(s) == t.shape and bool(np.all(np.isfinite(s))), kind + " spline values missing or not finite", s=s)
    sc = np.abs(y).max() + np.abs(s).max()
    at = s[np.searchsorted(t, x)]
    c.check(bool(np.max(np.abs(at - y)) <= 1e-8 * sc), "%s spline does not pass through its points: %g" % (kind, np.max(np.abs(at - y))), s=s)
    if lin:
        c.check(bool(np.max(np.abs(s - (a * t + b))) <= 1e-8 * sc), "%s spline through a line is not the line" % kind, s=s)
    want = ref.spline(kind, x, y, t)
    c.check(bool(np.max(np.abs(s - want)) <= 1e-7 * sc), "%s spline differs from the reference by %g" % (kind, np.max(np.abs(s - want))), s=s, want=want)
    c.count("splines judged")
    c.sig("spline", kind, min(k, 8), lin)


def case(c):
    for _ in range(5):
        env_case(c)
    for _ in range(3):
        spline_case(c)
