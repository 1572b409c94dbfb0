import numpy as np
from checks.c23 import image
from vm import gen, util
RULE = ("one case = one image: its extrema and its mirrored extension are compared with a direct per-pixel oracle, one sift with the mean of library surfaces through them, and its two-dimensional decomposition with those of the same image flipped, brightened, contrast-scaled, of another data type or "
        "memory layout; distinct non-trivial = distinct (relation, image kind, shape, stopping rule, limit, components)")
CASES = {"quick": 9000, "thorough": 150000}
TIMEOUT = 120


def peaks(I):
    """interior pixels that no pixel among their eight neighbours exceeds"""
    J = I[1:-1, 1:-1]
    ok = np.ones(J.shape, bool)
    n, m = I.shape
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            ok &= J >= I[1 + a:n - 1 + a, 1 + b:m - 1 + b]
    i, j = np.nonzero(ok)
    return set(zip((i + 1).tolist(), (j + 1).tolist()))


def extrema(c, E, I, k):
    mn, mx = E.find_extrema(I)
    c.ev()
    for name, got, want in (("minima", mn, peaks(-I)), ("maxima", mx, peaks(I))):
        x, y = np.asarray(got[0]), np.asarray(got[1])
        g = list(zip(x.tolist(), y.tolist()))
        c.check(len(set(g)) == len(g), name + " reported twice", got=np.array(g))
        c.check(set(g) == want, "%s are not the interior pixels unexceeded by their neighbours: missing %s, extra %s" % (name, sorted(want - set(g))[:5], sorted(set(g) - want)[:5]))
    c.count("extrema judged", len(mn[0]) + len(mx[0]))
    big = E.prepare_image(I)
    n, m = I.shape
    c.check(big.shape == (3 * n, 3 * m), "extended image has shape %s" % (big.shape,))
    c.check(np.array_equal(big, np.pad(I, ((n, n), (m, m)), mode="symmetric")), "extended image is not the mirror image of the original on every side")
    c.sig("extrema", k, I.shape, min(len(mn[0]), 9), min(len(mx[0]), 9))


def surface(big, pk, n, m):
    from scipy.interpolate import SmoothBivariateSpline
    pk = np.array(sorted(pk))
    return SmoothBivariateSpline(pk[:, 0], pk[:, 1], big[pk[:, 0], pk[:, 1]])(np.arange(n, 2 * n), np.arange(m, 2 * m))


def single(c, EMD2D, I, k):
    """one sift = the image minus the mean of the surfaces through the extrema of its mirrored extension"""
    p, o = np.ptp(I), I.min()
    s = (I - o) / p
    few = min(len(peaks(s)), len(peaks(-s))) <= 4
    e = EMD2D()
    e.MAX_ITERATION = 1
    X = e(I, 1)
    c.ev()
    n, m = I.shape
    if few:
        c.check(len(X) == 1 and float(np.max(np.abs(X[0] - I))) <= 1e-12 * (p + np.abs(I).max()), "an image with too few extrema is not returned as its own remainder", X=X)
        c.count("images with too few extrema")
        return
    big = np.pad(s, ((n, n), (m, m)), mode="symmetric")
    lo, up = surface(big, peaks(-big), n, m), surface(big, peaks(big), n, m)
    env = e.extract_max_min_spline(s)
    c.check(np.max(np.abs(env[0] - lo)) <= 1e-6 and np.max(np.abs(env[1] - up)) <= 1e-6, "the envelopes are not the surfaces through the minima and maxima of the mirrored image")
    want = s - .5 * (lo + up)
    got = X[0] / p
    if len(X) == 1:  # nothing left over: the offset is in here too
        got = got - o / p
    d = float(np.max(np.abs(got - want)))
    c.check(d <= 1e-6 + 1e-12 * np.abs(I).max() / p, "one sift is not the image minus the mean envelope (off by %g of the range)" % d, X=X, want=want)
    c.count("single sifts judged")
    c.sig("single", k, I.shape)


def case(c):
    from PyEMD.EMD2d import EMD2D
    r = c.rng
    k, I = image(r, False)
    I = I.astype(np.float64)
    if r.random() < .05:
        y, x = np.meshgrid(np.arange(70) / 70, np.arange(50) / 50)
        k, I = "large", np.sin(40 * x + 3 * y) * np.cos(25 * y) + x * y + .1 * r.normal(size=x.shape)
    p = np.ptp(I)
    if p == 0 or p < 1e-9 * np.abs(I).max():
        return
    c.note(image=I, kind=k)
    extrema(c, EMD2D, I, k)
    if r.random() < .3:
        Q = r.integers(-2, 3, size=(int(r.integers(3, 12)), int(r.integers(3, 12)))).astype(float)
        c.note(image=Q)
        extrema(c, EMD2D, Q, "ties")
        c.note(image=I)
    if r.random() < .4:
        single(c, EMD2D, I, k)
    e = EMD2D()
    rule = str(r.choice(["default", "FIXE", "FIXE_H"]))
    n = int(r.integers(1, 5))
    if rule != "default":
        setattr(e, rule, n)
    e.MAX_ITERATION = int(r.choice([1000, 1000, 20]))
    m = int(r.choice([-1, 0, 1, 2, 3]))
    c.note(rule=rule, n=n, max_imf=m, cap=e.MAX_ITERATION)
    X = e(I, m)
    c.ev()
    d = float(np.max(np.abs(X.sum(axis=0) - I)))
    c.check(d <= 1.01e-8 * p + 1e-13 * (np.abs(X).max() + np.abs(I).max()), "components do not add up to the image (error %g)" % d, X=X)
    a, b = float(r.choice([2., .25, 1024., 3., .1])), float(r.choice([0, 1, -3, .37])) * p
    rel = [("brightness and contrast", a * I + b, lambda Y: (Y - b * (np.arange(len(Y)) == len(Y) - 1)[:, None, None]) / a, False),
           ("flipped upside down", I[::-1], lambda Y: Y[:, ::-1], False),
           ("flipped left to right", I[:, ::-1], lambda Y: Y[:, :, ::-1], False),
           ("another memory layout", np.asfortranarray(I) if r.random() < .5 else np.repeat(I, 2, axis=1)[:, ::2], lambda Y: Y, True)]
    if np.all(I == np.round(I)) and np.abs(I).max() < 120:
        rel.append(("integer pixels", I.astype(str(r.choice(["int8", "int16", "int32", "int64"]))), lambda Y: Y, True))
    name, J, back, exact = rel[int(r.integers(0, len(rel)))]
    Y = e(J, m)
    c.ev()
    shape = Y.shape == X.shape
    Z = back(Y) if shape else None
    dev = float(np.max(np.abs(Z - X))) if shape else np.inf
    if exact:
        c.check(shape and np.array_equal(X, Z), "%s changes the components (%s vs %s, by %g)" % (name, X.shape, Y.shape, dev), X=X, Y=Y)
    elif dev > 1e-7 * p:
        # judged only if the decomposition is not decided by rounding: the same image with rounding-size noise
        g = np.random.default_rng(0)
        spread = 0.
        for q in range(6):
            W = e(I + 10. ** -(13 + q % 3) * p * g.normal(size=I.shape), m)
            spread = max(spread, float(np.max(np.abs(W - X))) if W.shape == X.shape else np.inf)
        if spread <= 1e-8 * p and dev > 1e3 * spread:
            c.fail("%s: the components change beyond flip, offset and factor (%s vs %s, by %g of %g)" % (name, X.shape, Y.shape, dev, p), X=X, Y=Y)
        c.count("ambiguous (decided by rounding)")
        return
    c.count("relation " + name)
    c.sig(name, k, I.shape, rule, m, len(X))
    c.sample(kind=k, shape=list(I.shape), rule=rule, n=n, max_imf=m, relation=name, components=len(X))
