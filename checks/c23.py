import numpy as np
from vm import gen, util
RULE = ("one case = one image decomposed by one of the two-dimensional decomposers under one limit and stopping setting; shape, finiteness, reconstruction, limit, repeatability and untouched input are checked; "
        "distinct non-trivial = distinct (class, image kind, shape, dtype, limit, components)")
CASES = {"quick": 3500, "thorough": 60000}
TIMEOUT = 120


def image(r, square):
    a = int(r.integers(6, 33))
    b = a if square or r.random() < .3 else int(r.integers(6, 33))
    y, x = np.meshgrid(np.arange(b) / b, np.arange(a) / a)
    k = str(r.choice(["noise", "waves", "blobs", "ramp", "steps", "quant", "waves+ramp", "dots", "checker"]))
    if k == "noise":
        I = r.normal(size=(a, b))
    elif k == "waves":
        I = np.sin(2 * np.pi * (r.uniform(1, 5) * x + r.uniform(1, 5) * y)) + .5 * np.cos(2 * np.pi * r.uniform(.5, 3) * x) * np.sin(2 * np.pi * r.uniform(.5, 6) * y)
    elif k == "blobs":
        I = sum(r.normal() * np.exp(-((x - r.random()) ** 2 + (y - r.random()) ** 2) * r.uniform(5, 80)) for _ in range(6))
    elif k == "ramp":
        I = r.normal() * x + r.normal() * y + r.normal() * x * y
    elif k == "steps":
        I = np.floor(4 * x) + 2 * np.floor(3 * y)
    elif k == "quant":
        I = np.round(r.normal(size=(a, b)) * 2)
    elif k == "waves+ramp":
        I = np.sin(2 * np.pi * r.uniform(2, 6) * x) * np.cos(2 * np.pi * r.uniform(2, 6) * y) + 3 * x - 2 * y ** 2
    elif k == "dots":
        I = (r.random((a, b)) < .05).astype(float)
        I[a // 2, b // 2] = 1
    else:
        I = ((np.arange(a)[:, None] // 2 + np.arange(b)[None, :] // 2) % 2).astype(float)
    I = np.array(I)
    if r.random() < .5:
        I = I * 10.0 ** r.uniform(-3, 4)
    if r.random() < .5:
        I = I + float(r.choice([-7., 100., .5]))
    if r.random() < .25:
        J = (I - I.min()) / max(np.ptp(I), 1e-300)
        dt = np.dtype(str(r.choice(["uint8", "int8", "int16", "uint16", "int32", "int64", "uint32", "float32", "float16"])))
        if dt.kind == "f" or r.random() < .4:
            I = np.round(J * min(255, np.iinfo(dt).max if dt.kind != "f" else 255)).astype(dt)
        else:  # most of the type's range (at most 40 bits, so that the components stay exact in double precision)
            ii = np.iinfo(dt)
            lo, hi = max(int(ii.min), -2 ** 40), min(int(ii.max), 2 ** 40)
            I = np.round(lo + J * (hi - lo)).astype(dt)
    return k, I


def case(c):
    from PyEMD.BEMD import BEMD
    from PyEMD.EMD2d import EMD2D
    r = c.rng
    cls = EMD2D if r.random() < .7 else BEMD
    k, I = image(r, cls is BEMD)
    if np.ptp(I.astype(float)) == 0:
        return
    m = int(r.choice([1, 1, 2, 3, 4]))
    if cls is EMD2D and r.random() < .2:
        m = int(r.choice([-1, 0]))  # no limit
    m = gen.number(r, m)
    e = cls()
    rule = str(r.choice(["default", "default", "FIXE", "FIXE_H"]))
    if rule != "default":
        setattr(e, rule, int(r.integers(1, 4)))
    e.MAX_ITERATION = min(e.MAX_ITERATION, 30)
    c.note(cls=cls.__name__, kind=k, image=I, max_imf=m, rule=rule, n=getattr(e, rule, 0))
    i0 = I.copy()
    call = r.random() < .5
    X = e(I, m) if call else (e.emd if cls is EMD2D else e.bemd)(I, max_imf=m)
    c.ev()
    what = "%s(%s %s %s, limit %d, %s): " % (cls.__name__, k, I.shape, I.dtype, m, rule)
    c.check(I.dtype == i0.dtype and np.array_equal(I, i0), what + "the image was modified")
    c.check(isinstance(X, np.ndarray) and X.ndim == 3 and X.shape[1:] == I.shape, what + "result has shape %s" % (np.shape(X),))
    c.check(1 <= len(X) and (m < 1 or len(X) <= m + 1), what + "%d components" % len(X))
    c.check(bool(np.all(np.isfinite(X))), what + "non-finite components", X=X)
    J = i0.astype(np.float64)
    sc = max(np.ptp(J), 1.) if cls is BEMD else np.ptp(J)
    d = float(np.max(np.abs(X.sum(axis=0) - J)))
    low = 0.
    tol = 1.01e-8 * sc + (1e-13 + low) * (np.abs(X).max() + np.abs(J).max())
    c.maxi("largest reconstruction error / allowed", d / tol)
    c.check(d <= tol, what + "components do not add up to the image (error %g, allowed %g)" % (d, tol), X=X)
    Y = e(I, m)
    c.check(util.same(X, Y), what + "a second decomposition of the same image differs")
    c.check(not np.may_share_memory(X, I), what + "result shares memory with the image")
    c.count("decompositions by " + cls.__name__)
    c.sig(cls.__name__, k, I.shape, str(I.dtype), m, len(X))
    c.sample(cls=cls.__name__, kind=k, shape=list(I.shape), max_imf=m, rule=rule, components=len(X))
