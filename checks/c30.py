import numpy as np
from vm import util
from checks.c23 import image
RULE = ("one case = one square image: the reported extrema are compared with a flood-fill oracle of grey-level domes, the envelopes with the values at the reported positions, and the decomposition of the negated and of the "
        "transposed image with the negated and transposed decomposition; distinct non-trivial = distinct (kind, size, numbers of extrema)")
CASES = {"quick": 1500, "thorough": 30000}
TIMEOUT = 120
N8 = [(i, j) for i in (-1, 0, 1) for j in (-1, 0, 1) if i or j]


def domes(I):
    """pixels p such that everything reachable from p over pixels not lower than p is less than one level above p"""
    a, b = I.shape
    out = np.zeros(I.shape, bool)
    for i in range(a):
        for j in range(b):
            v = I[i, j]
            seen, todo, ok = {(i, j)}, [(i, j)], True
            while todo and ok:
                x, y = todo.pop()
                if I[x, y] - 1 >= v:
                    ok = False
                for d in N8:
                    q = (x + d[0], y + d[1])
                    if 0 <= q[0] < a and 0 <= q[1] < b and q not in seen and I[q] >= v:
                        seen.add(q)
                        todo.append(q)
            out[i, j] = ok
    return out


def mask(pos, shape):
    m = np.zeros(shape, bool)
    m[pos[1], pos[0]] = True  # (x, y) = (column, row)
    return m


def condition(p):
    """of the radial-basis system over these positions"""
    if len(p[0]) > 250:
        return np.inf
    d = np.hypot(p[0][:, None] - p[0][None, :], p[1][:, None] - p[1][None, :])
    return np.linalg.cond(d ** 3)


def case(c):
    from PyEMD.BEMD import BEMD
    r = c.rng
    k, I = image(r, True)
    I = I[:24, :24].astype(np.float64)
    if r.random() < .6:  # grey levels
        I = (I - I.min()) / max(np.ptp(I), 1e-300) * float(r.choice([3., 20., 255.]))
        if r.random() < .4:
            I = np.round(I)
    if np.ptp(I) == 0:
        return
    c.note(kind=k, image=I)
    mn, mx = BEMD.find_extrema_positions(I.copy())
    c.ev()
    if len(I) <= 16:
        for name, got, J in (("maxima", mx, I), ("minima", mn, -I)):
            # how far the decision at each pixel is from a tie
            want = domes(J)
            bad = mask(got, I.shape) != want
            if bad.any() and not np.array_equal(want, domes(J + 1e-12 * np.abs(J).max() * r.normal(size=J.shape))):
                c.count("ambiguous (decided by rounding)")
                continue
            c.check(not bad.any(), "%s differ from the image's domes in %d pixels" % (name, bad.sum()), got=mask(got, I.shape), want=want)
            c.count("extrema maps compared")
    if min(len(mn[0]), len(mx[0])) > 1 and len(I) <= 20:
        lo, up = BEMD().extract_max_min_spline(I.copy(), mn, mx)
        c.check(lo.shape == I.shape and up.shape == I.shape, "envelopes have shapes %s %s" % (lo.shape, up.shape))
        for name, env, p in (("lower", lo, mn), ("upper", up, mx)):
            if len(p[0]) > 120:
                continue
            cond = condition(p)
            if cond > 1e9:
                c.count("ill-conditioned envelopes")
                continue
            t = 1e-13 * cond * max(np.abs(I).max(), np.abs(env).max()) + 1e-9 * np.abs(I).max()
            at = env[p[1], p[0]]
            if np.max(np.abs(at - I[p[1], p[0]])) <= t:
                c.count("envelopes through the extrema")
            else:  # known finding: values are read at the transposed positions
                d = np.max(np.abs(at - I[p[0], p[1]]))
                c.check(d <= t, "%s envelope does not pass through the values at the extrema (off by %g)" % (name, d), env=env)
                c.count("known finding bemd-transposed seen")
    m = int(r.integers(1, 4))
    e = BEMD()
    if r.random() < .3:
        e.FIXE = int(r.integers(0, 3))
        if not e.FIXE:
            e.FIXE_H = int(r.integers(0, 3))
    X = e(I.copy(), m)
    c.ev()
    c.check(len(X) <= m + 1, "limit %d but %d components" % (m, len(X)))
    how = str(r.choice(["negated", "transposed", "offset layout"]))
    if how == "negated":
        Y = e(-I, m)
        if not util.same(Y + 0., -X + 0.) and not util.close(Y, -X, np.abs(X).max(), 1e-7):
            Z = [e(I * (1 + j * r.normal(size=I.shape)), m) for j in (1e-15, 1e-14, 1e-13)]
            if all(util.close(X, z, np.abs(X).max(), 1e-8) for z in Z):
                c.fail("decomposing the negated image does not give the negated components", X=X, Y=Y)
            c.count("ambiguous (decided by rounding)")
    elif how == "offset layout":
        b = np.zeros((2 * len(I), 3 * len(I)))
        b[::2, ::3] = I
        v = b[::2, ::3]
        v.setflags(write=False)
        c.check(util.same(e(v, m), X), "a read-only strided view of the image decomposes differently")
    else:
        J = np.ascontiguousarray(I.T)
        a, b = BEMD.find_extrema_positions(J)
        for name, x, y in (("minima", mn, a), ("maxima", mx, b)):
            c.check(np.array_equal(mask(x, I.shape), mask(y, I.shape).T), name + " of the transposed image are not the transposed ones")
        if min(len(mn[0]), len(mx[0])) > 1:
            for name, u, v, p in zip(("lower", "upper"), BEMD().extract_max_min_spline(I, mn, mx), BEMD().extract_max_min_spline(J, a, b), (mn, mx)):
                cond = condition(p)
                if cond > 1e9:
                    c.count("ill-conditioned envelopes")
                    continue
                c.check(util.close(u, v.T, max(np.abs(u).max(), np.abs(I).max()), 1e-12 * cond + 1e-9), name + " envelope of the transposed image is not the transposed one", u=u, v=v)
    c.count("compared: " + how)
    c.sig(k, I.shape, min(len(mn[0]), 12), min(len(mx[0]), 12), how, len(X))
    c.sample(kind=k, shape=list(I.shape), minima=len(mn[0]), maxima=len(mx[0]), how=how, components=len(X))
