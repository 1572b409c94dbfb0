import numpy as np
from vm import gen, util
RULE = ("one case = one tridiagonal system, one polynomial/random vector through the compact derivative or filter, or one set of components whose instantaneous frequency is read back from the drawn curves; "
        "oracles are the residual of the system, exactness identities, dense solutions of the published schemes, and an independent phase derivative; distinct non-trivial = distinct (part, size, settings)")
CASES = {"quick": 6000, "thorough": 120000}


# ---- dense versions of the published schemes (Lele 1992; Visbal & Gaitonde 2002)
def dense_filter(f, al):
    n = len(f)
    A, R = np.eye(n), np.zeros((n, n))
    a = [(11 + 10 * al) / 16, (15 + 34 * al) / 32, (-3 + 6 * al) / 16, (1 - 2 * al) / 32]
    end = np.array([[15, 4, -6, 4, -1], [1, 12, 6, -4, 1], [-1, 4, 10, 4, -1]]) / 16.
    for i in range(n):
        if i < 3:
            R[i, :5] = end[i]
        elif i >= n - 3:
            R[i, n - 5:] = end[n - 1 - i][::-1]
        else:
            A[i, i - 1] = A[i, i + 1] = al
            for k in range(4):
                R[i, i + k] += a[k] / 2
                R[i, i - k] += a[k] / 2
    return np.linalg.solve(A, R @ f)


def dense_derivative(f, h):
    n = len(f)
    A, R = np.eye(n), np.zeros((n, n))
    e0 = np.array([-197 / 60, -5 / 12, 5, -5 / 3, 5 / 12, -1 / 20])
    e1 = np.array([-20 / 33, -35 / 132, 34 / 33, -7 / 33, 2 / 33, -1 / 132])
    for i in range(n):
        if i in (0, 1, n - 2, n - 1):
            j = min(i, n - 1 - i)
            co = (5., 2 / 11)[j]
            row = (e0, e1)[j]
            if i <= 1:
                R[i, :6] = row
            else:
                R[i, n - 6:] = -row[::-1]
            for q in (i - 1, i + 1):
                if 0 <= q < n:
                    A[i, q] = co
        else:
            A[i, i - 1] = A[i, i + 1] = 1 / 3
            R[i, i + 1], R[i, i - 1], R[i, i + 2], R[i, i - 2] = 14 / 18, -14 / 18, 1 / 36, -1 / 36
    return np.linalg.solve(A, R @ f) / h


def solver(c, r):
    from PyEMD.compact import TDMAsolver
    n = int(r.integers(2, 200))
    a, d, u = (r.normal(size=n) for _ in range(3))
    if r.random() < .5:
        a, d, u = np.round(a * 3), np.round(d * 3), np.round(u * 3)  # zeros on the off-diagonals
    b = (np.abs(a) + np.abs(u) + r.uniform(.05, 2, n)) * np.where(r.random(n) < .3, -1, 1) * 10.0 ** r.uniform(-3, 3)
    c.note(a=a, b=b, c=u, d=d)
    keep = [x.copy() for x in (a, b, u, d)]
    x = TDMAsolver(a, b, u, d)
    c.ev()
    c.check(all(np.array_equal(p, q) for p, q in zip(keep, (a, b, u, d))), "solver modified its arguments")
    c.check(np.shape(x) == (n,) and np.all(np.isfinite(x)), "solution %s" % (np.shape(x),))
    res = b * x - d
    res[1:] += a[1:] * x[:-1]
    res[:-1] += u[:-1] * x[1:]
    sc = (np.abs(a) + np.abs(b) + np.abs(u)).max() * np.abs(x).max() + np.abs(d).max() + 1e-300
    c.check(np.abs(res).max() <= 1e-11 * n * sc, "system not solved: residual %g at row %d" % (np.abs(res).max(), int(np.abs(res).argmax())), x=x)
    c.count("systems solved")
    c.sig("solver", n)


def derivative(c, r):
    from PyEMD.compact import pade6
    n = int(r.integers(7, 120))
    h = float(10.0 ** (r.uniform(-4, 4) if r.random() < .7 else r.uniform(-12, 12)))
    deg = int(r.integers(0, 6))
    u = np.arange(n) / (n - 1.) - r.uniform(0, 1)
    co = r.normal(size=deg + 1)
    L = h * (n - 1)
    f, want = np.polyval(co, u), np.polyval(np.polyder(co), u) / L
    c.note(n=n, h=h, coeffs=co, f=f)
    f0 = f.copy()
    got = pade6(f, h)
    c.ev()
    tol = 1e-11 * (np.abs(f).max() + 1e-300) / h * 20
    c.check(np.shape(got) == (n,) and np.abs(got - want).max() <= tol, "derivative of a degree %d polynomial is off by %g at sample %d (spacing %g)" % (deg, np.abs(got - want).max(), int(np.abs(got - want).argmax()), h), got=got, want=want)
    g = r.normal(size=n)
    a, b = r.normal(size=2)
    dg = pade6(g, h)
    lin = pade6(a * f + b * g, h)
    sc = (np.abs(f).max() * abs(a) + np.abs(g).max() * abs(b)) / h
    c.check(np.abs(lin - (a * got + b * dg)).max() <= 1e-10 * sc, "derivative is not linear", g=g, a=a, b=b)
    c.check(np.abs(dg - dense_derivative(g, h)).max() <= 1e-10 * np.abs(g).max() / h * n, "derivative of a random vector does not satisfy the compact scheme", g=g)
    s = float(r.choice([2., .1, 1e3]))
    c.check(np.abs(pade6(g, h * s) * s - dg).max() <= 1e-10 * np.abs(g).max() / h * n, "derivative does not scale with the spacing", g=g, s=s)
    c.check(np.array_equal(f, f0), "derivative modified its argument")
    c.count("derivatives checked")
    c.sig("derivative", n, deg)


def filt(c, r):
    from PyEMD.compact import filt6
    n = int(r.integers(7, 120))
    al = float(r.choice([.5, 0., -.499, .499, float(r.uniform(-.5, .5)), float(r.uniform(-.5, .5))]))
    deg = int(r.integers(0, 4))
    u = np.arange(n) / (n - 1.) - r.uniform(0, 1)
    f = np.polyval(r.normal(size=deg + 1), u) * 10.0 ** r.uniform(-3, 3)
    c.note(n=n, alpha=al, f=f)
    f0 = f.copy()
    got = filt6(f, al)
    c.ev()
    amp = 1e-12 * n / max(1 - 2 * abs(al), 1. / n)
    c.check(np.shape(got) == (n,) and np.abs(got - f).max() <= amp * (np.abs(f).max() + 1e-300), "filter (alpha=%r) changes a degree %d polynomial by %g" % (al, deg, np.abs(got - f).max()), got=got)
    g = r.normal(size=n)
    fg = filt6(g, al)
    a, b = r.normal(size=2)
    c.check(np.abs(filt6(a * f + b * g, al) - (a * got + b * fg)).max() <= 10 * amp * (np.abs(f).max() * abs(a) + np.abs(g).max() * abs(b)), "filter is not linear", g=g)
    c.check(np.abs(filt6(g[::-1], al)[::-1] - fg).max() <= 10 * amp * np.abs(g).max(), "filter treats the two ends differently", g=g)
    c.check(np.abs(fg - dense_filter(g, al)).max() <= 10 * amp * np.abs(g).max(), "filtered random vector does not satisfy the compact scheme", g=g)
    if n >= 14:  # neutral setting: only the end stencils act
        g2 = g.copy()
        p, q = r.normal(size=4), r.normal(size=4)
        g2[:5], g2[-5:] = np.polyval(p, np.arange(5) / 5.), np.polyval(q, np.arange(5) / 5.)
        c.check(np.abs(filt6(g2, .5) - g2).max() <= 1e-12 * n * n * np.abs(g2).max(), "neutral filter changes data whose ends need no smoothing", g=g2)
    c.check(np.array_equal(f, f0), "filter modified its argument")
    c.count("filters checked")
    c.sig("filter", n, deg, round(al, 1))


def analytic(x):
    n = len(x)
    F = np.fft.fft(x)
    w = np.zeros(n)
    w[0] = 1
    w[1:(n + 1) // 2] = 2
    if n % 2 == 0:
        w[n // 2] = 1
    return np.fft.ifft(F * w)


def drawn(t, X, order, alpha):
    import matplotlib.pyplot as plt
    from PyEMD import Visualisation
    plt.close("all")
    Visualisation().plot_instant_freq(t, imfs=X, order=order, alpha=alpha)
    ax = plt.gcf().axes
    out = np.array([a.lines[0].get_ydata() for a in ax], dtype=float)
    tt = [np.asarray(a.lines[0].get_xdata(), dtype=float) for a in ax]
    plt.close("all")
    return out, tt


def model(x, dt, order, alpha):
    """(frequency, decided by rounding?)"""
    z = analytic(x)
    if alpha is not None:
        z = dense_filter(z.real, alpha) + 1j * dense_filter(z.imag, alpha)
    d = np.angle(z[1:] * np.conj(z[:-1]))
    ph = np.angle(z)
    und = np.any(np.abs(np.abs(d) - np.pi) < 1e-6) or np.any(np.abs(z) < 1e-7 * np.abs(z).max())
    ph = ph[0] + np.r_[0, np.cumsum(d)]
    if alpha is not None:
        ph = dense_filter(ph, alpha)
    if order:
        f = dense_derivative(ph, dt)
    else:
        f = np.diff(ph) / dt
        f = np.r_[f, f[-1]]
    f = f / (2 * np.pi)
    return (f if alpha is None else dense_filter(f, alpha)), bool(und)


def frequency(c, r):
    n = int(r.integers(16, 260))
    dt = float(10.0 ** (r.uniform(-4, 3) if r.random() < .7 else r.uniform(-11, 6)))
    t = np.arange(n) * dt + float(r.choice([0, 5 * dt, -3.]))
    if not np.allclose(np.diff(t), dt, rtol=1e-9):
        t = np.arange(n) * dt
    dt = t[1] - t[0]
    order = bool(r.random() < .5)
    alpha = None if r.random() < .5 else float(r.uniform(-.49, .49))
    rows = int(r.integers(1, 5))
    X, tone = [], []
    for _ in range(rows):
        if r.random() < .5:
            k = int(r.integers(1, (n - 1) // 2))
            X.append(10.0 ** r.uniform(-3, 3) * np.cos(2 * np.pi * k * np.arange(n) / n + r.uniform(0, 6.2)))
            tone.append(k / (n * dt))
        else:
            X.append(gen.signal(r, n=n, kinds=gen.SMOOTH, scaled=False)[1])
            tone.append(None)
    X = np.array(X)
    c.note(t=t, X=X, order=order, alpha=alpha)
    x0, t0 = X.copy(), t.copy()
    F, tt = drawn(t, X, order, alpha)
    c.ev()
    c.check(np.array_equal(X, x0) and np.array_equal(t, t0), "arguments modified")
    c.check(F.shape == X.shape and all(np.array_equal(a, t) for a in tt), "frequency curves %s for components %s" % (F.shape, X.shape))
    lim = 1e-6 / dt * (1 if alpha is None else 1 / (1 - 2 * abs(alpha)))
    for i in range(rows):
        if tone[i] is not None and alpha is None and tone[i] * dt < .49:
            c.check(np.abs(F[i] - tone[i]).max() <= 1e-6 / dt, "pure tone of frequency %g shows frequencies up to %g off" % (tone[i], np.abs(F[i] - tone[i]).max()), F=F[i])
            c.count("pure tones recovered")
        w, und = model(X[i], dt, order, alpha)
        if und or np.isnan(w).any():
            c.count("phase steps decided by rounding, not judged")
            continue
        c.check(np.abs(F[i] - w).max() <= lim * n, "frequency is not the derivative of the phase (off by %g)" % np.abs(F[i] - w).max(), F=F[i], want=w)
        c.count("frequency curves compared")
        c.sig("freq", rows, order, alpha is None, tone[i] is not None, n // 20)
        s = float(r.choice([2., 1024., .125]))
        G, _ = drawn(t, X[i:i + 1] * s, order, alpha)
        c.check(np.abs(G[0] - F[i]).max() <= lim * n, "frequency depends on the amplitude or on the other components", F=F[i], G=G[0], s=s)
        u = float(r.choice([1e3, .25, 60.]))
        G, _ = drawn(t * u, X[i:i + 1], order, alpha)
        c.check(np.abs(G[0] * u - F[i]).max() <= lim * n, "frequency does not follow the unit of time", F=F[i], G=G[0], u=u)
    c.sample(part="frequency", n=n, dt=dt, rows=rows, order=order, alpha=alpha)


def case(c):
    r = c.rng
    p = r.random()
    (solver if p < .3 else derivative if p < .6 else filt if p < .9 else frequency)(c, r)
