import math
import numpy as np
from statistics import NormalDist
from vm import gen, ref, util
RULE = ("one case = one set of components (decomposed signals, noise, tones, ties and plateaus, scaled to many energies, some placed next to a band limit) judged for several confidences, both tests and every reference component; each verdict is compared "
        "with an independent evaluation of the Wu-Huang bands (verdicts within 1e-9 of a limit are not judged); distinct non-trivial = distinct (test, component kind, rows, reference, verdict pattern)")
CASES = {"quick": 5000, "thorough": 100000}


def stats(X):
    """mean log-period and log energy density per row"""
    X = np.asarray(X, dtype=np.float64)
    n = X.shape[1]
    T, E = [], []
    for x in X:
        (st, _), _ = ref.turning(x)
        p = int(np.sum(x[st] >= 0))
        T.append(math.log(n / p if p else n))
        E.append(math.log(math.fsum(float(v) * float(v) for v in x) / n))
    return T, E


def band(T, n, alpha):
    k = -NormalDist().inv_cdf((1 - alpha) / 2)
    return k * math.sqrt(2 / n) * math.exp(T / 2)


def expect(X, test, ref_i, alpha, margin):
    T, E = stats(X)
    n = X.shape[1]
    out = {}
    shift = 0. if test == "apriori" else -T[ref_i - 1] + band(T[ref_i - 1], n, alpha) - E[ref_i - 1]
    for i, (t, e) in enumerate(zip(T, E)):
        w = band(t, n, alpha)
        d = abs(e + t) - w if test == "apriori" else e + shift + t - w
        if test == "aposteriori" and i == ref_i - 1:
            out[i + 1] = 0
        else:
            out[i + 1] = None if abs(d) < margin * (1 + w) else int(d > 0)
    return out


def components(r):
    kind = str(r.choice(["emd", "noise", "signals", "mixed"]))
    if kind == "emd":
        from PyEMD import EMD
        X = EMD()(gen.signal(r, lo=20, hi=300, kinds=gen.OSC, scaled=False)[1])
    else:
        n = gen.length(r, 4, 300) if r.random() < .95 else int(r.integers(1000, 5000))
        rows = int(r.integers(1, 8)) if r.random() < .9 else int(r.integers(8, 30))
        X = np.array([r.normal(size=n) if kind == "noise" or (kind == "mixed" and r.random() < .5) else gen.signal(r, n=n, scaled=False)[1] for _ in range(rows)])
        if r.random() < .3:
            X[int(r.integers(0, rows))] -= 50.  # entirely negative: no positive peak
    X = X * 10.0 ** r.uniform(-3, 3, size=(len(X), 1)) if r.random() < .6 else X / max(np.std(X), 1e-12)
    if r.random() < .5:  # put a component's energy next to one of its band limits
        i = int(r.integers(0, len(X)))
        if np.any(X[i]):
            T, E = stats(X[i:i + 1])
            w = band(T[0], X.shape[1], .95)
            target = -T[0] + float(r.choice([-1, 1])) * w + float(r.normal()) * 10.0 ** r.uniform(-7, -.5)
            X[i] *= math.exp((target - E[0]) / 2)
    return kind, X


def invalid(c, f, X):
    r = c.rng
    ok = dict(test_name=str(r.choice(["apriori", "aposteriori"])), rescaling_imf=int(r.integers(1, len(X) + 1)), alpha=.9)
    bad = [("IMFs as a list", lambda: f(X.tolist(), **ok))]
    for a in (0., 1., -.1, 1.5, 1, "0.9", None):
        bad.append(("alpha=%r" % (a,), lambda a=a: f(X, **dict(ok, alpha=a))))
    for t in ("", "prior", "A priori", None, "APRIORI "):
        bad.append(("test_name=%r" % (t,), lambda t=t: f(X, **dict(ok, test_name=t))))
    for k in (0, -1, len(X) + 1, len(X) + 7, 1.0, "1", None):
        bad.append(("rescaling_imf=%r" % (k,), lambda k=k: f(X, **dict(ok, rescaling_imf=k))))
    for name, fn in bad:
        c.raises((AssertionError, TypeError, ValueError), fn, "invalid argument accepted: " + name)
        c.count("invalid arguments rejected")
    for Y in (np.empty((0, 5)), np.empty((0, 0)), np.empty((3, 0))):
        c.check(f(Y) is None, "verdicts for empty input of shape %s" % (Y.shape,))
    Y = X.copy()
    Y[int(r.integers(0, len(Y))), int(r.integers(0, Y.shape[1]))] = np.nan
    c.check(f(Y, **ok) is None, "verdicts for data with a not-a-number", X=Y)
    c.count("empty and not-a-number inputs")


def case(c):
    from PyEMD.checks import whitenoise_check as f
    r = c.rng
    kind, X = components(r)
    if not np.all(np.any(X != 0, axis=1)) or len(X) == 0:
        c.count("component without energy, skipped")
        return
    f32 = r.random() < .1
    if f32:
        X = X.astype(np.float32)
    margin = 1e-4 if f32 else 1e-9
    x0 = X.copy()
    c.note(X=X)
    if r.random() < .15:
        invalid(c, f, np.asarray(X, float))
    alphas = sorted([float(a) for a in r.choice([.5, .8, .9, .95, .99, .999, .05, 1e-6, 1 - 1e-9], 3, replace=False)] + [float(r.uniform(.001, .999))])
    prev = None
    for a in alphas:
        for test in ("apriori", "aposteriori"):
            for k in range(1, len(X) + 1) if test == "aposteriori" else [int(r.integers(1, len(X) + 1))]:
                got = f(X, test_name=test, rescaling_imf=k, alpha=a)
                c.ev()
                c.check(isinstance(got, dict) and sorted(got) == list(range(1, len(X) + 1)) and all(v in (0, 1) for v in got.values()),
                        "not one 0/1 verdict per component: %r" % (got,))
                want = expect(X, test, k, a, margin if a < .9999 else max(margin, 1e-6))
                wrong = [i for i in want if want[i] is not None and want[i] != got[i]]
                c.count("verdicts judged", sum(v is not None for v in want.values()))
                c.count("verdicts significant", sum(v == 1 for v in want.values()))
                c.count("verdicts at the limit, not judged", sum(v is None for v in want.values()))
                c.check(not wrong, "%s test, reference %d, confidence %r: verdicts %s, expected %s" % (test, k, a, got, want))
                c.sig(test, kind, len(X), k, tuple(got.values()))
                if test == "apriori":
                    if prev is not None:
                        c.check(all(got[i] <= prev[i] or want[i] is None for i in got), "raising the confidence to %r made a component significant: %s -> %s" % (a, prev, got))
                    prev = got
                else:
                    u = float(r.choice([1e-3, 7.7, 1e5]))
                    again = f(X * X.dtype.type(u), test_name=test, rescaling_imf=k, alpha=a)
                    c.check(all(again[i] == got[i] or want[i] is None for i in got), "a-posteriori verdicts depend on the units of the data (x%g): %s -> %s" % (u, got, again))
                    c.count("unit changes compared")
    # defaults: a-posteriori, first component, 95 %
    want = expect(X, "aposteriori", 1, .95, margin)
    got = f(X)
    c.check(all(want[i] is None or want[i] == got[i] for i in want), "default call: %s, expected %s" % (got, want))
    c.check(np.array_equal(X, x0), "the components were modified")
    c.sample(kind=kind, shape=list(X.shape), alphas=alphas, last=got)
