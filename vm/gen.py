"""Workload generators: hostile one-dimensional signals, time axes and decomposer settings."""
import numpy as np

SPLINES = ["cubic", "akima", "pchip", "cubic_hermite", "linear", "slinear", "quadratic"]


def length(rng, lo=2, hi=400):
    r = rng.random()
    a, b = (lo, 13) if r < .2 else (8, 65) if r < .5 else (40, 260) if r < .9 else (200, hi + 1)
    if b > hi + 1:
        b = hi + 1
    if a >= b:
        a = max(lo, b // 2)
    return int(max(lo, min(rng.integers(a, max(b, a + 1)), hi)))


def _normal(rng, n, t): return rng.normal(size=n)
def _unif(rng, n, t): return rng.random(n)
def _walk(rng, n, t): return np.cumsum(rng.normal(size=n))
def _tones(rng, n, t): return sum(rng.normal() * np.sin(2 * np.pi * rng.uniform(.5, n / 4 + 1) * t + rng.uniform(0, 6)) for _ in range(rng.integers(1, 5)))
def _tones_trend(rng, n, t): return _tones(rng, n, t) + rng.normal() * 4 * t + rng.normal() * 3 * t ** 2
def _chirp(rng, n, t): return np.cos(2 * np.pi * rng.uniform(1, n / 8 + 2) * t ** 2) + rng.normal() * 5 * t
def _quant(rng, n, t): return np.round(rng.normal(size=n) * rng.choice([.7, 1, 2, 5]))
def _quantwalk(rng, n, t): return np.round(np.cumsum(rng.normal(size=n)))
def _repeat(rng, n, t): return np.repeat(rng.normal(size=n), rng.integers(2, 6))[:n]
def _square(rng, n, t): return np.sign(np.sin(2 * np.pi * rng.uniform(1, n / 6 + 2) * t + .1))
def _const(rng, n, t): return np.full(n, rng.choice([0., 1., rng.normal()]))
def _line(rng, n, t): return rng.normal() * t + rng.normal()
def _mono(rng, n, t): return np.sort(rng.normal(size=n))[:: int(rng.choice([1, -1]))].copy()
def _spike(rng, n, t):
    s = np.zeros(n); s[rng.integers(0, n, size=int(rng.integers(1, 4)))] = rng.normal(); return s
def _alt(rng, n, t): return np.where(np.arange(n) % 2 == 0, 1., -1.) * rng.random()
def _sparse(rng, n, t): return rng.normal(size=n) * (rng.random(n) < .3)
def _saw(rng, n, t): return (np.arange(n) % int(rng.integers(2, 12))).astype(float)
def _burst(rng, n, t): return np.abs(rng.normal(size=n)) * np.exp(3 * t)
def _edge(rng, n, t):
    """plateaus touching or next to both ends"""
    s = _normal(rng, n, t) if rng.random() < .5 else _tones(rng, n, t) * np.ones(n)
    a, b = int(rng.integers(0, 5)), int(rng.integers(0, 5)); o, q = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    s = np.array(s, float)
    if o + a < n: s[o:o + a + 1] = s[o]
    if n - 1 - q - b > 0: s[n - 1 - q - b:n - q] = s[n - 1 - q]
    return s
def _plateau(rng, n, t):
    s = np.round(np.sin(2 * np.pi * rng.uniform(.6, n / 8 + 1) * t + rng.uniform(0, 6)) * rng.integers(1, 6)) + (rng.normal() * t if rng.random() < .4 else 0)
    return s
def _clip(rng, n, t): return np.clip(_tones(rng, n, t), -.3, .4) * np.ones(n)
def _am(rng, n, t): return (1 + .8 * np.sin(2 * np.pi * rng.uniform(.3, 3) * t)) * np.sin(2 * np.pi * rng.uniform(2, n / 5 + 3) * t + rng.uniform(0, 6)) + rng.normal() * .05 * np.cumsum(rng.normal(size=n))
def _few(rng, n, t):
    """few slow oscillations: 2..5 extrema"""
    return np.sin(2 * np.pi * rng.uniform(.4, 2.6) * t + rng.uniform(0, 6.3)) * np.exp(rng.normal() * t) + rng.normal() * t * rng.choice([0, 1])
def _lownoise(rng, n, t): return _tones(rng, n, t) + 1e-3 * rng.normal(size=n)
def _offsetnoise(rng, n, t): return rng.normal(size=n) + rng.choice([3., -3., 50.])
def _decades(rng, n, t):
    """a dominant oscillation with others, and a trend, several orders of magnitude smaller"""
    s = (_alt(rng, n, t) if rng.random() < .4 else np.sin(2 * np.pi * rng.uniform(n / 20 + 1, n / 5 + 2) * t + rng.uniform(0, 6))) * np.ones(n)
    s = s + 10. ** rng.uniform(-8, -1) * np.sin(2 * np.pi * rng.uniform(.5, n / 30 + 2) * t + rng.uniform(0, 6))
    return s + 10. ** rng.uniform(-8, -1) * (t if rng.random() < .7 else t ** 2) + 10. ** rng.uniform(-8, -1) * (rng.random() < .5)

KINDS = {f.__name__[1:]: f for f in (_normal, _unif, _walk, _tones, _tones_trend, _chirp, _quant, _quantwalk, _repeat, _square, _const,
                                      _line, _mono, _spike, _alt, _sparse, _saw, _burst, _edge, _plateau, _clip, _am, _few, _lownoise, _offsetnoise, _decades)}
NAMES = list(KINDS)
SMOOTH = ["normal", "unif", "walk", "tones", "tones_trend", "chirp", "burst", "am", "few", "lownoise", "offsetnoise", "decades"]
OSC = [k for k in NAMES if k not in ("const", "line", "mono", "spike")]


def signal(rng, n=None, kinds=None, lo=2, hi=400, scaled=True):
    k = str(rng.choice(kinds or NAMES))
    if n is None:
        n = length(rng, lo, hi)
    t = np.arange(n) / max(n, 1)
    s = np.array(KINDS[k](rng, n, t) * np.ones(n), dtype=np.float64)
    if scaled:
        if rng.random() < .35:
            s = s * float(rng.choice([1e-3, 1e3, 1e6, 1e-6, 7.3, 0.11]))
        if rng.random() < .2:
            s = s + float(rng.choice([10., -10., 1e4]))
    return k, s


INTS = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64"]


def typed(rng, S, tiny=True):
    """the same kind of signal in another number type or at an extreme amplitude; every value is exact in its type"""
    m = int(rng.integers(0, 4 if tiny else 3))
    if m < 2:
        dt = str(rng.choice(INTS))
        i = np.iinfo(dt)
        a = max(float(np.max(np.abs(S - np.mean(S)))), 1e-300)
        lo, hi = (float(i.min), float(i.max)) if rng.random() < .6 else (max(float(i.min), -9.), 9.)
        lo, hi = max(lo, -2. ** 50), min(hi, 2. ** 50)  # exact as a double
        x = np.round((S - np.mean(S)) / a * (hi - lo) / 2 + (hi + lo) / 2)
        return np.clip(x, lo, hi).astype(dt), dt
    if m == 2:
        dt = str(rng.choice(["float32", "float16", ">f8", ">i2", "longdouble"]))
        if dt == "longdouble":
            return S.astype(dt), dt
        return (np.clip(S, -2000, 2000) * (10 if dt == ">i2" else 1)).astype(dt), dt
    k = float(rng.choice([1e-170, 1e-300, 1e200, 1e290]))
    return S / max(float(np.max(np.abs(S))), 1e-300) * k, "x%g" % k


def pm(rng):
    return float(rng.choice([-1, 1]))


def config(rng, splines=None, detection=None, stops=None, thresholds=True):
    c = dict(spline_kind=str(rng.choice(splines or (["cubic"] * 3 + SPLINES))),
             extrema_detection=str(rng.choice(detection or ["simple", "simple", "parabol"])),
             nbsym=int(rng.choice([1, 2, 2, 2, 3, 4, 5, 8])))
    m = str(rng.choice(stops or ["default", "default", "FIXE", "FIXE_H", "cap"]))
    if m == "FIXE":
        c["FIXE"] = int(rng.choice([1, 1, 2, 3, 4, 5, 8, 10, 12]))
        if rng.random() < .1:
            c["FIXE_H"] = int(rng.integers(1, 6))  # FIXE has precedence
    elif m == "FIXE_H":
        c["FIXE_H"] = int(rng.integers(1, 9))
    elif m == "cap":
        c["MAX_ITERATION"] = int(rng.choice([2, 3, 4, 5, 10, 30]))
        if rng.random() < .5:
            c[str(rng.choice(["FIXE", "FIXE_H"]))] = int(rng.integers(1, 9))
    if thresholds and rng.random() < .4:
        for name, vals in (("energy_ratio_thr", [.01, .05, .2, .8]), ("std_thr", [.01, .2, 2., 50.]), ("svar_thr", [1e-6, 1e-3, .1, 1.]),
                           ("total_power_thr", [1e-6, .005, 1., 20.]), ("range_thr", [1e-6, .001, .1, 1.])):
            if rng.random() < .5:
                c[name] = float(rng.choice(vals))
    return c


def taxis(rng, n, wild=False):
    """strictly increasing time axis; unless wild, steps differ by at most a factor of about ten (see DESIGN.md, limits)"""
    m = int(rng.integers(0, 7))
    if m == 0:
        T = np.arange(n, dtype=float)
    elif m == 1:
        T = np.linspace(0, 1, n)
    elif m == 2:
        T = np.cumsum(rng.uniform(.2, 2., n))
    elif m == 3:
        T = np.cumsum(rng.exponential(1., n) + .05 if wild else np.clip(rng.exponential(.5, n), .15, 1.4))
    elif m == 4:
        T = np.sort(rng.choice(20 * n, size=n, replace=False)).astype(float) if wild else np.cumsum(rng.integers(1, 9, n)).astype(float)
    elif m == 5:
        T = np.arange(n) * float(rng.choice([1e-6, 1e-3, 1e4])) + rng.normal() * 10
        if not np.all(np.diff(T) > 0):
            T = np.arange(n, dtype=float)
    else:
        T = np.arange(n, dtype=float) + rng.uniform(-.3, .3, n)
    return np.ascontiguousarray(T)


def deep(rng):
    """a long signal and settings that extract many (15-40) components"""
    n = int(rng.integers(1200, 2600))
    S = np.cumsum(rng.normal(size=n))
    return S, dict(spline_kind=str(rng.choice(["pchip", "pchip", "linear", "slinear"])), extrema_detection="simple", nbsym=int(rng.choice([1, 2, 3])), FIXE=int(rng.choice([60, 100, 150])))


def number(rng, m):
    """the same integer as a Python or numpy one"""
    return [m, m, np.int64(m), np.int32(m), np.int16(m)][int(rng.integers(0, 5))]


def max_imf(rng):
    return int(rng.choice([-1, -1, -1, 0, 1, 2, 3, 4, 6]))
