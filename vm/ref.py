"""Executable reference model of plain EMD, written from the definition (run-length extrema, explicit mirroring, library splines).

It is used as a monitor oracle: `judge` checks every component a real decomposition returned, starting each time from the
residue left by the *real* previous components, so that rounding does not accumulate.  When model and code differ, the
model is replayed with injected rounding noise; if the replays disagree with each other the decision was made by rounding
and the row is reported as ambiguous (not judged)."""
import numpy as np
from scipy.interpolate import Akima1DInterpolator, CubicHermiteSpline, CubicSpline, PchipInterpolator, make_interp_spline

DEF = dict(spline_kind="cubic", extrema_detection="simple", nbsym=2, FIXE=0, FIXE_H=0, MAX_ITERATION=1000, energy_ratio_thr=.2,
           std_thr=.2, svar_thr=.001, total_power_thr=.005, range_thr=.001)


def full(cfg):
    c = dict(DEF)
    c.update(cfg)
    return c


# ------------------------------------------------------------------ extrema
def _runs(S):
    ch = np.flatnonzero(S[1:] != S[:-1])
    return np.r_[0, ch + 1], np.r_[ch, len(S) - 1]


def _mid(a, b):
    return np.round((a + b) / 2.0).astype(int)  # half to even


def turning(S):
    """(starts, ends) of runs that are strict maxima / minima, not touching either end"""
    st, en = _runs(S)
    v = S[st]
    k = np.arange(1, len(st) - 1)
    mx = k[(v[k] > v[k - 1]) & (v[k] > v[k + 1])] if len(k) else k
    mn = k[(v[k] < v[k - 1]) & (v[k] < v[k + 1])] if len(k) else k
    return (st[mx], en[mx]), (st[mn], en[mn])


def zeros(S):
    """zero crossings: index before a sign change, and the middle of each run of zeros"""
    neg, pos = S < 0, S > 0
    out = list(np.flatnonzero((neg[:-1] & pos[1:]) | (pos[:-1] & neg[1:])))
    st, en = _runs(S)
    z = S[st] == 0
    out += list(_mid(st[z], en[z]))
    return np.sort(np.array(out, dtype=float))


def extrema_simple(S):
    (a, b), (c, d) = turning(S)
    return _mid(a, b), _mid(c, d)


def _vertex(T, S, p, i, n):
    hp, hn = T[i] - T[p], T[n] - T[i]
    sp, sn = (S[i] - S[p]) / hp, (S[n] - S[i]) / hn
    a = (sn - sp) / (hp + hn)
    b = (sp * hn + sn * hp) / (hp + hn)
    d = -b / (2 * a)
    return T[i] + d, S[i] + .5 * b * d


def extrema_parabol(T, S):
    out = []
    for st, en in turning(S):
        p = np.where(st == en, st - 1, st)
        t, v = _vertex(T, S, p, en, en + 1)
        out += [t, v]
    return out  # max_pos, max_val, min_pos, min_val


def find(T, S, det):
    if det == "simple":
        mx, mn = extrema_simple(S)
        return T[mx], S[mx], T[mn], S[mn]
    return extrema_parabol(T, S)


# ------------------------------------------------------------------ mirroring
def _left(t0, s0, A, B, a_is_max, nb, simple):
    """Mirrored points left of t0; A: kind of the first extremum, B: the other. Each (pos, val). Outermost first."""
    (ap, av), (bp, bv) = A, B
    inside = s0 > bv[0] if a_is_max else s0 < bv[0]
    if simple:
        if inside:
            sp = ap[1:nb + 1], av[1:nb + 1]
            if len(sp[0]) == 0:
                sp = ap, av
            q = bp[:nb], bv[:nb]
            if 2 * ap[0] - np.max(sp[0]) <= t0 and 2 * ap[0] - np.max(q[0]) <= t0:
                sym, A_, B_ = ap[0], sp, q
            else:
                sym, A_, B_ = t0, (ap[:nb], av[:nb]), q
        else:
            sym, A_, B_ = t0, (ap[:nb], av[:nb]), (np.r_[t0, bp[:nb - 1]], np.r_[s0, bv[:nb - 1]])
    else:
        if inside and len(ap) > 1 and bp[0] - ap[0] > ap[0] - t0:
            sym, A_, B_ = ap[0], (ap[1:nb + 1], av[1:nb + 1]), (bp[:nb], bv[:nb])
        else:
            sym, A_, B_ = t0, (ap[:nb], av[:nb]), (np.r_[t0, bp[:nb - 1]], np.r_[s0, bv[:nb - 1]])
    f = lambda X: (2 * sym - X[0][::-1], X[1][::-1])
    return f(A_), f(B_)


def _oneside(T, S, mx, mn, nb, simple):
    if mx[0][0] < mn[0][0]:
        a, b = _left(T[0], S[0], mx, mn, True, nb, simple)
    else:
        b, a = _left(T[0], S[0], mn, mx, False, nb, simple)
    return a, b  # left of max, left of min


def knots(T, S, det, nb, noise=None):
    mp, mv, np_, nv = find(T, S, det)
    if noise is not None and det != "simple":  # vertex positions carry rounding errors of their own
        j = lambda x: x + 1e-13 * (abs(T[-1]) + 1) * noise.normal(size=len(x))
        mp, np_ = j(mp), j(np_)
        w = lambda x: x + 1e-14 * np.abs(S).max() * noise.normal(size=len(x))
        mv, nv = w(mv), w(nv)
    simple = det == "simple"
    mx, mn = (mp, mv), (np_, nv)
    lmx, lmn = _oneside(T, S, mx, mn, nb, simple)
    rev = lambda X: (-X[0][::-1], X[1][::-1])
    rmx, rmn = _oneside(-T[::-1], S[::-1], rev(mx), rev(mn), nb, simple)
    rmx, rmn = rev(rmx), rev(rmn)
    out = []
    for l, c, r in ((lmx, mx, rmx), (lmn, mn, rmn)):
        p, v = np.r_[l[0], c[0], r[0]], np.r_[l[1], c[1], r[1]]
        keep = np.r_[True, p[1:] != p[:-1]]
        out.append(np.array([p[keep], v[keep]]))
    return out


# ------------------------------------------------------------------ splines
def spline(kind, x, y, T):
    if kind == "cubic":
        if len(x) > 3:
            return make_interp_spline(x, y, k=3)(T)
        return CubicSpline(x, y, bc_type="natural")(T)
    if kind == "akima":
        return Akima1DInterpolator(x, y)(T)
    if kind == "pchip":
        return PchipInterpolator(x, y)(T)
    if kind == "cubic_hermite":
        h = np.diff(x)
        d = np.diff(y) / h
        g = np.empty(len(x))
        g[0], g[-1] = d[0], d[-1]
        g[1:-1] = (h[1:] * d[:-1] + h[:-1] * d[1:]) / (h[1:] + h[:-1])
        return CubicHermiteSpline(x, y, g)(T)
    if kind in ("linear", "slinear"):
        return np.interp(T, x, y)
    if kind == "quadratic":
        return make_interp_spline(x, y, k=2)(T)
    raise ValueError(kind)


def envelopes(T, S, cfg, noise=None):
    kx, kn = knots(T, S, cfg["extrema_detection"], cfg["nbsym"], noise)
    return spline(cfg["spline_kind"], kx[0], kx[1], T), spline(cfg["spline_kind"], kn[0], kn[1], T), kx, kn


# ------------------------------------------------------------------ sifting
def counts(T, S):
    (a, _), (b, _) = turning(S)
    return len(a) + len(b), len(zeros(S))


def converged(new, old, kx, kn, c):
    if np.any(kx[1] < 0) or np.any(kn[1] > 0) or np.sum(new ** 2) < 1e-10:
        return False
    d = new - old
    dd = np.sum(d * d)
    with np.errstate(all="ignore"):
        return bool(dd / (old.max() - old.min()) < c["svar_thr"] or np.sum((d / new) ** 2) < c["std_thr"]
                    or dd / np.sum(old * old) < c["energy_ratio_thr"])


def sift(start, T, c, noise=None, eps=1e-13, info=None):
    """One component from residue `start`. Returns (imf, extrema left, ran out of extrema?, number of sifts, sig)."""
    h = np.array(start, dtype=np.float64)
    run = 0
    ext = None
    sifts = 0
    for n in range(1, c["MAX_ITERATION"]):
        ext, nz = counts(T, h)
        if ext <= 2:
            return h, ext, True, sifts
        up, lo, kx, kn = envelopes(T, h, c, noise)
        old = h
        h = old - .5 * (up + lo)
        sifts += 1
        if info is not None:  # could rounding have created or destroyed an extremum or a zero crossing?
            lim = 1e-11 * max(np.abs(up).max(), np.abs(lo).max(), np.abs(old).max())
            if np.any(np.abs(np.diff(h)) <= lim) or np.any(np.abs(h) <= lim):
                info["tie"] = True
        if noise is not None:
            h = h + eps * max(np.abs(up).max(), np.abs(lo).max(), np.abs(old).max()) * noise.normal(size=len(h))
        if c["FIXE"]:
            if n >= c["FIXE"]:
                break
        elif c["FIXE_H"]:
            ext, nz = counts(T, h)
            if n == 1:
                continue
            run = run + 1 if abs(ext - nz) <= 1 else 0
            if run >= c["FIXE_H"]:
                break
        else:
            ext, nz = counts(T, h)
            if abs(ext - nz) <= 1 and converged(h, old, kx, kn, c):
                break
    return h, ext, False, sifts


def ended(S, rows, c):
    r = S - np.sum(rows, axis=0)
    return bool(r.max() - r.min() < c["range_thr"] or np.sum(np.abs(r)) < c["total_power_thr"])


def axis(S, T, cfg):
    """axis the model works on"""
    if T is None or cfg["extrema_detection"] == "simple":
        return np.arange(len(S), dtype=np.float64)
    T = np.asarray(T, dtype=np.float64)
    return (T - T[0]) / np.min(np.diff(T))


EPS = (1e-13, 1e-15, 1e-16, 1e-14, 1e-12, 1e-17, 3e-16)


def _step(S, prev, T, c, max_imf, noise, eps=1e-13, info=None):
    i = len(prev)
    start = S - np.sum(prev, axis=0)
    if noise is not None and i > 0:
        start = start + 1e-15 * np.abs(S).max() * noise.normal(size=len(S))
    h, ext, trend, sifts = sift(start, T, c, noise, eps, info)
    rows = np.vstack((prev, h))
    last = trend or ended(S, rows, c) or i + 1 == max_imf
    keep = not (last and ext is not None and ext <= 2)
    return h, last, keep, sifts


class Row:
    __slots__ = ("i", "status", "msg", "sifts", "final", "diff", "kind")

    def __init__(self, i, status, msg="", sifts=0, final="", diff=0., kind=""):
        self.i, self.status, self.msg, self.sifts, self.final, self.diff, self.kind = i, status, msg, sifts, final, diff, kind


def judge(S, imfs, cfg, T=None, max_imf=-1, reps=7, rtol=1e-7, atol=1e-9, maxrows=40):
    """Check the (real) components `imfs` of signal S, one by one, against the model. Returns list of Row."""
    c = full(cfg)
    S = np.asarray(S, dtype=np.float64)
    X = axis(S, T, c)
    out = []
    K = len(imfs)
    empty = np.empty((0, len(S)))
    for i in range(min(K, maxrows) + 1):
        if i > maxrows:
            break
        prev = np.vstack((empty, imfs[:i])) if i else empty
        base = _step(S, prev, X, c, max_imf, None)

        def outcome(r):
            return "stop:drop" if r[1] and not r[2] else ("stop:keep" if r[1] else "go")

        def agree(r):
            h, o = r[0], outcome(r)
            if o == "stop:drop":
                return K == i, np.inf
            if i >= K:
                return False, np.inf
            d = float(np.max(np.abs(h - imfs[i]))) if len(h) else 0.
            ok = d <= atol * 1e-3 + rtol * max(np.abs(imfs[i]).max(), np.abs(prev[0]).max() if i else 0, 1e-300)
            return ok and (o != "stop:keep" or K == i + 1) and (o != "go" or K >= i + 1), d

        ok, d = agree(base)
        if ok:
            out.append(Row(i, "ok", sifts=base[3], final=outcome(base), diff=d if np.isfinite(d) else 0.))
            if base[1]:
                break
        else:
            spread, disc, anyok = 0., False, False
            info = {}
            _step(S, prev, X, c, max_imf, None, info=info)
            if not c["FIXE"] or c["FIXE"] > 1:
                disc = "tie" in info
            for k in range(reps):
                r = _step(S, prev, X, c, max_imf, np.random.default_rng(1000 + k), EPS[k % len(EPS)])
                o2, d2 = agree(r)
                anyok |= o2
                if outcome(r) != outcome(base) or r[3] != base[3]:
                    disc = True
                spread = max(spread, float(np.max(np.abs(r[0] - base[0]))))
            scale = max(np.abs(S - np.sum(prev, axis=0)).max(), 1e-300)
            if anyok or disc or (np.isfinite(d) and d <= 100 * spread) or spread > 1e-6 * scale:
                out.append(Row(i, "ambiguous", sifts=base[3], final=outcome(base), diff=spread))
                if i >= K - 1:
                    break  # whether the code had to stop here was part of the undecidable step
            else:
                o = outcome(base)
                kind = "stop" if i >= K or o == "stop:drop" or (o == "stop:keep" and K != i + 1) else "value"
                out.append(Row(i, "bad", "row %d: model says %s after %d sifts, code has %d components, max difference %g (rounding spread %g, scale %g)"
                               % (i, outcome(base), base[3], K, d, spread, scale), base[3], outcome(base), d, kind))
                return out
        if i >= K:
            break
    return out


def decompose(S, cfg, T=None, max_imf=-1, noise=None, cap=60):
    c = full(cfg)
    S = np.asarray(S, dtype=np.float64)
    X = axis(S, T, c)
    rows = np.empty((0, len(S)))
    while len(rows) < cap:
        h, last, keep, _ = _step(S, rows, X, c, max_imf, noise)
        if not last:
            rows = np.vstack((rows, h))
            continue
        if keep:
            rows = np.vstack((rows, h))
        break
    return rows


def robust(S, cfg, T=None, max_imf=-1, reps=5, tol=1e-6):
    """Is the decomposition of S determined by more than rounding? Returns (bool, spread relative to the signal's scale)."""
    base = decompose(S, cfg, T, max_imf)
    scale = max(np.abs(S - np.mean(S)).max(), 1e-300)
    spread = 0.
    for k in range(reps):
        r = decompose(S, cfg, T, max_imf, np.random.default_rng(77 + k))
        if r.shape != base.shape:
            return False, np.inf
        if r.size:
            spread = max(spread, float(np.abs(r - base).max()) / scale)
    return spread < tol, spread


def diverges(S, cfg, T=None, max_imf=-1, factor=1e3, seconds=40):
    """Does sifting itself blow up on this input (successive components ever larger than the signal)? Decided on the model."""
    import time
    c = full(cfg)
    S = np.asarray(S, dtype=np.float64)
    X = axis(S, T, c)
    rows = np.empty((0, len(S)))
    big, end = factor * max(np.abs(S).max(), 1e-300), time.time() + seconds
    try:
        while time.time() < end and len(rows) < 400:
            h, last, _, _ = _step(S, rows, X, c, max_imf, None)
            if not np.all(np.isfinite(h)) or np.abs(h).max() > big:
                return True
            if last:
                return False
            rows = np.vstack((rows, h))
    except Exception:
        return False
    return False
