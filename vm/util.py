import numpy as np
from vm import gen, ref
from vm.core import Inconclusive


class StepBound(Exception):
    pass


def make_emd(rng, cfg, cls=None):
    """Configure through the constructor or by attributes (both are documented)."""
    from PyEMD import EMD
    cls = cls or EMD
    cfg = dict(cfg)
    if rng is not None and rng.random() < .25:
        cfg["spline_kind"] = cfg.get("spline_kind", "cubic").upper()
    if rng is None or rng.random() < .6:
        return cls(**cfg)
    e = cls()
    for k, v in cfg.items():
        setattr(e, k, v)
    return e


def tol_sum(rows, S):
    m = max(float(np.max(np.abs(rows))) if np.size(rows) else 0., float(np.max(np.abs(S))))
    return 1e-15 * (len(rows) + 4) * 4 * m


def check_recon(c, out, S, what=""):
    """conservation: out is a finite 2-D float array with rows adding up to S"""
    S = np.asarray(S, dtype=np.float64)
    c.check(isinstance(out, np.ndarray) and out.ndim == 2 and np.issubdtype(out.dtype, np.floating), what + "result is not a 2-D float array", out=out)
    c.check(out.shape[1] == len(S), what + "rows do not have the signal's length: %s vs %d" % (out.shape, len(S)), out=out)
    c.check(bool(np.all(np.isfinite(out))), what + "non-finite component values", out=out)
    d = float(np.max(np.abs(np.sum(out, axis=0) - S))) if len(S) else 0.
    t = 1e-8 * 1.0000001 + tol_sum(out, S)
    c.maxi("largest reconstruction error", d)
    c.check(d <= t, what + "components do not add up to the signal: error %g (allowed %g)" % (d, t), out=out)


def same(a, b):
    """bit for bit the same (nan-safe)"""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def close(a, b, scale, tol=1e-7):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and (a.size == 0 or bool(np.max(np.abs(a - b)) <= tol * max(scale, 1e-300)))


def spread(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    return float(np.max(np.abs(a - b))) if a.size else 0.


def ampl(S):
    S = np.asarray(S, dtype=np.float64)
    return float(max(np.max(np.abs(S)), 1e-300))


def layout(rng, S):
    """same values, other memory layout (read-only / strided / negative stride)"""
    m = int(rng.integers(0, 5))
    S = np.asarray(S)
    if m == 0:
        out = S.copy(); out.setflags(write=False); return out, "readonly"
    if m == 1:
        b = np.zeros(2 * len(S), dtype=S.dtype); b[::2] = S; return b[::2], "strided"
    if m == 2:
        return S[::-1].copy()[::-1], "negstride"
    if m == 3:
        b = np.zeros((len(S), 3), dtype=S.dtype); b[:, 1] = S; return b[:, 1], "column"
    return S.copy(), "plain"


def judged(c, S, imfs, cfg, T, m, kinds=("value", "stop"), **kw):
    """Run the model monitor over the components; count what was decided; fail on a disagreement of the given kinds."""
    rows = ref.judge(S, imfs, cfg, T, m, **kw)
    for r in rows:
        if r.status == "bad":
            if r.kind in kinds:
                c.fail(r.msg, imfs=imfs)
            c.count("rows with a disagreement judged by another property")
        else:
            c.count("rows " + r.status)
            c.count("sifts modelled", r.sifts)
            c.count("decision " + r.final)
    return rows


def settled(c, S, cfg, T=None, m=-1):
    """True when the decomposition does not hinge on rounding, i.e. a mismatch between two equivalent runs is a real one."""
    ok, sp = ref.robust(S, cfg, T, m)
    if not ok:
        c.count("ambiguous (decided by rounding)")
    return ok


def stop_of(cfg):
    return "FIXE" if cfg.get("FIXE") else "FIXE_H" if cfg.get("FIXE_H") else "default"


def ce_settled(c, S, cfg, trials, seed, eps, m, noise_kind="normal"):
    """CEEMDAN: does the outcome hinge on rounding of the averages? (True = it does not)"""
    from vm import cmodel
    from PyEMD import CEEMDAN, EMD
    tw = CEEMDAN(trials=trials, noise_kind=noise_kind, parallel=False)
    tw.noise_seed(seed)
    W = np.asarray(tw.generate_noise(1., (trials, len(S))))
    try:
        base = cmodel.ceemdan(S, EMD(**cfg), W, eps, None, m)[0]
        d = max(spread(base, cmodel.ceemdan(S, EMD(**cfg), W * (1 + 1e-14 * g.normal(size=W.shape)), eps, None, m, jitter=g)[0]) for g in map(np.random.default_rng, range(6)))
    except cmodel.Degenerate:
        return False
    ok = d <= 1e-7 * ampl(S)
    if not ok:
        c.count("ambiguous (decided by rounding)")
    return ok
