import time
import numpy as np
from vm import gen, ref, util
RULE = ("one case = decompositions of one signal with default thresholds and with range/power thresholds placed between the values its residues take, so that the stop "
        "must move to a chosen component; the monitor compares the observed number of components with the stop rule recomputed from the returned components and the model's "
        "last candidate; a logical bound on end-of-component events watches termination; distinct non-trivial = distinct (kind, config, reason, K)")
CASES = {"quick": 2400, "thorough": 45000}
BOUND = 2000
TIMEOUT = 150


def run(c, r, S, cfg, T, m):
    from PyEMD import EMD

    class Watched(EMD):
        n = 0

        def end_condition(self, *a, **k):
            self.n += 1
            if self.n > BOUND:
                c.fail("more than %d components extracted from %d samples" % (BOUND, len(S)))
            return super().end_condition(*a, **k)
    e = util.make_emd(r, cfg, Watched)
    out = e.emd(S, T, max_imf=m)
    c.count("component events observed", e.n)
    imfs, res = e.get_imfs_and_residue()
    c.ev()
    return out, np.array(imfs, dtype=np.float64), np.array(res)


def monitor(c, S, imfs, cfg, T, m, tag):
    f = ref.full(cfg)
    K = len(imfs)
    S = np.asarray(S, dtype=np.float64)
    eps = 1e-9
    for k in range(1, K):  # the code went on after component k: nothing must have told it to stop
        R = S - np.sum(imfs[:k], axis=0)
        rg, pw = np.ptp(R), np.sum(np.abs(R))
        c.check(not (rg < f["range_thr"] * (1 - eps)), "went on after component %d although the residue's range %g is below %g" % (k, rg, f["range_thr"]), imfs=imfs)
        c.check(not (pw < f["total_power_thr"] * (1 - eps)), "went on after component %d although the residue's power %g is below %g" % (k, pw, f["total_power_thr"]), imfs=imfs)
        c.check(k != m, "went on past the limit %d" % m, imfs=imfs)
        ext = ref.counts(None, R)[0]
        c.check(ext > 2, "went on after component %d although the residue has only %d extrema" % (k, ext), imfs=imfs)
        c.count("continue decisions")
    R = S - np.sum(imfs, axis=0)
    rg, pw = np.ptp(R), np.sum(np.abs(R))
    ext = ref.counts(None, R)[0]
    reason = "limit" if 0 < m <= K else "range" if rg < f["range_thr"] and K else "power" if pw < f["total_power_thr"] and K else "extrema" if ext <= 2 else "candidate"
    c.count("stop by " + reason)
    if reason == "candidate" or K == 0:
        # the only remaining legitimate reason: the next candidate ran out of extrema while being sifted
        util.judged(c, S, imfs, cfg, T, m, kinds=("stop",))
    c.sig(tag, cfg["extrema_detection"], cfg["spline_kind"], util.stop_of(cfg), reason, K)
    return reason


def case(c):
    r = c.rng
    kind, S = gen.signal(r, hi=300)
    place = False
    cfg = gen.config(r, stops=["default", "default", "FIXE", "FIXE_H", "cap"])
    if r.random() < .15:
        dt = str(r.choice(["float32", "float16", "int8", "int16", "int32"]))
        s = S / util.ampl(S)
        S = (s * (1 if dt.startswith("f") else 100)).astype(dt)
    T = gen.taxis(r, len(S)) if r.random() < .3 else None
    m = gen.max_imf(r)
    if c.idx % 60 == 7:
        (S, cfg), kind, T, m = gen.deep(r), "deep", None, int(r.choice([-1, -1, 18]))
    if c.idx % 40 == 13:  # long signals whose thresholds are placed too
        kind, S = gen.signal(r, n=int(r.integers(1000, 5000)), kinds=["tones_trend", "am"], scaled=bool(r.random() < .3))
        cfg, T, m, place = gen.config(r, stops=["FIXE"]), None, -1, True
    c.note(kind=kind, S=S, cfg=cfg, T=T, max_imf=m)
    out, imfs, res = run(c, r, S, cfg, T, m)
    monitor(c, S, imfs, cfg, T, m, kind)
    if kind in ("const", "line", "mono") or ref.counts(None, np.asarray(S, float))[0] == 0:
        if np.all(np.diff(np.asarray(S, float)) >= 0) or np.all(np.diff(np.asarray(S, float)) <= 0):
            c.check(len(imfs) == 0, "monotonic input has oscillatory components", imfs=imfs)
            c.count("monotonic inputs")
    # thresholds between the values of the residues of the unlimited run
    base = {k: v for k, v in cfg.items()}
    base["range_thr"] = base["total_power_thr"] = 1e-6 * util.ampl(S)
    S64 = np.asarray(S, dtype=np.float64)
    if len(S) > 300 and not place or 200 < len(S) <= 300 and r.random() < .5:
        return
    c.note(cfg=base, max_imf=-1)
    t0 = time.time()
    _, F, _ = run(c, r, S, base, T, -1)
    slow = time.time() - t0 > 8  # hundreds of components of a tiny signal, each sifted to the iteration limit
    monitor(c, S, F, base, T, -1, kind)
    K = len(F)
    if slow:
        c.count("slow decompositions (placements skipped)")
    elif K >= 2:
        rg = [np.ptp(S64 - F[:k].sum(0)) for k in range(1, K + 1)]
        pw = [np.sum(np.abs(S64 - F[:k].sum(0))) for k in range(1, K + 1)]
        for name, vals in (("range_thr", rg), ("total_power_thr", pw)):
            k = int(r.integers(0, K))
            for f in (1 + 1e-6, 1 - 1e-6):
                thr = vals[k] * f
                if thr < base[name]:  # the unlimited run itself stopped earlier: it does not say what comes next
                    continue
                cfg2 = dict(base)
                cfg2[name] = thr
                c.note(cfg=cfg2)
                _, L, _ = run(c, r, S, cfg2, T, -1)
                exp = next((j + 1 for j in range(K) if vals[j] < thr), K)
                c.check(np.array_equal(L, F[:len(L)]), "threshold changed the components themselves", L=L, F=F)
                if len(L) != exp:
                    ext = ref.counts(None, F[exp - 1])[0]
                    ok = len(L) == exp - 1 and (ext <= 2 or "MAX_ITERATION" in cfg)  # last one left with too few extrema becomes residue
                    c.check(ok, "%s=%r: expected to stop after component %d (values %s), got %d components" % (name, thr, exp, vals[:12], len(L)), L=L, F=F)
                c.count("threshold placements")
    c.sample(kind=kind, N=len(S), cfg=cfg, K=K)
