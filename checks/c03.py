import numpy as np
from vm import gen, ref, util
RULE = ("one case = one signal/configuration decomposed without limit and with every limit 1..K+2, 0 and negative ones; the monitor checks that the "
        "limited components are bit for bit the first unlimited ones and how many there are; distinct non-trivial = distinct (kind, config class, K, m) with K>=2")
CASES = {"quick": 900, "thorough": 20000}


def run(e, S, T, m):
    out = e.emd(S, T, max_imf=m)
    imfs, res = e.get_imfs_and_residue()
    return out.copy(), imfs.copy(), res.copy()


def case(c):
    r = c.rng
    kind, S = gen.signal(r, kinds=gen.OSC if r.random() < .9 else None, hi=300)
    cfg = gen.config(r)
    T = gen.taxis(r, len(S)) if r.random() < .3 else None
    c.note(kind=kind, S=S, cfg=cfg, T=T)
    e = util.make_emd(r, cfg)
    o, F, R = run(e, S, T, -1)
    c.ev()
    K = len(F)
    lims = list(range(1, min(K, 8) + 3)) + [0, -int(r.integers(2, 100)), K + 1, K + 10]
    for m in lims:
        m = gen.number(r, m)
        e2 = e if r.random() < .5 else util.make_emd(r, cfg)
        o2, L, R2 = run(e2, S, T, m)
        c.ev()
        if m <= 0 or m > K:
            if m == K + 1 and not util.same(o, o2):
                # the unlimited run may have extracted and dropped a trend candidate as number K+1: still the same result
                pass
            c.check(util.same(o, o2) and util.same(F, L) and util.same(R, R2), "limit %d, which is not reached (%d components), changes the result" % (m, K), out=o2, full=o)
        else:
            c.check(len(L) <= m, "more than %d components" % m, L=L)
            c.check(np.array_equal(L, F[:len(L)]), "components with limit %d are not the first of the unlimited ones" % m, L=L, F=F)
            if len(L) < m:
                ext = ref.counts(None, F[m - 1])[0]
                c.check(len(L) == m - 1 and (ext <= 2 or "MAX_ITERATION" in cfg), "limit %d gave only %d of %d components (the next one has %d extrema)" % (m, len(L), K, ext), L=L)
                c.check(not (cfg.get("FIXE") and "MAX_ITERATION" not in cfg), "component lost under limit %d" % m, L=L)
            util.check_recon(c, o2, S, "limit %d: " % m)
            c.check(len(o2) <= m + 1, "more than limit+residue rows")
        if K >= 2:
            c.sig(kind, cfg["spline_kind"], cfg["extrema_detection"], util.stop_of(cfg), K, m)
        c.count("limits checked")
    c.sample(kind=kind, N=len(S), cfg=cfg, K=K, limits=lims)
