import numpy as np
from vm import gen, ref, util
RULE = ("one case = one real decomposition; every returned component is compared with the executable sifting model started from the residue of the real previous "
        "components (extrema, mirroring, splines, stopping rule all recomputed); distinct non-trivial = distinct (kind, config, row, number of sifts) rows decided")
CASES = {"quick": 3400, "thorough": 60000}


def case(c):
    r = c.rng
    kind, S = gen.signal(r, hi=300, kinds=gen.OSC if r.random() < .9 else None)
    cfg = gen.config(r, stops=["default", "default", "FIXE", "FIXE_H", "FIXE_H", "cap"])
    if r.random() < .3:  # separate the three convergence tests from each other
        pick = str(r.choice(["energy_ratio_thr", "std_thr", "svar_thr"]))
        for k, v in (("energy_ratio_thr", [.001, .01, .05, .2, .5]), ("std_thr", [.1, 2., 50., 1e3]), ("svar_thr", [1e-5, 1e-3, .1, 1.])):
            cfg[k] = float(r.choice(v)) if k == pick else 0.
    T = gen.taxis(r, len(S)) if r.random() < .3 else None
    m = gen.max_imf(r)
    if c.idx % 100 == 7:
        (S, cfg), kind, T, m = gen.deep(r), "deep", None, -1
    c.note(kind=kind, S=S, cfg=cfg, T=T, max_imf=m)
    e = util.make_emd(r, cfg)
    e.emd(S, T, max_imf=m)
    imfs, _ = e.get_imfs_and_residue()
    c.ev()
    rows = util.judged(c, S, imfs, cfg, T, m)
    for w in rows:
        if w.status == "ok" and w.sifts:
            c.sig(kind, cfg["spline_kind"], cfg["extrema_detection"], util.stop_of(cfg), cfg["nbsym"], w.i, w.sifts)
    c.sample(kind=kind, N=len(S), cfg=cfg, max_imf=m, sifts=[w.sifts for w in rows], status=[w.status for w in rows])
