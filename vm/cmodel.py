"""Executable CEEMDAN model; inner decompositions by plain EMD."""
import numpy as np


class Degenerate(Exception):
    """plain EMD left no residue row: the local mean is not visible in its output"""


def first(emd, x, T):
    """(first component, local mean) of x; a signal without component is all local mean"""
    out = emd(x, T, 1)
    imfs, res = emd.get_imfs_and_residue()
    return out, imfs, res


def ceemdan(S, emd, noises, epsilon, T=None, max_imf=-1, beta_progress=True, range_thr=.01, total_power_thr=.05, cap=100, jitter=None):
    """emd: fresh plain EMD instance; returns (rows, margins)"""
    S = np.asarray(S, dtype=np.float64)
    N = len(S)
    sd = np.std(S)
    if sd == 0:
        sd = 1.
    X = S / sd
    if jitter is not None:
        X = X * (1 + 1e-14 * jitter.normal(size=N))
    modes = []
    for w in noises:
        m = emd(w, None, -1)
        if beta_progress:
            m = m / np.std(m[0])
        modes.append(m.copy())
    acc = np.zeros(N)
    for m in modes:
        o = emd(X + epsilon * m[0], T, 1)
        if len(o):
            acc += o[0]
    rows = [acc / len(modes)]
    R = X - rows[0]
    margin = np.inf
    while len(rows) <= cap:
        if 0 < max_imf <= len(rows):
            break
        tot = X - np.sum(rows, axis=0)
        test = emd(tot, None, 1)
        rg, pw = float(np.ptp(tot)), float(np.sum(np.abs(tot)))
        margin = min(margin, abs(rg / range_thr - 1) if range_thr > 0 else np.inf, abs(pw / total_power_thr - 1) if total_power_thr > 0 else np.inf)
        if len(test) == 1 or rg < range_thr or pw < total_power_thr:
            break
        beta = epsilon * np.std(R)
        lm = np.zeros(N)
        k = len(rows)
        for m in modes:
            x = R + (beta * m[k] if len(m) > k else 0)
            emd(x, T, 1)
            imfs, res = emd.get_imfs_and_residue()
            if len(imfs) and np.allclose(res, 0):
                raise Degenerate
            lm = lm + res / len(modes)
        rows.append(R - lm)
        R = lm
    rows.append(X - np.sum(rows, axis=0))
    return np.array(rows) * sd, margin
