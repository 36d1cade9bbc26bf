"""Shared reference filter (textbook Gaussian conditioning), on symbolic or float arrays."""
from symjax.harness import *


def symmat(h, name, n, diag=(0.6, 1.6), off=(-0.2, 0.2)):
    """Arbitrary symmetric matrix (sampled well conditioned and positive for replay)."""
    a = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(i, n):
            a[i, j] = a[j, i] = h.ctx.var(f"{name}{i}{j}", False, *(diag if i == j else off))
    return a


def kalman_update(m, P, H, c, R):
    """Posterior moments of x ~ N(m, P) given 0 = c + H (x - m) + N(0, R)."""
    S = H @ P @ H.T + R
    PH = P @ H.T
    K = PH @ inv_sym(S)
    return m - K @ c, P - K @ PH.T, S


def filt(m, P, A, Q, xi, R, obs, ts):
    """obs(m, t) -> (c, H)."""
    hist = []
    for t in ts:
        m, P = A @ m + xi, A @ P @ A.T + Q
        c, H = obs(m, t)
        m, P, S = kalman_update(m, P, H, c, R)
        hist.append((S, c))
    return m, P, hist
