"""Reference Kramers-Kronig transform: exact principal value for a piecewise linear curve.

kk(v0) = (1/pi) P.V. integral (i(v) - v) / (v - v0) dv   over the tabulated range.
"""

import numpy as np


def kk_exact(v, i, v0):
    """v, i: samples (linear in between); v0: a point strictly inside, not a node."""
    g = np.asarray(i, float) - np.asarray(v, float)
    a, b = v[:-1], v[1:]
    m = (g[1:] - g[:-1]) / (b - a)
    # g = ga + m (x - a); integral = m (b - a) + (ga + m (v0 - a)) ln|(b - v0) / (a - v0)|
    return float(np.sum(m * (b - a) + (g[:-1] + m * (v0 - a)) * np.log(np.abs((b - v0) / (a - v0)))) / np.pi)
