"""Synthetic SIS junctions with exactly known parameters (SI units).

The DC I-V curve is odd and piecewise linear: a sub-gap line through the origin
(resistance ``rsg``), a steep transition between ``va`` and ``vb``, and the
normal-state line ``(v - vint) / rn``.
"""

import numpy as np

E_H = 1.602176634e-19 / 6.62607015e-34  # e / h


class Junction(object):

    def __init__(self, va=2.76e-3, vb=2.84e-3, rn=14., rsg=300., vint=.2e-3):
        self.va, self.vb, self.rn, self.rsg, self.vint = va, vb, rn, rsg, vint
        self.ia = va / rsg
        self.ib = (vb - vint) / rn
        self.slope = (self.ib - self.ia) / (vb - va)

    @property
    def vgap(self):
        """Half-way up the transition, measured from zero current, at half of
        the current where the transition meets the normal-state line."""
        return self.va + (self.ib / 2 - self.ia) / self.slope

    @property
    def igap(self):
        return self.vgap / self.rn

    @property
    def fgap(self):
        return self.vgap * E_H

    def i(self, v):
        v = np.asarray(v, dtype=float)
        a = np.abs(v)
        out = np.where(a <= self.va, a / self.rsg,
                       np.where(a <= self.vb, self.ia + self.slope * (a - self.va), (a - self.vint) / self.rn))
        return np.sign(v) * out

    def grid(self, vlim=7e-3, step=1e-5, lo=None):
        """Sample voltages; the corners are always among them."""
        n = int(round(vlim / step))
        v = np.arange(-n, n + 1) * step
        v = np.unique(np.r_[v, [-self.vb, -self.va, self.va, self.vb]])
        # no two samples closer than a thousandth of a step (the corners may be on the grid already)
        keep = np.r_[True, np.diff(v) > step * 1e-3]
        v = v[keep]
        return v if lo is None else v[v >= lo - step * 1e-3]
