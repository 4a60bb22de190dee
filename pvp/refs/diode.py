"""Scalar single-diode model, solved by bracketing in the diode voltage."""
import math

from scipy.optimize import brentq

INF = float('inf')


class Diode:
    def __init__(self, IL, I0, Rs, Rsh, a, d2mutau=0., NsVbi=INF, bf=0.,
                 vbr=-5.5, bexp=3.28):
        self.IL, self.I0, self.Rs, self.Rsh, self.a = IL, I0, Rs, Rsh, a
        self.d2, self.nb, self.bf, self.vbr, self.bexp = (
            d2mutau, NsVbi, bf, vbr, bexp)

    def i(self, vd):
        r = self.IL - self.I0 * math.expm1(vd / self.a)
        r -= vd / self.Rsh
        if self.d2 > 0:
            r -= self.IL * self.d2 / (self.nb - vd)
        if self.bf:
            r -= self.bf * vd / self.Rsh * (1 - vd / self.vbr)**-self.bexp
        return r

    def v(self, vd):
        return vd - self.i(vd) * self.Rs

    def p(self, vd):
        i = self.i(vd)
        return i * (vd - i * self.Rs)

    def top(self):
        """a diode voltage at which the current is negative"""
        hi = self.a * math.log(self.IL / self.I0 + 1) + self.a
        if self.d2 > 0:
            hi = min(hi, self.nb * (1 - 1e-12))
        return hi

    def bottom(self, v):
        """a diode voltage whose voltage is below v"""
        lo = min(v, 0.) - 1e-3
        if self.bf:
            lim = self.vbr * (1 - 1e-9)
            lo = max(lo, lim)
            while self.v(lo) > v and lo > lim:
                lo = (lo + lim) / 2
            return lo
        while self.v(lo) > v:
            lo = 2 * lo
        return lo

    def vd_at_v(self, v):
        hi = max(self.top(), v + 1e-3)
        if self.d2 > 0:
            hi = min(hi, self.nb * (1 - 1e-13))
        while self.v(hi) < v:
            hi += self.a
        return brentq(lambda x: self.v(x) - v, self.bottom(v), hi,
                      xtol=1e-15, rtol=1e-15, maxiter=500)

    def i_at_v(self, v):
        return self.i(self.vd_at_v(v))

    def vd_at_i(self, i):
        hi = self.top()
        while self.i(hi) > i:
            hi += self.a
        lo = 0.
        while self.i(lo) < i:
            lo = 2 * lo - self.a
            if lo < -1e6:
                return math.nan
        return brentq(lambda x: self.i(x) - i, lo, hi, xtol=1e-15,
                      rtol=1e-15, maxiter=500)

    def v_at_i(self, i):
        return self.v(self.vd_at_i(i))

    def mpp_vd(self):
        """diode voltage of the maximum power point (power is concave in
        between)"""
        def dp(x):
            h = 1e-20
            # complex step
            return self._pc(complex(x, h)).imag / h
        hi = self.vd_at_i(0.)
        if hi <= 0 or self.IL == 0:
            return 0.
        lo = self.vd_at_v(0.)
        if dp(lo) <= 0:
            return lo
        return brentq(dp, lo, hi, xtol=1e-15, rtol=1e-14, maxiter=500)

    def _pc(self, vd):
        import cmath
        r = self.IL - self.I0 * (cmath.exp(vd / self.a) - 1) - vd / self.Rsh
        if self.d2 > 0:
            r -= self.IL * self.d2 / (self.nb - vd)
        if self.bf:
            r -= self.bf * vd / self.Rsh * (1 - vd / self.vbr)**-self.bexp
        return r * (vd - r * self.Rs)
