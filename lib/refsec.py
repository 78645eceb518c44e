"""Independent reference for the geometry of steel cross-sections.

A section is a set of signed primitive shapes placed in the (y, z) plane:
axis-parallel rectangles and circular quadrants.  Area integrals are evaluated
by Gauss-Legendre quadrature over horizontal or vertical strips."""
import math

import numpy as np

_X, _W = np.polynomial.legendre.leggauss(48)


class Sec:
    def __init__(self):
        self.parts = []          # (sign, kind, args)

    def rect(self, y0, y1, z0, z1, sign=1):
        if y1 > y0 and z1 > z0:
            self.parts.append((sign, 'r', (y0, y1, z0, z1)))
        return self

    def quad(self, yc, zc, r, sy, sz, sign=1):
        """Quarter disc with centre (yc, zc) in the direction (sy, sz)."""
        if r > 0:
            self.parts.append((sign, 'q', (yc, zc, r, sy, sz)))
        return self

    def swapped(self):
        s = Sec()
        for sign, k, a in self.parts:
            if k == 'r':
                s.parts.append((sign, 'r', (a[2], a[3], a[0], a[1])))
            else:
                s.parts.append((sign, 'q', (a[1], a[0], a[2], a[4], a[3])))
        return s

    def _strips(self, cut=None):
        """(sign, z, dz-weight, y0, y1) samples of all parts."""
        for sign, k, a in self.parts:
            if k == 'r':
                y0, y1, z0, z1 = a
                pieces = [(z0, z1)]
                if cut is not None and z0 < cut < z1:
                    pieces = [(z0, cut), (cut, z1)]
                for p0, p1 in pieces:
                    h = 0.5 * (p1 - p0)
                    z = 0.5 * (p0 + p1) + h * _X
                    yield sign, z, h * _W, np.full_like(z, y0), np.full_like(z, y1)
            else:
                yc, zc, r, sy, sz = a
                # z = zc + sz r sin(t), width = r cos(t)
                t0, t1 = 0.0, 0.5 * math.pi
                ts = [(t0, t1)]
                if cut is not None:
                    s = (cut - zc) * sz / r
                    if 0 < s < 1:
                        tc = math.asin(s)
                        ts = [(t0, tc), (tc, t1)]
                for p0, p1 in ts:
                    h = 0.5 * (p1 - p0)
                    t = 0.5 * (p0 + p1) + h * _X
                    z = zc + sz * r * np.sin(t)
                    w = h * _W * r * np.cos(t)
                    e = yc + sy * r * np.cos(t)
                    yield (sign, z, w, np.minimum(yc, e), np.maximum(yc, e))

    def integrate(self, f, cut=None):
        """Integral of f(z) dA."""
        tot = 0.0
        for sign, z, w, y0, y1 in self._strips(cut):
            tot += sign * float(np.sum(w * (y1 - y0) * f(z)))
        return tot

    @property
    def A(self):
        return self.integrate(lambda z: np.ones_like(z))

    def zc(self):
        return self.integrate(lambda z: z) / self.A

    def Iy(self):
        c = self.zc()
        return self.integrate(lambda z: (z - c) ** 2)

    def zlim(self):
        lo, hi = [], []
        for sign, k, a in self.parts:
            if sign < 0:
                continue
            if k == 'r':
                lo.append(a[2]); hi.append(a[3])
            else:
                lo.append(min(a[1], a[1] + a[4] * a[2]))
                hi.append(max(a[1], a[1] + a[4] * a[2]))
        return min(lo), max(hi)

    def below(self, cut):
        """Area below z = cut."""
        tot = 0.0
        for sign, k, a in self.parts:
            if k == 'r':
                y0, y1, z0, z1 = a
                tot += sign * (y1 - y0) * (min(max(cut, z0), z1) - z0)
            else:
                _, zc, r, _, sz = a
                s = min(max((cut - zc) * sz / r, 0.0), 1.0)
                # area between the centre and z = zc + sz*s*r
                part = 0.5 * r * r * (math.asin(s) + s * math.sqrt(1 - s * s))
                tot += sign * (part if sz > 0 else math.pi * r * r / 4 - part)
        return tot

    def zpl(self):
        lo, hi = self.zlim()
        A = self.A
        for _ in range(100):
            m = 0.5 * (lo + hi)
            if self.below(m) < 0.5 * A:
                lo = m
            else:
                hi = m
        return 0.5 * (lo + hi)

    def Wply(self):
        c = self.zpl()
        return self.integrate(lambda z: np.abs(z - c), c)

    def Wely(self):
        lo, hi = self.zlim()
        c = self.zc()
        return self.Iy() / max(c - lo, hi - c)


def isec(h, b, tf, tw, r):
    s = Sec()
    s.rect(-b / 2, b / 2, -h / 2, -h / 2 + tf).rect(-b / 2, b / 2, h / 2 - tf, h / 2)
    s.rect(-tw / 2, tw / 2, -h / 2 + tf, h / 2 - tf)
    for sy in (1, -1):
        for sz in (1, -1):
            ya, za = sy * tw / 2, sz * (h / 2 - tf)
            yb, zb = sy * (tw / 2 + r), sz * (h / 2 - tf - r)
            s.rect(min(ya, yb), max(ya, yb), min(za, zb), max(za, zb))
            s.quad(yb, zb, r, -sy, sz, -1)
    return s


def rhs(h, b, t, R):
    s = Sec()
    for H, B, r, sign in ((h, b, R, 1), (h - 2 * t, b - 2 * t, R - t, -1)):
        s.rect(-B / 2 + r, B / 2 - r, -H / 2, H / 2, sign)
        s.rect(-B / 2, -B / 2 + r, -H / 2 + r, H / 2 - r, sign)
        s.rect(B / 2 - r, B / 2, -H / 2 + r, H / 2 - r, sign)
        for sy in (1, -1):
            for sz in (1, -1):
                s.quad(sy * (B / 2 - r), sz * (H / 2 - r), r, sy, sz, sign)
    return s


def chs(d, t):
    s = Sec()
    for r, sign in ((d / 2, 1), (d / 2 - t, -1)):
        for sy in (1, -1):
            for sz in (1, -1):
                s.quad(0.0, 0.0, r, sy, sz, sign)
    return s


def wi(h, tw, bt, tt, bb, tb):
    """z from the bottom."""
    s = Sec()
    s.rect(-bb / 2, bb / 2, 0, tb).rect(-tw / 2, tw / 2, tb, h - tt)
    s.rect(-bt / 2, bt / 2, h - tt, h)
    return s


def wq(h, tw, bt, tt, bb, tb):
    """h from top of the profile to top of bottom flange; bt between webs."""
    s = Sec()
    s.rect(-bb / 2, bb / 2, 0, tb)
    for sg in (1, -1):
        y0, y1 = sg * bt / 2, sg * (bt / 2 + tw)
        s.rect(min(y0, y1), max(y0, y1), tb, tb + h)
    s.rect(-bt / 2, bt / 2, tb + h - tt, tb + h)
    return s
