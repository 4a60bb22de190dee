"""Two-dimensional row scene: infinitely long rows, cross-section.

Row k has its centre at (k*pitch, height), half width w/2 and is rotated by
`rot` degrees so that positive rotation raises its right edge; its front
normal is (-sin rot, cos rot).  The ground is y = 0.  Everything is exact per
point (angular intervals), averages are Gauss-Legendre.
"""
import math

import numpy as np

GX, GW = np.polynomial.legendre.leggauss(12)


def edges(k, rot, gcr, height, pitch):
    r = math.radians(rot)
    hw = gcr * pitch / 2
    c, s = hw * math.cos(r), hw * math.sin(r)
    return ((k * pitch - c, height - s), (k * pitch + c, height + s))


def _span(p, seg):
    """angular interval of a segment wholly above the point's horizontal or
    anywhere not crossing the direction -pi, seen from p"""
    a = math.atan2(seg[0][1] - p[1], seg[0][0] - p[0])
    b = math.atan2(seg[1][1] - p[1], seg[1][0] - p[0])
    return min(a, b), max(a, b)


def ground_sky_point(x, rot, gcr, height, pitch, rows):
    """view factor to the sky between rows -rows .. rows+1 from the ground
    point x*pitch (0 <= x <= 1)"""
    p = (x * pitch, 0.)
    iv = sorted((_span(p, edges(k, rot, gcr, height, pitch))
                 for k in range(-rows, rows + 2)), key=lambda t: t[0])
    lo = min(t[0] for t in iv)
    hi = max(t[1] for t in iv)
    end, tot = lo, 0.
    for a, b in iv:
        if a > end:
            tot += (math.cos(end) - math.cos(a)) / 2
        end = max(end, b)
    assert end == hi
    return tot


def average(f, a, b, parts):
    """mean of f over [a, b]: Gauss-Legendre on `parts` pieces"""
    tot = 0.
    for i in range(parts):
        lo = a + (b - a) * i / parts
        hi = a + (b - a) * (i + 1) / parts
        tot += sum(w * f((lo + hi) / 2 + (hi - lo) / 2 * t)
                   for t, w in zip(GX, GW)) / 2
    return tot / parts


def ground_kinks(rot, gcr, height, pitch):
    return []


def mean_ground_sky(rot, gcr, height, pitch, rows, g0=0., g1=1., parts=6):
    return average(lambda x: ground_sky_point(x, rot, gcr, height, pitch,
                                              rows), g0, g1, parts)


def row_point(x, rot, gcr, height, pitch):
    """point at fraction x of the row's width, from the left edge"""
    (x0, y0), (x1, y1) = edges(0, rot, gcr, height, pitch)
    return (x0 + (x1 - x0) * x, y0 + (y1 - y0) * x)


def row_views(x, rot, gcr, height, pitch, rows, g):
    """view factors of the point x on row 0, front side: (sky, [ground
    segment i, summed over the cells -rows .. rows-1])

    `g` is the list of (g0, g1) segments of a cell of one pitch."""
    p = row_point(x, rot, gcr, height, pitch)
    r = math.radians(rot)
    n = math.atan2(math.cos(r), -math.sin(r))      # direction of the normal

    def rel(q):
        """angle of the direction to q, measured from the normal"""
        a = math.atan2(q[1] - p[1], q[0] - p[0]) - n
        return (a + math.pi) % (2 * math.pi) - math.pi
    h = math.pi / 2
    blocks = []
    for k in (-1, 1):
        s = edges(k, rot, gcr, height, pitch)
        a, b = sorted((rel(s[0]), rel(s[1])))
        if b - a > math.pi:     # seen behind the point
            continue
        a, b = max(a, -h), min(b, h)
        if b > a:
            blocks.append((a, b))
    horizon = []
    for d in ((1., 0.), (-1., 0.)):
        a = math.atan2(d[1], d[0]) - n
        a = (a + math.pi) % (2 * math.pi) - math.pi
        horizon.append(a)
    cuts = {-h, h}
    for a, b in blocks:
        cuts |= {a, b}
    cuts |= {a for a in horizon if -h < a < h}
    for k in range(-rows, rows):
        for g0, g1 in g:
            for q in (g0, g1):
                a = rel(((k + q) * pitch, 0.))
                if -h < a < h:
                    cuts.add(a)
    cuts = sorted(cuts)
    sky, gnd = 0., [0.] * len(g)
    for a, b in zip(cuts, cuts[1:]):
        if b - a < 1e-13:
            continue
        m = (a + b) / 2
        if any(u < m < v for u, v in blocks):
            continue
        w = (math.sin(b) - math.sin(a)) / 2
        d = m + n
        dx, dy = math.cos(d), math.sin(d)
        if dy >= 0:
            sky += w
        else:
            xg = (p[0] - p[1] * dx / dy) / pitch
            k = math.floor(xg)
            if -rows <= k < rows:
                f = xg - k
                for i, (g0, g1) in enumerate(g):
                    if g0 <= f < g1:
                        gnd[i] += w
    return sky, gnd


def mean_row_views(rot, gcr, height, pitch, rows, g, x0=0., x1=1., parts=3):
    sky, gnd = 0., np.zeros(len(g))
    for i in range(parts):
        lo = x0 + (x1 - x0) * i / parts
        hi = x0 + (x1 - x0) * (i + 1) / parts
        for t, w in zip(GX, GW):
            s, q = row_views((lo + hi) / 2 + (hi - lo) / 2 * t, rot, gcr,
                             height, pitch, rows, g)
            sky += w / 2 * s
            gnd += w / 2 * np.array(q)
    return sky / parts, gnd / parts


def lit_fraction(rot, phi, gcr, height, pitch, g0, g1, rows=(-200, 200)):
    """part of the ground between g0 and g1 that the sun reaches; positive
    phi: shadows fall to the right"""
    t = math.tan(math.radians(phi))
    a, b = g0 * pitch, g1 * pitch
    iv = []
    for k in range(rows[0], rows[1] + 1):
        s = edges(k, rot, gcr, height, pitch)
        u, v = sorted((s[0][0] + s[0][1] * t, s[1][0] + s[1][1] * t))
        u, v = max(u, a), min(v, b)
        if v > u:
            iv.append((u, v))
    dark, end = 0., a
    for u, v in sorted(iv):
        u = max(u, end)
        if v > u:
            dark += v - u
            end = v
    return 1 - dark / (b - a)
