"""Scalar reference models for irradiance, written from the papers."""
import json
import math
import os

from ..elem import npmax, npmin, div, NAN

DATA = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'data')
with open(os.path.join(DATA, 'perez.json')) as f:
    PEREZ = json.load(f)

R = math.pi / 180


def cosd(x):
    return math.cos(x * R) if math.isfinite(x) else NAN


def sind(x):
    return math.sin(x * R) if math.isfinite(x) else NAN


def vec(tilt_from_vertical, azimuth):
    """unit vector (east, north, up)"""
    z, a = tilt_from_vertical * R, azimuth * R
    if not (math.isfinite(z) and math.isfinite(a)):
        return (NAN, NAN, NAN)
    return (math.sin(z) * math.sin(a), math.sin(z) * math.cos(a),
            math.cos(z))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.sqrt(dot(a, a))


def proj(tilt, az, zen, saz):
    return dot(vec(tilt, az), vec(zen, saz))


def angle(tilt, az, zen, saz):
    a, b = vec(tilt, az), vec(zen, saz)
    return math.degrees(math.atan2(norm(cross(a, b)), dot(a, b)))


def extra_spencer(doy, solar_constant=1366.1):
    b = 2 * math.pi * (doy - 1) / 365
    return solar_constant * (1.00011 + 0.034221 * math.cos(b)
                             + 0.00128 * math.sin(b)
                             + 0.000719 * math.cos(2 * b)
                             + 0.000077 * math.sin(2 * b))


# ---------------------------------------------------- transposition
def isotropic(tilt, dhi):
    v = dhi * (1 + cosd(tilt)) / 2
    return dict(poa_sky_diffuse=v, poa_isotropic=v)


def klucher(tilt, az, dhi, ghi, zen, saz):
    c = npmax(proj(tilt, az, zen, saz), 0)
    f = 1 - div(dhi, ghi) ** 2
    if math.isnan(f):
        f = 0.
    return dhi * (1 + cosd(tilt)) / 2 * (1 + f * sind(tilt / 2) ** 3) * \
        (1 + f * c ** 2 * sind(zen) ** 3)


def ratio_b(tilt, az, zen, saz):
    return npmax(proj(tilt, az, zen, saz), 0) / npmax(cosd(zen), 0.01745)


def haydavies(tilt, az, dhi, dni, dni_extra, zen=None, saz=None, rb=None):
    if rb is None:
        rb = ratio_b(tilt, az, zen, saz)
    ai = div(dni, dni_extra)
    iso = npmax(dhi * (1 - ai) * (1 + cosd(tilt)) / 2, 0)
    circ = npmax(dhi * ai * rb, 0)
    return dict(poa_sky_diffuse=iso + circ, poa_isotropic=iso,
                poa_circumsolar=circ)


def reindl(tilt, az, dhi, dni, ghi, dni_extra, zen, saz):
    rb = ratio_b(tilt, az, zen, saz)
    ai = div(dni, dni_extra)
    hb = npmax(dni * cosd(zen), 0)
    m = 0. if ghi == 0 else div(hb, ghi)
    f = math.sqrt(m) if m >= 0 else NAN
    iso = (1 - ai) * (1 + cosd(tilt)) / 2
    hor = iso * f * sind(tilt / 2) ** 3
    return dict(poa_sky_diffuse=dhi * (iso + ai * rb + hor),
                poa_isotropic=dhi * iso, poa_circumsolar=dhi * ai * rb,
                poa_horizon=dhi * hor)


def king(tilt, dhi, ghi, zen):
    return npmax(dhi * (1 + cosd(tilt)) / 2
                 + ghi * (0.012 * zen - 0.04) * (1 - cosd(tilt)) / 2, 0)


PEREZ_BINS = (1.065, 1.23, 1.5, 1.95, 2.8, 4.5, 6.2)


def perez_eps(dhi, dni, zen):
    k = 1.041 * (zen * R) ** 3
    return (div(dhi + dni, dhi) + k) / (1 + k)


def perez(tilt, az, dhi, dni, dni_extra, zen, saz, airmass,
          model='allsitescomposite1990'):
    names = ('poa_sky_diffuse', 'poa_isotropic', 'poa_circumsolar',
             'poa_horizon')
    if math.isnan(airmass):
        return dict.fromkeys(names, 0.)
    eps = perez_eps(dhi, dni, zen)
    if math.isnan(eps) or eps < 0:
        return dict.fromkeys(names, NAN)
    k = sum(eps >= b for b in PEREZ_BINS)
    c = PEREZ[model][k]
    delta = dhi * airmass / dni_extra
    z = zen * R
    f1 = npmax(c[0] + c[1] * delta + c[2] * z, 0)
    f2 = c[3] + c[4] * delta + c[5] * z
    return _perez_geometry(tilt, az, dhi, zen, saz, f1, f2, zero=True)


def _perez_geometry(tilt, az, dhi, zen, saz, f1, f2, zero):
    a = npmax(proj(tilt, az, zen, saz), 0)
    b = npmax(cosd(zen), cosd(85))
    iso = dhi * (1 - f1) * (1 + cosd(tilt)) / 2
    circ = dhi * f1 * a / b
    hor = dhi * f2 * sind(tilt)
    tot = npmax(iso + circ + hor, 0)
    if zero and tot == 0:
        iso = circ = hor = 0.
    return dict(poa_sky_diffuse=tot, poa_isotropic=iso,
                poa_circumsolar=circ, poa_horizon=hor)


# Perez-Driesse: quadratic B-splines with these knots and coefficients
_KNOTS = [0., 0., 0., .061, .187, .333, .487, .643, .778, .839, 1., 1., 1.]
_COEF = [
    [-0.053, +0.529, -0.028, -0.071, +0.061, -0.019],
    [-0.008, +0.588, -0.062, -0.060, +0.072, -0.022],
    [+0.131, +0.770, -0.167, -0.026, +0.106, -0.032],
    [+0.328, +0.471, -0.216, +0.069, -0.105, -0.028],
    [+0.557, +0.241, -0.300, +0.086, -0.085, -0.012],
    [+0.861, -0.323, -0.355, +0.240, -0.467, -0.008],
    [+1.212, -1.239, -0.444, +0.305, -0.797, +0.047],
    [+1.099, -1.847, -0.365, +0.275, -1.132, +0.124],
    [+0.544, +0.157, -0.213, +0.118, -1.455, +0.292],
    [+0.544, +0.157, -0.213, +0.118, -1.455, +0.292]]


def bspline(knots, coef, k, x):
    """de Boor by the Cox-de Boor recursion, x in [knots[k], knots[-k-1]]"""
    n = len(knots) - k - 1
    # find the span; the last one is closed on the right
    m = k
    while m < n - 1 and x >= knots[m + 1]:
        m += 1
    d = [coef[j] for j in range(m - k, m + 1)]
    for r in range(1, k + 1):
        for j in range(k, r - 1, -1):
            i = m - k + j
            den = knots[i + k - r + 1] - knots[i]
            al = (x - knots[i]) / den if den else 0.
            d[j] = (1 - al) * d[j - 1] + al * d[j]
    return d[k]


def airmass_ky(z):
    if not z <= 90:
        return NAN
    return 1 / (cosd(z) + 0.50572 * (6.07995 + 90 - z) ** -1.6364)


def perez_driesse(tilt, az, dhi, dni, dni_extra, zen, saz, airmass=None):
    am = airmass_ky(zen) if airmass is None else airmass
    if zen >= 90:
        am = airmass_ky(90)
    delta = div(dhi, div(dni_extra, am))
    zeta = 0. if dhi == 0 else div(dni, dhi + dni)
    kt = 1.041 * (zen * R) ** 3
    zeta = zeta / (1 - kt * (zeta - 1))
    z = zen * R
    if math.isnan(zeta):
        f1 = f2 = NAN
    else:
        f = [bspline(_KNOTS, [r[j] for r in _COEF], 2, zeta)
             for j in range(6)]
        f1 = f[0] + f[1] * delta + f[2] * z
        f2 = f[3] + f[4] * delta + f[5] * z
        f1 = npmin(npmax(f1, 0), 0.9)
    return _perez_geometry(tilt, az, dhi, zen, saz, f1, f2, zero=False)
