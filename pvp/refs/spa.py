"""Scalar NREL SPA (Reda & Andreas 2008), one instant at a time."""
import json
import math
import os

from math import atan2, cos, degrees, radians, sin, tan

_D = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'data')
with open(os.path.join(_D, 'spa.json')) as _f:
    T = json.load(_f)


def _series(names, jme):
    tot = 0.
    for i, n in enumerate(names):
        tot += math.fsum(a * cos(b + c * jme) for a, b, c in T[n]) * jme**i
    return tot / 1e8


def earth_distance(unix, delta_t):
    jde = unix / 86400. + 2440587.5 + delta_t / 86400.
    jme = (jde - 2451545.) / 365250.
    return _series(['R0', 'R1', 'R2', 'R3', 'R4'], jme)


def geocentric(unix, delta_t):
    """apparent sidereal time, right ascension, declination and helpers"""
    jd = unix / 86400. + 2440587.5
    jc = (jd - 2451545.) / 36525.
    jde = jd + delta_t / 86400.
    jce = (jde - 2451545.) / 36525.
    jme = jce / 10.
    L = degrees(_series(['L0', 'L1', 'L2', 'L3', 'L4', 'L5'], jme)) % 360
    B = degrees(_series(['B0', 'B1'], jme))
    R = _series(['R0', 'R1', 'R2', 'R3', 'R4'], jme)
    theta = (L + 180) % 360
    beta = -B
    X = [297.85036 + 445267.111480 * jce - .0019142 * jce**2
         + jce**3 / 189474.,
         357.52772 + 35999.050340 * jce - .0001603 * jce**2
         - jce**3 / 300000.,
         134.96298 + 477198.867398 * jce + .0086972 * jce**2
         + jce**3 / 56250.,
         93.27191 + 483202.017538 * jce - .0036825 * jce**2
         + jce**3 / 327270.,
         125.04452 - 1934.136261 * jce + .0020708 * jce**2
         + jce**3 / 450000.]
    dpsi = deps = 0.
    for (a, b, c, d), ys in zip(T['NUTATION_ABCD_ARRAY'],
                                T['NUTATION_YTERM_ARRAY']):
        ang = radians(math.fsum(x * y for x, y in zip(X, ys)))
        dpsi += (a + b * jce) * sin(ang)
        deps += (c + d * jce) * cos(ang)
    dpsi /= 36e6
    deps /= 36e6
    U = jme / 10.
    co = [84381.448, -4680.93, -1.55, 1999.25, -51.38, -249.67, -39.05,
          7.12, 27.87, 5.79, 2.45]
    eps = sum(k * U**i for i, k in enumerate(co)) / 3600. + deps
    lam = theta + dpsi - 20.4898 / (3600. * R)
    nu0 = (280.46061837 + 360.98564736629 * (jd - 2451545.)
           + .000387933 * jc**2 - jc**3 / 38710000.) % 360
    nu = nu0 + dpsi * cos(radians(eps))
    lr, er, br = radians(lam), radians(eps), radians(beta)
    alpha = degrees(atan2(sin(lr) * cos(er) - tan(br) * sin(er),
                          cos(lr))) % 360
    delta = degrees(math.asin(sin(br) * cos(er)
                              + cos(br) * sin(er) * sin(lr)))
    M = (280.4664567 + 360007.6982779 * jme + .03032028 * jme**2
         + jme**3 / 49931. - jme**4 / 15300. - jme**5 / 2000000.)
    eot = (M - .0057183 - alpha + dpsi * cos(er)) % 360 * 4
    if eot > 20:
        eot -= 1440
    return dict(nu=nu, alpha=alpha, delta=delta, R=R, eot=eot)


def solar_position(unix, lat, lon, elev, press_hpa, temp, delta_t, refract):
    g = geocentric(unix, delta_t)
    H = (g['nu'] + lon - g['alpha']) % 360
    xi = radians(8.794 / (3600. * g['R']))
    phi = radians(lat)
    u = math.atan(.99664719 * tan(phi))
    x = cos(u) + elev / 6378140. * cos(phi)
    y = .99664719 * sin(u) + elev / 6378140. * sin(phi)
    Hr, d = radians(H), radians(g['delta'])
    da = atan2(-x * sin(xi) * sin(Hr), cos(d) - x * sin(xi) * cos(Hr))
    dp = atan2((sin(d) - y * sin(xi)) * cos(da),
               cos(d) - x * sin(xi) * cos(Hr))
    Hp = Hr - da
    # elevation from the direction vector (east, north, up)
    up = sin(phi) * sin(dp) + cos(phi) * cos(dp) * cos(Hp)
    no = cos(phi) * sin(dp) - sin(phi) * cos(dp) * cos(Hp)
    ea = -cos(dp) * sin(Hp)
    e0 = degrees(atan2(up, math.hypot(no, ea)))
    az = degrees(atan2(ea, no)) % 360
    lim = -(.26667 + refract)
    de = 0.
    if e0 >= lim:
        de = (press_hpa / 1010.) * (283. / (273. + temp)) * 1.02 / (
            60. * tan(radians(e0 + 10.3 / (e0 + 5.11))))
    e = e0 + de
    return dict(apparent_zenith=90 - e, zenith=90 - e0,
                apparent_elevation=e, elevation=e0, azimuth=az,
                equation_of_time=g['eot']), abs(e0 - lim)


def delta_t(year, month):
    """Espenak & Meeus polynomial expressions"""
    y = year + (month - .5) / 12.

    def poly(t, *c):
        return sum(k * t**i for i, k in enumerate(c))
    if year < -500 or year >= 2150:
        return -20 + 32 * ((y - 1820) / 100)**2
    if year < 500:
        return poly(y / 100, 10583.6, -1014.41, 33.78311, -5.952053,
                    -.1798452, .022174192, .0090316521)
    if year < 1600:
        return poly((y - 1000) / 100, 1574.2, -556.01, 71.23472, .319781,
                    -.8503463, -.005050998, .0083572073)
    if year < 1700:
        return poly(y - 1600, 120, -.9808, -.01532, 1 / 7129)
    if year < 1800:
        return poly(y - 1700, 8.83, .1603, -.0059285, .00013336,
                    -1 / 1174000)
    if year < 1860:
        return poly(y - 1800, 13.72, -.332447, .0068612, .0041116,
                    -.00037436, .0000121272, -.0000001699, .000000000875)
    if year < 1900:
        return poly(y - 1860, 7.62, .5737, -.251754, .01680668,
                    -.0004473624, 1 / 233174)
    if year < 1920:
        return poly(y - 1900, -2.79, 1.494119, -.0598939, .0061966,
                    -.000197)
    if year < 1941:
        return poly(y - 1920, 21.20, .84493, -.076100, .0020936)
    if year < 1961:
        return poly(y - 1950, 29.07, .407, -1 / 233, 1 / 2547)
    if year < 1986:
        return poly(y - 1975, 45.45, 1.067, -1 / 260, -1 / 718)
    if year < 2005:
        return poly(y - 2000, 63.86, .3345, -.060374, .0017275,
                    .000651814, .00002373599)
    if year < 2050:
        return poly(y - 2000, 62.92, .32217, .005589)
    return -20 + 32 * ((y - 1820) / 100)**2 - .5628 * (2150 - y)
