"""Scalar reference models: GHI decomposition, clearness indices."""
import json
import math
import os

from ..elem import npmax, npmin, div, NAN
from .irrad import cosd, sind, extra_spencer

DATA = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'data')
with open(os.path.join(DATA, 'dirint.json')) as f:
    DIRINT = json.load(f)


def ratio_kt(ghi, zen, extra, min_cos=0.065, top=2.0):
    kt = div(ghi, extra * npmax(cosd(zen), min_cos))
    return npmin(npmax(kt, 0), top)


def _finish(ghi, zen, df, kt, max_zen):
    dhi = df * ghi
    dni = div(ghi - dhi, cosd(zen))
    if zen > max_zen or ghi < 0 or dni < 0:
        dni, dhi = 0., ghi
    return dict(dni=dni, dhi=dhi, kt=kt)


def poly(c, x):
    """c[0] + c[1] x + ..."""
    return sum(a * x ** i for i, a in enumerate(c))


def df_erbs(kt):
    if kt <= .22:
        return 1 - .09 * kt
    if kt <= .8:
        return poly((.9511, -.1604, 4.388, -16.638, 12.336), kt)
    return .165 if kt > .8 else NAN


def df_erbs_driesse(kt):
    if kt <= .216:
        return 1 - .09 * kt
    if kt <= .792:
        return poly((.946296633571001, -.11390583806313881,
                     4.246926715218317, -16.4705084246973,
                     12.26911439571261), kt)
    return .165 if kt > .792 else NAN


def df_orgill(kt):
    if kt < .35:
        return 1 - .249 * kt
    if kt <= .75:
        return 1.557 - 1.84 * kt
    return .177 if kt > .75 else NAN


def erbs(ghi, zen, extra, min_cos=.065, max_zen=87.):
    kt = ratio_kt(ghi, zen, extra, min_cos, 1.)
    return _finish(ghi, zen, df_erbs(kt), kt, max_zen)


def erbs_driesse(ghi, zen, extra, min_cos=.065, max_zen=87.):
    ghi = npmax(ghi, 0)
    kt = ratio_kt(ghi, zen, extra, min_cos, 1.)
    return _finish(ghi, zen, df_erbs_driesse(kt), kt, max_zen)


def orgill_hollands(ghi, zen, extra, min_cos=.065, max_zen=87.):
    kt = ratio_kt(ghi, zen, extra, min_cos, 1.)
    return _finish(ghi, zen, df_orgill(kt), kt, max_zen)


def boland(ghi, zen, extra, min_cos=.065, max_zen=87., a=8.645, b=.613):
    kt = ratio_kt(ghi, zen, extra, min_cos, 1.)
    df = 1 / (1 + math.exp(a * (kt - b)))
    return _finish(ghi, zen, df, kt, max_zen)


def louche(ghi, zen, extra, max_zen=90.):
    kt = ratio_kt(ghi, zen, extra)
    kb = poly((.002, -.059, .994, -5.205, 15.307, -10.627), kt)
    dni = kb * extra
    dhi = ghi - dni * cosd(zen)
    if zen > max_zen or ghi < 0 or dni < 0:
        dni, dhi = 0., ghi
    return dict(dni=dni, dhi=dhi, kt=kt)


def campbell_norman(zen, tau, pressure, extra):
    am = NAN if zen > 90 else div(1., cosd(zen)) * pressure / 101325.
    t = tau ** am
    dni = extra * t
    dhi = .3 * (1 - t) * extra * cosd(zen)
    return dict(ghi=dhi + dni * cosd(zen), dni=dni, dhi=dhi)


def par_spitters(zen, q):
    return q * (1 + .3 * (1 - q * q)) / (
        1 + (1 - q * q) * cosd(zen) ** 2 * sind(zen) ** 3)


# ------------------------------------------------------------- DISC
def am_kasten66(z):
    if not z <= 90:
        return NAN
    return 1 / (cosd(z) + .15 * (93.885 - z) ** -1.253)


def disc_kn(kt, am):
    if kt <= .6:
        a = .512 - 1.56 * kt + 2.286 * kt ** 2 - 2.222 * kt ** 3
        b = .370 + .962 * kt
        c = -.280 + .932 * kt - 2.048 * kt ** 2
    else:
        a = -5.743 + 21.77 * kt - 27.49 * kt ** 2 + 11.56 * kt ** 3
        b = 41.40 - 118.5 * kt + 66.05 * kt ** 2 + 31.90 * kt ** 3
        c = -47.01 + 184.2 * kt - 222. * kt ** 2 + 73.81 * kt ** 3
    knc = .866 - .122 * am + .0121 * am ** 2 - .000653 * am ** 3 \
        + .000014 * am ** 4
    return knc - (a + b * math.exp(c * am))


def disc(ghi, zen, doy, pressure=101325., min_cos=.065, max_zen=87.,
         max_am=12.):
    extra = extra_spencer(doy, 1370.)
    kt = ratio_kt(ghi, zen, extra, min_cos, 1.)
    am = am_kasten66(zen)
    if pressure is not None:
        am = am * pressure / 101325.
    am = npmin(am, max_am)
    dni = disc_kn(kt, am) * extra
    if zen > max_zen or ghi < 0 or dni < 0:
        dni = 0.
    return dict(dni=dni, kt=kt, airmass=am)


def ktp_factor(am):
    return 1.031 * math.exp(-1.4 / (.9 + 9.4 / am)) + .1


def kt_prime(kt, am, top=2.):
    return npmin(npmax(div(kt, ktp_factor(am)), 0), top)


EDGE_KT = (.24, .4, .56, .7, .8)
EDGE_Z = (25, 40, 55, 70, 80)
EDGE_W = (1, 2, 3)
EDGE_D = (.015, .035, .07, .15, .3)


def _bin(edges, x):
    return sum(x >= e for e in edges)


def dirint(ghi, zen, doy, pressure, use_delta, tdew, min_cos=.065,
           max_zen=87.):
    """lists in; returns (dni, near_edge flags, kt' list)"""
    n = len(ghi)
    ds = [disc(ghi[i], zen[i], doy[i], pressure[i], min_cos, max_zen)
          for i in range(n)]
    kp = [kt_prime(d['kt'], d['airmass'], 1.) for d in ds]
    out, edge = [], []

    def near(v, es):
        return any(abs(v - e) < 1e-9 for e in es)
    for i in range(n):
        if use_delta:
            nb = [abs(kp[i] - kp[j]) for j in (i - 1, i + 1)
                  if 0 <= j < n and not math.isnan(kp[j])]
            dl = sum(nb) / len(nb) if nb and not math.isnan(kp[i]) else NAN
            di = NAN if math.isnan(dl) else _bin(EDGE_D, dl)
            e = not math.isnan(dl) and near(dl, EDGE_D)
        else:
            di, e = 6, False
        if tdew is None:
            wi = 4
        else:
            w = math.exp(.07 * tdew[i] - .075)
            wi = NAN if math.isnan(w) else _bin(EDGE_W, w)
            e = e or near(w, EDGE_W)
        e = e or near(kp[i], EDGE_KT)
        zi = NAN if not zen[i] >= 0 else _bin(EDGE_Z, zen[i])
        ki = NAN if math.isnan(kp[i]) else _bin(EDGE_KT, kp[i])
        # DISC changes branch at kt = 0.6
        e = e or abs(ds[i]['kt'] - .6) < 1e-9
        edge.append(e)
        if any(isinstance(v, float) for v in (ki, zi, di, wi)):
            out.append(NAN)
        else:
            out.append(ds[i]['dni'] * DIRINT[ki][zi][di][wi])
    return out, edge, kp
