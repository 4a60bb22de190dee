"""3-D vector geometry. x east, y north, z up."""
import math

import numpy as np


def sph(tilt, az):
    """unit vector `tilt` degrees from vertical towards azimuth `az`"""
    t, a = math.radians(tilt), math.radians(az)
    return np.array([math.sin(t) * math.sin(a), math.sin(t) * math.cos(a),
                     math.cos(t)])


def frame(axis_tilt, axis_az):
    """x', y', z' of a tracker: y' along the axis (downwards for positive
    tilt), x' horizontal and clockwise of y' seen from above, z' up"""
    a = math.radians(axis_az)
    t = math.radians(axis_tilt)
    y = np.array([math.sin(a) * math.cos(t), math.cos(a) * math.cos(t),
                  -math.sin(t)])
    x = np.array([math.cos(a), -math.sin(a), 0.])
    z = np.cross(x, y)
    return x, y, z


def normal(theta, axis_tilt, axis_az):
    """module normal after a right-handed rotation about y'"""
    x, y, z = frame(axis_tilt, axis_az)
    t = math.radians(theta)
    return math.sin(t) * x + math.cos(t) * z


def tilt_az(n):
    tilt = math.degrees(math.atan2(math.hypot(n[0], n[1]), n[2]))
    az = math.degrees(math.atan2(n[0], n[1])) % 360
    return tilt, az


def angle(u, v):
    """angle in degrees between unit vectors, accurate everywhere"""
    return math.degrees(2 * math.atan2(np.linalg.norm(u - v),
                                       np.linalg.norm(u + v)))


def project(zen, az, axis_tilt, axis_az):
    """angle of the sun in the plane across the axis, and how much of the
    sun vector lies in that plane"""
    x, y, z = frame(axis_tilt, axis_az)
    s = sph(zen, az)
    a, b = float(s @ x), float(s @ z)
    return math.degrees(math.atan2(a, b)), math.hypot(a, b)


def dang(a, b):
    """smallest difference of two angles in degrees"""
    return abs((a - b + 180) % 360 - 180)


def row_shade(theta1, theta2, sun, pitch, width, z0, slope):
    """Fraction of row 2 shaded by the neighbouring row 1 on the sun's side,
    in the plane across the axes.  Angles in degrees from vertical, positive
    towards +x.  Returns None where row 1's shadow ends on row 2 from the far
    side (a case the formula does not describe)."""
    t1, t2, ts, b = (math.radians(v) for v in (theta1, theta2, sun, slope))
    side = 1. if sun > 0 else -1.
    # unit vector across the sun's rays
    u = np.array([math.cos(ts), -math.sin(ts)])
    ax1 = side * np.array([pitch, -pitch * math.tan(b)])
    c1 = ax1 + z0 * np.array([math.sin(t1), math.cos(t1)])
    c2 = z0 * np.array([math.sin(t2), math.cos(t2)])
    e1 = [float((c1 + k * width / 2 * np.array(
        [math.cos(t1), -math.sin(t1)])) @ u) for k in (-1, 1)]
    e2 = [float((c2 + k * width / 2 * np.array(
        [math.cos(t2), -math.sin(t2)])) @ u) for k in (-1, 1)]
    lo1, hi1 = min(e1), max(e1)
    lo2, hi2 = min(e2), max(e2)
    if side < 0:
        lo1, hi1, lo2, hi2 = -hi1, -lo1, -hi2, -lo2
    if hi1 < hi2 or hi2 - lo2 < 1e-9 * width:
        return None
    return min(max((hi2 - lo1) / (hi2 - lo2), 0.), 1.)
