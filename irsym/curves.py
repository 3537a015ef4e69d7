"""The transfer curves, written from the standards: once on exact real enclosures (uni.Ref), once on arrays."""
import math
import numpy as np
from . import uni

# ---------------------------------------------------------------- the standards' formulas, on exact reals
def gamma(k):
    return (lambda r, x: r.pow(x, 1 / k)), (lambda r, x: r.pow(x, k))


def srgb_oe(r, x):
    return r.cases(x, 0.0031308, lambda x: r.mul(x, 12.92), lambda x: r.add(r.mul(r.pow(x, 1 / 2.4), 1.055), -0.055))


def srgb_eo(r, x):
    return r.cases(x, 0.04045, lambda x: r.div(x, 12.92), lambda x: r.pow(r.div(r.add(x, 0.055), 1.055), 2.4))


BETA = 0.018053968510807


def sdr_oe(r, x):
    return r.cases(x, BETA, lambda x: r.mul(x, 4.5), lambda x: r.add(r.mul(r.pow(x, 0.45), 1.099), -0.099))


def sdr_eo(r, x):
    return r.cases(x, 4.5 * BETA, lambda x: r.div(x, 4.5), lambda x: r.pow(r.div(r.add(x, 0.099), 1.099), 1 / 0.45))


M1, M2 = 2610 / 16384, 2523 / 4096 * 128
C1, C2, C3 = 3424 / 4096, 2413 / 4096 * 32, 2392 / 4096 * 32


def pq_oe(r, x):
    # ((c1 + c2 y) / (1 + c3 y)) ^ m2 = (c2/c3 - (c2/c3 - c1) / (1 + c3 y)) ^ m2
    y = r.pow(r.div(x, 10000.0), M1)
    return r.pow(r.add(r.div(uni.const(-(C2 / C3 - C1)), r.add(r.mul(y, C3), 1.0)), C2 / C3), M2)


def pq_eo(r, x):
    p = r.pow(x, 1 / M2)

    def above(p):
        # (p - c1) / (c2 - c3 p) = -1/c3 + (c2/c3 - c1) / (c2 - c3 p)
        q = r.add(r.div(uni.const(C2 / C3 - C1), r.add(r.mul(p, -C3), C2)), -1 / C3)
        q = uni.V(max(q.lo, 0.0), max(q.hi, 0.0), q.c, q.s, q.e)
        return r.mul(r.pow(q, 1 / M1), 10000.0)

    return r.cases(p, C1, lambda p: uni.const(0.0), above)


HA = 0.17883277
HB = 1 - 4 * HA
HC = 0.5 - HA * math.log(4 * HA)


def hlg_oe(r, x):
    return r.cases(x, 1 / 12, lambda x: r.sqrt(r.mul(x, 3.0)), lambda x: r.add(r.mul(r.log(r.add(r.mul(x, 12.0), -HB)), HA), HC))


def hlg_eo(r, x):
    return r.cases(x, 0.5, lambda x: r.div(r.mul(x, x), 3.0), lambda x: r.div(r.add(r.exp(r.div(r.add(x, -HC), HA)), HB), 12.0))


STD = {
    "Linear": (lambda r, x: x, lambda r, x: x),
    "Gamma22": gamma(2.2),
    "Gamma28": gamma(2.8),
    "SRGB": (srgb_oe, srgb_eo),
    "SDR": (sdr_oe, sdr_eo),
    "PQ": (pq_oe, pq_eo),
    "HLG": (hlg_oe, hlg_eo),
}


def top(curve):
    """largest linear value of the domain"""
    return 10000.0 if curve == "PQ" else 1.0


def value(curve, d, x):
    """d = 0: linear light to signal, d = 1: signal to linear light; x: array inside the domain"""
    x = np.maximum(np.asarray(x, dtype=np.float64), 0.0)
    if curve == "Linear":
        return x
    if curve in ("Gamma22", "Gamma28"):
        g = 2.2 if curve == "Gamma22" else 2.8
        return x ** (1 / g if d == 0 else g)
    if curve == "SRGB":
        if d == 0:
            return np.where(x <= 0.0031308, x * 12.92, 1.055 * x ** (1 / 2.4) - 0.055)
        return np.where(x <= 0.04045, x / 12.92, ((x + 0.055) / 1.055) ** 2.4)
    if curve == "SDR":
        if d == 0:
            return np.where(x < BETA, x * 4.5, 1.099 * x**0.45 - 0.099)
        return np.where(x < 4.5 * BETA, x / 4.5, ((x + 0.099) / 1.099) ** (1 / 0.45))
    if curve == "PQ":
        if d == 0:
            y = (x / 10000.0) ** M1
            return ((C1 + C2 * y) / (1 + C3 * y)) ** M2
        p = np.minimum(x, 1.0) ** (1 / M2)
        return 10000.0 * (np.maximum(p - C1, 0.0) / (C2 - C3 * p)) ** (1 / M1)
    if curve == "HLG":
        if d == 0:
            return np.where(x <= 1 / 12, np.sqrt(3 * x), HA * np.log(np.maximum(12 * x - HB, 1e-9)) + HC)
        return np.where(x <= 0.5, x * x / 3, (np.exp((x - HC) / HA) + HB) / 12)
    raise KeyError(curve)


# the two segments of BT.709 do not meet exactly: near the joint either is right
ZONE = {("SDR", 0): (0.0179, 0.0182, 4e-4), ("SDR", 1): (0.0805, 0.0820, 1e-4)}
