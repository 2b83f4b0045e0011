"""closed formulas of undiscounted european options, written independently by
means of math.erf; `disp` shifts forward and strike of log normal models"""
from math import log, sqrt

from .ref import cdf, pdf

MODELS = 'normal', 'lognormal', 'displaced', 'intrinsic'
DISP = 0.75
NAMES = {'normal': 'NormalOptionPayOffModel',
         'lognormal': 'LogNormalOptionPayOffModel',
         'displaced': 'DisplacedLogNormalOptionPayOffModel',
         'intrinsic': 'IntrinsicOptionPayOffModel'}


def model(kind, *a, binary=False, **kw):
    """real model"""
    import dcf.models
    if kind == 'displaced':
        kw['displacement'] = DISP
    name = ('Binary' if binary else '') + NAMES[kind]
    return getattr(dcf.models, name)(*a, **kw)


def valid(kind, k, f):
    """strike and forward allowed in model"""
    if kind == 'lognormal':
        return k > 0 and f > 0
    if kind == 'displaced':
        return k + DISP > 0 and f + DISP > 0
    return True


def _d(kind, t, k, f, v):
    s = v * sqrt(t)
    if kind == 'normal':
        return (f - k) / s, s
    if kind == 'displaced':
        k, f = k + DISP, f + DISP
    return log(f / k) / s + s / 2, s


def dead(kind, t, v):
    return kind == 'intrinsic' or t <= 0 or not v


def call(kind, t, k, f, v):
    if dead(kind, t, v):
        return max(f - k, 0.0)
    d, s = _d(kind, t, k, f, v)
    if kind == 'normal':
        return (f - k) * cdf(d) + s * pdf(d)
    if kind == 'displaced':
        k, f = k + DISP, f + DISP
    return f * cdf(d) - k * cdf(d - s)


def put(kind, t, k, f, v):
    if dead(kind, t, v):
        return max(k - f, 0.0)
    d, s = _d(kind, t, k, f, v)
    if kind == 'normal':
        return (k - f) * cdf(-d) + s * pdf(d)
    if kind == 'displaced':
        k, f = k + DISP, f + DISP
    return k * cdf(s - d) - f * cdf(-d)


def delta(kind, t, k, f, v):
    return cdf(_d(kind, t, k, f, v)[0])


def gamma(kind, t, k, f, v):
    d, s = _d(kind, t, k, f, v)
    return pdf(d) / s / (1. if kind == 'normal' else
                         f + (DISP if kind == 'displaced' else 0.))


def vega(kind, t, k, f, v):
    d, s = _d(kind, t, k, f, v)
    f = 1. if kind == 'normal' else f + (DISP if kind == 'displaced' else 0.)
    return f * sqrt(t) * pdf(d)


def theta(kind, t, k, f, v):
    """by time to expiry"""
    return vega(kind, t, k, f, v) * v / (2. * t)


def digital(kind, t, k, f, v):
    """probability of ending above the strike"""
    if dead(kind, t, v):
        return 1. if f > k else 0.
    d, s = _d(kind, t, k, f, v)
    return cdf(d if kind == 'normal' else d - s)


def digital_greeks(kind, t, k, f, v):
    """-> delta, gamma, vega, theta (by time to expiry)"""
    d, s = _d(kind, t, k, f, v)
    if kind == 'normal':
        e, x, sign = d, 1., 0.
    else:
        e, x = d - s, f + (DISP if kind == 'displaced' else 0.)
        sign = 1.
    p = pdf(e)
    dl = p / (s * x)
    # de/dx = 1/(s x); d2e/dx2 = -1/(s x^2)
    ga = -e * p / (s * x) ** 2 - sign * p / (s * x * x)
    # e = m/s - s/2 (log normal) resp. m/s
    m = e * s + (s * s / 2. if sign else 0.)
    deds = -m / (s * s) - (0.5 if sign else 0.)
    return dl, ga, p * deds * sqrt(t), p * deds * v / (2. * sqrt(t))
