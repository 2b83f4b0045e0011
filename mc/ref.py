"""reference model: what the documentation of dcf promises, written from
scratch in plain python (no import of dcf).  Curves of the model are immutable
tuples of sorted grid points; every operation returns a new model."""
from math import exp, log, sqrt, erf, pi

DAYS = 365.25


# -- interpolation ----------------------------------------------------------
def f_left(xs, ys, x):
    k = 0
    for i, xi in enumerate(xs):
        if xi <= x:
            k = i
    return ys[k]


def f_right(xs, ys, x):
    for i, xi in enumerate(xs):
        if x <= xi:
            return ys[i]
    return ys[-1]


def f_nearest(xs, ys, x):
    best = None
    for i, xi in enumerate(xs):
        d = abs(xi - x)
        if best is None or d < best[0]:  # ties go to the left
            best = d, ys[i]
    return best[1]


def f_linear(xs, ys, x):
    n = len(xs)
    if n == 1:
        return ys[0]
    i = 0
    while i < n - 2 and xs[i + 1] < x:
        i += 1
    w = (x - xs[i]) / (xs[i + 1] - xs[i])
    return (1. - w) * ys[i] + w * ys[i + 1]


def f_no(xs, ys, x):
    for xi, yi in zip(xs, ys):
        if xi == x:
            return yi
    return None


def f_zero(xs, ys, x):
    y = f_no(xs, ys, x)
    return 0.0 if y is None else y


def f_loglinear(xs, ys, x):
    return exp(f_linear(xs, [log(y) for y in ys], x))


def _rates(xs, ys):
    p = [(x, log(y) / x) for x, y in zip(xs, ys) if x != 0]
    return [a for a, _ in p], [b for _, b in p]


def _at_zero(xs, ys):
    for xi, yi in zip(xs, ys):
        if xi == 0:
            return yi
    return 1.0


def f_loglinearrate(xs, ys, x):
    if x == 0:
        return _at_zero(xs, ys)
    return exp(f_linear(*_rates(xs, ys), x) * x)


def f_logconstantrate(xs, ys, x):
    if x == 0:
        return _at_zero(xs, ys)
    return exp(f_left(*_rates(xs, ys), x) * x)


FUNC = dict(left=f_left, constant=f_left, right=f_right, nearest=f_nearest,
            linear=f_linear, no=f_no, zero=f_zero, loglinear=f_loglinear,
            loglinearrate=f_loglinearrate,
            logconstantrate=f_logconstantrate)
RATE = 'loglinearrate', 'logconstantrate'
LOG = RATE + ('loglinear',)
SCHEME = dict(
    constant_linear_constant=('constant', 'linear', 'constant'),
    linear_scheme=('constant', 'linear', 'constant'),
    logconstant_loglinear_logconstant=('constant', 'loglinear', 'constant'),
    constant_loglinear_constant=('constant', 'loglinear', 'constant'),
    log_linear_scheme=('constant', 'loglinear', 'constant'),
    logconstantrate_loglinearrate_logconstantrate=(
        'logconstantrate', 'loglinearrate', 'logconstantrate'),
    log_linear_rate_scheme=(
        'logconstantrate', 'loglinearrate', 'logconstantrate'),
    zero_linear_constant=('zero', 'linear', 'constant'),
    zero_linear_scheme=('zero', 'linear', 'constant'))


def interp(kind, xs, ys, x):
    """kind is the name of a function, of a scheme or a triple of functions"""
    kind = SCHEME.get(kind, kind)
    if isinstance(kind, str):
        return FUNC[kind](xs, ys, x)
    lo, mid, hi = kind
    xl = [a for a in xs if a != 0] if lo in RATE else xs
    xr = [a for a in xs if a != 0] if hi in RATE else xs
    if x < xl[0]:
        return FUNC[lo](xs, ys, x)
    if x > xr[-1]:
        return FUNC[hi](xs, ys, x)
    return FUNC[mid](xs, ys, x)


# -- time -------------------------------------------------------------------
def ordinal(d):
    """day number of datetime.date and BusinessDate"""
    if hasattr(d, 'to_date'):
        d = d.to_date()
    return d.toordinal()


def tau(s, e):
    if isinstance(s, (int, float)):
        return float(e) - float(s)
    return (ordinal(e) - ordinal(s)) / DAYS


# -- curves -----------------------------------------------------------------
class RCurve(object):
    """model of a date curve: sorted (point, value), scheme, origin, tau"""

    def __init__(self, points, kind, origin, dc=tau, spread=None, fix=None):
        self.points = tuple(points)  # in any order
        self.kind, self.origin, self.dc = kind, origin, dc
        self.spread, self.fix = spread, dict(fix or {})
        p = sorted((dc(origin, d), v) for d, v in self.points)
        self.xs, self.ys = [a for a, _ in p], [b for _, b in p]

    def raw(self, d):
        return interp(self.kind, self.xs, self.ys, self.dc(self.origin, d))

    def __call__(self, d):
        y = self.fix[d] if d in self.fix else self.raw(d)
        return y + (self.spread(d) if self.spread else 0.0)

    def with_(self, **kw):
        a = dict(points=self.points, kind=self.kind, origin=self.origin,
                 dc=self.dc, spread=self.spread, fix=self.fix)
        a.update(kw)
        return RCurve(**a)

    def put(self, d, v):
        pts = [(a, b) for a, b in self.points]
        for i, (a, _) in enumerate(pts):
            if a == d:
                pts[i] = d, v
                break
        else:
            pts.append((d, v))
        return self.with_(points=pts)


# -- normal distribution ----------------------------------------------------
def cdf(x):
    return 0.5 * (1. + erf(x / sqrt(2.)))


def pdf(x):
    return exp(-x * x / 2.) / sqrt(2. * pi)


# -- areas ------------------------------------------------------------------
def _gauss(n=24):
    """nodes and weights of the Gauss Legendre rule on [-1, 1]"""
    res = []
    for k in range(1, n + 1):
        x = __import__('math').cos(pi * (k - 0.25) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for j in range(2, n + 1):
                p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
            dp = n * (x * p1 - p0) / (x * x - 1.)
            dx = p1 / dp
            x -= dx
            if abs(dx) < 1e-16:
                break
        res.append((x, 2. / ((1. - x * x) * dp * dp)))
    return res


GAUSS = _gauss()


def area(f, a, b, breaks=()):
    """integral of f from a to b, f is smooth between the breaks"""
    if b < a:
        return -area(f, b, a, breaks)
    pts = [a] + sorted(x for x in set(breaks) if a < x < b) + [b]
    res = 0.0
    for s, e in zip(pts[:-1], pts[1:]):
        m, h = 0.5 * (s + e), 0.5 * (e - s)
        res += h * sum(w * f(m + h * x) for x, w in GAUSS)
    return res


def breaks(xs):
    """grid points, midpoints and the origin (rates jump there)"""
    xs = sorted(xs)
    return xs + [0.5 * (a + b) for a, b in zip(xs[:-1], xs[1:])] + [0.0]


def curve_area(m, s, t):
    """integral of a model curve in units of its day count"""
    def f(x):
        return interp(m.kind, m.xs, m.ys, x)
    res = area(f, m.dc(m.origin, s), m.dc(m.origin, t), breaks(m.xs))
    if m.spread:
        res += curve_area(m.spread, s, t)
    return res


def quad_close(ctx, got, m, s, t, msg, *args, rel=1e-6):
    """average of model m from s to t.  Numerical integration may miss a
    part of 0.3 percent at each end, resp. at any jump between two points of
    the domain (nearest)"""
    a, b = m.dc(m.origin, s), m.dc(m.origin, t)
    tol, x = 1e-9, m
    while x is not None:
        h = 0.003 * abs(b - a)
        lo, hi = min(a, b), max(a, b)
        shift = m.dc(m.origin, x.origin)
        if 'nearest' in x.kind or any(lo - 1e-9 <= k + shift < lo + h or hi - h < k + shift <=
               hi + 1e-9 for k in breaks(x.xs)):
            v = [interp(x.kind, x.xs, x.ys, lo - shift + (hi - lo) * k / 500.)
                 for k in range(501)]
            tol += 0.003 * (max(v) - min(v))
        x = x.spread
    ctx.close(got, curve_area(m, s, t) / m.dc(s, t), msg, *args, rel=rel,
              abs_=tol)
