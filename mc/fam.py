"""the curve families of dcf together with their documented defaults"""
from . import ref
from .alpha import dfs, positives, values

LIN, LOGLIN, LOGRATE = 'linear_scheme', 'log_linear_scheme', \
    'log_linear_rate_scheme'

# name -> (default interpolation, kind of values, is rate curve)
FAM = {
    'Curve': (LIN, 'rate', False),
    'DateCurve': (LIN, 'rate', False),
    'ForwardCurve': (LOGLIN, 'price', False),
    'FxForwardCurve': (LOGLIN, 'price', False),
    'ZeroRateCurve': (LIN, 'rate', True),
    'CashRateCurve': (LIN, 'rate', True),
    'ShortRateCurve': ('constant', 'rate', True),
    'DiscountFactorCurve': (LOGRATE, 'df', True),
    'FlatIntensityCurve': (LIN, 'rate', True),
    'HazardRateCurve': ('constant', 'rate', True),
    'SurvivalProbabilityCurve': (LOGRATE, 'prob', True),
    'DefaultProbabilityCurve': (LOGRATE, 'default', True),
    'MarginalSurvivalProbabilityCurve': (LOGLIN, 'prob', True),
    'MarginalDefaultProbabilityCurve': (LOGLIN, 'default', True),
    'TerminalVolatilityCurve': (LIN, 'vol', True),
    'InstantaneousVolatilityCurve': (LIN, 'vol', True),
}
RATES = [k for k in FAM if FAM[k][2]]
ALT = ('linear', 'constant', 'zero_linear_scheme', 'log_linear_scheme',
       'log_linear_rate_scheme', 'nearest', 'loglinear')


HUGE = {'rate': (1.5, -0.35, 4., -0.0625), 'price': (1e6, 1e-5, 151.37, 3e3),
        'vol': (3., 1e-4, 0.75, 12.),
        'prob': (1. - 1e-9, 0.99, 0.01, 1e-5, 1e-12, 1e-30)}


def vals(cls, n, key=0):
    """-> (values to construct with, values the curve stands for)"""
    kind = FAM[cls][1]
    if key >= 100:  # extreme ones
        v = [HUGE[kind][(i + key) % 4] for i in range(n)] if kind in (
            'rate', 'price', 'vol') else HUGE['prob'][:n]
        return ([1. - x for x in v], [1. - (1. - x) for x in v]) \
            if kind == 'default' else (v, v)
    if kind == 'rate':
        v = values(n, key)
        return v, v
    if kind == 'price':
        v = positives(n, key)
        return v, v
    if kind == 'df':
        v = dfs(n, key)
        return v, v
    if kind == 'vol':
        v = [0.05 + abs(x) for x in values(n, key)]
        return v, v
    p = dfs(n, 0)[key % 3:] + [0.2, 0.1, 0.05][:key % 3]
    p = p[:n]
    if kind == 'prob':
        return p, p
    d = [1. - x for x in p]
    return d, [1. - x for x in d]


def edits(cls):
    """two values to store at a point"""
    kind = FAM[cls][1]
    if kind == 'rate':
        return 0.0, 0.0875
    if kind == 'price':
        return 1.5, 0.25
    if kind == 'vol':
        return 0.3, 0.01
    return 0.96875, 0.5


def make(cls, dom, data, **kw):
    import dcf
    return getattr(dcf, cls)(dom, data, **kw)


def rkind(cls, interpolation=None):
    return FAM[cls][0] if interpolation is None else interpolation


def model(cls, dom, data, origin=None, interpolation=None, dc=None):
    dc = dc or ref.tau
    if cls == 'Curve':
        o = 0.0
        dc = lambda s, e: float(e) - float(s)  # noqa: E731
    else:
        o = dom[0] if origin is None else origin
    return ref.RCurve(zip(dom, data), rkind(cls, interpolation), o, dc)
