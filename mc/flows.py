"""cashflow lists next to independent reference cashflows"""
from datetime import timedelta

from .alpha import bent
from .rates import RRate
from .ref import RCurve, cdf, pdf, sqrt, tau

OFF = {'float': 0.125, 'int': 1, 'date': timedelta(3), 'bd': '3D'}
TENOR = {'float': 0.25, 'int': 1, 'date': timedelta(91), 'bd': '3M'}
AMOUNTS = (100, -25.0, 0, 1e6, 7.5, -3)


def shift(d, off):
    """date before d by off"""
    if isinstance(off, str):
        n = int(off[:-1])
        assert off[-1] == 'D'
        return type(d)(*_minus(d, n))
    return d - off


def _minus(d, n):
    x = d.to_date() - timedelta(n)
    return x.year, x.month, x.day


class Leg(object):
    """real cashflow list, its dates and the model cf(date, valuation)"""

    def __init__(self, kind, real, dates, cf, tol=1e-9, scale=1.0, **info):
        self.kind, self.real, self.dates, self.cf = kind, real, dates, cf
        self.tol, self.scale = tol, scale
        self.info = info

    def pv(self, df, v):
        """reference present value"""
        return sum(df(v, d) * self.cf(d, v) for d in self.dates if v <= d)


def periods(dates, origin):
    """accrual periods of payment dates"""
    if origin is not None:
        return list(zip([origin] + list(dates[:-1]), dates))
    if len(dates) > 1:
        first = dates[0] - (dates[1] - dates[0])
        return list(zip([first] + list(dates[:-1]), dates))
    return list(zip(dates, dates))


def normal_call(t, k, f, vol):
    if not vol or t <= 0:
        return max(f - k, 0.)
    s = vol * sqrt(t)
    d = (f - k) / s
    return (f - k) * cdf(d) + s * pdf(d)


def make(kind, ax, pts, idx, key=0):
    import dcf
    dates = [pts[i] for i in idx]
    n = len(dates)
    am = [AMOUNTS[(i + key) % len(AMOUNTS)] for i in range(n)]
    off, ten = OFF[ax], TENOR[ax]
    if kind == 'plain':
        m = dict(zip(dates, am))
        return Leg(kind, dcf.CashFlowList(dates, am), dates,
                   lambda d, v: m[d])
    if kind == 'fixed':
        m = dict(zip(dates, am))
        return Leg(kind, dcf.FixedCashFlowList(dates, am), dates,
                   lambda d, v: m[d])
    o = pts[0]
    if kind in ('rate', 'float', 'zero', 'curve', 'rateoff', 'noorg', 'dc',
                'collar', 'floor', 'cap', 'collaroff'):
        kw = {'origin': o, 'fixed_rate': 0.02}
        fix, pay, dc = None, None, tau
        fwd = None
        if kind == 'noorg':
            kw.pop('origin')
            o = None
        if kind == 'dc':
            kw['day_count'] = dc = bent
        if kind == 'collaroff':
            kw['day_count'] = dc = bent
        if kind in ('rateoff', 'collaroff'):
            kw.update(fixing_offset=off, pay_offset=off)
            fix = pay = off
        if kind == 'float':
            kw['forward_curve'] = 0.03
            fwd = lambda d: 0.03  # noqa: E731
        if kind in ('zero', 'rateoff'):
            g = [pts[0], pts[3], pts[5]]
            z = [0.01, 0.02, 0.05]
            kw['forward_curve'] = dcf.ZeroRateCurve(
                g, z, origin=pts[0], forward_tenor=ten)
            m = RRate('ZeroRateCurve', zip(g, z), pts[0])
            fwd = lambda d: m.cash(d, d + ten)  # noqa: E731
        if kind == 'curve':
            g, z = [pts[1], pts[4]], [0.04, -0.01]
            kw['forward_curve'] = dcf.DateCurve(g, z)
            fwd = RCurve(zip(g, z), 'linear_scheme', pts[1])
        per = periods(dates, o)
        terms = {}
        for (s, e), d, a in zip(per, dates, am):
            if pay:
                s, e = shift(s, pay), shift(e, pay)
            terms[d] = s, e, a, shift(s, fix) if fix else s
        if kind in ('collar', 'floor', 'cap', 'collaroff'):
            g, z = [pts[1], pts[4]], [0.04, -0.01]
            fc = dcf.DateCurve(g, z)
            fwd = RCurve(zip(g, z), 'linear_scheme', pts[1])
            cap = 0.025 if kind != 'floor' else None
            flo = 0.01 if kind != 'cap' else None
            vol = 0.015
            model = dcf.models.NormalOptionPayOffModel(
                pts[0], fc, vol)
            real = dcf.ContingentRateCashFlowList(
                dates, am, cap_strike=cap, floor_strike=flo,
                payoff_model=model, **kw)

            def cf(d, v):
                s, e, a, x = terms[d]
                t, f = tau(v, x), fwd(x)
                y = kw['fixed_rate'] + f
                if flo is not None:
                    y += normal_call(t, flo, f, vol) + flo - f
                if cap is not None:
                    y -= normal_call(t, cap, f, vol)
                return y * dc(s, e) * a
            return Leg(kind, real, dates, cf, 2e-7, max(map(abs, am)),
                       terms=terms, model=model, dc=dc)
        rate = kw['fixed_rate']
        real = dcf.RateCashFlowList(dates, am, **kw)

        def cf(d, v):
            s, e, a, x = terms[d]
            return (rate + (fwd(x) if fwd else 0.)) * dc(s, e) * a
        return Leg(kind, real, dates, cf, terms=terms, dc=dc, fwd=fwd)
    if kind in ('option', 'put'):
        g, z = [pts[0], pts[5]], [100., 130.]
        fc = dcf.DateCurve(g, z)
        fwd = RCurve(zip(g, z), 'linear_scheme', pts[0])
        vol = 20.0
        model = dcf.models.NormalOptionPayOffModel(pts[0], fc, vol)
        real = dcf.OptionCashflowList(dates, am, [105.] * n, kind == 'put',
                                      fixing_offset=off, payoff_model=model)

        def cf(d, v):
            x = shift(d, off)
            c = normal_call(tau(v, x), 105., fwd(x), vol)
            if kind == 'put':
                c += 105. - fwd(x)
            a = am[dates.index(d)]
            return a * c
        return Leg(kind, real, dates, cf, 2e-7, 100 * max(map(abs, am)),
                   model=model)
    if kind == 'legs':
        import dcf
        a = make('fixed', ax, pts, idx, key)
        b = make('float', ax, pts, idx[-2:] + (6,), key + 1)
        return join([a, b])
    if kind == 'nested':
        a = make('legs', ax, pts, idx, key)
        b = make('collar', ax, pts, idx, key + 1)
        return join([b, a])
    raise KeyError(kind)


def join(legs):
    import dcf
    real = dcf.CashFlowLegList([x.real for x in legs])
    dates = sorted(set(d for x in legs for d in x.dates))

    def cf(d, v):
        return sum(x.cf(d, v) for x in legs if d in x.dates)
    return Leg('legs', real, dates, cf, max(x.tol for x in legs),
               max(x.scale for x in legs), legs=legs)


KINDS = ('plain', 'fixed', 'rate', 'float', 'zero', 'curve', 'rateoff',
         'noorg', 'dc', 'collar', 'floor', 'cap', 'option', 'put', 'legs',
         'nested', 'collaroff')
