"""C12 yield to maturity, fair rate and curve fit re-price"""
from datetime import timedelta

from ..alpha import MANY, axis, bent, twin
from ..flows import make
from ..rates import RRate
from ..ref import exp
from .c10 import curve

LEVEL = 'exploration'
RULE = ('every kind of cashflow list x payment dates x discount curve x '
        'valuation date x target present value x bounds x precision of the '
        'lists below: result re-prices by an independent model, is found '
        'whatever it is (yields and rates planted over the whole range of '
        'bounds, incl. the ends, zero and negative), falling and rising '
        'functions; refusal if there is no solution; fits of curves to '
        'instruments in any order')
BOUNDS = {'planted solutions': 9, 'payment dates': '7 sets of 1 to 21 dates',
          'fitted dates': '1 to 16'}
ASSUMPTIONS = ['value strictly monotone in the yield resp. rate',
               'curve fit: one instrument maturing at each grid date, '
               'default interpolation, grid of the curve']
SETS = [(1,), (1, 2, 4), (2, 3, 4, 5), (4, 1, 3)]
PLANT = (-0.09, -0.0125, -1e-4, 0.0, 1e-5, 0.01, 0.0375, 0.15, 0.199)
WIDE = -0.375, 0.625, 0.875


def scenarios(tier):
    quick = tier == 'quick'
    for ax in ('float', 'int', 'date', 'bd'):
        for g in SETS[1:] if quick and ax != 'bd' else SETS:
            for kind in ('fixed', 'plain', 'float', 'legs'):
                for v in (0, 1, 2):
                    yield {'ytm': kind, 'axis': ax, 'set': g, 'val': v,
                           'thin': quick}
            for kind in ('rate', 'zero', 'collar', 'dc', 'rateoff', 'neg',
                         'curve'):
                for cv in ('flat', 'zero', 'df'):
                    for v in (0, 1):
                        yield {'fair': kind, 'axis': ax, 'set': g,
                               'curve': cv, 'val': v, 'thin': quick}
        for g in MANY:  # many flows
            for kind in ('fixed', 'legs'):
                yield {'ytm': kind, 'axis': ax, 'set': g, 'val': 1,
                       'thin': quick}
            for kind in ('rate', 'zero', 'collar', 'neg'):
                yield {'fair': kind, 'axis': ax, 'set': g, 'curve': 'zero',
                       'val': 1, 'thin': quick}
        for n in (1, 2, 3, 4, 9, 16):
            for order in range(3):
                for inst in ('fixed', 'rate'):
                    for g in ('sorted', 'unsorted', 'other', 'late'):
                        if g == 'late' and n > 4:
                            continue
                        yield {'fit': n, 'order': order,
                               'cls': 'ZeroRateCurve',
                               'axis': ax, 'inst': inst, 'grid': g}


def run(sc, ctx):
    if 'fit' in sc:
        return fit(sc, ctx)
    pts, qs = axis(sc['axis'], many=24 if max(sc['set']) > 6 else 0)
    v = [pts[0], qs[2], pts[1]][sc['val']]
    if 'ytm' in sc:
        return ytm(sc, ctx, pts, v)
    return fair(sc, ctx, pts, v)


def ytm(sc, ctx, pts, v):
    import dcf
    leg = make(sc['ytm'], sc['axis'], pts, tuple(sc['set']), 0)
    # all cashflows of one sign are strictly monotone
    real = dcf.CashFlowList(leg.dates, [1.0 + abs(leg.cf(d, v))
                                        for d in leg.dates])
    flows = {d: 1.0 + abs(leg.cf(d, v)) for d in leg.dates}
    if sc['ytm'] == 'legs':
        parts = [dcf.CashFlowList([d], [flows[d]]) for d in leg.dates]
        real = dcf.CashFlowLegList(parts)
    for sign in (1, -1):
        if sign < 0:
            if sc['ytm'] == 'legs':
                continue
            real = dcf.CashFlowList(leg.dates, [-flows[d] for d in leg.dates])
        fut = [d for d in leg.dates if v < d]
        if not fut:
            return
        from ..ref import tau
        total = sum(flows[d] for d in leg.dates if v <= d)

        def pv(y):
            return sign * sum(flows[d] * exp(-y * tau(v, d))
                              for d in leg.dates if v <= d)
        for i, y in enumerate(PLANT + WIDE):
            for j, kw in enumerate(({}, {'precision': 1e-10},
                       {'bounds': (-0.5, 1.0)}, {'bounds': (y - .01, y + .03)},
                       {'bounds': (0.25, -0.15)})):
                if sc['thin'] and (i + j + sc['val']) % 3 or \
                        y in WIDE and kw.get('bounds', (1,))[0] not in (
                            -.5, y - .01):
                    continue
                got = dcf.get_yield_to_maturity(
                    real, twin(v), pv(y), **kw)
                tol = kw.get('precision', 1e-7)
                slope = sum(flows[d] * tau(v, d) * exp(-y * tau(v, d))
                            for d in fut)
                ctx.close(got, y, 'yield %s at %s %s', y, v, kw, rel=0,
                          abs_=tol * 1.1 + 1e-13 * total / slope)
                ctx.close(pv(got), pv(y), 'price of yield %s', y, rel=0,
                          abs_=1.05 * tol + 1e-13 * total + 1e-15 * slope)
                ctx.case(sign, y, str(kw))
        # default valuation date is the first date of the list
        if sc['ytm'] != 'legs' and len(leg.dates) > 1 and \
                sc['val'] == 0 and leg.dates[0] == min(leg.dates):
            o = leg.dates[0]
            t = sign * sum(flows[d] * exp(-0.03 * tau(o, d))
                           for d in leg.dates)
            ctx.close(dcf.get_yield_to_maturity(real, present_value=t), 0.03,
                      'default valuation date', abs_=1.1e-7)
        # ... or its origin
        if sc['val'] == 0 and v <= min(leg.dates):
            kw = {'origin': twin(v)}
            own = dcf.CashFlowList(leg.dates, [
                sign * flows[d] for d in leg.dates], **kw)
            lists = [own, dcf.CashFlowLegList([own]), dcf.FixedCashFlowList(
                leg.dates, [sign * flows[d] for d in leg.dates], **kw)]
            for x in lists:
                ctx.close(dcf.get_yield_to_maturity(
                    x, present_value=pv(0.03)), 0.03, 'default valuation '
                    'date of list with origin', rel=0, abs_=1.1e-7)
        # day count of the yield
        t = sign * sum(flows[d] * exp(-0.0375 * bent(v, d)) for d in fut)
        t += sign * sum(flows[d] for d in leg.dates if v == d)
        ctx.close(dcf.get_yield_to_maturity(
            real, v, t, day_count=bent), 0.0375, 'yield by day count', rel=0,
            abs_=1.1e-7)
        for far in (pv(-0.2), pv(0.3)):
            ctx.raises(AssertionError, lambda: dcf.get_yield_to_maturity(
                real, v, far), 'no yield within bounds')
    ctx.sample({'flows': str(flows), 'valuation': str(v)})


def fair(sc, ctx, pts, v):
    import dcf
    kind = sc['fair']
    leg = make('rate' if kind == 'neg' else kind, sc['axis'], pts,
               tuple(sc['set']), 0)
    # amounts of one sign
    c, m = curve(sc['curve'], pts, sc['axis'])
    sign = -1. if kind == 'neg' else 1.
    terms = {}
    for d in leg.dates:
        p = leg.real.payoff(d)
        a = sign * (1. + abs(p.amount))
        p.amount = a
        terms[d] = leg.info['terms'][d][:2] + (a,) + leg.info['terms'][d][3:]
    leg.info['terms'].update(terms)
    fut = [d for d in leg.dates if v <= d]
    dc = leg.info['dc']
    if not any(dc(*terms[d][:2]) for d in fut):
        return
    annuity = sum(m.df(v, d) * terms[d][2] * dc(*terms[d][:2]) for d in fut)
    base = leg.pv(m.df, v) - 0.02 * annuity  # value for rate zero
    for i, r in enumerate(PLANT + WIDE):
        for j, kw in enumerate(({}, {'precision': 1e-10}, {'bounds': (-0.5, 1.0)},
                   {'bounds': (0.25, -0.15)})):
            if sc['thin'] and (i + j + sc['val']) % 3 or \
                    r in WIDE and kw.get('bounds', (1,))[0] != -.5:
                continue
            t = base + r * annuity
            got = dcf.get_fair_rate(leg.real, c, twin(v), t, **kw)
            tol = kw.get('precision', 1e-7)
            ctx.close(got, r, 'fair rate %s on %s %s', r, v, kw, rel=0,
                      abs_=tol * 1.1 + 4 * leg.tol * leg.scale / abs(annuity)
                      + 1e-12 * abs(base / annuity))
            ctx.close((got - r) * annuity, 0., 'value at fair rate %s', r,
                      abs_=tol * 1.05 + 4 * leg.tol * leg.scale
                      + 1e-13 * (abs(base) + abs(annuity)))
            ctx.case(r, str(kw))
    if v == c.origin:
        ctx.close(dcf.get_fair_rate(leg.real, c, present_value=base + .0125 *
                                    annuity), 0.0125, 'default valuation date',
                  rel=0, abs_=1.1e-7 + 4 * leg.tol * leg.scale / abs(annuity)
                  + 1e-12 * abs(base / annuity))
    t = dcf.get_present_value(leg.real, c, v)
    ctx.close(leg.real.fixed_rate, 0.02, 'fixed rate kept')
    ctx.close(dcf.get_fair_rate(leg.real, c, v, t), 0.02, 'own rate',
              abs_=1.1e-7)
    r = dcf.get_fair_rate(leg.real, c, v, precision=1e-9, bounds=(-5., 5.)) \
        if abs(base / annuity) < 4.9 else None
    if r is not None:
        leg.real.fixed_rate = r
        z = dcf.get_present_value(leg.real, c, v)
        ctx.close(z, 0.0, 'value at fair rate', abs_=1e-8 * (
            1 + abs(annuity)) + 4 * leg.tol * leg.scale)
    ctx.sample({'annuity': annuity, 'base': base})


def fit(sc, ctx):
    """instruments priced on a curve, another curve is fitted to them"""
    import dcf
    ax, n = sc['axis'], sc['fit']
    pts, qs = axis(ax, many=12)
    o = pts[0]
    grid = [pts[i] for i in ((1, 3, 4, 5) if n < 5 else range(1, 17))][:n]
    rates = ([0.02, 0.035, 0.01, 0.03] + [
        0.02 + 0.001 * i for i in range(12)])[:n]
    kw = {'origin': o}
    truth = RRate(sc['cls'], zip(grid, rates), o)
    inst = []
    for k in range(n):
        if sc['inst'] == 'fixed':
            ds = grid[:k + 1]
            am = [5.0] * k + [105.0]
            inst.append((dcf.FixedCashFlowList(ds, am), dict(zip(ds, am))))
        else:
            ds = grid[:k + 1]
            x = dcf.RateCashFlowList(ds, 100., origin=o, fixed_rate=0.05)
            per = list(zip([o] + ds[:-1], ds))
            am = [100. * 0.05 * truth.dc(s, e) for s, e in per]
            y = dcf.FixedCashFlowList([ds[-1]], [100.])
            am[-1] += 100.
            inst.append((dcf.CashFlowLegList([x, y]), dict(zip(ds, am))))
    perm = {0: list(range(n)), 1: list(range(n))[::-1],
            2: list(range(n))[1:] + [0]}[sc['order']]
    inst = [inst[i] for i in perm]
    pv = [sum(a * truth.df(o, d) for d, a in f.items()) for _, f in inst]
    g, r = list(grid), [0.005 * (i + 1) for i in range(n)]
    if sc['grid'] == 'unsorted':
        g = g[::-1]
    if sc['grid'] == 'late':  # maturities between dates of the curve
        g = [x + {'float': 0.015625, 'int': 0, 'date': timedelta(4),
                  'bd': '4D'}[ax] for x in grid]
    c = dcf.ZeroRateCurve(g, r, **kw)
    kws = {}
    if sc['grid'] == 'other':
        other = c
        kws = {'fitting_curve': other, 'fitting_grid': list(g)}
    prec = 1e-11
    res = dcf.get_curve_fit([x for x, _ in inst], c, o, present_value=pv,
                            precision=prec, **kws)
    res = dict(zip(g, res))
    if g == list(grid) or sc['grid'] != 'late':
        ctx.close([res[d] for d in grid], rates, 'fitted rates', rel=0,
                  abs_=1e-9)
    f = RRate(sc['cls'], res.items(), o)
    for (_, fl), p in zip(inst, pv):
        ctx.close(sum(a * f.df(o, d) for d, a in fl.items()), p, 'price',
                  abs_=1e-9)
    new = dcf.ZeroRateCurve(g, [res[d] for d in g], **kw)
    for (x, _), p in zip(inst, pv):
        ctx.close(dcf.get_present_value(x, new, o), p, 'price', abs_=1e-9)
    ctx.case(str(res))
    if n == 1:  # one number for all present values
        res = dcf.get_curve_fit([inst[0][0]], c, o, present_value=pv[0],
                                precision=prec)
        ctx.close(list(res), rates, 'fitted to number', abs_=1e-9)
    ctx.sample({'rates': rates, 'fitted': str(res)})

