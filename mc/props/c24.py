"""C24 products"""
from datetime import date, timedelta

from ..alpha import bent
from ..ref import tau

LEVEL = 'exploration'
RULE = ('every start x maturity (date or period, as object or string) x period x convention x '
        'holidays x day count x notional (amount, redemption plan) x coupon '
        '(fixed, floating, both) x offsets: payment dates and amounts of '
        'each leg of bonds and swaps against an independent calendar, '
        'schedule and cashflow model; floaters without stub are worth '
        'nothing at start')
BOUNDS = {'business dates': '4 starts x 10 maturities x 5 periods x 4 '
          'conventions x 3 holidays', 'numbers': '3 starts x 7 maturities x '
          '4 periods', 'plans': 5}
ASSUMPTIONS = ['year fractions of named conventions follow their standard '
               'definition', 'no two adjusted payment dates coincide']
STARTS = (2023, 1, 31), (2023, 6, 15), (2024, 2, 29), (2021, 11, 30)
ENDS = ('1Y', '18M', '5Y', (2024, 12, 31), (2025, 3, 15), (2028, 2, 29),
        (2026, 5, 1), (2024, 8, 31), '2Y', '30Y')
PERIODS = '1Y', '6M', '3M', '1M', '4M'
CONV = 'mod_follow', 'follow', 'previous', 'no'
DC = 'thirty360', 'actact', 'act_360', None, bent


def scenarios(tier):
    n = 0
    for s in STARTS:
        for e in ENDS:
            for p in PERIODS:
                for c in CONV:
                    for h in ('target', None, 'list'):
                        n += 1
                        if tier == 'quick' and n % 3:
                            continue
                        yield {'axis': 'bd', 'start': s, 'end': e,
                               'period': p, 'conv': c, 'hol': h, 'n': n,
                               'all': tier != 'quick'}
    for ax, starts, ends, pers in (
            ('float', (0.0, 0.25, -1.5), (1.0, 2.5, 10.0, 0.25, 0.375, 5.125,
                                          0.125, 40.0),
             (1.0, 0.5, 0.25, 0.75)),
            ('int', (0, 3, -2), (1, 5, 10, 12, 7, 2, 30), (1, 2, 3, 5)),
            ('date', ((2023, 1, 31), (2024, 2, 29), (2023, 6, 1)),
             (365, 730, 91, 100, 1000, 31, 182), (365, 182, 91, 60))):
        for s in starts:
            for e in ends:
                for p in pers:
                    n += 1
                    yield {'axis': ax, 'start': s, 'end': e, 'period': p,
                           'n': n, 'all': tier != 'quick'}


# -- calendar ---------------------------------------------------------------
def easter(y):
    a, b, c = y % 19, y // 100, y % 100
    d, e = b // 4, b % 4
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = c // 4, c % 4
    m = (32 + 2 * e + 2 * i - h - k) % 7
    n = (a + 11 * h + 22 * m) // 451
    return date(y, (h + m - 7 * n + 114) // 31,
                (h + m - 7 * n + 114) % 31 + 1)


def target(d):
    e = easter(d.year)
    return (d.month, d.day) in ((1, 1), (5, 1), (12, 25), (12, 26)) or \
        d in (e - timedelta(2), e + timedelta(1))


EXTRA = [date(2024, 12, 31), date(2025, 3, 17), date(2024, 8, 30),
         date(2023, 7, 31)]


def open_(d, hol):
    if d.weekday() > 4:
        return False
    return d not in EXTRA if hol == 'list' else not target(d)


def adjust(d, conv, hol):
    def go(x, k):
        while not open_(x, hol):
            x += timedelta(k)
        return x
    if conv == 'no':
        return d
    if conv == 'previous':
        return go(d, -1)
    x = go(d, 1)
    if conv == 'mod_follow' and x.month != d.month:
        x = go(d, -1)
    return x


def months(p):
    return int(p[:-1]) * (12 if p[-1] == 'Y' else 1)


def add(d, n):
    y, m = divmod(d.year * 12 + d.month - 1 + n, 12)
    k = d.day
    while True:
        try:
            return date(y, m + 1, k)
        except ValueError:
            k -= 1


def year(y):
    return 366. if y % 4 == 0 and (y % 100 or y % 400 == 0) else 365.


def fraction(dc, s, e):
    if callable(dc):
        return dc(s, e)
    if dc is None:
        return tau(s, e)
    s, e = (x.to_date() if hasattr(x, 'to_date') else x for x in (s, e))
    if dc == 'thirty360':
        a = min(s.day, 30)
        b = 30 if a == 30 and e.day == 31 else e.day
        return (360 * (e.year - s.year) + 30 * (e.month - s.month) + b - a
                ) / 360.
    if dc == 'act_360':
        return (e - s).days / 360.
    res = 0.0
    while s.year < e.year:
        n = date(s.year + 1, 1, 1)
        res += (n - s).days / year(s.year)
        s = n
    return res + (e - s).days / year(s.year)


def schedule(sc):
    """-> start, maturity, period arguments, payment dates"""
    if sc['axis'] == 'bd':
        from businessdate import BusinessDate

        def bd(d):
            return BusinessDate(d.year, d.month, d.day)
        s = date(*sc['start'])
        e = add(s, months(sc['end'])) if isinstance(sc['end'], str) else \
            date(*sc['end'])
        res, k = [e], 1
        while add(e, -k * months(sc['period'])) > s:
            res.insert(0, add(e, -k * months(sc['period'])))
            k += 1
        pay = [adjust(d, sc['conv'], sc['hol']) for d in res]
        if adjust(s, sc['conv'], sc['hol']) == pay[0] or \
                len(set(pay)) < len(pay) or pay[0] <= s:
            return None
        from businessdate import BusinessPeriod
        k = sc['n'] // 3 % 4
        if isinstance(sc['end'], str):
            arg = BusinessPeriod(sc['end']) if k == 1 else sc['end']
        else:
            arg = [bd(e), e, e.strftime('%Y%m%d'), e.isoformat()][k]
        per = BusinessPeriod(sc['period']) if k == 2 else sc['period']
        return bd(s), arg, per, [bd(d) for d in pay], bd(e)
    if sc['axis'] == 'date':
        s, p = date(*sc['start']), timedelta(sc['period'])
        e = s + timedelta(sc['end'])
    else:
        s, p = sc['start'], sc['period']
        e = s + sc['end']
    res, k = [e], 1
    while e - p * k > s:
        res.insert(0, e - p * k)
        k += 1
    return s, e, p, res, e


def run(sc, ctx):
    import dcf
    t = schedule(sc)
    if t is None:
        return
    s, arg, p, pay, end = t
    n = len(pay)
    bd = sc['axis'] == 'bd'
    hol = sc.get('hol')
    if hol == 'list':
        from businessdate import BusinessHolidays
        hol = BusinessHolidays(EXTRA)
    elif bd and hol is None and sc['n'] % 2:
        hol = 'target'
    base = dict(start_date=s, end_date=arg, period=p)
    if bd:
        base.update(convention=sc['conv'], holidays=hol)
    z = [s], [0.03]
    if sc['n'] % 3 == 1 or sc['n'] % 4 == 3:
        z = [s, end], [0.03, -0.02]
    fwd = dcf.ZeroRateCurve(*z, forward_tenor=p)
    disc = dcf.ZeroRateCurve([s], [0.05])
    if sc['period'] == '1M' or sc['n'] % 2:
        plans = [100.0, -1.0]
    else:
        plans = [100, [float(i + 1) for i in range(n)], (5.0,) * n,
                 [0.0] * (n - 1) + [1e6],
                 [7.0 if i % 2 else -3.0 for i in range(n)]]
    off = {'bd': '2D', 'date': timedelta(2), 'int': 1,
           'float': 0.125}[sc['axis']]
    starts = [s] + pay[:-1]

    def amounts(dc, notionals, rate, f, pay_off=None, fix=None):
        res = []
        for a, b, x in zip(starts, pay, notionals):
            if pay_off:
                a, b = a - pay_off, b - pay_off
            y = rate
            if f is not None:
                g = a - fix if fix else a
                y += f.get_cash_rate(g)
            res.append(x * y * fraction(dc, a, b))
        return res

    k = 0
    for notional in plans:
        plan = isinstance(notional, (list, tuple))
        if plan:
            out = [sum(notional[i:]) for i in range(n)]
            dates, flows = [s] + pay, [-sum(notional)] + list(notional)
        else:
            out = [notional] * n
            dates, flows = [s, end], [-notional, notional]
        for rate, f in ((0.05, None), (0.0, fwd), (-0.01, fwd), (0, None)):
            for dc in DC if bd else (None, bent, 'thirty360'):
                k += 1
                if not sc['all'] and k % 3 != sc['n'] % 3:
                    continue
                fx, po = ((None, None), (off, None), (None, off),
                          (off, off))[k % 4]
                b = dcf.bond(notional_amount=notional, fixed_rate=rate,
                             forward_curve=f, day_count=dc, fixing_offset=fx,
                             pay_offset=po, **base)
                edc = dc if bd or not isinstance(dc, str) else None
                want = amounts(edc, out, rate, f, po, fx)
                x, y = b.legs
                ctx.ok(list(x.domain) == dates, 'notional dates %s, %s',
                       list(x.domain), dates)
                ctx.close([x[d] for d in dates], flows, 'notional flows',
                          rel=1e-13)
                ctx.ok(list(y.domain) == pay, 'payment dates %s, %s',
                       list(y.domain), pay)
                ctx.close([y[d] for d in pay], want, 'coupons %s %s %s', dc,
                          rate, notional)
                ctx.ok(b.origin == s, 'origin')
                total = dict.fromkeys(dates + pay, 0.)
                for d, a in list(zip(dates, flows)) + list(zip(pay, want)):
                    total[d] += a
                ctx.ok(list(b.domain) == sorted(total), 'all dates')
                ctx.close(dcf.get_present_value(b, disc, s), sum(
                    a * disc.get_discount_factor(s, d)
                    for d, a in total.items()), 'present value',
                    abs_=1e-9 * max(map(abs, flows)))
                ctx.case(plan, rate, dc, k % 4)
        # floating bond on its own curve
        if pay[-1] == end and all(
                plus(a, sc['period'] if bd else p, bd) == d for a, d in zip(starts, pay)):
            b = dcf.bond(notional_amount=notional, forward_curve=fwd,
                         day_count=None, **base)
            ctx.close(dcf.get_present_value(b, fwd, s), 0., 'par floater',
                      abs_=1e-9 * max(map(abs, flows)))
    swap(sc, ctx, dcf, base, pay, starts, fwd, disc, bd, off)
    ctx.sample({'payment dates': str(pay[:3])})


def plus(d, p, bd):
    if bd:
        from businessdate import BusinessDate
        x = add(d.to_date(), months(p))
        return BusinessDate(x.year, x.month, x.day)
    return d + p


def swap(sc, ctx, dcf, base, pay, starts, fwd, disc, bd, off):
    other = dict(sc, period='6M' if bd else sc['period'])
    t = schedule(other)
    if t is None:
        return
    s, q, pay2 = t[0], t[2], t[3]
    for dc, dc2 in (('thirty360', 'actact'), (None, 'act_360'),
                    ('actact', None)):
        x = dcf.interest_rate_swap(
            notional_amount=1e4, day_count=dc, fixed_rate=0.02,
            rec_leg_period=q, rec_leg_day_count=dc2,
            rec_leg_fixed_rate=0.001, rec_leg_forward_curve=fwd, **base)
        pl, rl = x.legs
        if not bd:
            dc = dc2 = None
        ctx.ok(list(pl.domain) == pay, 'dates of pay leg')
        ctx.ok(list(rl.domain) == pay2, 'dates of receive leg')
        a = [-1e4 * 0.02 * fraction(dc, u, v) for u, v in zip(starts, pay)]
        st2 = [s] + pay2[:-1]
        b = [1e4 * (0.001 + fwd.get_cash_rate(u)) * fraction(dc2, u, v)
             for u, v in zip(st2, pay2)]
        ctx.close([pl[d] for d in pay], a, 'pay leg')
        ctx.close([rl[d] for d in pay2], b, 'receive leg')
        pv = sum(v * disc.get_discount_factor(s, d)
                 for d, v in list(zip(pay, a)) + list(zip(pay2, b)))
        ctx.close(dcf.get_present_value(x, disc, s), pv, 'swap', abs_=1e-7)
        r = dcf.get_fair_rate(pl, disc, s, present_value=-sum(
            v * disc.get_discount_factor(s, d) for d, v in zip(pay2, b)))
        y = dcf.interest_rate_swap(
            notional_amount=1e4, day_count=dc, fixed_rate=r,
            rec_leg_period=q, rec_leg_day_count=dc2,
            rec_leg_fixed_rate=0.001, rec_leg_forward_curve=fwd, **base)
        ctx.close(dcf.get_present_value(y, disc, s), 0., 'fair swap',
                  abs_=1e-6)
        z = dcf.interest_rate_swap(
            notional_amount=-1e4, day_count=dc, fixed_rate=0.02,
            rec_leg_period=q, rec_leg_day_count=dc2,
            rec_leg_fixed_rate=0.001, rec_leg_forward_curve=fwd, **base)
        ctx.close(dcf.get_present_value(z, disc, s), -pv, 'other side',
                  abs_=1e-7)
    # offsets and forward curves of both legs
    steep = dcf.ZeroRateCurve([s, pay[-1]], [0.01, 0.09], forward_tenor=q)
    flat = fwd
    for i, (fx, po) in enumerate(((None, None), (off, None), (None, off),
                                  (off, off))):
        for f, g in ((steep, flat), (flat, steep), (None, steep),
                     (steep, None))[i % 2::2]:
            x = dcf.interest_rate_swap(
                notional_amount=1e4, day_count=bent, fixed_rate=0.02,
                forward_curve=f, rec_leg_period=q, rec_leg_day_count=None,
                rec_leg_forward_curve=g, fixing_offset=fx, pay_offset=po,
                **base)
            for leg, st, ds, h, c, dc, a in (
                    (x.legs[0], starts, pay, f, 0.02, bent, -1e4),
                    (x.legs[1], [s] + pay2[:-1], pay2, g, 0., None, 1e4)):
                w = []
                for u, v in zip(st, ds):
                    if po:
                        u, v = u - po, v - po
                    y = c
                    if h is not None:
                        y += h.get_cash_rate(u - fx if fx else u)
                    w.append(a * y * fraction(dc, u, v))
                ctx.close([leg[d] for d in ds], w, 'leg of swap %s %s', fx,
                          po)
            ctx.case('swap', i)
