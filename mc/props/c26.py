"""C26 rate tables"""
from datetime import timedelta

from .. import fam
from ..alpha import MANY, axis, subsets, twin

LEVEL = 'exploration'
RULE = ('every curve class x grid (in all given orders) x origin x date '
        'type: table with default axes, and with every subset of rows and '
        'increasing terms, is compared entry by entry with the curve; the '
        'curve is unchanged')
BOUNDS = {'grids': 'all subsets of 1 to 4 (thorough 5) out of 7 dates, 3 '
          'grids of 15 to 21 dates',
          'terms': 'all subsets of 1 to 3 out of 5 terms'}
ASSUMPTIONS = ['rows and terms are given in increasing order']
TERMS = {'float': (0.0, 0.125, 0.25, 1.0, 3.0), 'int': (0, 1, 2, 4, 12),
         'date': tuple(map(timedelta, (0, 1, 31, 365, 1000))),
         'bd': ('0D', '1D', '1M', '1Y', '3Y')}


def scenarios(tier):
    n = 0
    for cls in fam.FAM:
        for ax in ('float', 'int', 'date', 'bd'):
            if cls == 'Curve' and ax in ('date', 'bd'):
                continue
            if cls.startswith('Fx'):
                continue
            for idx in list(subsets(range(7), 1, 4 if tier == 'quick'
                                    else 5)) + list(MANY):
                n += 1
                if tier == 'quick' and n % 5 and len(idx) < 8:
                    continue
                yield {'cls': cls, 'axis': ax, 'idx': idx, 'n': n,
                       'all': tier != 'quick'}


def run(sc, ctx):
    import dcf
    pts, qs = axis(sc['axis'], many=24 if len(sc['idx']) > 7 else 0)
    cls, n = sc['cls'], sc['n']
    grid = [pts[i] for i in sc['idx']]
    data, _ = fam.vals(cls, len(grid), n % 100)
    terms = TERMS[sc['axis']]
    if sc['axis'] == 'bd':
        from businessdate import BusinessPeriod
        terms = tuple(map(BusinessPeriod, terms))
    for org in (None,) if cls == 'Curve' else (None, 0, 1):
        o = None if org is None else (qs[0], twin(pts[2]))[org]
        if len(grid) == 1 and 'rate_scheme' in fam.FAM[cls][0] and \
                o in (None, grid[0]):
            continue  # no rate at all
        kw = {} if cls == 'Curve' else {'origin': o}
        rev = n % 2 or org == 1
        c = fam.make(cls, grid[::-1] if rev else grid,
                     data[::-1] if rev else data, **kw)
        dom = list(c.domain)
        # default axes
        rows = sorted(grid)
        start = rows[0] if cls == 'Curve' else c.origin
        if start not in rows:
            rows = sorted([start] + rows)
        for t in (c.table, dcf.rate_table(c)):
            ctx.ok(t[0][0] == '' and [r[0] for r in t[1:]] == rows,
                   'dates of table: %s, expected %s', [r[0] for r in t], rows)
            head = t[0][1:]
            ctx.ok(head[0] == rows[0] - rows[0] or
                   rows[0] + head[0] == rows[0], 'first term is zero')
            ctx.ok(list(head) == sorted(set(head)), 'order of terms')
            ctx.ok(len(rows) == 1 or sc['axis'] == 'bd' or rows[1] in [
                rows[0] + h for h in head], 'first step is a term')
            for i, x in enumerate(rows):
                ctx.ok(len(t[i + 1]) >= 2, 'rate at the date itself')
            entries(ctx, c, t, rows, head)
        # given axes
        for k, ts in enumerate(subsets(terms, 1, 3)):
            xs = [rows, tuple(sorted(pts[1:4] + qs[2:8:3])), qs[3:4]][k % 3]
            t = dcf.rate_table(c, xs, list(ts) if k % 2 else ts)
            ctx.ok([r[0] for r in t[1:]] == list(xs), 'dates of table')
            ctx.ok(tuple(t[0][1:]) == tuple(ts), 'terms of table')
            entries(ctx, c, t, list(xs), ts)
            t = dcf.rate_table(c, None, ts)
            ctx.ok([r[0] for r in t[1:]] == rows, 'dates of table')
            entries(ctx, c, t, rows, ts)
        t = dcf.rate_table(c, rows)
        entries(ctx, c, t, rows, t[0][1:])
        ctx.ok(list(c.domain) == dom, 'table changed the curve')
        ctx.case(cls, org)
        ctx.sample({'table': str(t)[:200]})


def entries(ctx, c, t, rows, terms):
    ctx.ok(len(t) == len(rows) + 1, 'number of rows')
    for i, x in enumerate(rows):
        want = [c(x + y) for y in terms
                if i + 1 == len(rows) or x + y < rows[i + 1]]
        ctx.close(list(t[i + 1][1:]), want, 'rates of %s', x)
