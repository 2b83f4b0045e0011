"""alphabets: the finite sets of points the explorations are built from"""
import itertools
from datetime import date, timedelta

from businessdate import BusinessDate

# irregular dates: end of months, leap days, short and long periods
DATES = ((2023, 8, 31), (2023, 11, 30), (2024, 2, 29), (2024, 8, 31),
         (2025, 3, 1), (2028, 2, 29), (2033, 9, 1))
# days between/before/after those
QUERY = ((2020, 2, 29), (2023, 8, 30), (2023, 9, 1), (2023, 12, 31),
         (2024, 2, 28), (2024, 3, 1), (2024, 7, 31), (2025, 2, 28),
         (2026, 6, 15), (2028, 3, 1), (2031, 1, 31), (2040, 12, 31))
FLOATS = (0.0, 0.25, 0.5, 1.0, 1.5, 4.5, 10.0)
FQUERY = (-3.5, -0.0625, 0.0625, 0.375, 0.484375, 0.515625, 0.90625, 1.25,
          2.75, 4.75, 7.5, 17.25)


MORE = {'float': (0.25, 0.5, 0.125, 1.0, 0.3125), 'int': (1, 2, 1, 5),
        'date': (30, 31, 92, 365, 7, 1)}
# many points, in order, reversed and rotated
MANY = (tuple(range(1, 22)), tuple(range(30, 0, -2)),
        tuple(range(12, 25)) + tuple(range(0, 11, 2)))


def axis(kind, base=0.0, many=0):
    """-> (grid points, query points) of an axis of given kind; with many more
    than the first 7 grid points if required"""
    pts, qs = _axis(kind, base)
    step = MORE.get(kind, MORE['date'])
    for i in range(many):
        d = step[i % len(step)]
        if kind == 'date':
            d = timedelta(d)
        if kind == 'bd':
            x = pts[-1].to_date() + timedelta(d)
            pts.append(BusinessDate(x.year, x.month, x.day))
        else:
            pts.append(pts[-1] + d)
    return pts, qs


def _axis(kind, base):
    if kind == 'float':
        return [base + x for x in FLOATS], [base + x for x in FQUERY]
    if kind == 'int':
        return [int(base) + x for x in (0, 1, 2, 4, 6, 18, 40)], \
            [int(base) + x for x in (-14, -1, 3, 5, 11, 17, 19, 30, 41, 70)]
    if kind == 'date':
        return [date(*d) for d in DATES], [date(*d) for d in QUERY]
    if kind == 'bd':
        return [BusinessDate(*d) for d in DATES], \
            [BusinessDate(*d) for d in QUERY]
    raise KeyError(kind)


KINDS = 'float', 'int', 'date', 'bd'


def twin(d):
    """an equal but not identical object"""
    if isinstance(d, BusinessDate):
        return BusinessDate(d.year, d.month, d.day)
    if isinstance(d, date):
        return date(d.year, d.month, d.day)
    if isinstance(d, int):
        return int(str(d))
    return float(repr(d))


def act360(s, e):
    """a day count convention which is not the default one"""
    from .ref import tau
    return tau(s, e) * (365.25 / 360.)


def bent(s, e):
    """a day count convention which is not additive (as 30/360 or act/act)"""
    t = act360(s, e)
    return t * (1. + abs(t) / 64.)


def subsets(seq, lo, hi):
    for n in range(lo, hi + 1):
        for s in itertools.combinations(seq, n):
            yield s


def perms(seq, limit=24):
    """all orders of short lists, else sorted, reversed and rotated ones"""
    seq = list(seq)
    if len(seq) <= 3:
        return [list(p) for p in itertools.permutations(seq)]
    k = len(seq) // 2
    res = [seq, seq[::-1], seq[k:] + seq[:k],
           seq[1::2] + seq[::2], seq[:1] + seq[:0:-1]]
    return res[:limit]


def values(n, key=0):
    """a fixed irregular sequence of rate values incl. zero and negatives"""
    base = (0.02, 0.035, -0.01, 0.0, 0.05, 0.015, 0.12, 0.001, -0.004)
    return [base[(i + key) % len(base)] for i in range(n)]


def positives(n, key=0):
    base = (1.25, 0.5, 2.0, 0.875, 3.5, 0.125, 1.0, 7.0, 0.03125)
    return [base[(i + key) % len(base)] for i in range(n)]


def dfs(n, key=0):
    """decreasing and (for key odd) not monotone discount factors"""
    base = (0.99, 0.97, 0.9375, 0.875, 0.75, 0.625, 0.5, 0.375, 0.25)
    if key % 2:
        base = (1.01, 1.02, 0.98, 0.99, 0.7, 0.9, 0.6, 0.625, 0.3)
    if n > len(base):
        base = [round(base[i % 3] * 0.97 ** i, 6) for i in range(n)]
    return [base[i] for i in range(n)]


def as_type(kind):
    return {'float': float, 'int': int, 'date': date, 'bd': BusinessDate}[kind]
