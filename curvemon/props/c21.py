"""C21: quotes."""
import math
from ..core import Family, Skip
from ..engine import graph_family, ANY, iv_tuple
from ..graph import make_quote, iv
from ..load import Quotes
from .c12 import GRIDS
from .. import ref as R

RULE = ('Quotes of several durations are compared with a list of rows: lookups, fields, steps, samples and ranges over '
        'domains, and the indicators with sums over windows of that list. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['node field', 'lookup', 'field', 'samples', 'partly covered', 'range', 'appended', 'replaced all',
                   'encoded', 'months', 'ao', 'alligator', 'trailing', 'empty', 'between quotes', 'number as duration',
                   'ao complete', 'empty range', 'trailing by period', 'by step', 'at least apart']

W = dict(ANY, field=6)
FIELDS = {'open': lambda q: q[0], 'high': lambda q: q[1], 'low': lambda q: q[2], 'close': lambda q: q[3],
          'volume': lambda q: q[4], 'hl2': lambda q: (q[1] + q[2]) / 2}
KEYS = ['open', 'high', 'low', 'close', 'volume']


def grid_of(rng, mon):
    if rng.random() < 0.25:
        s = rng.choice([1, 5, 60])
        mon.event('number as duration')
        k0 = rng.randint(1, 1000)
        return s, lambda k: float((k0 + k) * s), s
    name = rng.choice(list(GRIDS))
    if name in ('1mo', '1y'):
        mon.event('months')
    k0 = {'15m': 1700000, '1h': 440000, '4h': 110000, '1d': 18000, '1mo': 600, '1y': 8}[name] + rng.randint(0, 30)
    return name, lambda k: GRIDS[name](k0 + k), GRIDS[name](k0 + 1) - GRIDS[name](k0)


class Book:
    """Quotes and the list of their rows."""

    def __init__(self, rng, mon, n, long=False):
        self.long = long
        self.rng, self.mon = rng, mon
        self.dur, self.g, self.h = grid_of(rng, mon)
        self.encode = rng.random() < 0.3
        self.rows = [make_quote(rng) for _ in range(n)]
        kw = {}
        if self.encode:
            kw['encoder'] = lambda d: (d['date'], [d[k] for k in KEYS])
            mon.event('encoded')
        if n or rng.random() < 0.5:
            kw['quote_points'] = self.given(range(n))
        self.q = Quotes(self.dur, **kw)
        self.fields = {k: getattr(self.q, k) for k in FIELDS} if rng.random() < 0.5 else {}
        mon.log(self.dur, self.pts())

    def pts(self):
        return [(self.g(k), r) for k, r in enumerate(self.rows)]

    def given(self, ks):
        if self.encode:
            return [dict(zip(KEYS, self.rows[k]), date=self.g(k)) for k in ks]
        return [(self.g(k), self.rows[k]) for k in ks]

    def edit(self):
        r = self.rng
        n = len(self.rows)
        if n and r.random() < (0.97 if self.long else 0.75):
            m = r.choice([1, 1, 3, 20, 60] if self.long else [1, 1, 3])
            self.rows += [make_quote(r) for _ in range(m)]
            if m == 1 and r.random() < 0.5:
                self.q.append(self.given([n])[0])
            else:
                self.q.append_list(self.given(range(n, n + m)))
            self.mon.event('appended')
        else:
            self.rows = [make_quote(r) for _ in range(r.choice([0, 60, 150] if self.long else [0, 1, 3, 6]))]
            p = self.given(range(len(self.rows)))
            if not n and r.random() < 0.5 and p:
                self.q.append_list(p)
            else:
                self.q.set(p)
            self.mon.event('replaced all')
        self.mon.log('edit', self.pts())


def row_at(b, x):
    n = len(b.rows)
    if not n or not b.g(0) <= x <= b.g(n - 1):
        return None
    k = max(i for i in range(n) if b.g(i) <= x)
    return b.rows[k]


def places(b, k):
    n = len(b.rows)
    out = []
    for _ in range(k):
        i = b.rng.randint(-1, n)
        x0, x1 = b.g(i), b.g(i + 1)
        u = b.rng.choice([0, 0, 0, 0.5, 0.25, 0.875, 0.97, 0.99, 0.02])
        out.append(x0 + u * (x1 - x0) if u else x0)
    return out


def long_book(rng, mon, tier):
    book(rng, mon, tier, True)


def long_history(b, curves):
    """Many edits with a few reads between them."""
    for _ in range(b.rng.choice([3, 10, 30])):
        b.edit()
        for c in curves:
            if b.rng.random() < 0.2:
                c.y(places(b, 1)[0])
        if len(b.rows) > 1500:
            break
    b.mon.event('long history')


def book(rng, mon, tier, long=False):
    b = Book(rng, mon, rng.choice([50, 150] if long else [0, 1, 2, 3, 5, 9]), long)
    if long:
        long_history(b, [b.q] + list(b.fields.values()))
    for _ in range(rng.choice([1, 2, 3])):
        q, n = b.q, len(b.rows)
        xs = [b.g(i) for i in range(n)]
        d = (b.g(0), b.g(n - 1), False, False) if n else None
        mon.check(iv_tuple(q.domain) == d, lambda: f'domain is {iv_tuple(q.domain)}, expected {d}', n > 0)
        e = (b.g(0), b.g(n), False, True) if n else None
        mon.check(iv_tuple(q.get_quote_domain()) == e, lambda: f'quotes cover {iv_tuple(q.get_quote_domain())}, expected {e}', n > 0)
        mon.same(q.first_quote(), b.rows[0] if n else None, 'first quote')
        mon.same(q.last_quote(), b.rows[-1] if n else None, 'last quote')
        if not n:
            mon.event('empty')
        for x in places(b, 6):
            e = row_at(b, x)
            mon.same(q.y(x), e, lambda: f'quote at {x}')
            mon.same(q(x), e, lambda: f'quote at {x}')
            mon.event('lookup')
            mon.event('between quotes', e is not None and x not in xs)
            k = rng.choice(list(FIELDS))
            f = b.fields.get(k) or getattr(q, k)
            mon.check(f is getattr(q, k), f'{k} is another curve each time', False)
            mon.same(f.y(x), None if e is None else FIELDS[k](e), lambda: f'{k} at {x}')
            mon.event('field')
            for c, ms in ((q, b.h * 0.01), (f, b.h * 0.01)):
                mon.same(c.x_next(x), next((v for v in xs if v > x), None), lambda: f'quote after {x}', 0, 1e-6)
                mon.same(c.x_previous(x), next((v for v in xs[::-1] if v < x), None), lambda: f'quote before {x}', 0, 1e-6)
        for k in FIELDS:
            c = getattr(q, k)
            mon.same(c.sample_points(), [(x, FIELDS[k](r)) for x, r in b.pts()], lambda: f'samples of {k}')
            mon.check(iv_tuple(c.domain) == d, lambda: f'domain of {k} is {iv_tuple(c.domain)}, expected {d}', n > 0)
        # Over a domain: the quotes whose time overlaps with it
        for _ in range(4):
            lo, hi = sorted(places(b, 2))
            dd = (lo, hi, rng.random() < 0.4, rng.random() < 0.4) if lo < hi else (lo, hi, False, False)
            if rng.random() < 0.15:
                dd = None
            e = [(x, r) for i, (x, r) in enumerate(b.pts())
                 if dd is None or R.intersect([dd, (b.g(i), b.g(i + 1), False, True)]) is not None]
            if dd is not None and any(b.g(i) < dd[0] < b.g(i + 1) for i in range(n)):
                mon.event('partly covered')
            arg = {} if dd is None and rng.random() < 0.5 else {'domain': None if dd is None else iv(dd)}
            mon.same(q.sample_points(**arg), e, lambda: f'quotes over {dd}')
            mon.same(q.sample(**arg), [p[1] for p in e], lambda: f'quotes over {dd}')
            mon.event('samples')
            r = iv_tuple(q.get_range(**arg))
            er = (min(p[1][2] for p in e), max(p[1][1] for p in e)) if e else None
            mon.check((r and r[:2]) == er, lambda: f'range over {dd} is {r}, expected {er}', bool(e))
            mon.event('range' if e else 'empty range')
            stepped(b, d, dd, xs, arg)
        b.edit()


def stepped(b, d, dd, xs, arg):
    """By a step, or at least that far apart, from the start of the first quote on."""
    rng, mon, n = b.rng, b.mon, len(xs)
    if n < 2:
        return
    span = d
    if dd is not None:
        over = [i for i in range(-3, n + 3) if R.intersect([dd, (b.g(i), b.g(i + 1), False, True)]) is not None]
        span = R.intersect([d, (b.g(over[0]), b.g(over[-1] + 1), False, True)]) if over else None
    usual = (xs[-1] - xs[0]) / (n - 1)
    if rng.random() < 0.5:
        s = b.h * rng.choice([0.5, 2, 3, 1.5])
        kw = {'step': s}
        if abs(s - usual) < 1e-6 * usual:
            return
        e, k = [], 0
        while span and span[0] + k * s <= span[1]:
            e.append(span[0] + k * s)
            k += 1
    else:
        s = usual * rng.choice([0.5, 1.25, 2, 3])
        kw = {'min_step': s}
        e = []
        if s < usual:
            e = [x for x in xs if span and R.inside(span, x)]
        elif span:
            if any(0 < abs(v - x - s) < 1e-6 * s for x in xs for v in xs):
                return
            x = span[0]
            while x is not None and x <= span[1]:
                e.append(x)
                x = next((v for v in xs if v >= x + s), None)
            if e[-1] != span[1]:
                e.append(span[1])
    if span and span[3]:
        e = [x for x in e if x < span[1]]
    e = [(x, row_at(b, x)) for x in e]
    mon.same(b.q.sample_points(**arg, **kw), e, lambda: f'quotes over {dd} with {kw}')
    mon.same(b.q.sample(**arg, **kw), [p[1] for p in e], lambda: f'quotes over {dd} with {kw}')
    r = iv_tuple(b.q.get_range(**arg, **kw))
    er = (min(p[1][2] for p in e), max(p[1][1] for p in e)) if e else None
    mon.check((r and r[:2]) == er, lambda: f'range over {dd} with {kw} is {r}, expected {er}', bool(e))
    mon.event('by step' if 'step' in kw else 'at least apart')


def mean(vals):
    """The mean height of the straight lines through evenly spaced values."""
    return (sum(vals) - (vals[0] + vals[-1]) / 2) / (len(vals) - 1)


def long_indicators(rng, mon, tier):
    indicators(rng, mon, tier, True)


def indicators(rng, mon, tier, long=False):
    b = Book(rng, mon, rng.choice([50, 150] if long else [1, 6, 20, 34, 40]), long)
    q = b.q
    kind = rng.choice(['ao', 'alligator', 'trailing', 'trailing'])
    mon.event(kind)
    deg = rng.choice([1, 2, 3, 5])
    if kind == 'ao':
        cs = [q.ao()]
    elif kind == 'alligator':
        cs = list(q.alligator())
    else:
        period = None
        if rng.random() < 0.4 and b.dur not in ('1mo', '1y'):
            period = deg * b.h
            cs = [q.trailing_high(period, is_period=True), q.trailing_low(period, is_period=True)]
        else:
            cs = [q.trailing_high(deg), q.trailing_low(deg)]
    if long:
        long_history(b, cs)
    for _ in range(rng.choice([1, 2])):
        n = len(b.rows)
        hl2 = [(r[1] + r[2]) / 2 for r in b.rows]
        xs = [b.g(i) for i in range(n)]

        def sma(i, k):
            if not k - 1 <= i < n:
                return None
            j = i - k + 1
            area = sum((xs[m + 1] - xs[m]) * (hl2[m] + hl2[m + 1]) / 2 for m in range(j, i))
            return area / (xs[i] - xs[j])
        for i in rng.sample(range(n), min(n, 6)) + [n - 1] if n else []:
            x = xs[i]
            if kind == 'ao':
                a, c = sma(i, 5), sma(i, 34)
                e = None if a is None or c is None else a - c
                mon.same(cs[0].y(x), e, lambda: f'awesome oscillator at {x}', 1e-9, 1e-7)
                mon.event('ao complete', e is not None)
            elif kind == 'alligator':
                for c, k, s in zip(cs, (13, 8, 5), (8, 5, 3)):
                    mon.same(c.y(b.g(i + s)), sma(i, k), lambda: f'alligator {k} at {b.g(i + s)}', 1e-9, 1e-7)
                    mon.same(c.y(b.g(i)), sma(i - s, k) if i - s >= 0 else None, lambda: f'alligator {k} at {b.g(i)}', 1e-9, 1e-7)
            else:
                w = b.rows[max(0, i - deg + 1):i + 1]
                if period:
                    w = [r for v, r in zip(xs[:i + 1], b.rows) if v >= x - period]
                    mon.event('trailing by period')
                hi, lo = max(r[1] for r in w), min(r[2] for r in w)
                m = x + 0.5 * (b.g(i + 1) - x) if i + 1 < n else x
                for v in (x, m):
                    mon.same(cs[0].y(v), hi, lambda: f'highest of {deg} at {v}')
                    mon.same(cs[1].y(v), lo, lambda: f'lowest of {deg} at {v}')
        b.edit()


families = [
    Family('graphs', graph_family(['field'], W, first='quotes'), 2000, 30000),
    Family('book', book, 4000, 60000),
    Family('indicators', indicators, 2500, 40000),
    Family('long', long_book, 100, 3000),
    Family('long indicators', long_indicators, 100, 3000),
]
