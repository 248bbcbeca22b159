"""C02: the contents of a series after any history of edits."""
import math
from ..core import Family
from ..engine import iv_tuple
from ..graph import iv
from ..load import Points, Interval
from .. import ref as R
from .c01 import random_xs, random_y, series_is, STEPS

RULE = ('A random history of edits is applied to a series and to a list; after each edit the series must hold exactly '
        'the points of the list. Non-trivial: a comparison with a list which is not empty.')
REQUIRED_EVENTS = ['append', 'append_list', 'replace', 'insert', 'or_append', 'set', 'reset all', 'reset head',
                   'reset tail', 'reset middle', 'emptied', 'at a point', 'between points',
                   'long history']


class Model:
    """The list model of a series."""

    def __init__(self, pts=()):
        self.pts = list(pts)

    def replace(self, p):
        self.pts = sorted([q for q in self.pts if q[0] != p[0]] + [p], key=lambda q: q[0])

    def reset(self, d):
        self.pts = [q for q in self.pts if not R.inside(d, q[0])]


def random_domain(rng, pts):
    """A domain whose ends are at, near or between points."""
    xs = [p[0] for p in pts]

    def at():
        i = rng.randrange(len(xs))
        x = xs[i]
        b = rng.random()
        if b < 0.6:
            return x
        if b < 0.85 and i + 1 < len(xs):
            return x + (xs[i + 1] - x) * rng.choice([0.5, 0.01, 0.99])
        return x + rng.choice([-0.5, 0.5, -3, 3]) * (xs[-1] - xs[0] + 1)
    a, b = at(), at()
    a, b = min(a, b), max(a, b)
    if rng.random() < 0.15:
        a = -math.inf
    if rng.random() < 0.15:
        b = math.inf
    d = (a, b, rng.random() < 0.4, rng.random() < 0.4)
    return R.norm(d)


def evenly(pts, x0, h):
    return all(abs((p[0] - x0) / h - round((p[0] - x0) / h)) < 1e-7 for p in pts)


def long(rng, mon, tier):
    history(rng, mon, tier, True)
    mon.event('long history')


def history(rng, mon, tier, long=False):
    uniform = rng.random() < 0.5
    h = rng.choice([1, 1, 0.5, 2, 60, 3600, 0.1, 0.3, 1 / 3])
    x0 = rng.choice([0, 0, -7, 0.1, 1000, 1.6e9]) if h >= 1 and h == int(h) else rng.choice([0, -7, 0.1])
    interp = rng.choice([None, 0, -1, 1])
    none_p = rng.choice([0, 0, 0.2])
    base = x0

    def xs_from(k, n):
        if uniform:
            return [base + (k + i) * h for i in range(n)]
        out = []
        x = base + k * h
        for _ in range(n):
            out.append(x)
            x += h * rng.choice([0.25, 0.5, 1, 1, 1.5, 2, 3, 7])
        return out

    def fill(xs):
        return [(x, random_y(rng, none_p)) for x in xs]

    m = Model(fill(xs_from(0, rng.choice([50, 100, 300, 1000] if long else [0, 1, 2, 3, 5, 8, 13]))))
    c = Points(list(m.pts), interpolation=interp, uniform=uniform)
    mon.log(f'Points({m.pts}, interpolation={interp}, uniform={uniform})')
    contents(rng, mon, c, m, interp)
    longest = 2000 if long else 40
    bursts = [0, 1, 2, 10, 50, 150] if long else [0, 1, 2, 3, 4]
    for _ in range(rng.choice([20, 60, 120] if long else [2, 4, 8, 15] if tier == 'quick' else [4, 10, 20, 40])):
        pts = m.pts
        ops = ['append', 'append_list', 'set', 'append_list']
        if pts:
            ops += ['append', 'append', 'replace', 'replace', 'or_append', 'reset all', 'reset', 'reset', 'reset', 'reset']
            if not uniform and len(pts) > 1:
                ops += ['insert', 'insert']
        if long and pts and rng.random() < 0.8:
            # The series is seldom emptied
            ops = [o for o in ops if o not in ('set', 'reset all')]
        if len(pts) > longest:
            ops = ['reset', 'reset', 'set', 'replace']
        op = rng.choice(ops)
        if op in ('append', 'append_list', 'or_append'):
            n = 1 if op != 'append_list' else rng.choice(bursts)
            if not pts:
                new = fill(xs_from(rng.randint(-5, 5), n))
            elif uniform:
                k = round((pts[-1][0] - base) / h) + 1
                new = fill(xs_from(k, n))
            else:
                x = pts[-1][0]
                new = []
                for _ in range(n):
                    x += h * rng.choice([0.25, 0.5, 1, 1, 2, 5])
                    new.append((x, random_y(rng, none_p)))
            if op == 'or_append' and pts and rng.random() < 0.5:
                new = [(rng.choice(pts)[0], random_y(rng, none_p))]
                m.replace(new[0])
            else:
                m.pts = m.pts + new
            mon.log(op, new)
            if op == 'append':
                c.append(new[0])
            elif op == 'append_list':
                c.append_list(list(new))
            else:
                c.replace(new[0], or_append=True)
        elif op == 'replace':
            p = (rng.choice(pts)[0], random_y(rng, none_p))
            mon.log(op, p)
            m.replace(p)
            if rng.random() < 0.5:
                c.replace(p)
            else:
                c.replace(p, or_append=rng.random() < 0.5)
        elif op == 'insert':
            i = rng.randrange(len(pts) - 1)
            x = pts[i][0] + (pts[i + 1][0] - pts[i][0]) * rng.choice([0.25, 0.5, 0.75, rng.random()])
            if not pts[i][0] < x < pts[i + 1][0]:
                continue
            p = (x, random_y(rng, none_p))
            mon.log(op, p)
            m.replace(p)
            c.replace(p)
        elif op == 'set':
            n = rng.choice([0, 1, 2, 30, 300] if long else [0, 1, 2, 3, 5, 9])
            if rng.random() < 0.3:
                base = base + rng.choice([-10, 10, 100]) * h
            if uniform and not pts and rng.random() < 0.3:
                h = rng.choice([h, 2 * h])
            new = fill(xs_from(rng.randint(-5, 5), n))
            mon.log(op, new)
            m.pts = list(new)
            arg = list(new)
            c.set(arg)
            arg.append((1e18, 1))       # the series must not share the caller's list
        elif op == 'reset all':
            m.pts = []
            mon.log('reset()')
            c.reset()
        else:
            d = random_domain(rng, pts)
            if long and rng.random() < 0.7:
                # A part of one of the ends
                k = rng.choice([0, 1, 3, 20])
                d = (pts[-1 - k][0], math.inf, rng.random() < 0.5, True) if len(pts) > k else None
                if d and rng.random() < 0.3:
                    d = (-math.inf, pts[k][0], True, rng.random() < 0.5)
                d = d and R.norm(d)
            if d is None:
                continue
            rest = [q for q in pts if not R.inside(d, q[0])]
            n_rest = len(rest)
            if uniform and rest:
                # What is left of a uniform series has to be uniform
                i0 = pts.index(rest[0])
                if rest != pts[i0:i0 + n_rest]:
                    continue
            mon.log('reset', d)
            if rest == pts:
                op = 'reset nothing'
            elif not rest:
                op = 'emptied'
            elif rest[0] == pts[0] and rest[-1] == pts[-1]:
                op = 'reset middle'
            elif rest[0] == pts[0]:
                op = 'reset tail'
            else:
                op = 'reset head'
            m.reset(d)
            c.reset(iv(d))
        mon.event(op)
        contents(rng, mon, c, m, interp)


def contents(rng, mon, c, m, interp):
    pts = c.sample_points()
    mon.check(list(map(tuple, pts)) == m.pts, lambda: f'the series holds {pts}, expected {m.pts}', bool(m.pts))
    if pts:
        # What is returned may be changed by the caller
        pts.append((1e18, 5))
        del pts[0]
    mon.check(not c.is_updating, 'still updating after an edit')
    series_is(rng, mon, c, m.pts, interp or 0, 6)


families = [
    Family('history', history, 12000, 250000),
    Family('long', long, 400, 20000),
]
