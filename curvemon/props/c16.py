"""C16: exponential and smoothed moving averages and the relative strength index."""
import math
from ..core import Family, Skip
from ..engine import graph_family, ANY, iv_tuple
from ..graph import make_points, ydata
from ..load import Points
from ..single import over_function, very_long
from .. import ref as R

RULE = ('Exponential averages of random curves are compared with the recurrence over their points, also asked for in '
        'any order and after edits. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['thousands of points', 'over a function', 'node ema', 'node smma', 'node rsi', 'by factor', 'by period', 'with an initial value', 'smma',
                   'rsi', 'edited', 'missing value', 'between points', 'rsi bounded',
                   'minimum step']

W = dict(ANY, ema=4)


def recurrence(pts, alpha=None, period=None, init=None):
    out = []
    e = None
    px = None
    for x, y in pts:
        if y is not None:
            if e is None:
                e = y if init is None else init(x)
            else:
                a = alpha if alpha is not None else (x - px) / period
                e += a * (y - e)
        out.append((x, e))
        px = x
    return out


def averages(rng, mon, tier):
    h = rng.choice([2 ** -9, 0.25, 0.5, 1, 1, 2, 60, 3600])
    n = rng.choice([1, 2, 3, 5, 8, 14, 40])
    uniform = rng.random() < 0.6
    x0 = rng.choice([0, -5 * h, 7 * h, 1.6e9])
    if x0 > 1e6 and h < 1:
        h = 60
    holes = rng.choice([0, 0, 0.2])
    pts = make_points(rng, n, h, x0, uniform, none_p=holes)
    src = Points(list(pts), uniform=uniform, interpolation=rng.choice([0, 0, -1, 1]))
    kind = rng.choice(['alpha', 'alpha', 'period', 'init', 'smma'])
    k = rng.choice([1, 2, 3, 5])
    alpha = rng.choice([0.5, 0.25, 1, 0.1, 1 / 3, 1.5])
    if kind == 'alpha':
        c = src.ema(alpha, uniform=uniform)
        mon.event('by factor')

        def expected(pts):
            return recurrence(pts, alpha)
    elif kind == 'period':
        period = rng.choice([5, 8, 10]) * h
        c = src.ema(period, is_period=True, uniform=uniform)
        mon.event('by period')

        def expected(pts):
            return recurrence(pts, period=period)
    elif kind == 'init':
        v = rng.choice([0, 2.5, -10])
        c = src.ema(alpha, init=v, uniform=uniform)
        mon.event('with an initial value')

        def expected(pts):
            return recurrence(pts, alpha, init=lambda x: v)
    else:
        if holes:
            raise Skip()
        c = src.smma(k, uniform=uniform)
        mon.event('smma')

        def expected(pts):
            # Starts with the average over the first k points
            out = []
            e = None
            for i, (x, y) in enumerate(pts):
                if e is not None:
                    e = e + (y - e) / k
                elif i >= k - 1:
                    if k == 1:
                        e = y
                    else:
                        w = pts[i - k + 1:i + 1]
                        e = sum((q[0] - p[0]) * (p[1] + q[1]) / 2 for p, q in zip(w, w[1:])) / (w[-1][0] - w[0][0])
                out.append((x, e))
            return out
    mon.log(kind, pts, alpha, k)
    for _ in range(rng.choice([1, 2, 3])):
        e = expected(pts)
        if any(y is None for _, y in pts):
            mon.event('missing value')
        order = list(range(len(e)))
        rng.shuffle(order)
        for i in order[:10]:
            x, y = e[i]
            mon.same(c.y(x), y, lambda: f'{kind}: y({x})', 1e-9, 1e-9)
            if i + 1 < len(e):
                x2, y2 = e[i + 1]
                m = (x + x2) / 2
                mon.same(c.y(m), None if y is None or y2 is None else (y + y2) / 2, lambda: f'{kind}: y({m})', 1e-9, 1e-9)
                mon.event('between points')
        mon.same(c.sample_points(), e, f'{kind}: samples', 1e-9, 1e-9)
        mon.check(iv_tuple(c.domain) == (pts[0][0], pts[-1][0], False, False), f'{kind}: domain')
        mon.same(c.y(pts[-1][0] + h), None, 'after the end')
        mon.same(c.y(pts[0][0] - h), None, 'before the start')
        b = rng.random()
        if b < 0.5:
            p = (pts[-1][0] + h, ydata(rng))
            src.append(p)
            pts = pts + [p]
        elif b < 0.8:
            j = rng.randrange(len(pts))
            pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
            src.replace(pts[j])
        else:
            pts = make_points(rng, rng.choice([1, 3, 8]), h, x0 + h, uniform)
            src.set(list(pts))
        mon.event('edited')


def strength(rng, mon, tier):
    """RSI: averages of the gains and of the losses."""
    h = rng.choice([2 ** -9, 0.5, 1, 1, 60])
    n = rng.choice([2, 3, 5, 8, 14, 30])
    uniform = rng.random() < 0.7
    pts = make_points(rng, n, h, rng.choice([0, 7 * h]), uniform)
    k = rng.choice([1, 2, 3, 5, 14])
    src = Points(list(pts), uniform=uniform)
    c = src.rsi(k, uniform=uniform)
    mon.log(pts, k)
    for _ in range(2):
        slopes = [(x1, (y1 - y0) / (x1 - x0)) for (x0, y0), (x1, y1) in zip(pts, pts[1:])]
        # The first point has no slope: neither a gain nor a loss
        up = recurrence([(pts[0][0], 0)] + [(x, max(m, 0)) for x, m in slopes], 1 / k)
        down = recurrence([(pts[0][0], 0)] + [(x, max(-m, 0)) for x, m in slopes], 1 / k)
        for (x, u), (_, d) in rng.sample(list(zip(up, down))[1:], min(6, len(slopes))):
            mon.event('rsi')
            a = c.y(x)
            e = 100.0 if d == 0 else 100 - 100 / (1 + u / d)
            mon.same(a, e, lambda: f'rsi({k}).y({x})', 1e-9, 1e-7)
            mon.check(-1e-9 <= a <= 100 + 1e-9, f'rsi is {a}')
            mon.event('rsi bounded')
        j = rng.randrange(len(pts))
        pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
        src.replace(pts[j])


def coarse(rng, mon, tier):
    """A minimum step leaves out points."""
    h = rng.choice([0.5, 1, 2, 60])
    uniform = rng.random() < 0.5
    pts = make_points(rng, rng.choice([1, 3, 8, 20]), h, rng.choice([0, -5 * h]), uniform)
    src = Points(list(pts), uniform=uniform)
    step = rng.choice([1.5, 2, 2.5, 4]) * h
    alpha = rng.choice([0.5, 0.25, 1, 1.25])
    c = src.ema(alpha, uniform=uniform, min_step=step)
    for _ in range(2):
        q = R.decimated(pts, step)
        e = [y for x, y in recurrence(q, alpha)]
        for i in rng.sample(range(len(q)), min(len(q), 6)):
            mon.same(c.y(q[i][0]), e[i], lambda: f'minimum step {step}: y({q[i][0]})', 1e-9, 1e-9)
        mon.event('minimum step')
        j = rng.randrange(len(pts))
        pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
        src.replace(pts[j])


OVER_FUNCTIONS = {
    'by factor': lambda c, k, h, u: c.ema(1 / k, uniform=u),
    'by period': lambda c, k, h, u: c.ema(5 * h, is_period=True, uniform=u),
    'with an initial value': lambda c, k, h, u: c.ema(1 / k, init=2.5, uniform=u),
    'smma': lambda c, k, h, u: c.smma(k, min_step=h, uniform=u),
    'rsi': lambda c, k, h, u: c.rsi(k, min_step=h, uniform=u),
}


def functions(rng, mon, tier):
    over_function(rng, mon, OVER_FUNCTIONS, 'over a function')


families = [
    Family('very long', very_long('ema'), 30, 600),
    Family('functions', functions, 400, 8000),
    Family('coarse', coarse, 1000, 15000),
    Family('graphs', graph_family(['ema', 'smma', 'rsi'], W), 6000, 100000),
    Family('long', graph_family(['ema', 'smma', 'rsi'], W, edits=(5, 10, 20), n_derived=0, long=True), 150, 6000),
    Family('averages', averages, 4000, 60000),
    Family('strength', strength, 2000, 30000),
]
