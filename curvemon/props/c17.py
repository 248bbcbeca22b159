"""C17: windows of the latest values."""
import math
from ..core import Family, Skip
from ..engine import graph_family, ANY, iv_tuple
from ..graph import make_points, ydata, ACCS
from ..load import Points, AccumulatorMap
from ..single import over_function, very_long
from .. import ref as R

RULE = ('Trailing minima, maxima and other functions of the latest values are compared with the same function of the '
        'values within the window, newest first. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['thousands of points', 'over a function', 'node acc', 'by points', 'by period', 'window not full', 'with x', 'edited', 'point leaves by period',
                   'interpolated', 'trailing', 'missing value',
                   'minimum step', 'minimum step and period']

W = dict(ANY, acc=5)


def windows(rng, mon, tier):
    h = rng.choice([2 ** -9, 0.25, 0.5, 1, 1, 2, 60, 3600])
    n = rng.choice([1, 2, 3, 5, 8, 14, 30])
    uniform = rng.random() < 0.5
    x0 = rng.choice([0, -5 * h, 7 * h, 1.6e9])
    if x0 > 1e6 and h < 1:
        h = 60
    pts = make_points(rng, n, h, x0, uniform, rng.choice(['any', 'small']))
    src = Points(list(pts), uniform=uniform, interpolation=rng.choice([0, 0, -1, 1]))
    by_period = rng.random() < 0.45
    k = rng.choice([1, 2, 3, 5, 9])
    if by_period:
        k *= h
    interp = rng.choice([None, 0, -1, 1])
    name = rng.choice(['min', 'max', 'all', 'with x'])
    kw = dict(is_period=by_period, interpolation=interp, uniform=uniform)
    seen = {}
    if name == 'min':
        c = src.trailing_min(k, **kw)
        f = lambda x, w: min(w)
    elif name == 'max':
        c = src.trailing_max(k, **kw)
        f = lambda x, w: max(w)
    elif name == 'all':
        c = src.accumulator_map(lambda ys: sum((i + 1) * y for i, y in enumerate(ys)), k, **kw)
        f = lambda x, w: sum((i + 1) * y for i, y in enumerate(w))
    else:
        c = src.accumulator_map(lambda x, ys: x % 64 + ys[-1] - 2 * ys[0], k, **kw)
        f = lambda x, w: x % 64 + w[-1] - 2 * w[0]
        mon.event('with x')
    if name in ('min', 'max'):
        mon.event('trailing')
    mon.event('by period' if by_period else 'by points')
    mon.log(name, k, kw, pts)
    for _ in range(rng.choice([1, 2, 3])):
        n = len(pts)
        vals = []
        for i, (x, y) in enumerate(pts):
            if by_period:
                w = [q[1] for q in pts[:i + 1] if q[0] >= x - k]
                if len(w) < i + 1:
                    mon.event('point leaves by period')
            else:
                w = [q[1] for q in pts[max(0, i - k + 1):i + 1]]
                if i + 1 < k:
                    mon.event('window not full')
            vals.append(f(x, w[::-1]))
        order = list(range(n))
        rng.shuffle(order)
        for i in order[:8]:
            x = pts[i][0]
            mon.same(c.y(x), vals[i], lambda: f'{name} over {k} {by_period}: y({x})', 1e-9, 1e-9)
            if i + 1 < n:
                m = x + (pts[i + 1][0] - x) * rng.choice([0.5, 0.25])
                u = (m - x) / (pts[i + 1][0] - x)
                e = {-1: vals[i], 1: vals[i + 1]}.get(interp, (1 - u) * vals[i] + u * vals[i + 1])
                mon.same(c.y(m), e, lambda: f'{name} over {k} {by_period} {interp}: y({m})', 1e-9, 1e-9)
                mon.event('interpolated')
        mon.same(c.sample_points(), [(p[0], v) for p, v in zip(pts, vals)], f'{name}: samples', 1e-9, 1e-9)
        mon.same(c.y(pts[0][0] - h), None, 'before the start')
        mon.same(c.y(pts[-1][0] + h), None, 'after the end')
        mon.check(iv_tuple(c.domain) == (pts[0][0], pts[-1][0], False, False), 'domain')
        b = rng.random()
        if b < 0.5:
            p = (pts[-1][0] + h, ydata(rng))
            src.append(p)
            pts = pts + [p]
        elif b < 0.8:
            j = rng.randrange(n)
            pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
            src.replace(pts[j])
        else:
            pts = make_points(rng, rng.choice([1, 3, 8]), h, x0 + h, uniform)
            src.set(list(pts))
        mon.event('edited')


def gaps(rng, mon, tier):
    """Functions which are given missing values."""
    h = rng.choice([0.5, 1, 2, 60])
    uniform = rng.random() < 0.6
    pts = make_points(rng, rng.choice([1, 2, 4, 8, 14]), h, rng.choice([0, -5 * h]), uniform, none_p=0.25)
    src = Points(list(pts), uniform=uniform)
    by_period = rng.random() < 0.5
    k = rng.choice([1, 2, 3, 5]) * (h if by_period else 1)
    f = rng.choice([lambda ys: sum(y is None for y in ys), lambda ys: ys[0], lambda ys: ys[-1],
                    lambda ys: max([y for y in ys if y is not None], default=None)])
    c = src.accumulator_map(f, k, is_period=by_period, interpolation=-1, uniform=uniform)
    mon.log(pts, k, by_period)
    for i in rng.sample(range(len(pts)), min(len(pts), 8)):
        x = pts[i][0]
        if by_period:
            w = [q[1] for q in pts[:i + 1] if q[0] >= x - k]
        else:
            w = [q[1] for q in pts[max(0, i - k + 1):i + 1]]
            if None in w[:-1]:
                continue        # a window of a number of points does not reach behind a missing value
        mon.event('missing value')
        mon.same(c.y(x), f(w[::-1]), lambda: f'{w[::-1]} over {k} {by_period}: y({x})')


def coarse(rng, mon, tier):
    """A minimum step leaves out points."""
    h = rng.choice([0.5, 1, 2, 60])
    uniform = rng.random() < 0.5
    pts = make_points(rng, rng.choice([1, 3, 8, 20]), h, rng.choice([0, -5 * h]), uniform)
    src = Points(list(pts), uniform=uniform)
    step = rng.choice([1.5, 2, 2.5, 4]) * h
    k = rng.choice([1, 2, 3])
    c = src.accumulator_map(lambda ys: list(ys), k, interpolation=-1, uniform=uniform, min_step=step)
    for _ in range(2):
        q = R.decimated(pts, step)
        # The window steps back from its point
        e = []
        for x, y in q:
            w = [(x, y)]
            for v in reversed(pts):
                if len(w) < k and v[0] <= w[-1][0] - step:
                    w.append(v)
            e.append([v[1] for v in w])
        for i in rng.sample(range(len(q)), min(len(q), 6)):
            mon.same(c.y(q[i][0]), e[i], lambda: f'minimum step {step}: y({q[i][0]})', 1e-9, 1e-9)
        mon.event('minimum step')
        j = rng.randrange(len(pts))
        pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
        src.replace(pts[j])


def coarse_period(rng, mon, tier):
    """A minimum step leaves out points within a period as well."""
    h = rng.choice([0.5, 1, 2, 60])
    pts = make_points(rng, rng.choice([1, 3, 8, 20]), h, rng.choice([0, -5 * h]), True)
    src = Points(list(pts))
    own = rng.random() < 0.5
    step = rng.choice([1.5, 2, 2.5, 4]) * h
    k = rng.choice([1, 2, 3, 5, 9]) * h
    f, g = rng.choice([('trailing_min', min), ('trailing_max', max)])
    c = src.map(lambda y: y) if own else src
    c = getattr(c, f)(k, is_period=True, interpolation=-1, uniform=False, min_step=step)
    mon.log(f, pts, k, step, own)
    for _ in range(2):
        q = R.decimated(pts, step)
        for i in rng.sample(range(len(q)), min(len(q), 6)):
            x, y = q[i]
            # From the start of the window on
            w = [p for p in pts if x - k <= p[0] < x]
            if w and (own or len(pts) > 1):
                lo = max(x - k, pts[0][0])
                xs = [lo]
                while (v := next((p[0] for p in pts if p[0] >= xs[-1] + step), None)) is not None and v < x:
                    xs.append(v)
                r = R.RPoints(pts)
                w = [(v, r.y(v)) for v in xs]
            e = g([y] + [p[1] for p in w])
            mon.same(c.y(x), e, lambda: f'{f} minimum step {step} over {k}: y({x})', 1e-9, 1e-9)
        mon.event('minimum step and period')
        j = rng.randrange(len(pts))
        pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
        src.replace(pts[j])


OVER_FUNCTIONS = {
    'minimum': lambda c, k, h, u: c.trailing_min(k, uniform=u),
    'maximum': lambda c, k, h, u: c.trailing_max(k, uniform=u),
    'maximum by period': lambda c, k, h, u: c.trailing_max(k * h, is_period=True, uniform=u),
    'sum': lambda c, k, h, u: c.accumulator_map(sum, k, uniform=u),
}


def functions(rng, mon, tier):
    over_function(rng, mon, OVER_FUNCTIONS, 'over a function')


families = [
    Family('very long', very_long('trailing'), 30, 600),
    Family('functions', functions, 400, 8000),
    Family('coarse', coarse, 1000, 15000),
    Family('coarse period', coarse_period, 1000, 15000),
    Family('gaps', gaps, 1500, 20000),
    Family('graphs', graph_family(['acc'], W), 6000, 100000),
    Family('long', graph_family(['acc'], W, edits=(5, 10, 20), n_derived=0, long=True), 150, 6000),
    Family('windows', windows, 5000, 80000),
]
