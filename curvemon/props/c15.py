"""C15: simple moving averages."""
import math
from ..core import Family, Skip
from ..engine import graph_family, ANY, iv_tuple
from ..graph import iv, make_points, ydata
from ..load import Points, Piecewise
from ..single import over_function, very_long
from .. import ref as R

RULE = ('Moving averages of random curves are compared with the area below the curve over the window divided by its '
        'width. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['thousands of points', 'over a function', 'node sma', 'by points', 'by period', 'too short', 'degree one', 'harmonic', 'centered', 'edited',
                   'bounded by the data', 'uneven period',
                   'no point within the period', 'some points left out', 'open end of the data', 'open start of the data']

GOLD = (math.sqrt(5) + 1) / 2
W = dict(ANY, sma=5)


def window_average(pts, i, j):
    """Average of the straight lines between the points j to i."""
    if i == j:
        return pts[i][1]
    area = sum((q[0] - p[0]) * (p[1] + q[1]) / 2 for p, q in zip(pts[j:i], pts[j + 1:i + 1]))
    return area / (pts[i][0] - pts[j][0])


def averages(rng, mon, tier):
    h = rng.choice([2 ** -9, 0.25, 0.5, 1, 1, 2, 60, 3600])
    n = rng.choice([1, 2, 3, 5, 8, 14, 40])
    uniform = rng.random() < 0.65
    x0 = rng.choice([0, -5 * h, 7 * h, 1.6e9])
    if x0 > 1e6 and h < 1:
        h = 60
    pts = make_points(rng, n, h, x0, uniform)
    interp = rng.choice([0, 0, -1, 1])
    src = Points(list(pts), uniform=uniform, interpolation=interp)
    by_period = uniform and rng.random() < 0.4
    k = rng.choice([1, 2, 3, 4, 7])
    c = src.sma(k * h, is_period=True) if by_period else src.sma(k, uniform=uniform)
    mon.event('by period' if by_period else 'by points')
    if k == 1 and not by_period:
        mon.event('degree one')
    mon.log(pts, k, by_period)
    for _ in range(rng.choice([1, 2, 3])):
        n = len(pts)
        if by_period and n < k:
            break       # a window longer than the data
        first = k - 1
        d = (pts[first][0], pts[-1][0], False, False) if n > first else None
        mon.check(iv_tuple(c.domain) == d, lambda: f'domain is {iv_tuple(c.domain)}, expected {d}', d is not None)
        if d is None:
            mon.event('too short')
        vals = {}
        for i in range(first, n):
            vals[i] = window_average(pts, i, i - k + 1)
        order = list(range(n))
        rng.shuffle(order)
        for i in order[:10]:
            x = pts[i][0]
            mon.same(c.y(x), vals.get(i), lambda: f'{k} {by_period}: y({x})', 1e-9, 1e-9)
            if i in vals:
                w = [p[1] for p in pts[i - k + 1:i + 1]]
                a = c.y(x)
                mon.check(min(w) - 1e-9 <= a <= max(w) + 1e-9, lambda: f'average {a} of {w}')
                mon.event('bounded by the data')
            if i + 1 in vals and i in vals and k > 1:
                m = (pts[i][0] + pts[i + 1][0]) / 2
                mon.same(c.y(m), (vals[i] + vals[i + 1]) / 2, lambda: f'y({m})', 1e-9, 1e-9)
        mon.same(c.y(pts[-1][0] + h), None, 'after the end')
        mon.same(c.sample_points(), [(pts[i][0], vals[i]) for i in sorted(vals)] if d else [], 'samples', 1e-9, 1e-9)
        b = rng.random()
        if b < 0.5:
            p = (pts[-1][0] + h, ydata(rng))
            src.append(p)
            pts = pts + [p]
        elif b < 0.8:
            j = rng.randrange(n)
            pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
            src.replace(pts[j])
        else:
            pts = make_points(rng, rng.choice([1, 3, 8]), h, x0 + h, uniform)
            src.set(list(pts))
        mon.event('edited')


def harmonic(rng, mon, tier):
    """Several averages over degrees which grow by the golden ratio."""
    h = rng.choice([2 ** -9, 1, 1, 0.5, 60])
    n = rng.choice([20, 40, 60])
    pts = make_points(rng, n, h, 0, True)
    src = Points(pts)
    is_period = rng.random() < 0.4
    unit = h if is_period else 1
    base = rng.choice([1, 2, 3, 4]) * unit
    count = rng.choice([0, 1, 2, 3, 4])
    stride = rng.choice([0, 1, 1, 2])
    degrees = [round(GOLD ** (i * (stride + 1))) * base for i in range(count)]
    kw = {} if stride == 1 else {'stride': stride}
    if is_period:
        kw['is_period'] = True
    for name, cs, ds in (('harmonic', src.harmonic_smas(base, count, **kw), degrees),
                         ('centered', src.centered_macs(base, count, **kw), degrees[::-1])):
        mon.event(name)
        mon.check(len(cs) == count, f'{name}: {len(cs)} averages instead of {count}')
        mon.log(name, base, count, stride, is_period, ds)
        for k, c in zip(ds, cs):
            if k > (n - 1) * unit:
                continue
            k = round(k / unit)
            for i in rng.sample(range(n), 5):
                e = window_average(pts, i, i - k + 1) if i >= k - 1 else None
                mon.same(c.y(pts[i][0]), e, f'{name} average over {k} at {pts[i][0]}', 1e-9, 1e-9)


def uneven(rng, mon, tier):
    """Averages over a period of unevenly spaced series: the window holds the points later than x - period."""
    h = rng.choice([2 ** -9, 0.25, 0.5, 1, 1, 2, 60, 3600])
    pts = make_points(rng, rng.choice([2, 3, 5, 8, 14]), h, rng.choice([0, -5 * h, 7 * h]), False)
    src = Points(list(pts), uniform=False)
    k = rng.choice([1, 1.5, 2, 3, 5, 8]) * h
    c = src.sma(k, is_period=True, uniform=False)
    mon.log(pts, k)
    asked = None
    for _ in range(rng.choice([2, 3, 5])):
        n = len(pts)
        if pts[-1][0] - pts[0][0] <= k:
            break       # a window longer than the data
        start = [p[0] for p in pts if p[0] < pts[0][0] + k][-1]
        mon.check(iv_tuple(c.domain) == (start, pts[-1][0], False, False), lambda: f'domain is {iv_tuple(c.domain)}')
        order = rng.sample(range(n), min(n, 6))
        if asked is not None and asked in [p[0] for p in pts]:
            # What was asked last before the edit is asked first
            order.insert(0, [p[0] for p in pts].index(asked))
        for i in order:
            x = pts[i][0]
            j = min(m for m in range(i + 1) if pts[m][0] > x - k)
            e = window_average(pts, i, j) if x >= start else None
            asked = x
            mon.same(c.y(x), e, lambda: f'over {k}: y({x})', 1e-9, 1e-9)
            mon.event('uneven period')
            if i + 1 < n:
                # Between the points, also where there is none within the period
                v = x + (pts[i + 1][0] - x) * rng.choice([0.5, 0.25, 0.75, 0.875])
                a = c.y(v)
                if not R.inside((start, pts[-1][0], False, False), v):
                    mon.same(a, None, lambda: f'over {k}: y({v})')
                else:
                    ys = [q[1] for q in pts[:i + 2] if q[0] > x - k]
                    mon.check(a is not None and min(ys) - 1e-9 <= a <= max(ys) + 1e-9,
                              lambda: f'over {k}: y({v}) is {a}, of {ys}')
                    mon.event('no point within the period', v - k > x)
        b = rng.random()
        if b < 0.25:
            p = (pts[-1][0] + h * rng.choice([0.5, 1, 2]), ydata(rng))
            src.append(p)
            pts = pts + [p]
        elif b < 0.5:
            j = rng.randrange(n)
            pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
            src.replace(pts[j])
        elif b < 0.8:
            j = rng.randrange(n - 1)
            p = (pts[j][0] + (pts[j + 1][0] - pts[j][0]) * rng.choice([0.5, 0.25]), ydata(rng))
            pts = pts[:j + 1] + [p] + pts[j + 1:]
            src.replace(p)
        elif n > 2:
            j = rng.randrange(n)
            x = pts[j][0]
            pts = pts[:j] + pts[j + 1:]
            src.reset((x, x))
        mon.event('edited')


def apart(rng, mon, tier):
    """A minimum step leaves out points: the window takes every m-th one."""
    h = rng.choice([0.25, 0.5, 1, 1, 2, 60])
    pts = make_points(rng, rng.choice([2, 5, 8, 14, 30]), h, rng.choice([0, -5 * h, 7 * h]), True)
    src = Points(list(pts))
    m = rng.choice([1, 2, 3])
    k = rng.choice([1, 2, 3, 4])
    kw = dict(min_step=m * h)
    if rng.random() < 0.5:
        kw['uniform'] = False
    kind = rng.choice(['sma', 'harmonic', 'smma'])
    if kind == 'harmonic':
        c = src.harmonic_smas(k, 1, **kw)[0]
    elif kind == 'smma':
        kw['uniform'] = False
        c = src.smma(k, **kw)
    else:
        c = src.sma(k, **kw)
    mon.log(kind, pts, k, m)
    for _ in range(rng.choice([1, 2, 3])):
        n = len(pts)
        first = (k - 1) * m

        def mean(i):
            return window_average(pts[i - first:i + 1:m], k - 1, 0) if i >= first else None
        vals = {i: mean(i) for i in range(n)}
        if kind == 'smma':
            # Starts with the average
            ema = None
            vals = {}
            for i in range(0, n, m):
                ema = mean(i) if ema is None else ema + (pts[i][1] - ema) / k
                vals[i] = ema
        for i in rng.sample(sorted(vals), min(len(vals), 8)):
            mon.same(c.y(pts[i][0]), vals[i], lambda: f'{kind} of {k} by {m}: y({pts[i][0]})', 1e-9, 1e-9)
            mon.event('some points left out', m > 1)
        if rng.random() < 0.5:
            p = (pts[-1][0] + h, ydata(rng))
            src.append(p)
            pts = pts + [p]
        else:
            j = rng.randrange(n)
            pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
            src.replace(pts[j])


def pieces(rng, mon, tier):
    """A piece of a series, whose ends may be open: the average ends as the piece does."""
    h = rng.choice([0.25, 0.5, 1, 1, 2, 60])
    all_pts = make_points(rng, rng.choice([5, 8, 14, 30]), h, rng.choice([0, -5 * h, 7 * h]), True)
    src = Points(list(all_pts))
    i = rng.randrange(len(all_pts) - 2)
    j = rng.randrange(i + 2, len(all_pts))
    k = rng.choice([1, 2, 3, 4])
    by_period = rng.random() < 0.5
    d = (all_pts[i][0], all_pts[j][0], rng.random() < 0.5 and not by_period, rng.random() < 0.6)
    if rng.random() < 0.3:
        d = d[:1] + (d[1] - h / 2,) + d[2:3] + (True,)
    piece = Piecewise([src], [iv(d)])
    kw = {} if rng.random() < 0.5 else {'uniform': False}
    c = piece.sma(k * h, is_period=True, **kw) if by_period else piece.sma(k, **kw)
    mon.log(all_pts, d, k, by_period)
    for _ in range(rng.choice([1, 2, 3])):
        pts = [p for p in all_pts if R.inside(d, p[0])]
        n = len(pts)
        if by_period and (d[1] - d[0]) <= k * h:
            break       # a window longer than the data
        first = k - 1
        if n <= first:
            if n < first:
                mon.check(iv_tuple(c.domain) is None, lambda: f'domain is {iv_tuple(c.domain)}, of {n} points')
            break
        e = (pts[first][0], d[1], False, d[3])
        if e[0] < e[1]:
            mon.check(iv_tuple(c.domain) == e, lambda: f'domain is {iv_tuple(c.domain)}, expected {e}')
        mon.event('open end of the data', d[3])
        mon.event('open start of the data', d[2])
        order = list(range(n))
        rng.shuffle(order)
        for m in order[:8]:
            v = window_average(pts, m, m - first) if m >= first else None
            mon.same(c.y(pts[m][0]), v, lambda: f'{k} {by_period} of {d}: y({pts[m][0]})', 1e-9, 1e-9)
        if d[3]:
            mon.same(c.y(d[1]), None, lambda: f'{k} {by_period}: y({d[1]}) at the open end')
        mon.same(c.sample_points(), [(pts[m][0], window_average(pts, m, m - first)) for m in range(first, n)],
                 lambda: f'{k} {by_period} of {d}: samples', 1e-9, 1e-9)
        m = rng.randrange(len(all_pts))
        p = (all_pts[m][0], ydata(rng))
        all_pts = all_pts[:m] + [p] + all_pts[m + 1:]
        src.replace(p)


OVER_FUNCTIONS = {
    'by degree': lambda c, k, h, u: c.sma(k, min_step=h, uniform=u),
    'by period': lambda c, k, h, u: c.sma(k * h, is_period=True, min_step=h, uniform=u),
}


def functions(rng, mon, tier):
    # Where the first period begins in a function with an open start is not defined
    over_function(rng, mon, OVER_FUNCTIONS, 'over a function', closed=['by period'])


families = [
    Family('very long', very_long('sma'), 30, 600),
    Family('functions', functions, 400, 8000),
    Family('pieces', pieces, 2000, 30000),
    Family('apart', apart, 2000, 30000),
    Family('uneven', uneven, 2000, 30000),
    Family('graphs', graph_family(['sma'], W), 6000, 100000),
    Family('long', graph_family(['sma'], W, edits=(5, 10, 20), n_derived=0, long=True), 150, 6000),
    Family('averages', averages, 4000, 60000),
    Family('harmonic', harmonic, 500, 5000),
]
