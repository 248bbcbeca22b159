"""C19: curves which are put together from pieces, blended and restricted."""
import math
from ..core import Family, Skip
from ..engine import graph_family, ANY, iv_tuple
from ..graph import make_points, ydata, iv
from ..load import Points, Piecewise, Constant, Line, Curve
from .. import ref as R

RULE = ('Curves of up to six pieces with open and closed bounds and with gaps, blends and subsets are compared with the '
        'curve of the piece which contains the x. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['many pieces', 'node piecewise', 'node subset', 'node blend', 'at a bound', 'in a gap', 'inside a piece', 'outside',
                   'blended', 'before the blend', 'after the blend', 'restricted', 'edited', 'blend missing', 'blend reaches to an end',
                   'sampled', 'infinite piece']

W = dict(ANY, piecewise=3, subset=1)


def source(rng, h, x0, n=None):
    """Returns (curve, function for its value, finite list of xs, edit)."""
    b = rng.random()
    if b < 0.15:
        v = ydata(rng)
        return Constant(v), lambda x: v, [], None
    if b < 0.25:
        v, m = ydata(rng), rng.randint(-4, 4) / 4
        return Line(const=v, slope=m), lambda x: v + m * x, [], None
    uniform = rng.random() < 0.6
    interp = rng.choice([0, 0, -1, 1])
    pts = make_points(rng, n or rng.choice([2, 4, 8]), h, x0 + rng.randint(-4, 4) * h, uniform,
                      none_p=rng.choice([0, 0, 0.15]))
    src = Points(list(pts), uniform=uniform, interpolation=interp)
    state = {'r': R.RPoints(pts, interp), 'pts': pts}

    def edit():
        p = state['pts']
        if rng.random() < 0.4:
            q = (p[-1][0] + h, ydata(rng))
            src.append(q)
            p = p + [q]
        else:
            j = rng.randrange(len(p))
            p = p[:j] + [(p[j][0], ydata(rng))] + p[j + 1:]
            src.replace(p[j])
        state['pts'] = p
        state['r'] = R.RPoints(p, interp)
    return src, lambda x: state['r'].y(x), lambda: [p[0] for p in state['pts']], edit


def pieces(rng, mon, tier):
    h = rng.choice([0.25, 0.5, 1, 1, 2, 60])
    x0 = rng.choice([0, -5 * h, 7 * h])
    n = rng.choice([1, 2, 3, 4, 6, rng.choice([6, 12, 25])])
    mon.event('many pieces', n > 10)
    srcs = [source(rng, h, x0) for _ in range(rng.choice([1, 2, n]))]
    parts = [rng.choice(srcs) for _ in range(n)]
    x = x0 + rng.randint(-4, 1) * h + rng.choice([0, 0, 0.5]) * h
    ds = []
    closed = rng.random() < 0.5     # whether the bound at x still is free
    for i in range(n):
        if i and rng.random() < 0.25:
            x += rng.choice([0.5, 1, 3]) * h     # a gap
            closed = rng.random() < 0.5
        x1 = x + rng.choice([0.5, 1, 2, 4]) * h
        end_open = rng.random() < 0.5
        ds.append((x, x1, not closed, end_open))
        closed = end_open
        x = x1
    if rng.random() < 0.2:
        ds[-1] = (ds[-1][0], math.inf, ds[-1][2], True)
        mon.event('infinite piece')
    c = Piecewise([p[0] for p in parts], [iv(d) for d in ds])
    mon.log(ds, [i for p in parts for i, s in enumerate(srcs) if s is p])
    bounds = sorted({v for d in ds for v in d[:2] if math.isfinite(v)})
    hull = (ds[0][0], ds[-1][1], ds[0][2], ds[-1][3])
    for k in range(rng.choice([1, 2, 3])):
        mon.check(iv_tuple(c.domain) == hull, lambda: f'domain is {iv_tuple(c.domain)}, expected {hull}')

        def value(x):
            for p, d in zip(parts, ds):
                if R.inside(d, x):
                    return p[1](x), 'inside a piece'
            return None, 'in a gap' if hull[0] < x < hull[1] else 'outside'
        xs = [b + u * h for b in bounds for u in (0, 0, 0.25, -0.25, 1, -1)]
        rng.shuffle(xs)
        for x in xs[:14]:
            e, where = value(x)
            mon.event('at a bound' if x in bounds else where)
            mon.same(c.y(x), e, lambda: f'y({x}) of the pieces {ds}')
        # The points are the bounds and the points of the pieces within them
        if all(callable(p[2]) for p in parts) and math.isfinite(hull[1]):
            grid = {x for p, d in zip(parts, ds) for x in p[2]() if R.inside(d, x)}
            grid |= {b for b in bounds if R.inside(hull, b)}
            e = [(x, value(x)[0]) for x in sorted(grid)]
            mon.same(c.sample_points(), e, 'samples')
            mon.event('sampled')
            for a, b in zip(e, e[1:]):
                mon.same(c.x_next(a[0]), b[0], f'x_next({a[0]})')
                mon.same(c.x_previous(b[0]), a[0], f'x_previous({b[0]})')
        ed = [s[3] for s in srcs if s[3]]
        if ed:
            rng.choice(ed)()
            mon.event('edited')


def blends(rng, mon, tier):
    h = rng.choice([0.25, 0.5, 1, 1, 2, 60])
    x0 = rng.choice([0, -5 * h, 7 * h])
    uniform = rng.random() < 0.6
    interp = rng.choice([0, 0, -1, 1])
    pts = make_points(rng, rng.choice([3, 6, 12]), h, x0, uniform, none_p=rng.choice([0, 0, 0.15]))
    src = Points(list(pts), uniform=uniform, interpolation=interp)
    other = source(rng, h, x0 + 2 * h, 8)
    a, b = pts[0][0], pts[-1][0]
    b0 = a + (b - a) * rng.choice([0.125, 0.25, 0.5, 0.5, 0, -0.25, 0.875, 1.5])
    b1 = b0 + (b - a) * rng.choice([0.125, 0.25, 0.375, 0.5, 1, 2])
    if b0 <= a or b1 > b:
        mon.event('blend reaches to an end')
    c = src.blend(other[0], b0, b1)
    mon.log(pts, b0, b1)
    for _ in range(rng.choice([1, 2, 3])):
        r = R.RPoints(pts, interp)
        f = other[1]
        xs = [b0, b1, (b0 + b1) / 2, b0 + (b1 - b0) / 4, a, b, b0 - h / 4, b1 + h / 4, a - h, b + h] + [p[0] for p in pts]
        rng.shuffle(xs)
        for x in xs[:12]:
            if not a <= x <= b:
                e = None
                mon.event('outside')
            elif x < b0:
                e = r.y(x)
                mon.event('before the blend')
            elif x >= b1:
                e = f(x)
                mon.event('after the blend')
            else:
                u = (x - b0) / (b1 - b0)
                y0, y1 = r.y(x), f(x)
                e = None if y0 is None or y1 is None else (1 - u) * y0 + u * y1
                mon.event('blend missing' if e is None else 'blended')
            mon.same(c.y(x), e, lambda: f'y({x}) of a blend from {b0} to {b1}')
        if rng.random() < 0.5 and other[3]:
            other[3]()
        else:
            j = rng.randrange(len(pts))
            pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
            src.replace(pts[j])
        mon.event('edited')


def subsets(rng, mon, tier):
    h = rng.choice([0.25, 0.5, 1, 1, 2, 60])
    x0 = rng.choice([0, -5 * h, 7 * h])
    src, f, xs_of, edit = source(rng, h, x0, 8)
    a = x0 + rng.randint(-2, 6) * h / 2
    d = (a, a + rng.randint(0, 8) * h / 2, False, False)
    if d[0] < d[1]:
        d = (d[0], d[1], rng.random() < 0.4, rng.random() < 0.4)
    if rng.random() < 0.15:
        d = (-math.inf, d[1], True, d[3])
    elif rng.random() < 0.15:
        d = (d[0], math.inf, d[2], True)
    c = src.subset(iv(d))
    mon.log(d)
    for _ in range(rng.choice([1, 2, 3])):
        mon.check(iv_tuple(c.domain) == d, lambda: f'domain is {iv_tuple(c.domain)}, expected {d}')
        for b in (v for v in d[:2] if math.isfinite(v)):
            for x in (b, b - h / 4, b + h / 4, b + h, b - 3 * h):
                e = f(x) if R.inside(d, x) else None
                mon.same(c.y(x), e, lambda: f'y({x}) of the subset {d}')
                mon.event('restricted')
        if edit:
            edit()
            mon.event('edited')


families = [
    Family('graphs', graph_family(['piecewise', 'subset', 'blend'], W), 5000, 80000),
    Family('pieces', pieces, 4000, 60000),
    Family('blends', blends, 3000, 50000),
    Family('subsets', subsets, 2000, 30000),
]
