"""C14: integrals accumulate the area below a curve."""
import math
from ..core import Family, Skip
from ..engine import graph_family, ANY, iv_tuple
from ..graph import make_points, ydata
from ..load import Points, Line, Curve, Integral
from ..single import over_function, very_long
from .. import ref as R

RULE = ('Integrals of random curves are compared with the sums of the areas between the points; lines are integrated '
        'in closed form. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['thousands of points', 'over a function', 'node integral', 'missing value', 'additive', 'constant added', 'line area', 'linear', 'edited',
                   'minimum step']

W = dict(ANY, integral=4)


def areas(rng, mon, tier):
    """Direct sums, on long series and asked for in any order."""
    h = rng.choice([2 ** -9, 0.25, 0.5, 1, 1, 2, 60, 0.1])
    n = rng.choice([1, 2, 3, 6, 12, 40])
    uniform = rng.random() < 0.6
    x0 = rng.choice([0, -5 * h, 7 * h, 1.6e9 if h >= 1 else 3])
    pts = make_points(rng, n, h, x0, uniform, none_p=rng.choice([0, 0, 0.2, 0.6]))
    interp = rng.choice([0, -1, 1])
    mode = rng.choice([None, 0, -1, 1])
    const = rng.choice([0, 0, 2, -3.5])
    src = Points(list(pts), uniform=uniform, interpolation=interp)
    c = src.integral(const=const, interpolation=mode, uniform=uniform)
    if const:
        mon.event('constant added')
    mon.log(pts, mode, const)
    for _ in range(rng.choice([1, 2, 3])):
        e = []
        total = None
        prev = None
        for x, y in pts:
            if y is not None:
                if total is None:
                    total = 0.0
                if prev is not None and prev[1] is not None:
                    left, right = prev[1], y
                    height = {0: (left + right) / 2, None: (left + right) / 2, -1: left, 1: right}[mode]
                    total += (x - prev[0]) * height
            else:
                mon.event('missing value')
            e.append((x, None if total is None else total + const))
            prev = (x, y)
        places = list(e)
        rng.shuffle(places)
        for x, y in places[:8]:
            mon.same(c.y(x), y, lambda: f'y({x})', 1e-9, 1e-9)
        for (x1, y1), (x2, y2) in zip(e, e[1:]):
            if rng.random() < 0.3:
                m = (x1 + x2) / 2
                mon.same(c.y(m), None if y1 is None or y2 is None else (y1 + y2) / 2, lambda: f'y({m})', 1e-9, 1e-9)
            # The area between two points is the difference
            if y1 is not None and mode in (None, 0):
                d1, d2 = src.y(x1), src.y(x2)
                if d1 is not None and d2 is not None:
                    mon.same(c.y(x2) - c.y(x1), (x2 - x1) * (d1 + d2) / 2, 'area', 1e-7, 1e-6)
                    mon.event('additive')
        if pts:
            mon.same(c.y(pts[0][0] - h), None, 'before the start')
            mon.same(c.y(pts[-1][0] + h), None, 'after the end')
            mon.check(iv_tuple(c.domain) == (pts[0][0], pts[-1][0], False, False), 'domain')
        # Edit and again
        p = (pts[-1][0] + h, ydata(rng))
        if rng.random() < 0.5:
            src.append(p)
            pts = pts + [p]
        else:
            j = rng.randrange(len(pts))
            pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
            src.replace(pts[j])
        mon.event('edited')


def lines(rng, mon, tier):
    x0 = rng.choice([0, 0, 3, -20, 1e6, 1.6e9])
    s = rng.choice([1, 1, 0.25, 60])
    a, b = x0 + rng.randint(-8, 8) * s, x0 + rng.randint(-8, 8) * s
    m = rng.randint(-8, 8) / 4 / s
    px, py = x0 + rng.randint(-4, 4) * s, ydata(rng)
    line = Line(p1=(px, py), slope=m)
    mon.log('line', px, py, m, a, b)
    # Exact rational arithmetic
    from fractions import Fraction as F
    fa, fb, fm, fpx, fpy = map(F, (a, b, m, px, py))
    ya, yb = fpy + fm * (fa - fpx), fpy + fm * (fb - fpx)
    area = float((fb - fa) * (ya + yb) / 2)
    scale = max(abs(float(ya)), abs(float(yb)), abs(py), 1) * max(abs(b - a), 1)
    mon.same(line.partial_integration(a, b), area, f'area below the line from {a} to {b}', 1e-9, 1e-9 * scale * max(1, abs(x0) / 1e6))
    mon.event('line area')
    mon.same(line.partial_integration(b, a), -area, 'area backwards', 1e-9, 1e-9 * scale * max(1, abs(x0) / 1e6))


def split(rng, mon, tier):
    """The integral of a sum is the sum of the integrals, and scaling scales it."""
    h = rng.choice([0.5, 1, 60])
    n = rng.choice([2, 3, 6, 12])
    pts = make_points(rng, n, h, 0, True)
    qts = make_points(rng, n, h, 0, True)
    a, b = Points(pts), Points(qts)
    k = rng.choice([2, -1, 0.5, 0])
    mode = rng.choice([None, -1, 1])
    s = (a * k + b).integral(interpolation=mode)
    t = a.integral(interpolation=mode) * k + b.integral(interpolation=mode)
    d = a.integral(interpolation=-1).differential(forward=True)
    for x, y in pts:
        mon.same(s.y(x), t.y(x), f'linear at {x}', 1e-9, 1e-9)
        mon.event('linear')
        # Steps before the point, and back
        if x < pts[-1][0]:
            mon.same(d.y(x), y, f'slope of the integral at {x}', 1e-9, 1e-9)


def coarse(rng, mon, tier):
    """A minimum step leaves out points."""
    h = rng.choice([0.5, 1, 2, 60])
    uniform = rng.random() < 0.5
    pts = make_points(rng, rng.choice([1, 3, 8, 20]), h, rng.choice([0, -5 * h]), uniform)
    src = Points(list(pts), uniform=uniform)
    step = rng.choice([1.5, 2, 2.5, 4]) * h
    c = Integral(src, uniform=uniform, min_step=step)
    for _ in range(2):
        q = R.decimated(pts, step)
        e = [math.fsum((b[0] - a[0]) * (a[1] + b[1]) / 2 for a, b in zip(q[:i - 1], q[1:])) for i in range(1, len(q) + 1)]
        for i in rng.sample(range(len(q)), min(len(q), 6)):
            mon.same(c.y(q[i][0]), e[i], lambda: f'minimum step {step}: y({q[i][0]})', 1e-9, 1e-9)
        mon.event('minimum step')
        j = rng.randrange(len(pts))
        pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
        src.replace(pts[j])


OVER_FUNCTIONS = {
    'integral': lambda c, k, h, u: c.integral(uniform=u),
    'integral from a constant': lambda c, k, h, u: c.integral(const=k, uniform=u),
    'integral by the points before': lambda c, k, h, u: c.integral(interpolation=-1, uniform=u),
    'integral by the points after': lambda c, k, h, u: c.integral(interpolation=1, uniform=u),
}


def functions(rng, mon, tier):
    over_function(rng, mon, OVER_FUNCTIONS, 'over a function')


families = [
    Family('very long', very_long('integral'), 30, 600),
    Family('functions', functions, 400, 8000),
    Family('coarse', coarse, 1000, 15000),
    Family('graphs', graph_family(['integral'], W), 5000, 80000),
    Family('long', graph_family(['integral'], W, edits=(5, 10, 20), n_derived=0, long=True), 150, 6000),
    Family('areas', areas, 4000, 60000),
    Family('lines', lines, 3000, 50000),
    Family('split', split, 1500, 20000),
]
