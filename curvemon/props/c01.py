"""C01: looking up a series."""
import bisect
import math
from ..core import Family
from ..engine import graph_family, value_matches, iv_tuple
from ..load import Points, Curve, Interval
from .. import ref as R

RULE = ('A random series is looked up at, between and beyond its points and each answer is compared with a search '
        'in the list which it was made from. Non-trivial: at least one expected answer was a value.')
REQUIRED_EVENTS = ['at a point', 'between points', 'outside', 'at a None', 'next to a None', 'very close to a point']

# Intervals and origins, many of which are not exact in binary
STEPS = [1, 1, 2, 0.5, 0.1, 0.2, 0.3, 0.7, 1 / 3, 1e-3, 0.07, 60, 900, 3600, 86400, 604800, 1e6, math.pi]
ORIGINS = [0, 0, 0, 1, -1, -50, 0.1, -0.3, 1e3, 1.5e9, 1600000000.0, 1577836800.25, 1e-3]


def random_xs(rng, n, uniform, h=None, x0=None):
    h = h or rng.choice(STEPS)
    x0 = rng.choice(ORIGINS) if x0 is None else x0
    if x0 > 1e6 and (h < 1 or h != int(h)):
        h = 60
    if uniform:
        k0 = rng.choice([0, 0, -3, 17])
        b = rng.random()
        if b < 0.5 or x0 > 1e6:
            return [x0 + (k0 + i) * h for i in range(n)]
        xs = []
        x = x0
        for i in range(n):      # accumulates rounding errors
            xs.append(x)
            x += h
        return xs
    xs = []
    x = x0
    for _ in range(n):
        xs.append(x)
        x += h * rng.choice([0.25, 0.5, 1, 1, 1.5, 2, 3, 10, rng.uniform(0.1, 2)])
    return xs


def random_y(rng, none_p=0.0):
    if rng.random() < none_p:
        return None
    b = rng.random()
    if b < 0.5:
        return rng.randint(-80, 80) / 4
    if b < 0.6:
        return rng.randint(-5, 5)
    if b < 0.9:
        return rng.uniform(-1e3, 1e3)
    return rng.choice([0.0, 1e-9, -1e-9, 1e12, -1e12])


def lookup(rng, mon, tier):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 20, 33, 50] + [300] * (rng.random() < 0.2))
    uniform = rng.random() < 0.55
    regular = uniform or rng.random() < 0.3
    xs = random_xs(rng, n, regular)
    none_p = rng.choice([0, 0, 0.1, 0.4])
    ys = [random_y(rng, none_p) for _ in xs]
    pts = list(zip(xs, ys))
    interp = rng.choice([None, 0, -1, 1])
    mon.log(f'Points({pts[:12]}{"..." if n > 12 else ""}, interpolation={interp}, uniform={uniform})')
    if rng.random() < 0.1:
        interp, uniform, c = None, True, None
        try:
            c = Curve.parse(list(pts)) if regular else None
        except Exception:
            c = None
    else:
        c = None
    if c is None:
        c = Points(list(pts), interpolation=interp, uniform=uniform and regular)
    series_is(rng, mon, c, pts, interp or 0, 25)


def series_is(rng, mon, c, pts, interp, k):
    xs = [p[0] for p in pts]
    ys = [p[1] for p in pts]
    n = len(pts)
    d = iv_tuple(c.domain)
    mon.check(d == ((xs[0], xs[-1], False, False) if n else None), lambda: f'domain is {d} with points {pts[:3]}...')
    if not n:
        for x in (0, 1.5, -3, math.inf, -math.inf):
            mon.same(c.y(x), None, 'value of an empty series')
        mon.event('empty')
        return
    mon.check(c.first_point() == (xs[0], ys[0]), lambda: f'first_point {c.first_point()}')
    mon.check(c.last_point() == (xs[-1], ys[-1]), lambda: f'last_point {c.last_point()}')
    mon.check(c.y_start() == ys[0] and c.y_end() == ys[-1], lambda: f'y_start/y_end {c.y_start()} {c.y_end()}')
    width = xs[-1] - xs[0]
    for _ in range(k):
        b = rng.random()
        i = rng.randrange(n)
        if b < 0.4:
            x = xs[i]
            a = (c.y if rng.random() < 0.8 else c)(x)
            mon.check(a == ys[i] and type(a) is type(ys[i]), lambda: f'y({x!r}) at point {i} is {a!r} not {ys[i]!r}',
                      ys[i] is not None)
            mon.event('at a point' if ys[i] is not None else 'at a None')
            continue
        if b < 0.55 or n == 1:
            x = rng.choice([xs[0] - 1e-3 - width * rng.random(), xs[-1] + 1e-3 + width * rng.random(),
                            xs[0] - 1e9, xs[-1] + 1e9, -math.inf, math.inf])
            if rng.random() < 0.3:
                x = rng.choice([math.nextafter(xs[0], -math.inf), math.nextafter(xs[-1], math.inf)])
            mon.same(c.y(x), None, lambda: f'y({x!r}) outside of the domain')
            mon.event('outside')
            continue
        i = rng.randrange(n - 1)
        u = rng.choice([0.5, 0.25, 0.75, 0.01, 0.99, rng.random(), rng.choice([1e-3, 1e-5, 1e-7]), 1 - rng.choice([1e-4, 1e-6])])
        if rng.random() < 0.2:
            # As close to a point as the rounding of the index leaves room for
            k = rng.choice([1e-8, 1e-9, 1e-10])
            if 1e-14 * n * max(abs(xs[0]), abs(xs[-1])) / (xs[i + 1] - xs[i]) < k:
                u = rng.choice([k, 1 - k])
                mon.event('very close to a point')
        x = xs[i] + u * (xs[i + 1] - xs[i])
        if not xs[i] < x < xs[i + 1]:
            continue
        y0, y1 = ys[i], ys[i + 1]
        if interp == -1:
            e = y0
        elif interp == 1:
            e = y1
        else:
            u = (x - xs[i]) / (xs[i + 1] - xs[i])
            e = None if y0 is None or y1 is None else y0 * (1 - u) + y1 * u
        a = c.y(x)
        scale = max(abs(y0 or 0), abs(y1 or 0))
        # Where the rounding of x itself limits the weight
        eps = 1e-9 + 8e-16 * max(abs(xs[0]), abs(xs[-1])) / (xs[i + 1] - xs[i]) * 4
        mon.same(a, e, lambda: f'y({x!r}) between {pts[i]} and {pts[i + 1]}', 1e-9, scale * eps + 1e-12)
        mon.event('between points')
        if None in (y0, y1):
            mon.event('next to a None')


def big(rng, mon, tier):
    """Long series of evenly spaced points, whose spacing is not exact."""
    n = rng.choice([200, 1000, 3000])
    xs = random_xs(rng, n, True)
    pts = [(x, float(i)) for i, x in enumerate(xs)]
    c = Points(list(pts), uniform=rng.random() < 0.7)
    mon.log('long series from', xs[0], 'by', xs[1] - xs[0], 'n', n)
    for i in range(0, n, rng.choice([1, 1, 3])):
        mon.same(c.y(xs[i]), float(i), lambda: f'y({xs[i]!r}) at point {i}', 0, 0)
    for _ in range(200):
        i = rng.randrange(n - 1)
        x = (xs[i] + xs[i + 1]) / 2
        mon.same(c.y(x), i + 0.5, lambda: f'y({x!r}) between points {i}', 1e-6, 1e-6)
    mon.event('long series')


families = [
    Family('lookup', lookup, 4000, 80000),
    Family('long', big, 60, 600),
]
