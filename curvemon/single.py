"""Curves which are derived from one series in one step, and questions with all of their parameters."""
import math
from .engine import iv_tuple
from .graph import iv
from .load import (Accumulator, Constant, ConstantExtension, Curve, Extremas, Generic, Interval, Line, Piecewise, Points, SinExtension,
                   TangentExtension)


def evenly(pts):
    steps = [b[0] - a[0] for a, b in zip(pts, pts[1:])]
    return len(steps) > 1 and all(abs(s - steps[0]) < 1e-9 for s in steps)


def series(pts, uniform=None):
    return Points(list(pts), uniform=evenly(pts) if uniform is None else uniform)


def one_curve(rng, pts, h):
    """Returns (name, function which builds a curve derived from the given series)."""
    lo, hi = pts[0][0], pts[-1][0]
    mid = lo + (hi - lo) * rng.choice([0.25, 0.5, 0.4])
    ends = rng.choice([(True, True), (True, False), (False, True)])
    ms = h * rng.choice([0.5, 1, 1.5, 2])
    k = rng.choice([1, 2, 3, 5])
    kinds = {
        'points': lambda src: src(),
        'map': lambda src: src().map(lambda y: y * y + 1),
        'map with x': lambda src: src().map(lambda x, y: y - x),
        'map apart': lambda src: src().map(lambda y: y + 1, min_step=ms),
        'constant extension': lambda src: ConstantExtension(src(), start=ends[0], end=ends[1]),
        'sine extension': lambda src: SinExtension(src(), 4 * h, start=ends[0], end=ends[1]),
        'tangent extension': lambda src: TangentExtension(src(), start=ends[0], end=ends[1]),
        'regression extension': lambda src: TangentExtension(src(), regression_degree=k + 1, start=ends[0], end=ends[1]),
        'offset': lambda src: src().offset(h * 0.5),
        'subset': lambda src: src().subset(Interval(lo + h * 0.25, mid, start_open=k > 2, end_open=k < 2)),
        'piecewise': lambda src: Piecewise([src(), src() * 2], [Interval(lo, mid, end_open=True), Interval(mid, hi)]),
        'blend': lambda src: src().blend(src() * 2, lo + h, lo + 3 * h),
        'sum': lambda src: src() + src().offset(h * 0.5),
        'quotient': lambda src: src() / (src() * src() + 1),
        'largest': lambda src: Curve.max([src(), Constant(1.5)]),
        'first': lambda src: Curve.first([src(), Constant(7)]),
        'slope': lambda src: src().differential(),
        'logarithm': lambda src: (src() * src() + 1).log(),
        'sma': lambda src: src().sma(k, uniform=False),
        'ema': lambda src: src().ema(1 / k, uniform=False),
        'trailing': lambda src: src().trailing_max(k, uniform=False),
        'integral': lambda src: src().integral(uniform=False),
        'extremas': lambda src: Extremas(src(), Constant(1)),
        'line': lambda src: Line(p1=(lo, 1), slope=0.5),
        'averages': lambda src: Curve.min([src().sma(k, uniform=False), src().ema(0.25, uniform=False)]),
        'extended average': lambda src: ConstantExtension(src().ema(1 / k, uniform=False)),
        'average of a map': lambda src: src().map(lambda y: -y).sma(k, uniform=False),
    }
    name = rng.choice(list(kinds))
    return name, kinds[name]


def answer(c, q):
    try:
        if q[0] == 'samples':
            return [tuple(p) for p in c.sample_points(domain=iv(q[1]), **q[2])]
        if q[0] == 'range':
            return iv_tuple(c.get_range(domain=iv(q[1])))
        return getattr(c, q[0])(q[1], **q[2])
    except Exception as e:
        return f'raised {type(e).__name__}'


def alike(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(alike(v, w) for v, w in zip(a, b))
    return a == b or abs(a - b) <= 1e-9 * (abs(a) + abs(b) + 1)


def some_question(rng, mon, name, pts, h, asked):
    """Returns (method, x or interval, parameters), similar to one which has been asked perhaps."""
    near = [1e-3, 1e-5, 1e-6, 1e-7, 1e-8]
    kind = rng.choice(['y', 'y', 'y', 'x_next', 'x_previous', 'x_next', 'x_previous', 'd_y', 'next_point', 'samples', 'range'])
    same = [q for q in asked if q[0] == kind]
    if same and rng.random() < 0.5:
        # The same question with one change
        _, x, kw = rng.choice(same)
        if kind in ('samples', 'range'):
            x = (x[0], x[1] + rng.choice([0, h * 0.5]), x[2], x[3])
            kw = dict(kw)
        elif rng.random() < 0.6:
            x, kw = x + rng.choice([-1, 1]) * h * rng.choice(near), dict(kw)
            mon.event('asked closely')
        else:
            kw = dict(kw)
    else:
        x = rng.choice(pts)[0] + h * rng.choice([0, 0, 0.5, 0.25, -0.1, 2.5, -2])
        if kind in ('samples', 'range'):
            x = (min(x, pts[-1][0]), x + h * rng.choice([0.5, 1, 3, 8]), rng.random() < 0.3, rng.random() < 0.3)
        kw = {}
    if kind in ('x_next', 'x_previous', 'd_y', 'next_point', 'samples') and rng.random() < 0.5:
        kw['min_step'] = h * rng.choice([0.01, 0.5, 1, 1.5, 2, 3])
    if name == 'subset' and kind in ('samples', 'range'):
        # It has as many points as there are minimum steps
        kind, kw = 'samples', {'min_step': h * rng.choice([0.25, 0.5, 1])}
    if kind == 'd_y' and rng.random() < 0.5:
        kw['forward'] = rng.random() < 0.5
    return kind, x, kw


def over_function(rng, mon, methods, event, closed=()):
    """A function which has steps next to the series of its values at them, asked at the steps in any order."""
    h = rng.choice([0.25, 0.5, 1, 2, 60])
    n = rng.choice([2, 5, 9, 20])
    a = rng.choice([0, -4, 7]) * h
    k = rng.choice([1, 2, 3, 5])
    name = rng.choice(sorted(methods))
    if name in closed:
        n = max(n, k)
    start_open = name not in closed and rng.random() < 0.3
    u, v, w = rng.choice([1, 2.5, -3]), rng.choice([0, 1, -0.5]), rng.uniform(0.2, 2)

    def f(x):
        return u * math.sin(w * x / h) + v * x / h
    xs = [a + i * h for i in range(n + 1)]
    points = [(x, f(x)) for x in (xs[1:] if start_open else xs)]
    uniform = rng.random() < 0.5
    function = Generic(f, domain=Interval(a, xs[-1], start_open=start_open), min_step=h)
    on_function = methods[name](function, k, h, uniform)
    on_series = methods[name](Points(points, uniform=uniform), k, h, uniform)
    mon.log(name, k, 'over a function by', h, 'from', a, 'open' if start_open else '', n, 'steps', u, v, w, uniform)
    order = [x for x, _ in points] + [a, xs[-1] + h, a - h]
    rng.shuffle(order)
    for x in order:
        e = on_series.y(x)
        mon.event(event, e is not None)
        mon.same(on_function.y(x), e, lambda: f'{name} {k} over a function at {x} of {order}')


def as_series(rng, mon, names, event, kinds=('y', 'y', 'x_next', 'x_previous', 'd_y', 'samples', 'range', 'next_point')):
    """A curve derived from a function by steps next to the one derived from the series of its values at them."""
    h = rng.choice([0.5, 1, 2, 60])
    n = rng.choice([3, 6, 10])
    a = rng.choice([0, -3, 5]) * h
    u, v, w = rng.choice([1, 2.5, -3]), rng.choice([0, 1, -0.5]), rng.uniform(0.2, 2)

    def f(x):
        return u * math.sin(w * x / h) + v * x / h
    pts = [(a + i * h, f(a + i * h)) for i in range(n + 1)]
    while True:
        name, derive = one_curve(rng, pts, h)
        if name in names:
            break
    mon.log(name, 'of a function by', h, 'from', a, n, 'steps', u, v, w)
    on_series = derive(lambda: Points(list(pts)))
    on_function = derive(lambda: Generic(f, domain=Interval(a, pts[-1][0]), min_step=h))
    asked = []
    for _ in range(10):
        kind = rng.choice(kinds)
        i = rng.randint(-2, n + 2) if kind == 'y' else rng.randint(0, n)
        x = a + h * i
        kw = {}
        if kind in ('samples', 'range'):
            x = (x, x + h * rng.randint(1, 5), rng.random() < 0.3, rng.random() < 0.3)
        if kind not in ('y', 'range') and rng.random() < 0.5:
            kw['min_step'] = h * rng.choice([1, 2, 3])
        if kind == 'd_y':
            kw['forward'] = rng.random() < 0.5
        q = (kind, x, kw)
        asked.append(q)
        e = answer(on_series, q)
        value = answer(on_function, q)
        mon.observations += 1
        mon.event(event, e is not None and not isinstance(e, str))
        if e is not None:
            mon.informative += 1
            mon.fingerprint.update(repr((q, e)).encode())
        if not alike(value, e):
            mon.fail(f'{name}: {q} is {value!r} over a function, but {e!r} over its points, after {asked[:-1]}')


def very_long(kind):
    """Series of thousands of points next to the values which a loop over the list gives."""
    def run(rng, mon, tier):
        h = rng.choice([0.5, 1, 60])
        n = rng.choice([700, 1200, 1800] if kind == 'sma' else [1200, 2100, 4200])
        ys = [rng.randint(-40, 40) / 4 for _ in range(n + 4)]
        pts = [(i * h, ys[i]) for i in range(n)]
        src = Points(list(pts))
        k = rng.choice([2, 5, 30])
        a = rng.choice([0.5, 0.25, 0.0625])
        high = rng.random() < 0.5
        e = []
        if kind == 'integral':
            c = src.integral()
        elif kind == 'sma':
            c = src.sma(k, is_period=False)
        elif kind == 'ema':
            c = src.ema(a)
        elif kind == 'trailing':
            c = src.trailing_max(k) if high else src.trailing_min(k)
        elif kind == 'accumulator':
            c = Accumulator(src, lambda x, y, last: (last or 0) / 2 + y)
        for i, y in enumerate(ys):
            w = ys[max(0, i - k + 1):i + 1]
            if kind == 'integral':
                e.append(e[-1] + (ys[i - 1] + y) / 2 * h if i else 0)
            elif kind == 'sma':
                e.append((math.fsum(w) - (w[0] + w[-1]) / 2) / (k - 1) if i >= k - 1 else None)
            elif kind == 'ema':
                e.append(e[-1] + a * (y - e[-1]) if i else y)
            elif kind == 'trailing':
                e.append(max(w) if high else min(w))
            elif kind == 'accumulator':
                e.append(e[-1] / 2 + y if i else y)
        mon.log(kind, n, h, k, a)
        for _ in range(2):
            asked = [rng.randrange(n) for _ in range(10 if kind != 'sma' else 5)]
            asked += [0, n - 1] if rng.random() < 0.5 else [n - 1, k, 0]
            if rng.random() < 0.5:
                asked.sort(reverse=rng.random() < 0.5)
            for i in asked:
                mon.same(c.y(i * h), e[i], lambda: f'{kind} of {n} points at the {i}th after {asked}', 1e-9, 1e-7)
            i = rng.randrange(k, n - 2)
            mon.same(c.x_next(i * h), (i + 1) * h, 'next step', 0, 1e-9)
            mon.event('thousands of points')
            if n < len(ys):
                src.append((n * h, ys[n]))
                n += 1
    return run
