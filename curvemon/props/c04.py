"""C04: stepping along a curve."""
import bisect
import math
from ..core import Family, Skip, close
from ..engine import build, edit, editable, log_world, steps_match, iv_tuple, ANY, observe, random_query
from ..graph import iv, World, FNS, ydata, make_points
from ..load import Points, Generic, Curve, Constant, Line, Empty, Interval, Map
from .. import ref as R
from .c01 import random_xs
from ..single import as_series

RULE = ('Curves of random graphs are stepped from random places and walked from end to end; each step is compared with '
        'the sorted union of the points of the sources. Non-trivial: at least one expected step was a point.')
REQUIRED_EVENTS = ['derived from a function', 'walk forward', 'walk backward', 'series step', 'generic step', 'step of add', 'step of sma',
                   'step of ema', 'step of offset', 'step of piecewise', 'step of map', 'step of min', 'step of first',
                   'own minimum step', 'points at least apart']


def walk(w, mon, i):
    ref, c = w.ref[i], w.live[i]
    if w.traits[i].ext or not w.traits[i].finite:
        return
    d = ref.dom()
    if d is None:
        mon.same(c.x_next(w.x0), None, lambda: f'{i}={w.by_id[i][1]} x_next without a domain')
        mon.same(c.x_previous(w.x0), None, lambda: f'{i}={w.by_id[i][1]} x_previous without a domain')
        return
    grid = ref.grid()
    # Forward from the start
    x, got = d[0], []
    e = [g for g in grid if g > d[0]]
    while len(got) <= len(e) + 2:
        x1 = c.x_next(x)
        if x1 is None:
            break
        mon.check(x1 > x, lambda: f'{i}={w.by_id[i][1]}: x_next({x!r}) is {x1!r}')
        got.append(x1)
        x = x1
    mon.same(got, e, lambda: f'{i}={w.by_id[i][1]} walk from {d[0]} to the end of {d}')
    mon.event('walk forward')
    e, x = [], d[1]
    while True:
        x = ref.prv(x)
        if x is None:
            break
        e.append(x)
    x, got = d[1], []
    while len(got) <= len(e) + 2:
        x1 = c.x_previous(x)
        if x1 is None:
            break
        mon.check(x1 < x, lambda: f'{i}={w.by_id[i][1]}: x_previous({x!r}) is {x1!r}')
        got.append(x1)
        x = x1
    mon.same(got, e, lambda: f'{i}={w.by_id[i][1]} walk back from {d[1]} to the start of {d}')
    # Both directions visit the same points, unless a piece of a curve ends before its part of the domain
    ops = {w.by_id[k][1] for k in w.ancestors(i)}
    if not ops & {'piecewise', 'first', 'min', 'max', 'sma', 'smma'}:
        inner = [g for g in grid if d[0] < g < d[1]]
        mon.same([g for g in reversed(got) if d[0] < g < d[1]], inner, lambda: f'{i}={w.by_id[i][1]} both directions')
    mon.event('walk backward')


def long(rng, mon, tier):
    w = build(rng, n_sources=rng.choice([0, 1]), n_derived=rng.choice([1, 2, 3]), long=True)
    for _ in range(rng.choice([0, 5, 20])):
        i = rng.choice(w.nodes)[0]
        observe(w, w.live[i], i, random_query(w, i))
        src = editable(w)
        if src:
            edit(w, mon, rng.choice(src))
    mon.event('long history')
    steps(rng, mon, tier, w)


def steps(rng, mon, tier, w=None):
    w = w or build(rng)
    log_world(w, mon)
    ids = [n[0] for n in w.nodes if w.traits[n[0]].steps and n[1] != 'quotes']
    for r in range(rng.choice([1, 2, 3])):
        for i in ids:
            if w.ref[i].inf_step:
                continue
            steps_match(w, mon, i, 4)
            mon.event(f'step of {w.by_id[i][1]}')
            x = w.query_xs(i, 1)[0]
            p, n = w.live[i].previous_point(x), w.live[i].next_point(x)
            xp, xn = w.ref[i].prv(x), w.ref[i].nxt(x)
            mon.same(p and p[0], xp, lambda: f'{i} previous_point({x})')
            mon.same(n and n[0], xn, lambda: f'{i} next_point({x})')
            ms = w.h * w.rng.choice([0.5, 1.5, 2, 4])
            mon.same(w.live[i].previous_point(x, min_step=ms), None if w.ref[i].prv(x, ms) is None else
                     (w.ref[i].prv(x, ms), w.live[i].y(w.ref[i].prv(x, ms))), lambda: f'{i} previous_point({x}, {ms})')
            mon.same(w.live[i].next_point(x, min_step=ms), None if w.ref[i].nxt(x, ms) is None else
                     (w.ref[i].nxt(x, ms), w.live[i].y(w.ref[i].nxt(x, ms))), lambda: f'{i} next_point({x}, {ms})')
            mon.event('points at least apart')
            for q in (p, n):
                if q is not None:
                    mon.check(w.compare(i, q[1], w.ref[i].y(q[0])), lambda: f'{i}={w.by_id[i][1]} point {q} next to {x}')
            if rng.random() < 0.5:
                walk(w, mon, i)
        src = editable(w)
        if not src:
            break
        edit(w, mon, rng.choice(src))


def vague(xs, x, h):
    k = bisect.bisect_left(xs, x)
    return any(v != x and abs(v - x) < 1e-9 * h for v in xs[max(0, k - 1):k + 1])


def series(rng, mon, tier):
    """Series on grids which are not exact, with steps of all sizes."""
    n = rng.choice([1, 2, 3, 5, 8, 20, 60, 200])
    uniform = rng.random() < 0.6
    xs = random_xs(rng, n, uniform)
    if xs[0] > 1e6:
        xs = [round(x * 16) / 16 for x in xs]
    xs = sorted(set(xs))
    n = len(xs)
    h = (xs[-1] - xs[0]) / (n - 1) if n > 1 else 1.0
    c = Points([(x, float(i)) for i, x in enumerate(xs)], uniform=uniform)
    mon.log('Points at', xs[:10], 'uniform', uniform)
    if n > 1 and min(b - a for a, b in zip(xs, xs[1:])) < 1e-4:
        raise Skip()
    for _ in range(20):
        b = rng.random()
        i = rng.randrange(n)
        x = xs[i]
        on = b < 0.5
        if not on:
            x += rng.choice([0.5, -0.5, 0.25, 1.5, -1.5, 30]) * h
        if rng.random() < 0.5:
            ms = 1e-5
            nx, pv = c.x_next(x), c.x_previous(x)
        else:
            ms = h * rng.choice([0.3, 0.7, 1.3, 2.6, 10.1])
            nx, pv = c.x_next(x, min_step=ms), c.x_previous(x, min_step=ms)
        k = bisect.bisect_left(xs, x + ms)
        e1 = xs[k] if k < n else None
        k = bisect.bisect_right(xs, x - ms) - 1
        e0 = xs[k] if k >= 0 else None
        # Whether a point is far enough away may be a matter of rounding
        if not vague(xs, x + ms, h):
            mon.same(nx, e1, lambda: f'x_next({x!r}, min_step={ms})', 0, 0)
        if not vague(xs, x - ms, h):
            mon.same(pv, e0, lambda: f'x_previous({x!r}, min_step={ms})', 0, 0)
        mon.event('series step')
    # From infinity
    mon.same(c.x_next(-math.inf), xs[0], 'x_next from minus infinity')
    mon.same(c.x_previous(math.inf), xs[-1], 'x_previous from infinity')
    mon.same(c.x_next(xs[-1]), None, 'x_next from the last point')
    mon.same(c.x_previous(xs[0]), None, 'x_previous from the first point')
    # Walk
    x, got = xs[0], [xs[0]]
    while True:
        x = c.x_next(x)
        if x is None:
            break
        got.append(x)
        if len(got) > n:
            break
    mon.same(got, xs, 'walk forward', 0, 0)
    x, got = xs[-1], [xs[-1]]
    while True:
        x = c.x_previous(x)
        if x is None:
            break
        got.append(x)
        if len(got) > n:
            break
    mon.same(got[::-1], xs, 'walk backward', 0, 0)


def generic(rng, mon, tier):
    """Functions step by a distance, up to a limit and within their domain."""
    h = rng.choice([1, 0.5, 10])
    step = rng.choice([None, h, h / 4])
    lo = rng.choice([-math.inf, -3 * h, 0])
    hi = rng.choice([math.inf, 5 * h, 8.5 * h])
    d = (lo, hi, math.isinf(lo) or rng.random() < 0.4, math.isinf(hi) or rng.random() < 0.4)
    kw = {} if step is None else {'min_step': step}
    c = Generic(FNS['par'], domain=iv(d), **kw)
    if rng.random() < 0.4:
        c = rng.choice([lambda c: c.map(lambda y: y, skip_none=True), lambda c: -c, lambda c: c.abs()])(c)
    mon.log('Generic', d, step)
    floor = step or R.MS
    for _ in range(12):
        x = rng.randint(-20, 40) / 4 * h
        ms = rng.choice([None, None, h * 2, h / 8])
        s = max(floor, ms or R.MS)
        lim = rng.choice([None, None, x + s / 2, x + 3 * s, x - s / 2, x - 3 * s])
        kw = {}
        if ms is not None:
            kw['min_step'] = ms
        e1, e0 = x + s, x - s
        up = lim is not None and lim > x
        dn = lim is not None and lim < x
        if up:
            e1 = min(e1, lim)
        if dn:
            e0 = max(e0, lim)
        e1 = e1 if R.inside(d, e1, start=False) else None
        e0 = e0 if R.inside(d, e0, end=False) else None
        if not dn and e1 != lo:
            mon.same(c.x_next(x, limit=lim, **kw), e1, lambda: f'x_next({x}, limit={lim}, {kw})', 0, 1e-9)
        if not up and e0 != hi:
            mon.same(c.x_previous(x, limit=lim, **kw), e0, lambda: f'x_previous({x}, limit={lim}, {kw})', 0, 1e-9)
        mon.event('generic step')


def coarse(rng, mon, tier):
    """Curves with a minimum step of their own, which the one asked for may exceed."""
    h = rng.choice([0.5, 1, 2, 60])
    pts = make_points(rng, rng.choice([1, 3, 8, 20]), h, rng.choice([0, -5 * h]), rng.random() < 0.6)
    src = Points(list(pts), uniform=False)
    own = rng.choice([0.25, 1, 1.5, 2, 2.5, 4]) * h
    c = src.map(lambda y: y, min_step=own)
    if rng.random() < 0.3:
        c = c.map(lambda y: y, min_step=own / 2)
    elif rng.random() < 0.3:
        c = c.offset(0)
    mon.log(pts, own)
    xs = [p[0] for p in pts]
    for _ in range(10):
        x = rng.choice(xs) + rng.choice([0, 0, 0.5, -0.25, -3, 3]) * h
        ms = rng.choice([None, None, own / 2, own * 2, h * 2])
        s = max(own, ms or 0)
        kw = {} if ms is None else {'min_step': ms}
        up, down = [v for v in xs if v >= x + s], [v for v in xs if v <= x - s]
        mon.same(c.x_next(x, **kw), up[0] if up else None, lambda: f'own step {own}: x_next({x}, {kw})', 0, 0)
        mon.same(c.x_previous(x, **kw), down[-1] if down else None, lambda: f'own step {own}: x_previous({x}, {kw})', 0, 0)
        mon.event('own minimum step')
    e = R.decimated(pts, own)
    if e[-1][0] != xs[-1]:
        e.append(pts[-1])
    mon.same(c.sample_points(), e, lambda: f'own step {own}: samples', 0, 0)


def functions(rng, mon, tier):
    as_series(rng, mon, ['points', 'map', 'map with x', 'quotient', 'largest', 'first', 'slope', 'logarithm'],
              'derived from a function', ('x_next', 'x_previous', 'next_point'))


families = [
    Family('functions', functions, 400, 8000),
    Family('coarse', coarse, 1500, 20000),
    Family('long', long, 300, 10000),
    Family('steps', steps, 8000, 150000),
    Family('series', series, 6000, 100000),
    Family('generic', generic, 1500, 20000),
]
