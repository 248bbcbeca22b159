"""C05: sampling a curve over a domain."""
import math
from ..core import Family, Skip, close
from ..engine import build, edit, editable, log_world, samples_match, iv_tuple, ANY, SOURCES, some_interval, observe, random_query
from ..graph import iv, World, FNS
from ..load import Points, Generic, Curve, Line, Sin, Constant, Interval, Quotes
from .. import ref as R
from .c01 import random_xs, random_y
from ..single import as_series

RULE = ('Curves of random graphs are sampled over random open and closed domains and steps; the samples are compared '
        'with the points which lie in the domain. Non-trivial: at least one sample was expected.')
REQUIRED_EVENTS = ['derived from a function', 'sampled', 'by step', 'from x', 'series sampled', 'open start', 'open end', 'infinite rejected', 'series by step',
                   'series at least apart', 'sampled widely', 'series at least as far apart as it is',
                   'by the mean step of an uneven series']


def long(rng, mon, tier):
    w = build(rng, n_sources=rng.choice([0, 1]), n_derived=rng.choice([1, 2, 3]), long=True)
    for _ in range(rng.choice([0, 5, 20])):
        i = rng.choice(w.nodes)[0]
        observe(w, w.live[i], i, random_query(w, i))
        src = editable(w)
        if src:
            edit(w, mon, rng.choice(src))
    mon.event('long history')
    graphs(rng, mon, tier, w)


def graphs(rng, mon, tier, w=None):
    w = w or build(rng)
    log_world(w, mon)
    for r in range(rng.choice([1, 2, 3])):
        for n in w.nodes:
            i = n[0]
            if n[1] == 'quotes' or w.ref[i].inf_step:
                continue
            for _ in range(2):
                samples_match(w, mon, i)
            mon.event('sampled')
            t = w.traits[i]
            if t.steps:
                from_x(w, mon, i)
            if t.finite and not t.ext and (t.steps or t.grid == 'dense') and n[1] != 'points':
                by_step(w, mon, i)
            mon.check(w.live[i].domain == w.live[i].domain, 'domain')
        src = editable(w)
        if not src:
            break
        edit(w, mon, rng.choice(src))


def by_step(w, mon, i):
    r = w.rng
    step = w.h * r.choice([0.5, 1, 2, 0.25, 3])
    d = None if r.random() < 0.3 else some_interval(w, i)
    full = w.ref[i].dom() if d is None else R.intersect([w.ref[i].dom(), d])
    if full is not None and (full[1] - full[0]) / step > 400:
        return
    a = w.live[i].sample_points(domain=None if d is None else iv(d), step=step)
    e = []
    if full is not None:
        k = 1 if full[2] else 0
        while full[0] + k * step <= full[1]:
            e.append(full[0] + k * step)
            k += 1
        if full[3] and e and e[-1] == full[1]:
            e.pop()
    mon.same([p[0] for p in a], e, lambda: f'{i}={w.by_id[i][1]} sample_points({d}, step={step})')
    for x, y in a:
        mon.check(w.compare(i, y, w.ref[i].y(x)), lambda: f'{i}={w.by_id[i][1]} sample at {x} is {y}, '
                  f'expected {w.ref[i].y(x)}')
    mon.event('by step')


def from_x(w, mon, i):
    r = w.rng
    c, ref = w.live[i], w.ref[i]
    x = w.query_xs(i, 1)[0]
    n = r.choice([0, 1, 2, 3, 5, -1, -2, -4])
    back, opened = r.random() < 0.4, r.random() < 0.5
    kw = {}
    ms = R.MS
    if r.random() < 0.3:
        ms = kw['min_step'] = w.h * r.choice([0.5, 1.5, 2.5])
    a = c.sample_points_from_x(x, n, backward=back, open=opened, **kw)
    k = abs(n)
    down = back != (n < 0)
    e = []
    v = x
    if not opened and k:
        e.append(v)
    ok = not e or ref.y(v) is not None
    e = e if ok else []
    while ok and len(e) < k:
        v = ref.prv(v, ms) if down else ref.nxt(v, ms)
        if v is None or ref.y(v) is None:
            break
        e.append(v)
    mon.same([p[0] for p in a], e,
             lambda: f'{i}={w.by_id[i][1]} sample_points_from_x({x}, {n}, backward={back}, open={opened}, {kw})')
    for q, y in a:
        mon.check(w.compare(i, y, ref.y(q)), lambda: f'{i}={w.by_id[i][1]} sample at {q} is {y}, expected {ref.y(q)}')
    mon.event('from x')


def series(rng, mon, tier):
    """The points of a series which lie in a domain, for grids which are not exact."""
    n = rng.choice([0, 1, 2, 3, 5, 9, 20, 70, 300])
    uniform = rng.random() < 0.6
    xs = random_xs(rng, n, uniform)
    pts = [(x, random_y(rng, 0.1)) for x in xs]
    c = Points(list(pts), uniform=uniform, interpolation=rng.choice([None, -1, 1]))
    mon.log('Points', pts[:8], uniform)
    h = (xs[-1] - xs[0]) / (n - 1) if n > 1 else 1
    mon.check(c.sample_points() == pts, 'all points')
    mon.check(c.sample_points(Interval.infinite()) == pts, 'all points')
    mon.check(c.sample_points(Interval.empty()) == [], 'no points')
    if not n:
        mon.check(c.sample_points(Interval.closed(0, 1)) == [], 'no points')
        return
    for _ in range(10):
        a = rng.choice(xs) + rng.choice([0, 0, 0, 0.5, -0.5, 0.1]) * h
        b = rng.choice(xs) + rng.choice([0, 0, 0, 0.5, -0.5, 0.1]) * h
        a, b = min(a, b), max(a, b)
        if rng.random() < 0.1:
            a = -math.inf
        if rng.random() < 0.1:
            b = math.inf
        d = R.norm((a, b, rng.random() < 0.4, rng.random() < 0.4))
        if d is None:
            continue
        e = [p for p in pts if R.inside(d, p[0])]
        got = c.sample_points(iv(d))
        mon.check(got == e, lambda: f'sample_points({d}) is {got}, expected {e}', bool(e))
        mon.event('series sampled')
        if d[2]:
            mon.event('open start')
        if d[3]:
            mon.event('open end')


def stepped(rng, mon, tier):
    """A series sampled by a step, or at a minimum step, gives interpolated values there."""
    n = rng.choice([2, 3, 5, 9, 20])
    uniform = rng.random() < 0.6
    h = rng.choice([1, 0.5, 0.25, 3, 60])
    x0 = rng.randint(-20, 20) * h
    xs = [x0 + i * h for i in range(n)]
    if not uniform:
        xs = sorted(rng.sample([x0 + i * h / 2 for i in range(4 * n)], n))
    pts = [(x, random_y(rng, 0.1)) for x in xs]
    ip = rng.choice([0, 0, -1, 1])
    c = Points(list(pts), uniform=uniform, interpolation=ip)
    ref = R.RPoints(pts, ip)
    for _ in range(rng.choice([1, 4])):
        a, b = sorted(xs[0] + rng.randint(-2, 4 * n + 2) * (xs[-1] - xs[0]) / (4 * (n - 1)) for _ in range(2))
        d = None if rng.random() < 0.2 else R.norm((a, b, rng.random() < 0.4, rng.random() < 0.4))
        full = (xs[0], xs[-1], False, False) if d is None else R.intersect([(xs[0], xs[-1], False, False), d])
        if rng.random() < 0.7 or not uniform:
            step = h * rng.choice([0.5, 0.25, 2, 3, 1.5, 0.75])
            mean = (xs[-1] - xs[0]) / (n - 1)
            even = all(q - p == mean for p, q in zip(xs, xs[1:]))
            if not even and rng.random() < 0.4 and mean * 16 / h == int(mean * 16 / h):
                step = mean
                mon.event('by the mean step of an uneven series')
            if step == mean and even:
                continue  # its own points are taken then
            kw = {'step': step}
            e = []
            if full is not None:
                k = 1 if full[2] else 0
                while full[0] + k * step <= full[1]:
                    e.append(full[0] + k * step)
                    k += 1
            mon.event('series by step')
        elif rng.random() < 0.2:
            # Not less than its points are apart
            kw = {'min_step': h * rng.choice([0.25, 0.5, 1])}
            e = [x for x in xs if R.inside(full, x)]
            mon.event('series at least as far apart as it is')
        else:
            ms = h * rng.choice([1.5, 2, 2.5, 3, 7])
            kw = {'min_step': ms}
            e = []
            if full is not None:
                x = full[0]
                if not full[2]:
                    e.append(x)
                while True:
                    x = next((q for q in xs if q >= x + ms), None)
                    if x is None or x > full[1]:
                        break
                    e.append(x)
                if not full[3] and (not e or e[-1] != full[1]):
                    e.append(full[1])
            mon.event('series at least apart')
        if full is not None and full[3]:
            e = [x for x in e if x < full[1]]
        got = c.sample_points(None if d is None else iv(d), **kw)
        mon.same(got, [(x, ref.y(x)) for x in e], lambda: f'Points({pts}, {ip}).sample_points({d}, {kw})')


def wide(rng, mon, tier):
    """Curves whose points are much closer together in some places than in others."""
    xs = {0.0}
    x = 0.0
    for _ in range(rng.choice([2, 4, 8, 15])):
        x += rng.choice([0.25, 1, 1, 2, 60, 3600, 86400, 1e6, 4e6, 1e7])
        xs.add(x)
    off = rng.choice([0, 0, -5e5, 1e9])
    xs = sorted(v + off for v in xs)
    pts = [(v, rng.randint(-80, 80) / 4) for v in xs]
    p = Points(list(pts), uniform=False)
    c = {'sum': lambda: p + 0, 'map': lambda: p.map(lambda y: y), 'offset': lambda: p.offset(0),
         'max': lambda: Curve.max(p, p), 'integral': lambda: p.integral(uniform=False),
         'scan': lambda: p.ema(1, uniform=False)}[kind := rng.choice(['sum', 'map', 'offset', 'max', 'integral', 'scan'])]()
    for _ in range(3):
        a, b = sorted([rng.choice(xs), rng.choice(xs)])
        d = rng.choice([None, (a, b, False, False), (a, b, rng.random() < 0.5, rng.random() < 0.5)])
        d = d and R.norm(d)
        e = [q for q in pts if d is None or R.inside(d, q[0])]
        got = c.sample_points(None if d is None else iv(d)) if d else c.sample_points()
        mon.check([q[0] for q in got] == [q[0] for q in e], lambda: f'{kind} of {pts}: sample_points({d}) is {got}', bool(e))
        if kind != 'integral':
            mon.same(got, e, lambda: f'{kind} of {pts}: sample_points({d})')
        mon.event('sampled widely')
        # There and back by steps
        x = xs[0]
        seen = [x]
        while (x := c.x_next(x)) is not None:
            seen.append(x)
        mon.check(seen == xs, lambda: f'{kind}: stepped through {seen} instead of {xs}')


def functions(rng, mon, tier):
    """Sampling functions at a minimum step and at a step."""
    h = rng.choice([1, 0.5, 0.25, 3, 60])
    kind = rng.choice(['generic', 'line', 'sin', 'const', 'expr'])
    own = None
    if kind == 'generic':
        own = rng.choice([None, h, h / 2])
        c = Generic(FNS['par']) if own is None else Generic(FNS['par'], min_step=own)
        f = FNS['par']
    elif kind == 'line':
        c = Line(const=1, slope=0.5)
        f = lambda x: 1 + 0.5 * x
    elif kind == 'sin':
        c = Sin(amplitude=2, period=8)
        f = lambda x: 2 * math.sin(x * math.pi / 4)
    elif kind == 'const':
        c = Constant(4)
        f = lambda x: 4
    else:
        c = Line(const=1, slope=0.5) * 3 - 2
        f = lambda x: 3 * (1 + 0.5 * x) - 2
    a = rng.randint(-10, 10) * h
    width = rng.choice([0, 1, 2, 5, 12]) * h
    b = a + width
    d = R.norm((a, b, rng.random() < 0.4, rng.random() < 0.4))
    if d is None:
        raise Skip()
    mon.log(kind, d, h)
    for bad in (Interval.infinite(), Interval.gte(a), None):
        try:
            c.sample_points(domain=bad)
            ok = False
        except Exception:
            ok = True
        mon.check(ok, 'an infinite domain was sampled')
        mon.event('infinite rejected')
    step = rng.choice([h, h / 2, 1.5 * h, 2 * h])
    got = c.sample_points(domain=iv(d), step=step)
    e = []
    k = 1 if d[2] else 0
    while d[0] + k * step < d[1] or (d[0] + k * step == d[1] and not d[3]):
        e.append((d[0] + k * step, f(d[0] + k * step)))
        k += 1
    mon.same(got, e, lambda: f'{kind} sample_points({d}, step={step})')
    mon.event('by step')
    ms = rng.choice([h, h / 2, 1.5 * h, 2 * h, 1.25 * h, 0.75 * h])
    if kind in ('line', 'const', 'expr'):
        # They have no points but the ends
        e = [(x, f(x)) for x in ([d[0]] if d[0] == d[1] else d[:2]) if R.inside(d, x)]
    else:
        s = max(ms, own or 0)
        e = []
        k = 0
        while d[0] + k * s < d[1] - 1e-9:
            if k or not d[2]:
                e.append(d[0] + k * s)
            k += 1
        if not d[3]:
            e.append(d[1])
        e = [(x, f(x)) for x in e]
        # The last step is shorter than the minimum and replaced by the end
    got = c.sample_points(domain=iv(d), min_step=ms)
    if kind in ('line', 'const', 'expr'):
        mon.same(got, e, lambda: f'{kind} sample_points({d}, min_step={ms})')
    else:
        # A point closer than half a step to the end may be left out
        near = [p for p in e if 0 < d[1] - p[0] < 0.75 * s]
        slim = [p for p in e if p not in near]
        mon.check(close(got, e) or close(got, slim), lambda: f'{kind} sample_points({d}, min_step={ms}) is {got}, '
                  f'expected {e}')


def by_steps(rng, mon, tier):
    as_series(rng, mon, ['points', 'map', 'map with x', 'quotient', 'largest', 'first', 'slope', 'logarithm'],
              'derived from a function', ('samples',))


families = [
    Family('by_steps', by_steps, 400, 8000),
    Family('graphs', graphs, 4000, 80000),
    Family('long', long, 300, 10000),
    Family('series', series, 6000, 100000),
    Family('stepped', stepped, 2000, 30000),
    Family('wide', wide, 1500, 20000),
    Family('functions', functions, 3000, 30000),
]
