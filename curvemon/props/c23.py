"""C23: slopes, ends, ranges and regressions."""
import math
from ..core import Family, Skip
from ..engine import build, log_world, graph_family, ANY, iv_tuple, some_interval, domain_matches, values_match, steps_match, samples_match
from ..graph import make_points, ydata, iv
from ..load import Points, Line, Curve, Generic, Interval
from .. import ref as R
from ..single import as_series

RULE = ('Slopes of random curves are compared with the differences to their adjacent points, ranges with the smallest '
        'and largest sample, and regressions with the normal equations. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['derived from a function', 'node diff', 'forward', 'backward', 'at an end', 'between points', 'range', 'range over a part',
                   'regression', 'exact line', 'too few points', 'missing value', 'ends', 'neighbours', 'edited',
                   'differential', 'best line', 'slope of a function', 'limited step',
                   'step at an end of the domain', 'with a step', 'with a min_step']

W = dict(ANY, diff=3)


def check(w, mon, i, k=8, when=''):
    domain_matches(w, mon, i)
    values_match(w, mon, i, k, when)
    steps_match(w, mon, i, 2)
    samples_match(w, mon, i)


def series(rng, none=True):
    h = rng.choice([2 ** -9, 0.25, 0.5, 1, 1, 2, 60])
    uniform = rng.random() < 0.6
    x0 = rng.choice([0, 0, -5 * h, 7 * h, 1.6e9 if h >= 1 else 3])
    n = rng.choice([1, 2, 3, 6, 12])
    pts = make_points(rng, n, h, x0, uniform, none_p=rng.choice([0, 0, 0.15]) if none else 0)
    interp = rng.choice([0, 0, -1, 1])
    return h, uniform, pts, interp, Points(list(pts), uniform=uniform, interpolation=interp)


def edit(rng, mon, src, pts, h):
    if rng.random() < 0.4:
        p = (pts[-1][0] + h, ydata(rng))
        src.append(p)
        pts = pts + [p]
    else:
        j = rng.randrange(len(pts))
        pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
        src.replace(pts[j])
    mon.event('edited')
    return pts


def slopes(rng, mon, tier):
    h, uniform, pts, interp, src = series(rng)
    diffs = {f: src.differential(forward=f) if f or rng.random() < 0.5 else src.differential() for f in (False, True)}
    mon.log(pts, interp)
    for _ in range(rng.choice([1, 2, 3])):
        r = R.RPoints(pts, interp)
        xs = [p[0] for p in pts]
        for _ in range(8):
            i = rng.randrange(len(pts))
            x = xs[i]
            if rng.random() < 0.4 and i + 1 < len(pts):
                x += (xs[i + 1] - x) * rng.choice([0.5, 0.25])
                mon.event('between points')
            for fwd in (False, True):
                near = [v for v in xs if v > x] if fwd else [v for v in xs if v < x]
                e = None
                if near:
                    v = near[0] if fwd else near[-1]
                    a, b = r.y(v), r.y(x)
                    if a is None or b is None:
                        mon.event('missing value')
                    else:
                        e = (a - b) / (v - x)
                        mon.event('forward' if fwd else 'backward')
                else:
                    mon.event('at an end')
                mon.same(src.d_y(x, forward=fwd), e, lambda: f'slope at {x}, forward {fwd}', 1e-9, 1e-9)
                mon.same(diffs[fwd].y(x), e, lambda: f'differential at {x}, forward {fwd}', 1e-9, 1e-9)
                mon.event('differential')
            if rng.random() < 0.5:
                mon.same(src.d_y(x), src.d_y(x, forward=False), 'slope without direction')
            # Neighbours
            for f, near in ((src.next_point, [v for v in xs if v > x][:1]), (src.previous_point, [v for v in xs if v < x][-1:])):
                e = (near[0], r.y(near[0])) if near else None
                mon.same(f(x), e, lambda: f'{f.__name__}({x})')
                mon.event('neighbours')
        mon.same(src.first_point(), pts[0], 'first point')
        mon.same(src.last_point(), pts[-1], 'last point')
        mon.same(src.y_start(), pts[0][1], 'first value')
        mon.same(src.y_end(), pts[-1][1], 'last value')
        mon.event('ends')
        pts = edit(rng, mon, src, pts, h)


def formulas(rng, mon, tier):
    """Slopes of functions: over a step, which a limit may shorten."""
    k = rng.choice([0.25, 0.5, 1, 2, 10])
    a, b, d = (rng.randint(-8, 8) / 2 for _ in range(3))
    f = rng.choice([lambda x: a + b * x + d * x * x, lambda x: b * x - a, lambda x: math.sin(x + a)])
    lo = rng.choice([None, None, -4 * k, 0])
    own = k if rng.random() < 0.5 else None
    c = Generic(f, domain=None if lo is None else Interval(lo, lo + 9 * k), **({} if own is None else {'min_step': own}))
    mon.log(a, b, d, k, lo, own)
    for _ in range(8):
        x = (0 if lo is None else lo) + rng.randint(0, 36) * k / 4
        fwd = rng.random() < 0.5
        kw = dict(forward=fwd)
        step = own
        if step is None or rng.random() < 0.5:
            kw['min_step'] = rng.choice([0.5, 1, 2]) * k
            step = max(step or 0, kw['min_step'])
        x1 = x + step if fwd else x - step
        if rng.random() < 0.5:
            limit = x + (1 if fwd else -1) * rng.choice([0.125, 0.25, 0.75, 3]) * k
            x1 = min(x1, limit) if fwd else max(x1, limit)
            kw['limit'] = limit
            if x1 == limit:
                mon.event('limited step')
        if lo is not None and not (lo <= x1 <= lo + 9 * k):
            x1 = x
            mon.event('step at an end of the domain')
        e = None if x1 == x else (f(x1) - f(x)) / (x1 - x)
        mon.same(c.d_y(x, **kw), e, lambda: f'slope at {x} with {kw}', 1e-9, 1e-9)
        mon.event('slope of a function')


def ranges(rng, mon, tier):
    h, uniform, pts, interp, src = series(rng, none=False)
    kind = rng.choice(['points', 'double', 'max'])
    lim = ydata(rng)

    def expected_samples(pts, d):
        r = R.RPoints(pts, interp)
        if kind == 'points':
            return [p for p in pts if d is None or R.inside(d, p[0])]
        f = {'double': lambda x: -2 * r.y(x), 'max': lambda x: max(r.y(x), lim)}[kind]
        dd = (pts[0][0], pts[-1][0], False, False)
        d = dd if d is None else R.intersect([dd, d])
        if d is None:
            return []
        xs = {p[0] for p in pts if R.inside(d, p[0])}
        xs |= {x for x in d[:2] if R.inside(d, x)}
        return [(x, f(x)) for x in sorted(xs)]
    c = {'points': lambda: src, 'double': lambda: src * -2, 'max': lambda: Curve.max([src, lim])}[kind]()
    mon.log(kind, pts, interp, lim)
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(4):
            d = None
            if rng.random() < 0.7:
                a, b = (rng.choice(pts)[0] + rng.choice([0, 0, 0.5, -1, 2]) * h for _ in range(2))
                a, b = min(a, b), max(a, b)
                d = (a, b, rng.random() < 0.4, rng.random() < 0.4) if a < b else (a, b, False, False)
                mon.event('range over a part')
            e = expected_samples(pts, d)
            got = iv_tuple(c.get_range(domain=None if d is None else iv(d)))
            ee = (min(p[1] for p in e), max(p[1] for p in e)) if e else None
            mon.check((got and got[:2]) == ee or got and ee and all(abs(p - q) < 1e-9 for p, q in zip(got, ee)),
                      lambda: f'{kind}: range over {d} is {got}, expected {ee}', bool(e))
            mon.event('range')
            # The regression over the same samples
            line = c.regression(domain=None if d is None else iv(d))
            if len(e) < 2:
                mon.check(line is None, lambda: f'{kind}: a line through {e}')
                mon.event('too few points')
                continue
            n = len(e)
            mx, my = math.fsum(p[0] for p in e) / n, math.fsum(p[1] for p in e) / n
            m = math.fsum((p[0] - mx) * (p[1] - my) for p in e) / math.fsum((p[0] - mx) ** 2 for p in e)
            far = max(1, abs(mx) / 1e3) * 1e-9 * max(1, abs(m))
            mon.same(line.slope, m, lambda: f'{kind}: slope of the regression through {e}', 1e-9, 1e-9)
            for x in (mx, e[0][0], e[-1][0] + h):
                mon.same(line.y(x), my + m * (x - mx), lambda: f'{kind}: regression through {e} at {x}', 1e-9, far + 1e-9)
            mon.event('regression')
            # No other line fits better
            s0 = math.fsum((line.y(x) - y) ** 2 for x, y in e)
            for da, dm in ((0.01, 0), (-0.01, 0), (0, 0.01 / h), (0, -0.01 / h)):
                s1 = math.fsum((line.y(x) + da + dm * (x - mx) - y) ** 2 for x, y in e)
                mon.check(s1 > s0 - 1e-6, lambda: f'{kind}: a line which fits {e} better')
            mon.event('best line')
        pts = edit(rng, mon, src, pts, h)


def sampled(rng, mon, tier):
    """Ranges and regressions over samples by a step, or which are at least that far apart."""
    w = build(rng, n_derived=rng.choice([1, 2, 3]))
    log_world(w, mon)
    for n in w.nodes:
        i = n[0]
        t = w.traits[i]
        if n[1] in ('points', 'quotes') or w.ref[i].inf_step or not t.steps or not t.total or t.wild or t.wide or t.ext \
                or w.far(i):
            continue
        for _ in range(3):
            d = None if rng.random() < 0.3 and t.finite else some_interval(w, i)
            full = w.ref[i].dom() if d is None else R.intersect([w.ref[i].dom(), d])
            s = w.h * rng.choice([0.5, 1, 1.5, 2, 3])
            if full is not None and (not all(math.isfinite(v) for v in full[:2]) or (full[1] - full[0]) / s > 300):
                continue
            kw = rng.choice([{'step': s}, {'min_step': s}])
            if 'step' in kw:
                e, k = [], 1 if full and full[2] else 0
                while full and full[0] + k * s <= full[1]:
                    e.append((full[0] + k * s, w.ref[i].y(full[0] + k * s)))
                    k += 1
                if full and full[3] and e and e[-1][0] == full[1]:
                    e.pop()
            else:
                e = w.ref[i].samples(d, s)
            if any(p[1] is None or not math.isfinite(p[1]) for p in e):
                continue
            arg = {} if d is None else {'domain': iv(d)}
            got = iv_tuple(w.live[i].get_range(**arg, **kw))
            ee = (min(p[1] for p in e), max(p[1] for p in e)) if e else None
            mon.check((got and got[:2]) == ee or got and ee and all(w.compare(i, p, q) for p, q in zip(got[:2], ee)),
                      lambda: f'{i}={n[1]}: range over {d} with {kw} is {got}, expected {ee}', bool(e))
            line = w.live[i].regression(**arg, **kw)
            if len(e) < 2:
                mon.check(line is None, lambda: f'{i}={n[1]}: a line through {e}')
                continue
            m, v = fitted(e)
            big = max(abs(p[1]) for p in e) + 1
            mon.same(line.y(e[0][0]), v(e[0][0]), lambda: f'{i}={n[1]}: regression through {e} with {kw}', 1e-6, 1e-6 * big)
            mon.same(line.y(e[-1][0]), v(e[-1][0]), lambda: f'{i}={n[1]}: regression through {e} with {kw}', 1e-6, 1e-6 * big)
            mon.event(f'with a {list(kw)[0]}')


def fitted(e):
    """Slope and function of the line which fits best."""
    n = len(e)
    mx, my = math.fsum(p[0] for p in e) / n, math.fsum(p[1] for p in e) / n
    m = math.fsum((p[0] - mx) * (p[1] - my) for p in e) / math.fsum((p[0] - mx) ** 2 for p in e)
    return m, lambda x: my + m * (x - mx)


def fits(rng, mon, tier):
    """Points on a line give the line, missing values give none."""
    h = rng.choice([0.25, 1, 60, 3600])
    n = rng.choice([2, 3, 5, 20])
    x0 = rng.choice([0, -5 * h, 1.6e9])
    m, v = rng.randint(-12, 12) / 4 / h, ydata(rng)
    pts = [(x0 + i * h, v + m * i * h) for i in range(n)]
    src = Points(pts)
    c = rng.choice([lambda: src, lambda: src.map(lambda y: y), lambda: src + 0])()
    line = c.regression()
    mon.check(isinstance(line, Line), f'{line} is no line')
    for x, y in pts:
        mon.same(line.y(x), y, lambda: f'line through {pts} at {x}', 1e-9, 1e-5 if x0 > 1e6 else 1e-9)
    mon.same(line.slope, m, lambda: f'slope of the line through {pts}', 1e-9, 1e-9)
    mon.event('exact line')
    k = rng.randrange(n)
    src.replace((pts[k][0], None))
    if c is src:
        mon.check(c.regression() is None, 'a line through a missing value')
        mon.event('missing value')
    rest = [p for i, p in enumerate(pts) if i > k]
    if c is src and rest:
        line = c.regression(domain=iv((rest[0][0], rest[-1][0], False, False)))
        if len(rest) < 2:
            mon.check(line is None, 'a line through one point')
        else:
            mon.same(line.slope, m, 'line after the missing value', 1e-9, 1e-9)


def functions(rng, mon, tier):
    as_series(rng, mon, ['points', 'map', 'map with x', 'quotient', 'largest', 'first', 'slope', 'logarithm'],
              'derived from a function', ('d_y', 'range', 'next_point'))


families = [
    Family('functions', functions, 400, 8000),
    Family('graphs', graph_family(['diff'], W, check=check), 4000, 60000),
    Family('slopes', slopes, 3000, 50000),
    Family('formulas', formulas, 1500, 20000),
    Family('ranges', ranges, 2500, 40000),
    Family('sampled', sampled, 2000, 30000),
    Family('fits', fits, 1500, 20000),
]
