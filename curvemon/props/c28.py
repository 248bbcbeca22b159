"""C28: aggregates and accumulators give the user's function what the curves have."""
import math
from ..core import Family, Skip
from ..engine import iv_tuple
from ..graph import iv, make_points, ydata
from ..single import very_long
from ..load import Curve, Points, Aggregate, Accumulator, Generic
from .. import ref as R
from .c06 import operand, places

RULE = ('Aggregates and accumulators with functions which record what they are given are asked at random places, before '
        'and after edits; what they were given and what they give is compared with the lists of points. Non-trivial: at '
        'least one call of the function with a value.')
REQUIRED_EVENTS = ['thousands of points', 'many curves', 'values listed', 'function called', 'default', 'default in a gap', 'union', 'missing value', 'same curve twice',
                   'edited', 'accumulated', 'between points', 'next to a None', 'point with None', 'asked backwards',
                   'appended', 'changed', 'derived', 'sampled', 'after a gap', 'None from the function']


def listed(x, vals):
    return vals


def weighted(x, ys):
    """Tells the places of the values and of the missing ones apart, and x."""
    s = x / 8
    for k, y in enumerate(ys):
        s += 1000 * (k + 1) if y is None else (k + 1) * y
    return s


def present(x, ys):
    return len([y for y in ys if y is not None]) or None


FUNCTIONS = {'none': None, 'weighted': weighted, 'present': present, 'listed': listed}


def aggregates(rng, mon, tier):
    h = rng.choice([1, 0.5, 60])
    n = rng.choice([1, 2, 2, 3, 3, 4, rng.choice([4, 7, 12])])
    mon.event('many curves', n > 6)
    ops, refs = zip(*[operand(rng, h) for _ in range(n)])
    ops, refs = list(ops), list(refs)
    if rng.random() < 0.25:
        k = rng.randrange(len(ops))
        if isinstance(ops[k], Curve):
            # The same curve once more
            j = rng.randrange(len(ops) + 1)
            ops.insert(j, ops[k])
            refs.insert(j, refs[k])
            mon.event('same curve twice')
    union = rng.random() < 0.4
    default = rng.choice([None, None, 0, -1.5, 7])
    name = rng.choice(list(FUNCTIONS))
    tfm = FUNCTIONS[name]
    calls = []

    def recorded(x, ys):
        calls.append((x, list(ys)))
        return tfm(x, ys)
    kw = {'default': default} if default is not None else {}
    if union or rng.random() < 0.5:
        kw['union'] = union
    if tfm is not None:
        kw['tfm'] = recorded
    if isinstance(ops[0], Curve) and rng.random() < 0.3:
        c = Aggregate(*ops, **kw)
    else:
        c = Aggregate(list(ops), **kw)
    mon.log(f'Aggregate of {n}: {[str(r.dom()) for r in refs]}, union={union}, default={default}, {name}')
    for turn in range(rng.choice([1, 2, 3])):
        ds = [r.dom() for r in refs]
        d = R.hull(ds) if union else R.intersect(ds)
        mon.check(iv_tuple(c.domain) == R.norm(d), lambda: f'domain {iv_tuple(c.domain)} of {ds}, expected {d}', d is not None)
        mon.event('union', union and d is not None)
        for x in places(rng, refs, h):
            del calls[:]
            ys = [r.y(x) for r in refs]
            a = c.y(x)
            if not R.inside(d, x):
                mon.check(a == default and type(a) is type(default), lambda: f'{a!r} at {x} outside of {d}, default is {default!r}', False)
                mon.event('default', default is not None)
                continue
            mon.event('missing value', None in ys)
            mon.event('default in a gap', default is not None and all(y is None for y in ys))
            if tfm is None:
                mon.check(isinstance(a, (list, tuple)) and len(a) == len(ys), lambda: f'{a!r} at {x}, expected {ys}', False)
                got = a
                mon.event('values listed')
            else:
                mon.check(len(calls) > 0 and all(k == x and len(v) == len(ys) for k, v in calls),
                          lambda: f'function called with {calls} at {x}, expected {ys}', False)
                got = calls[0][1]
                mon.event('function called')
                e = tfm(x, got)
                mon.check(a == e and type(a) is type(e), lambda: f'{a!r} at {x}, but the function gives {e!r}')
            for g, e in zip(got, ys):
                mon.same(g, e, lambda: f'{got} at {x!r}, expected {ys}', 1e-9, 1e-12)
        # Edit one of the series
        series = [k for k, o in enumerate(ops) if isinstance(o, Points)]
        if not series:
            return
        k = rng.choice(series)
        pts = list(ops[k].sample_points())
        interp = refs[k].interp if hasattr(refs[k], 'interp') else None
        if interp is None or not pts:
            return
        if rng.random() < 0.5:
            j = rng.randrange(len(pts))
            pts[j] = (pts[j][0], rng.choice([None, ydata(rng), ydata(rng)]))
            ops[k].replace(pts[j])
        else:
            step = pts[-1][0] - pts[-2][0] if len(pts) > 1 else h
            p = (pts[-1][0] + step, ydata(rng))
            if len(pts) > 1 and pts[0][0] + len(pts) * ((pts[-1][0] - pts[0][0]) / (len(pts) - 1)) != p[0]:
                return
            ops[k].append(p)
            pts.append(p)
        for j, o in enumerate(ops):
            if o is ops[k]:
                refs[j] = R.RPoints(pts, interp)
        mon.event('edited')


def running(x, y, a):
    return (a or 0) * 0.5 + (0 if y is None else y)


def counted(x, y, a):
    return (a or 0) + 1


def greatest(x, y, a):
    vs = [v for v in (y, a) if v is not None]
    return max(vs) if vs else None


def only_up(x, y, a):
    """Has gaps: nothing after a value below."""
    if y is None or (a is not None and y < a):
        return None
    return y


def placed(x, y, a):
    return x / 16 + (0 if a is None else a / 2) + (100 if y is None else y)


ACCUMULATED = [running, counted, greatest, only_up, placed]


def accumulators(rng, mon, tier):
    h = rng.choice([1, 0.5, 60, 0.1])
    n = rng.choice([1, 2, 3, 5, 9, 20] + [120] * (rng.random() < 0.1))
    uniform = rng.random() < 0.6
    x0 = rng.choice([0, -5 * h, 7 * h])
    pts = make_points(rng, n, h, x0, uniform, 'any', rng.choice([0, 0, 0.2]))
    src = Points(list(pts), uniform=uniform)
    kind = rng.choice(['points', 'points', 'map'] + ['offset'] * (h != 0.1))     # exact places only
    c, f, dx = {
        'points': lambda: (src, lambda y: y, 0),
        'map': lambda: (src.map(lambda y: None if y is None else 2 * y), lambda y: None if y is None else 2 * y, 0),
        'offset': lambda: (src.offset(3 * h), lambda y: y, 3 * h),
    }[kind]()
    mon.event('derived', kind != 'points')
    tfm = rng.choice(ACCUMULATED)
    interp = rng.choice([None, 0, -1, 1])
    calls = []

    def recorded(x, y, a):
        r = tfm(x, y, a)
        calls.append((x, y, a, r))
        return r
    acc = Accumulator(c, recorded, interpolation=interp, uniform=uniform)
    mon.log(f'Accumulator({kind}, {tfm.__name__}, interpolation={interp}, uniform={uniform}) of {pts[:10]}')
    for turn in range(rng.choice([1, 2, 3, 4])):
        data = [(x + dx, f(y)) for x, y in pts]
        results = []
        for x, y in data:
            results.append(tfm(x, y, results[-1] if results else None))
        mon.event('None from the function', None in results)
        r = R.RPoints([(x, y) for (x, _), y in zip(data, results)], interp or 0)
        mon.check(iv_tuple(acc.domain) == iv_tuple(c.domain), lambda: f'domain {acc.domain}', False)
        del calls[:]
        last = None
        for _ in range(rng.choice([3, 6, 10])):
            b = rng.random()
            i = rng.randrange(len(data))
            if b < 0.08 and len(data) > 1:
                a, z = sorted(rng.sample(range(len(data)), 2))
                got = acc.sample_points(domain=iv((data[a][0], data[z][0], False, False)))
                e = [(data[k][0], results[k]) for k in range(a, z + 1)]
                mon.check(len(got) == len(e), lambda: f'sampled {got}, expected {e}', False)
                for g, p in zip(got, e):
                    mon.same(g[0], p[0], lambda: f'sampled {got}, expected {e}', 0, 1e-9)
                    mon.same(g[1], p[1], lambda: f'sampled {got}, expected {e}', 1e-9, 1e-9)
                mon.event('sampled')
                continue
            x = data[i][0]
            if b < 0.35 and i + 1 < len(data):
                x += (data[i + 1][0] - x) * rng.choice([0.5, 0.25])
                mon.event('between points')
                mon.event('next to a None', None in results[i:i + 2])
            elif b < 0.45:
                x = rng.choice([data[0][0] - h, data[-1][0] + h])
            mon.event('asked backwards', last is not None and x < last)
            last = x
            mon.same(acc.y(x), r.y(x), lambda: f'y({x!r}) of {list(zip(data, results))[:12]}', 1e-9, 1e-9)
            mon.event('accumulated')
        # What the function was given
        xs = [p[0] for p in data]
        for k, (x, y, a, _) in enumerate(calls):
            i = min(range(len(xs)), key=lambda j: abs(xs[j] - x))
            mon.check(abs(xs[i] - x) <= 1e-9 * max(1, abs(x)), lambda: f'called at {x}, which is no point', False)
            mon.same(y, data[i][1], lambda: f'called at {x} with the value {y}', 1e-12, 0)
            mon.same(a, results[i - 1] if i else None, lambda: f'called at {x} with {a} for the result before', 1e-9, 1e-9)
            mon.check(k == 0 or calls[k - 1][0] < x, lambda: f'called at {calls[k - 1][0]}, then at {x}', False)
            mon.event('point with None', y is None)
            mon.event('after a gap', i > 0 and results[i - 1] is None)
        # Edit
        b = rng.random()
        if b < 0.45:
            k = rng.choice([1, 1, 2, 3])
            new = []
            for j in range(k):
                x = (x0 + (len(pts) + j) * h) if uniform else (pts + new)[-1][0] + h * rng.choice([0.5, 1, 2])
                if uniform and h == 0.1:
                    x = (pts + new)[-1][0] + h
                new.append((x, rng.choice([ydata(rng), ydata(rng), None])))
            try:
                src.append_list(list(new))
            except Exception:
                raise Skip()
            pts = pts + new
            mon.event('appended')
        elif b < 0.85:
            j = rng.randrange(len(pts))
            pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
            src.replace(pts[j])
            mon.event('changed')
        else:
            pts = make_points(rng, len(pts), h, x0, uniform, 'any', 0.1)
            src.set(list(pts))
            mon.event('changed')


families = [
    Family('very long', very_long('accumulator'), 30, 600),
    Family('aggregates', aggregates, 4000, 80000),
    Family('accumulators', accumulators, 4000, 80000),
]
