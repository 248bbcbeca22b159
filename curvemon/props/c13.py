"""C13: extensions continue a curve beyond its ends."""
import math
from ..core import Family, Skip
from ..engine import graph_family, ANY, iv_tuple, domain_matches, values_match, value_matches
from ..graph import make_points, ydata, iv
from ..load import Points, Curve, Constant, Line, Piecewise
from .. import ref as R
from ..single import as_series

RULE = ('Curves are extended by a constant, a tangent, a regression and a sine at one or both ends, and looked up '
        'inside and beyond. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['derived from a function', 'node ext', 'constant', 'tangent', 'sin', 'regression', 'at the start', 'at the end', 'not extended',
                   'edited', 'stepped beyond', 'sampled beyond', 'empty curve', 'continuous',
                   'open end', 'missing at the end', 'compulsory', 'could be extended', 'regression by steps']

W = dict(ANY, ext=5)


def check(w, mon, i, k=8, when=''):
    domain_matches(w, mon, i)
    values_match(w, mon, i, k, when)
    # Far beyond the ends
    d = w.ref[i].dom()
    base = [v for v in (d or ())[:2] if math.isfinite(v)] or [w.x0]
    for x in base:
        value_matches(w, mon, i, x + w.h * w.rng.choice([-20, -1, -0.5, 0, 0.5, 3, 11]), when)


def line_through(xs, ys, x):
    """Least squares: value at x and slope."""
    n = len(xs)
    mx, my = sum(xs) / n, sum(ys) / n
    m = sum((a - mx) * (b - my) for a, b in zip(xs, ys)) / sum((a - mx) ** 2 for a in xs)
    return my + m * (x - mx), m


def beyond(rng, mon, tier):
    """Extensions of a series against their definition."""
    h = rng.choice([2 ** -9, 0.25, 0.5, 1, 1, 2, 60])
    n = rng.choice([0, 1, 2, 3, 5, 9])
    uniform = rng.random() < 0.6
    x0 = rng.choice([0, -5 * h, 7 * h])
    none_p = rng.choice([0, 0, 0, 0.3])
    pts = make_points(rng, n, h, x0, uniform, none_p=none_p)
    src = Points(list(pts), uniform=uniform)
    kind = rng.choice(['constant', 'tangent', 'sin', 'regression', 'regression'])

    def value():
        return None if rng.random() < none_p else ydata(rng)
    start, end = rng.choice([(False, True), (True, False), (True, True), (True, True), (False, False)])
    kw = {}
    degree = period = None
    if kind == 'sin':
        p = rng.choice([4, 6.5, 10]) * h
        kw['period'] = p
    if kind == 'regression':
        if rng.random() < 0.5:
            degree = rng.choice([1, 2, 3, 6])
            kw['regression_degree'] = degree
        else:
            period = rng.choice([1, 2, 4]) * h
            kw['regression_period'] = period
    if rng.random() < 0.3 and not start and end:
        c = src.extension('tangent' if kind == 'regression' else kind, **kw)
    else:
        c = src.extension('tangent' if kind == 'regression' else kind, start=start, end=end, **kw)
    mon.event(kind)
    mon.log(kind, start, end, kw, pts)
    for _ in range(rng.choice([1, 2, 3])):
        n = len(pts)
        if not n:
            mon.event('empty curve')
            mon.check(c.domain.is_empty, 'an empty curve was extended')
            mon.same(c.y(x0), None, 'value of an empty curve')
        else:
            r = R.RPoints(pts)
            ends = {}
            for k, on in ((0, start), (1, end)):
                if not on:
                    mon.event('not extended')
                    continue
                mon.event('at the end' if k else 'at the start')
                x, y = pts[-1] if k else pts[0]
                if kind == 'constant':
                    ends[k] = lambda v, y=y: y
                    continue
                if kind == 'regression':
                    if degree is not None:
                        q = pts[-degree - 1:] if k else pts[:degree + 1]
                    else:
                        q = [p for p in pts if (p[0] >= x - period if k else p[0] <= x + period)]
                    if any(p[1] is None for p in q):
                        mon.event('missing at the end')
                        continue
                    if len(q) < 2:
                        continue
                    y, m = line_through([p[0] for p in q], [p[1] for p in q], x)
                else:
                    if n < 2:
                        continue
                    o = pts[-2] if k else pts[1]
                    if y is None or o[1] is None:
                        mon.event('missing at the end')
                        continue
                    m = (y - o[1]) / (x - o[0])
                if kind == 'sin':
                    f = 2 * math.pi / p
                    ends[k] = lambda v, x=x, y=y, m=m, f=f: y * math.cos(f * (v - x)) + m / f * math.sin(f * (v - x))
                else:
                    ends[k] = lambda v, x=x, y=y, m=m: y + m * (v - x)
            a, b = pts[0][0], pts[-1][0]
            d = (-R.INF if 0 in ends else a, R.INF if 1 in ends else b, 0 in ends, 1 in ends)
            mon.check(iv_tuple(c.domain) == d, lambda: f'{kind}: domain is {iv_tuple(c.domain)}, expected {d}')
            for _ in range(10):
                x = rng.choice([a, b, a - h, b + h, a - h / 4, b + h / 4, a - 17 * h, b + 17 * h, (a + b) / 2,
                                rng.choice(pts)[0]])
                if a <= x <= b:
                    e = r.y(x)
                elif x < a:
                    e = ends[0](x) if 0 in ends else None
                else:
                    e = ends[1](x) if 1 in ends else None
                mon.same(c.y(x), e, lambda: f'{kind} {start} {end} {kw}: y({x})', 1e-9, 1e-7)
            # The extension starts where the curve ends, but for regressions
            if kind != 'regression':
                eps = h * 2 ** -20
                for k, (x, y), s in ((0, pts[0], -1), (1, pts[-1], 1)):
                    if k in ends and y is not None:
                        mon.check(abs(c.y(x + s * eps) - y) < 1e-3, lambda: f'{kind} jumps at {x}')
                        mon.event('continuous')
            # Steps go on with the width of the last one
            if n > 1:
                for k, x, o, step, name in ((1, b, pts[-2][0], c.x_next, 'x_next'), (0, a, pts[1][0], c.x_previous, 'x_previous')):
                    on = end if k else start
                    if on and k not in ends:
                        # There are no values beyond
                        continue
                    w = abs(x - o)
                    v = x
                    for _ in range(3):
                        e = (v + w if k else v - w) if on else None
                        mon.same(step(v), e, lambda: f'{kind}: {name}({v})', 0, 1e-9)
                        if e is None:
                            break
                        v = e
                    mon.event('stepped beyond')
                # Steps inside are those of the curve
                for i in range(n - 1):
                    mon.same(c.x_next(pts[i][0]), pts[i + 1][0], lambda: f'{kind}: x_next({pts[i][0]})', 0, 1e-9)
                    mon.same(c.x_previous(pts[i + 1][0]), pts[i][0], lambda: f'{kind}: x_previous({pts[i + 1][0]})', 0, 1e-9)
                for _ in range(3):
                    x, ms = rng.choice(pts)[0] + rng.choice([0, 0.25, -0.25]) * h, rng.choice([0.5, 1.5, 2, 4]) * h
                    if r.nxt(x, ms) is not None:
                        mon.same(c.x_next(x, min_step=ms), r.nxt(x, ms), lambda: f'{kind}: x_next({x}, {ms})', 0, 1e-9)
                    if r.prv(x, ms) is not None:
                        mon.same(c.x_previous(x, min_step=ms), r.prv(x, ms), lambda: f'{kind}: x_previous({x}, {ms})', 0, 1e-9)
                if 1 in ends:
                    w = b - pts[-2][0]
                    k = rng.choice([1, 2, 5])
                    e = [p for p in pts] + [(b + j * w, ends[1](b + j * w)) for j in range(1, k + 1)]
                    mon.same(c.sample_points(domain=iv((a, b + k * w, False, False))), e, lambda: f'{kind}: samples', 1e-9, 1e-7)
                    mon.event('sampled beyond')
        # Edit and again
        if not pts or rng.random() < 0.5:
            p1 = ((pts[-1][0] + h) if pts else x0, value())
            src.append(p1)
            pts = pts + [p1]
        elif rng.random() < 0.7:
            j = rng.choice([0, len(pts) - 1, rng.randrange(len(pts))])
            pts = pts[:j] + [(pts[j][0], value())] + pts[j + 1:]
            src.replace(pts[j])
        else:
            pts = make_points(rng, rng.choice([0, 1, 2, 4]), h, x0 + h, uniform, none_p=none_p)
            src.set(list(pts))
        mon.event('edited')


def open_ends(rng, mon, tier):
    """Extensions of curves whose ends are not part of them, which are taken from next to the end."""
    h = rng.choice([0.5, 1, 2])
    n = rng.choice([3, 5, 9])
    pts = make_points(rng, n, h, rng.choice([0, -5 * h]), True)
    src = Points(list(pts))
    i = rng.randrange(n - 2)
    a = pts[i][0] + rng.choice([0, 0.25]) * h
    j = rng.randrange(i + 2, n)
    b = pts[j][0] - rng.choice([0, 0.25]) * h
    d = iv((a, b, True, True))
    c = rng.choice([lambda: src.subset(d), lambda: Piecewise([src], [d])])()
    kind = rng.choice(['constant', 'tangent', 'sin'])
    start, end = rng.choice([(True, False), (False, True), (True, True)])
    e = c.extension(kind, start=start, end=end, **({'period': 8 * h} if kind == 'sin' else {}))
    mon.log(kind, start, end, pts, a, b)
    f = 2 * math.pi / (8 * h)
    for _ in range(rng.choice([1, 2])):
        r = R.RPoints(pts)
        mon.check(iv_tuple(e.domain) == (-R.INF if start else a, R.INF if end else b, True, True),
                  lambda: f'{kind}: domain is {e.domain}')
        for on, x0, s in ((start, a, 1), (end, b, -1)):
            y0 = r.y(x0)
            m = (r.y(x0 + s * h / 8) - y0) / (s * h / 8)
            for w in (0, h / 4, 3 * h):
                x = x0 - s * w
                want = None
                if on:
                    want = {'constant': lambda: y0, 'tangent': lambda: y0 + m * (x - x0),
                            'sin': lambda: y0 * math.cos(f * (x - x0)) + m / f * math.sin(f * (x - x0))}[kind]()
                tol = 1e-4 * (1 + abs(m) + abs(y0))
                mon.same(e.y(x), want, lambda: f'{kind} of an open curve at {x}', 0, tol)
        mon.event('open end')
        k = rng.randrange(n)
        pts = pts[:k] + [(pts[k][0], ydata(rng))] + pts[k + 1:]
        src.replace(pts[k])


def compulsory(rng, mon, tier):
    """Extensions which have to exist raise as long as they do not, whatever was asked before."""
    h = rng.choice([0.5, 1, 60])
    pts = make_points(rng, rng.choice([0, 1, 2, 3, 5]), h, 0, True, none_p=rng.choice([0, 0.3]))
    src = Points(list(pts))
    kind = rng.choice(['constant', 'tangent'])
    start, end = rng.choice([(True, False), (False, True), (True, True)])
    e = src.extension(kind, start=start, end=end, raise_on_empty=True)
    mon.log(kind, start, end, pts)
    for _ in range(rng.choice([2, 3, 4])):
        ok = bool(pts)
        if ok and kind == 'tangent':
            for on, q in ((start, pts[:2]), (end, pts[-2:])):
                ok = ok and not (on and (len(q) < 2 or q[0][1] is None or q[1][1] is None))
        x = (pts[-1][0] if pts else 0) + 2 * h if end else (pts[0][0] if pts else 0) - 2 * h
        asks = [lambda: e.domain, lambda: e.y(x), lambda: e.y(x), lambda: e.domain]
        rng.shuffle(asks)
        for ask in asks:
            try:
                ask()
                raised = False
            except Exception:
                raised = True
            mon.check(raised != ok, lambda: f'{kind} {start} {end} of {pts}: raised {raised}, expected {not ok}')
            mon.event('compulsory' if raised else 'could be extended')
        if pts and rng.random() < 0.7:
            k = rng.choice([0, len(pts) - 1, rng.randrange(len(pts))])
            pts = pts[:k] + [(pts[k][0], rng.choice([None, ydata(rng), ydata(rng)]))] + pts[k + 1:]
            src.replace(pts[k])
        elif pts and rng.random() < 0.4:
            pts = []
            src.set([])
        else:
            pts = pts + [(pts[-1][0] + h if pts else 0, ydata(rng))]
            src.append(pts[-1])


def apart(rng, mon, tier):
    """Regressions and steps which leave out points."""
    h = rng.choice([0.5, 1, 2, 60])
    pts = make_points(rng, rng.choice([2, 4, 7, 12]), h, rng.choice([0, -5 * h]), True)
    src = Points(list(pts))
    m = rng.choice([1, 2, 3])
    deg, per = rng.choice([(1, None), (2, None), (4, None), (None, 1), (None, 3), (None, 6)])
    kw = {'regression_degree': deg} if deg else {'regression_period': per * h}
    c = rng.choice([lambda: src, lambda: src.map(lambda y: y), lambda: src.offset(0)])()
    e = c.extension('tangent', start=True, end=True, min_step=m * h, **kw)
    mon.log(pts, m, kw)
    for _ in range(rng.choice([1, 2, 3])):
        n = len(pts)
        for k, q in ((0, pts), (1, pts[::-1])):
            if deg:
                w = q[:deg * m + 1:m]
                want = w if len(w) > 1 else None
            else:
                # From the earliest point of the period on, and both ends in any case
                part = sorted(q[:per + 1])
                w = part[::m]
                if w[-1] != part[-1]:
                    w.append(part[-1])
                want = w if len(w) > 1 else None
            x0 = q[0][0]
            for dist in (1, 2.5, 11):
                x = x0 + dist * h * (1 if k else -1)
                v = None
                if want:
                    y, slope = line_through([p[0] for p in want], [p[1] for p in want], x0)
                    v = y + slope * (x - x0)
                mon.same(e.y(x), v, lambda: f'{kw} by {m}: y({x}) of {want}', 1e-9, 1e-7)
            mon.event('regression by steps', bool(want) and m > 1)
            # Steps of at least that width
            f = e.x_next if k else e.x_previous
            far = [p[0] for p in q if abs(p[0] - x0) >= m * h]
            for at in (x0, x0 + (h if k else -h)):
                v = None if not far else at + (x0 - far[0])
                mon.same(f(at, min_step=m * h), v, lambda: f'{kw}: step of {m} from {at}', 0, 1e-9)
        j = rng.choice([0, n - 1, rng.randrange(n)])
        pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
        src.replace(pts[j])


def infinite(rng, mon, tier):
    """Curves without ends are not extended."""
    v = ydata(rng)
    for c in (Constant(v), Line(const=v, slope=2)):
        for kind in ('constant', 'tangent'):
            e = c.extension(kind, start=True, end=True)
            for x in (-1e6, 0, 3.5, 1e6):
                mon.same(e.y(x), c.y(x), f'{kind} of an infinite curve at {x}')
            mon.check(iv_tuple(e.domain) == R.ALL, 'domain of an infinite curve')
    try:
        Constant(v).extension('other')
        ok = False
    except Exception:
        ok = True
    mon.check(ok, 'an unknown extension was accepted')


def functions(rng, mon, tier):
    as_series(rng, mon, ['constant extension', 'tangent extension', 'regression extension', 'sine extension', 'extended average'],
              'derived from a function')


families = [
    Family('functions', functions, 400, 8000),
    Family('graphs', graph_family(['ext'], W, check=check), 5000, 80000),
    Family('beyond', beyond, 6000, 80000),
    Family('open', open_ends, 1500, 20000),
    Family('compulsory', compulsory, 1000, 10000),
    Family('apart', apart, 1500, 20000),
    Family('infinite', infinite, 50, 500),
]
