"""C25: trend lines."""
import math
import numpy as np
from ..core import Family
from ..engine import iv_tuple
from ..load import Points, Curve, Trend
from .. import ref as R

RULE = ('Trend lines of random series are judged by what was asked of them (points, distance, width, tolerance), '
        'compared with those found after other orders of lookups, edits and of the mirrored and scaled series, and '
        'searched for where the tops or bottoms lie on a line. Non-trivial: at least one trend line.')
REQUIRED_EVENTS = ['upper', 'lower', 'mirrored', 'scaled', 'appended', 'edited', 'asked before', 'crossed', 'touched',
                   'recognised', 'predicted', 'relative tolerance', 'absolute tolerance', 'minimum distance', 'extended',
                   'second level', 'none', 'missing values', 'within itself', 'around zero', 'both tolerances', 'recognised at zero',
                   'former course']
PRED = ['prediction_phase', 'prediction_origin', 'prediction_intersection', 'prediction_extrema', 'prediction_retest_point',
        'prediction_retest_x_max', 'prediction_trend_line', 'prediction_confirmation_line', 'prediction_y', 'prediction_y_min',
        'prediction_y_max', 'prediction_x_min', 'prediction_x_max', 'prediction_line', 'prediction_failed',
        'prediction_succeeded', 'prediction_success_point', 'prediction_valid']


def record(l, fx=lambda x: x, fy=lambda y: y, mirrored=False):
    """Everything a trend line tells, with coordinates mapped."""
    p = lambda q: None if q is None else (fx(q[0]), fy(q[1]))
    ps = lambda qs: None if qs is None else [p(q) for q in qs]
    i = l.search_interval
    out = {'line': ps(list(l)), 'upper': l.is_upper_trend, 'lower': l.is_lower_trend, 'width': fx(l.width), 'points': ps(l.trend_points),
           'interval': (fx(i.start), fx(i.end), i.start_open, i.end_open), 'intersections': ps(l.intersections),
           'tangent points': ps(l.tangent_points), 'extremas': ps(l.extremas)}
    for k in PRED:
        v = getattr(l, k)
        if k.endswith('_line'):
            v = ps(v)
        elif isinstance(v, (tuple, list)):
            v = p(v)
        elif k in ('prediction_y', 'prediction_y_min', 'prediction_y_max'):
            v = None if v is None else fy(v)
        elif k in ('prediction_x_min', 'prediction_x_max', 'prediction_retest_x_max'):
            v = None if v is None else fx(v)
        elif k == 'prediction_valid' and mirrored:
            continue
        out[k] = v
    if mirrored:
        out['upper'], out['lower'] = out['lower'], out['upper']
        if out['prediction_y'] is not None:
            out['prediction_y_min'], out['prediction_y_max'] = out['prediction_y_max'], out['prediction_y_min']
        out.pop('prediction_valid', None)
    return out


def order(rs):
    return sorted(rs, key=lambda r: (r['line'][0][0], r['line'][1][0], r['line'][0][1], r['line'][1][1], r['interval']))


def same(mon, a, b, what):
    a, b = order(a), order(b)
    mon.check(len(a) == len(b), lambda: f'{what}: {len(a)} trend lines {[r["line"] for r in a]}, expected {len(b)} {[r["line"] for r in b]}',
              bool(b))
    for r, s in zip(a, b):
        for k in s:
            if isinstance(s[k], (bool, int)) or isinstance(r[k], (bool, int)):
                mon.check(r[k] == s[k], lambda: f'{what}: {k} of {s["line"]} is {r[k]}, expected {s[k]}')
            else:
                mon.same(r[k], s[k], lambda: f'{what}: {k} of {s["line"]}', 1e-9, 1e-9)


def all_lines(t, x):
    return t.upper(x), t.lower(x)


def series(rng, n, kind):
    if kind == 'grid':
        return [(float(i), 100.0 + rng.randint(0, 6)) for i in range(n)]
    if kind == 'walk':
        out, y = [], 100.0
        for i in range(n):
            out.append((float(i), y))
            y = max(60.0, y + rng.randint(-4, 4))
        return out
    if kind == 'zigzag':
        m = rng.randint(-4, 4) / 8
        a = rng.choice([4, 8])
        return [(float(i), 100 + m * i + (a if i % 4 == 0 else -a if i % 4 == 2 else 0) + rng.choice([0, 0, 0, 0.5])) for i in range(n)]
    out, x = [], 0.0
    for i in range(n):
        out.append((x, 100.0 + rng.randint(0, 6)))
        x += rng.choice([0.5, 1, 1, 2])
    return out


def judge(mon, t, x, pts, kw, tol):
    lines = []
    for upper, ls in ((True, t.upper(x)), (False, t.lower(x))):
        for l in ls:
            lines.append(l)
            mon.event('upper' if upper else 'lower')
            tp = l.trend_points
            what = f'trend line {list(l)} through {tp} of {pts}'
            mon.check(l.is_upper_trend is upper and l.is_lower_trend is not upper, lambda: f'{what} is on the wrong side')
            mon.check(l.is_valid and l.is_ready and not l.is_empty and len(l) == 2, lambda: f'{what} is not valid')
            mon.check(all(p in pts for p in tp), lambda: f'{what}: not points of the curve')
            mon.check(all(a[0] < b[0] for a, b in zip(tp, tp[1:])), lambda: f'{what}: not in ascending order')
            mon.check(len(tp) >= kw['min_points'], lambda: f'{what}: less than {kw["min_points"]} points')
            mon.check(tp[-1][0] - tp[0][0] >= kw['min_width'], lambda: f'{what}: less than {kw["min_width"]} wide')
            mon.same(l.width, tp[-1][0] - tp[0][0], lambda: f'{what}: width')
            d = kw['min_point_distance']
            c = 1 + sum(b[0] - a[0] >= d for a, b in zip(tp, tp[1:]))
            mon.check(c >= kw['min_points'], lambda: f'{what}: less than {kw["min_points"]} points at a distance of {d}')
            if d > 1:
                mon.event('minimum distance')
            i = l.search_interval
            mon.check(x is None or i.contains(x), lambda: f'{what} reaches over {i}, not to {x}')
            k = kw.get('search_length_rel', 10)
            if k > 0:
                e = (tp[0][0], tp[0][0] + k * (tp[-1][0] - tp[0][0]), False, True)
            else:
                e = (tp[0][0], tp[-1][0], False, False)
                mon.event('within itself')
            mon.same(iv_tuple(i), e, lambda: f'{what}: reach')
            m = l.copy()
            mon.check(list(map(tuple, m)) == list(map(tuple, l)) and m.trend_points == l.trend_points and m.tangent_points == l.tangent_points
                      and m.intersections == l.intersections and iv_tuple(m.search_interval) == iv_tuple(i)
                      and m.is_upper_trend is upper and m.is_valid and m.width == l.width, lambda: f'{what}: copy {list(m)}')
            m.trend_points.clear()
            m.tangent_points.clear()
            mon.check(l.trend_points == tp and len(tp) > 0, lambda: f'{what}: copy shares its points')
            # The line is the least squares line through its points
            xm = sum(p[0] for p in tp) / len(tp)
            ym = sum(p[1] for p in tp) / len(tp)
            m = sum((p[0] - xm) * (p[1] - ym) for p in tp) / sum((p[0] - xm) ** 2 for p in tp)
            e = [(q, ym + m * (q - xm)) for q in (tp[0][0], tp[-1][0])]
            mon.same([tuple(q) for q in l], e, lambda: f'{what}: line', 1e-9, 1e-7)
            mon.check(i.start == l[0][0], lambda: f'{what} reaches over {i}')
            for q in (tp[0][0], tp[-1][0], x if x is not None else tp[0][0]):
                y = ym + m * (q - xm)
                mon.same(l.y(q), y, lambda: f'{what}: y({q})', 1e-9, 1e-7)
                if abs(m) > 1e-3:
                    mon.same(l.x(y), q, lambda: f'{what}: x({y})', 1e-7, 1e-7)
            # Crossings lie on the line, in ascending order, and touching points are points within tolerance
            mon.check(all(a[0] <= b[0] for a, b in zip(l.intersections, l.intersections[1:])), lambda: f'{what}: intersections {l.intersections}')
            for q in l.intersections:
                mon.event('crossed')
                if q[0] != pts[0][0]:
                    before = [p for p in pts if p[0] <= q[0]]
                    after = [p for p in pts if p[0] >= q[0]]
                    mon.check(bool(before) and bool(after), lambda: f'{what}: intersection at {q}')
            mon.check(all(p in pts for p in l.tangent_points), lambda: f'{what}: tangent points {l.tangent_points}')
            for p in l.tangent_points:
                mon.event('touched')
                y = ym + m * (p[0] - xm)
                mon.check(abs(p[1] - y) <= tol(y) * 1.0001 + 1e-6, lambda: f'{what}: tangent point {p}')
            mon.check(all(p in pts for p in l.extremas), lambda: f'{what}: extremas {l.extremas}')
            if l.prediction_phase:
                mon.event('predicted')
            # Extended to a multiple of its length
            k = 2.5
            ext = l.line_extended(width_mult=k)
            mon.same([tuple(q) for q in ext], [e[0], (tp[0][0] + k * l.width, e[0][1] + m * k * l.width)], lambda: f'{what}: extended', 1e-9, 1e-6)
            ext = l.line_extended(width_mult=k, width_max=2)
            mon.same(ext[1][0], tp[0][0] + min(2, k * l.width), lambda: f'{what}: extended')
            mon.event('extended')
    return lines


def trends(rng, mon, tier):
    kind = rng.choice(['grid', 'walk', 'walk', 'zigzag', 'uneven'])
    n = rng.choice([4, 8, 14, 20, 28])
    pts = series(rng, n, kind)
    rel = rng.random() < 0.35
    if not rel and rng.random() < 0.4:
        # A tolerance relative to the value has no meaning around zero
        lift = rng.choice([-100, -102, -103, -130])
        pts = [(p[0], p[1] + lift) for p in pts]
        mon.event('around zero')
    else:
        lift = 0
    kw = dict(min_width=rng.choice([2, 4, 8]), min_points=rng.choice([3, 3, 4]), min_point_distance=rng.choice([0, 0, 1, 1.5]))
    if rel:
        kw['y_tol_rel'] = rng.choice([0.002, 0.01])
        tol = lambda y: kw['y_tol_rel'] * abs(y)
        mon.event('relative tolerance')
    else:
        kw['y_tol_abs'] = rng.choice([0.25, 0.5, 1])
        tol = lambda y: kw['y_tol_abs']
        if not lift and rng.random() < 0.25:
            # The narrower one of both
            kw['y_tol_rel'] = rng.choice([0.002, 0.004, 0.01])
            tol = lambda y: min(kw['y_tol_abs'], kw['y_tol_rel'] * abs(y))
            mon.event('both tolerances')
            rel = True
        mon.event('absolute tolerance')
    kw['search_length_rel'] = rng.choice([10.0, 10.0, 3.0, 1.5, 0])
    if not kw['search_length_rel']:
        kw['min_points'] = 2  # nothing is searched behind the first two
    uniform = kind != 'uneven'
    mon.log(pts, kw)
    new = lambda p, **k: Trend(Points(list(p), uniform=uniform), **dict(kw, **k))
    t = new(pts)
    x = rng.choice([pts[-1][0], pts[-1][0], rng.choice(pts)[0], pts[-1][0] + 2])
    lines = judge(mon, t, x, pts, kw, tol)
    mon.event('none', not lines)
    if len(t.nested_upper_lines) > 2:
        mon.event('second level')
    every = judge(mon, t, None, pts, kw, tol)
    mon.check(sorted(map(id, t.lines)) == sorted(map(id, every)), lambda: f'lines are {[list(q) for q in t.lines]}, '
              f'expected {[list(q) for q in every]}')
    mon.check(set(map(id, lines)) <= set(map(id, every)), lambda: 'a line at an x is not among all lines')
    u, l = [[record(i) for i in ls] for ls in all_lines(t, x)]
    mon.check(len(t.y(x) or []) == len(u) + len(l), lambda: f'{len(t.y(x))} trend lines at {x}, {len(u)} upper and {len(l)} lower')
    d = iv_tuple(t.domain)
    mon.check(d[:2] == (pts[0][0], math.inf), lambda: f'domain is {d}')
    # The same after other lookups
    t = new(pts)
    for _ in range(rng.choice([1, 3, 8])):
        q = rng.choice(pts)[0] + rng.choice([0, 0.25])
        rng.choice([t.upper, t.lower, t.y, t.x_next])(q)
    mon.event('asked before')
    v = all_lines(t, x)
    same(mon, [record(i) for i in v[0]], u, 'upper after other lookups')
    same(mon, [record(i) for i in v[1]], l, 'lower after other lookups')
    b = rng.random()
    if b < 0.1:
        # Missing values in between
        more = sorted(pts + [(rng.choice(pts)[0] + 0.125, None) for _ in range(2)], key=lambda p: p[0])
        more = [p for i, p in enumerate(more) if i == 0 or p[0] != more[i - 1][0]]
        t = Trend(Points(more, uniform=False), **kw)
        what = 'with missing values'
        mon.event('missing values')
    elif b < 0.4:
        # Point by point
        k = rng.randrange(1, n)
        src = Points(list(pts[:k]), uniform=uniform)
        t = Trend(src, **kw)
        for p in pts[k:]:
            if rng.random() < 0.5:
                t.upper(rng.choice([p[0], pts[0][0]]))
            src.append(p)
        what = 'after appending'
        mon.event('appended')
    elif b < 0.65:
        # From other points
        other = list(pts)
        j = rng.randrange(n)
        other[j] = (other[j][0], 100.0 + lift + rng.randint(-3, 9))
        src = Points(other, uniform=uniform)
        t = Trend(src, **kw)
        all_lines(t, rng.choice(pts)[0])
        if rng.random() < 0.5:
            src.replace(pts[j])
        else:
            src.set(list(pts))
        what = 'after an edit'
        mon.event('edited')
    elif b < 0.85 and not rel:
        t = new([(p[0], -p[1]) for p in pts])
        v = all_lines(t, x)
        same(mon, [record(i, fy=lambda y: -y, mirrored=True) for i in v[1]],
             [{k: w for k, w in r.items() if k != 'prediction_valid'} for r in u], 'upper of the mirrored series')
        same(mon, [record(i, fy=lambda y: -y, mirrored=True) for i in v[0]],
             [{k: w for k, w in r.items() if k != 'prediction_valid'} for r in l], 'lower of the mirrored series')
        mon.event('mirrored')
        return
    else:
        a, c = rng.choice([1, 2, 0.5, 4]), rng.choice([2, 0.5, 1])
        src = Points([(p[0] * a, p[1] * c) for p in pts], uniform=uniform)
        k = dict(kw, min_width=kw['min_width'] * a, min_point_distance=kw['min_point_distance'] * a)
        if 'y_tol_abs' in kw:
            k['y_tol_abs'] = kw['y_tol_abs'] * c
        t = Trend(src, **k)
        v = all_lines(t, x * a)
        m = dict(fx=lambda q: q / a, fy=lambda q: q / c)
        same(mon, [record(i, **m) for i in v[0]], u, f'upper of the series scaled by {a}, {c}')
        same(mon, [record(i, **m) for i in v[1]], l, f'lower of the series scaled by {a}, {c}')
        mon.event('scaled')
        return
    v = all_lines(t, x)
    same(mon, [record(i) for i in v[0]], u, 'upper ' + what)
    same(mon, [record(i) for i in v[1]], l, 'lower ' + what)


def recognise(rng, mon, tier):
    """Tops on a line, with the curve clearly below in between, are an upper trend; bottoms a lower one."""
    k = rng.choice([3, 3, 4, 5])
    h = rng.choice([0.5, 1, 1, 60])
    x0 = rng.choice([0, 0, -7 * h, 16 * h])
    m = rng.randint(-4, 4) / 4
    lead = 0
    at = [0]
    for _ in range(k - 1):
        at.append(at[-1] + rng.choice([2, 3, 4, 5]))
    up = rng.random() < 0.5
    s = 1 if up else -1
    rel = rng.random() < 0.3
    tol = 1 if rel else rng.choice([0.25, 0.5])
    base = 100
    if not rel and rng.random() < 0.5:
        # One of the tops is zero
        base = -m * rng.choice(at)
        mon.event('recognised at zero')
    pts = [(x0 + h * i, base + m * i - (0 if i in at else s * tol * rng.choice([8, 12, 16, 32]))) for i in range(at[-1] + 1)]
    kw = dict(min_width=h * at[-1], min_points=k, min_point_distance=rng.choice([0, h]))
    kw.update({} if rel and rng.random() < 0.5 else {'y_tol_rel': 0.01} if rel else {'y_tol_abs': tol})
    if rng.random() < 0.4:
        # A former course, at least the least width before the first top
        lift = rng.choice([-40, -20, 20, 40]) * tol
        back = at[-1] + rng.choice([0, 0, 1, 5])
        p, q = (x0 - h * back, base - m * back + lift), pts[0]
        if not any(abs(q[1] + (q[1] - p[1]) / (q[0] - p[0]) * (r[0] - q[0]) - r[1]) < 3 * tol for r in pts[1:]):
            # There is no trend of it and the first top
            pts.insert(0, p)
            mon.event('former course')
    more = rng.randint(0, 4)
    pts += [(x0 + h * i, base + m * i - s * tol * rng.choice([8, 12, 16])) for i in range(at[-1] + 1, at[-1] + 1 + more)]
    lead = len(pts) - more - at[-1] - 1
    src = Points(pts[:rng.choice([len(pts), len(pts), lead + at[-1] // 2 + 1])], uniform=not lead)
    t = Trend(src, **kw)
    if len(list(src.sample_points())) < len(pts):
        t.upper(pts[0][0])
        src.append_list(pts[len(src.sample_points()):])
    mon.log(up, pts, kw)
    q = pts[lead + at[-1]][0]
    tops = [pts[lead + i] for i in at]
    for x in (q, None):
        ls = (t.upper if up else t.lower)(x)
        ok = [l for l in ls if all(p in l.trend_points for p in tops) and all(abs(l.y(p[0]) - p[1]) < 1e-6 for p in tops)]
        mon.check(bool(ok), lambda: f'no trend line through {tops} at {x}, found {[list(l) for l in ls]}')
        mon.check(len(ok) == 1, lambda: f'{len(ok)} trend lines through {tops} at {x}')
    mon.event('recognised')
    # Asking for one point more, or a greater width, there is none
    for k2 in (dict(kw, min_points=k + 1), dict(kw, min_width=h * (2 * len(pts) + 30))):
        t = Trend(Points(list(pts), uniform=not lead), **k2)
        ls = [l for l in (t.upper if up else t.lower)(q) if all(p in l.trend_points for p in tops)]
        mon.check(not ls or len(ls[0].trend_points) > k, lambda: f'trend line of {tops} although {k2} is required')


families = [
    Family('trends', trends, 1600, 24000),
    Family('recognise', recognise, 800, 10000),
]
