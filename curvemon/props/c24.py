"""C24: searching for a minimum or maximum goes downhill or uphill to the nearest one."""
import math
from ..core import Family, Skip
from ..graph import make_points, ydata, iv
from ..load import Points, Curve, Generic, Constant
from .. import ref as R

RULE = ('Searches start at and between the points of series whose adjacent values differ, and on curves derived from '
        'them; the results are compared with the end of a walk over the list of points. Non-trivial: at least one '
        'extremum was reached.')
REQUIRED_EVENTS = ['minimum', 'maximum', 'already there', 'over the edge', 'from an opposite extremum', 'outside',
                   'between points', 'derived', 'edited', 'by steps', 'single point', 'on a function', 'limited',
                   'with a step', 'with a min_step']


def walk(pts, x, sign):
    """Where a walk downhill (of sign * y) ends: ('found', x), ('edge', None), or ('outside', None)."""
    xs = [p[0] for p in pts]
    ys = [sign * p[1] for p in pts]
    if not pts or x < xs[0] or x > xs[-1]:
        return 'outside', None
    if len(pts) == 1:
        return 'single', x
    n = len(xs)
    top = False
    if x in xs:
        i = xs.index(x)
        left = ys[i - 1] - ys[i] if i > 0 else None
        right = ys[i + 1] - ys[i] if i + 1 < n else None
        if left is not None and right is not None:
            if left > 0 and right > 0:
                return 'there', x
            if left < 0 and right < 0:
                # A top: down the steeper side, to the left if both are as steep
                a, b = abs(left / (xs[i] - xs[i - 1])), abs(right / (xs[i + 1] - xs[i]))
                step = 1 if b > a else -1
                top = True
            else:
                step = 1 if right < 0 else -1
        elif left is None:
            step = 1 if right < 0 else None
        else:
            step = -1 if left < 0 else None
        if step is None:
            return 'edge', None
        i += step
    else:
        j = next(k for k in range(n) if xs[k] > x)
        step = 1 if ys[j] < ys[j - 1] else -1
        i = j if step == 1 else j - 1
    while 0 <= i + step < n and ys[i + step] < ys[i]:
        i += step
    if not 0 <= i + step < n:
        return 'edge', None
    return ('top' if top else 'found'), xs[i]


def differing(rng, n, h, x0, uniform, small):
    pts = make_points(rng, n, h, x0, uniform, 'small' if small else 'any')
    out = []
    for x, y in pts:
        while out and out[-1][1] == y:
            y = ydata(rng, 'small' if small else 'any')
        out.append((x, y))
    if rng.random() < 0.2:
        # Flat on one side of a point and steep on the other
        k = rng.choice([1e-4, 1e-6, 1e-8])
        flat = [(x, y * k if rng.random() < 0.6 else y) for x, y in out]
        if all(p[1] != q[1] for p, q in zip(flat, flat[1:])):
            out = flat
    if rng.random() < 0.3 and n > 3:
        # A long way
        ys = sorted({p[1] for p in out})
        k = rng.randrange(len(ys))
        ys = ys[k:][::-1] + ys[:k] if rng.random() < 0.5 else ys
        out = [(p[0], y) for p, y in zip(out, ys)]
        out = [p for i, p in enumerate(out) if i == 0 or out[i - 1][1] != p[1]]
    return out


def searches(rng, mon, tier):
    h = rng.choice([2 ** -9, 0.25, 0.5, 1, 1, 2, 60])
    uniform = rng.random() < 0.6
    x0 = rng.choice([0, 0, -5 * h, 7 * h, 1.6e9 if h >= 1 else 3])
    pts = differing(rng, rng.choice([1, 2, 3, 5, 9, 20]), h, x0, uniform, rng.random() < 0.3)
    src = Points(list(pts), uniform=uniform)
    kind = rng.choice(['points', 'points', 'double', 'negative', 'offset', 'sum'])
    c, f, dx = {
        'points': lambda: (src, lambda y: y, 0),
        'double': lambda: (src * 2 + 1, lambda y: 2 * y + 1, 0),
        'negative': lambda: (-src, lambda y: -y, 0),
        'offset': lambda: (src.offset(3 * h), lambda y: y, 3 * h),
        'sum': lambda: (src + Constant(5), lambda y: y + 5, 0),
    }[kind]()
    if kind != 'points':
        mon.event('derived')
    mon.log(kind, pts)
    for _ in range(rng.choice([1, 2, 3])):
        model = [(x + dx, f(y)) for x, y in pts]
        for _ in range(5):
            i = rng.randrange(len(model))
            x = model[i][0]
            b = rng.random()
            if b < 0.35 and i + 1 < len(model):
                x += (model[i + 1][0] - x) * rng.choice([0.5, 0.25])
                mon.event('between points')
            elif b < 0.45:
                x = rng.choice([model[0][0] - h, model[-1][0] + h])
            for g, sign, name in ((c.minimise, 1, 'minimum'), (c.maximise, -1, 'maximum')):
                how, e = walk(model, x, sign)
                mon.event({'found': name, 'there': 'already there', 'edge': 'over the edge', 'outside': 'outside',
                           'top': 'from an opposite extremum', 'single': 'single point'}[how])
                mon.same(g(x), e, lambda: f'{kind} {model}: {name} from {x}', 0, 1e-9)
        # Edit so that adjacent values still differ
        if rng.random() < 0.5:
            p = (pts[-1][0] + h, pts[-1][1] + rng.choice([-1, 1, 2.5, -7]))
            src.append(p)
            pts = pts + [p]
        else:
            j = rng.randrange(len(pts))
            y = ydata(rng)
            if any(0 <= k < len(pts) and pts[k][1] == y for k in (j - 1, j + 1)):
                break
            pts = pts[:j] + [(pts[j][0], y)] + pts[j + 1:]
            src.replace(pts[j])
        mon.event('edited')


def stepped(rng, mon, tier):
    """With a step of its own the walk goes by that step, here from point to point, and stops at the iterations."""
    n = rng.choice([4, 8, 16])
    pts = differing(rng, n, 1, rng.choice([0, -5, 100]), True, False)
    src = Points(list(pts))
    k = rng.choice([1, 2, 3, 50])
    i = rng.randrange(len(pts))
    mon.log(pts, k, i)
    for g, sign in ((src.minimise, 1), (src.maximise, -1)):
        how, e = walk(pts, pts[i][0], sign)
        mon.same(g(pts[i][0], step=1), e, lambda: f'{pts} from {pts[i][0]} by 1', 0, 1e-9)
        mon.event('by steps')
        if how in ('found', 'top') and abs(e - pts[i][0]) > k:
            # Too few iterations: on the way
            a = g(pts[i][0], max_iterations=k)
            mon.same(a, pts[i][0] + math.copysign(k, e - pts[i][0]), lambda: f'{pts} from {pts[i][0]}, {k} iterations', 0, 1e-9)
            mon.event('limited')
    # A parabola, found up to the step
    m = rng.randint(-16, 16) / 4
    s = rng.choice([0.25, 0.5])
    f = Generic(lambda x: (x - m) ** 2, domain=iv((m - 8, m + 8, False, False)))
    x = m + rng.randint(-24, 24) * s / 2
    if abs(x - m) < 8:
        a = f.minimise(x, step=s)
        mon.check(a is not None and abs(a - m) <= s, lambda: f'minimum of a parabola at {m} from {x} by {s}: {a}')
        mon.event('on a function')
        a = (-f).maximise(x, step=s)
        mon.check(a is not None and abs(a - m) <= s, lambda: f'maximum of a parabola at {m} from {x} by {s}: {a}')


def descend(r, xs, x, sign, move):
    """Moves downhill (of sign * y) until the slopes rise on both sides. None: not within a few moves."""
    last = None
    for _ in range(60):
        y = r.y(x) if x is not None else None
        if y is None:
            return 'edge', last
        left = max((v for v in xs if v <= x - R.MS), default=None)
        right = min((v for v in xs if v >= x + R.MS), default=None)
        a = None if left is None else sign * (y - r.y(left)) / (x - left)
        b = None if right is None else sign * (r.y(right) - y) / (right - x)
        if a is None and b is None:
            return 'single', x
        if a is None or b is None:
            if (b if a is None else -a) > 0:
                return 'edge', None
            up = a is None
        elif a < 0 < b:
            return 'found', x
        elif b < 0 < a:
            up = abs(a) < abs(b)
        else:
            up = b < 0
        if 0 in (a, b):
            return None
        last = x
        x = move(x, up)
        if x is None:
            return None
    return None


def apart(rng, mon, tier):
    """Moves of at least a minimum step, or by a step which leaves the points."""
    h = rng.choice([0.25, 0.5, 1, 2, 60])
    uniform = rng.random() < 0.6
    pts = differing(rng, rng.choice([4, 6, 9, 20]), h, rng.choice([0, -5 * h, 7 * h]), uniform, rng.random() < 0.3)
    r = R.RPoints(pts)
    xs = [p[0] for p in pts]
    c = Points(list(pts), uniform=uniform)
    if rng.random() < 0.4:
        c = rng.choice([lambda: c.map(lambda y: y), lambda: c + 0])()
    mon.log(pts)
    for _ in range(6):
        i = rng.randrange(len(xs))
        x = xs[i]
        if rng.random() < 0.3 and i + 1 < len(xs):
            x += (xs[i + 1] - x) * rng.choice([0.5, 0.25])
        s = h * rng.choice([1.5, 2, 3])
        kw = {rng.choice(['min_step', 'step']): s}
        if 'step' in kw:
            move = lambda x, up: x + s if up else x - s
        else:
            move = lambda x, up: next((v for v in xs if v >= x + s), None) if up else \
                next((v for v in xs[::-1] if v <= x - s), None)
        for g, sign, name in ((c.minimise, 1, 'minimum'), (c.maximise, -1, 'maximum')):
            e = descend(r, xs, x, sign, move)
            if e is None:
                continue
            mon.same(g(x, **kw), e[1], lambda: f'{pts}: {name} from {x} with {kw}', 0, 1e-9)
            mon.event(f'with a {list(kw)[0]}', e[0] == 'found')


families = [
    Family('apart', apart, 2000, 30000),
    Family('searches', searches, 8000, 120000),
    Family('stepped', stepped, 1500, 20000),
]
