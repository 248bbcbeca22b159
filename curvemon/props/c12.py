"""C12: offset curves are the same curves elsewhere."""
import datetime
from ..core import Family, Skip
from ..engine import graph_family, ANY, iv_tuple, SOURCES
from ..graph import make_points, ydata, iv
from ..load import Points, Curve
from .. import ref as R

RULE = ('Curves are moved by numbers and by durations and compared with the values at the places where they came '
        'from. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['node offset', 'node shift', 'moved by a duration', 'between the steps of a duration', 'moved by months',
                   'moved back', 'edited under an offset', 'offset of an offset', 'moved steps at least apart', 'steps of a duration apart', 'refused', 'edited between steps', 'between the points of a duration']

W = dict(ANY, offset=4, shift=3)


def month(k):
    return datetime.datetime(1970 + k // 12, k % 12 + 1, 1, tzinfo=datetime.timezone.utc).timestamp()


GRIDS = {
    '15m': lambda k: k * 900.0,
    '1h': lambda k: k * 3600.0,
    '4h': lambda k: k * 14400.0,
    '1d': lambda k: k * 86400.0,
    '1mo': month,
    '1y': lambda k: month(12 * k),
}


def durations(rng, mon, tier):
    """Moving by calendar units: the values at the steps of the duration move."""
    name = rng.choice(list(GRIDS))
    g = GRIDS[name]
    k0 = {'15m': 1700000, '1h': 440000, '4h': 110000, '1d': 18000, '1mo': 600, '1y': 48}[name] + rng.randint(0, 30)
    n = rng.choice([1, 2, 4, 7, 13])
    shift = rng.choice([0, 1, 1, 2, 5, -1, -1, -3])
    interp = rng.choice([0, 0, 0, -1, 1])
    ys = [None if rng.random() < 0.1 else ydata(rng) for _ in range(n)]
    pts = [(g(k0 + i), y) for i, y in enumerate(ys)]
    src = Points(list(pts), uniform=False, interpolation=interp)
    off = src.offset(shift, duration=name)
    twice = off.offset(-shift, duration=name)
    mon.log(name, shift, interp, pts)

    def check(pts, when):
        r = R.RPoints(pts, interp)
        m = len(pts)
        d = (g(k0 + shift), g(k0 + m - 1 + shift), False, False) if m else None
        mon.check(iv_tuple(off.domain) == d, lambda: f'{when}: domain is {iv_tuple(off.domain)}, expected {d}', m > 0)
        for _ in range(8):
            i = rng.randint(-2, m + 1)
            u = rng.choice([0, 0, 0, 0.5, 0.25, 0.875])
            a, b = g(k0 + shift + i), g(k0 + shift + i + 1)
            x = a + u * (b - a) if u else a
            y0 = r.y(g(k0 + i))
            y1 = r.y(g(k0 + i + 1))
            if u == 0:
                e = y0
            elif shift == 0:
                e = r.y(x)
            else:
                inside = 0 <= i < m - 1
                e = (1 - u) * y0 + u * y1 if inside and y0 is not None and y1 is not None else None
                mon.event('between the steps of a duration')
            mon.same(off.y(x), e, lambda: f'{when}: offset({shift}, {name}).y({x})', 1e-9, 1e-6)
            mon.event('moved by a duration')
            if name in ('1mo', '1y'):
                mon.event('moved by months')
            if u == 0:
                # The same place, there and back
                x0 = g(k0 + i)
                mon.same(twice.y(x0), y0, lambda: f'{when}: back at {x0}', 1e-9, 1e-9)
                mon.event('moved back')
                if shift != 0 and 0 <= i < m:
                    e = g(k0 + shift + i + 1) if i + 1 < m else None
                    mon.same(off.x_next(x), e, lambda: f'{when}: x_next({x})', 0, 1e-6)
                    e = g(k0 + shift + i - 1) if i > 0 else None
                    mon.same(off.x_previous(x), e, lambda: f'{when}: x_previous({x})', 0, 1e-6)
                    # At least some steps apart, exactly or not
                    t = rng.choice([-3, -2, -1, 1, 2, 3])
                    ms = abs(g(k0 + shift + i + t) - x) + rng.choice([0, 0, 900, -450])
                    far = [q for q in (g(k0 + shift + j) for j in range(m)) if ((q - x) if t > 0 else (x - q)) >= ms]
                    if t > 0:
                        mon.same(off.x_next(x, min_step=ms), min(far, default=None), lambda: f'{when}: x_next({x}, {ms})', 0, 1e-6)
                    else:
                        mon.same(off.x_previous(x, min_step=ms), max(far, default=None), lambda: f'{when}: x_previous({x}, {ms})', 0, 1e-6)
                    mon.event('steps of a duration apart', bool(far))
                if shift != 0 and m:
                    s = off.sample_points()
                    e = [(g(k0 + shift + j), r.y(g(k0 + j))) for j in range(m)]
                    mon.same(s, e, f'{when}: samples', 1e-9, 1e-6)
    check(pts, 'at first')
    for _ in range(rng.choice([0, 1, 2])):
        b = rng.random()
        if b < 0.5:
            p = (g(k0 + len(pts)), ydata(rng))
            pts = pts + [p]
            src.append(p)
        elif pts:
            j = rng.randrange(len(pts))
            pts = pts[:j] + [(pts[j][0], ydata(rng))] + pts[j + 1:]
            src.replace(pts[j])
        mon.event('edited under an offset')
        check(pts, 'after an edit')
    try:
        src.offset(0.5, duration=name)
        ok = False
    except Exception:
        ok = True
    mon.event('refused')
    mon.check(ok, 'a fraction of a duration was accepted', False)


def uneven(rng, mon, tier):
    """Sources whose points lie between the steps of the duration, and edits there."""
    name = rng.choice(list(GRIDS))
    g = GRIDS[name]
    k0 = {'15m': 1700000, '1h': 440000, '4h': 110000, '1d': 18000, '1mo': 600, '1y': 48}[name] + rng.randint(0, 30)
    steps = [g(k0 + k) for k in range(-20, 60)]
    shift = rng.choice([0, 1, 1, 2, 5, -1, -1, -3])
    interp = rng.choice([0, 0, 0, -1, 1])

    def place(k):
        u = rng.choice([0, 0, 0.5, 0.25, 0.875])
        a, b = g(k0 + k), g(k0 + k + 1)
        return a + u * (b - a)
    ks = sorted(rng.sample(range(14), rng.choice([0, 1, 2, 4, 8])))
    xs = sorted({place(k) for k in ks})
    pts = [(x, None if rng.random() < 0.1 else ydata(rng)) for x in xs]
    src = Points(list(pts), uniform=False, interpolation=interp)
    part = None
    base = src
    if pts and rng.random() < 0.4:
        a, b = sorted([place(rng.randint(0, 14)), place(rng.randint(0, 14))])
        if b > a:
            part = (a, b, rng.random() < 0.5, rng.random() < 0.5)
            base = src.subset(iv(part))
    off = base.offset(shift, duration=name)
    avg = off.ema(0.5, uniform=False) if shift else None
    told = []
    off.add_observer(end=lambda d: told.append(iv_tuple(d)))
    mon.log(name, shift, interp, pts, part)

    def reference():
        r = R.RPoints(pts, interp)
        if part:
            r = R.RSubset(r, part)
        return R.RShift(r, None, shift, steps)

    def places():
        v = [place(rng.randint(-8, 22)) for _ in range(8)]
        r = reference()
        return v + list(r.dom()[:2] if r.dom() else ())

    def check(when):
        r = reference()
        d = r.dom()
        mon.check(iv_tuple(off.domain) == d, lambda: f'{when}: domain is {iv_tuple(off.domain)}, expected {d}', bool(d))
        for x in places():
            mon.same(off.y(x), r.y(x), lambda: f'{when}: offset({shift}, {name}).y({x})', 1e-9, 1e-6)
            mon.same(off.x_next(x), r.nxt(x), lambda: f'{when}: offset({shift}, {name}).x_next({x})', 0, 1e-6)
            mon.same(off.x_previous(x), r.prv(x), lambda: f'{when}: offset({shift}, {name}).x_previous({x})', 0, 1e-6)
            if R.inside(d, x) and x != d[0]:
                mon.same(off.d_y(x), r.slope(x), lambda: f'{when}: slope at {x}', 1e-9, 1e-9)
        if shift:
            mon.same(off.sample_points(), r.samples(), f'{when}: samples', 1e-9, 1e-6)
            e = R.REMA(r, alpha=0.5)
            for x in places():
                mon.same(avg.y(x), e.y(x), lambda: f'{when}: average of the offset at {x}', 1e-9, 1e-6)
        mon.event('between the points of a duration')
    check('at first')
    for _ in range(rng.choice([1, 2, 3])):
        xs = places()
        r = reference()
        old, old_d = [r.y(x) for x in xs], r.dom()
        told.clear()
        b = rng.random()
        last = pts[-1][0] if pts else steps[20]
        if b < 0.35:
            p = (last + rng.choice([0.5, 1, 1.75]) * (g(k0 + 1) - g(k0)), ydata(rng))
            src.append(p)
            pts.append(p)
        elif b < 0.9 and pts:
            j = rng.randrange(len(pts))
            pts[j] = (pts[j][0], ydata(rng))
            src.replace(pts[j])
        else:
            pts[:] = [(x + g(k0 + 1) - g(k0), ydata(rng)) for x, _ in pts]
            src.set(list(pts))
        if pts and pts[-1][0] > steps[-10]:
            break
        r = reference()
        mon.check(r.dom() == old_d or bool(told), lambda: f'the domain changed from {old_d} to {r.dom()}', False)
        changed = [x for x, y in zip(xs, old) if y != r.y(x)]
        missed = [x for x in changed if not any(R.inside(d, x) for d in told)]
        mon.check(not missed, lambda: f'offset({shift}, {name}) changed at {missed}, but told of {told}', bool(changed))
        mon.event('edited between steps')
        check('after an edit')


def chains(rng, mon, tier):
    """Offsets of offsets add up, and offsets commute with arithmetic and accumulation."""
    h = rng.choice([0.25, 0.5, 1, 1, 2, 60])
    n = rng.choice([1, 2, 3, 5, 9])
    uniform = rng.random() < 0.6
    pts = make_points(rng, n, h, rng.randint(-3, 3) * h, uniform, none_p=rng.choice([0, 0, 0.2]))
    interp = rng.choice([0, 0, -1, 1])
    src = Points(list(pts), uniform=uniform, interpolation=interp)
    dxs = [rng.choice([0, 1, -2, 0.5, 3, -7, 11]) * h for _ in range(rng.choice([1, 2, 3]))]
    c = src
    for dx in dxs:
        c = c.offset(dx)
    if len(dxs) > 1:
        mon.event('offset of an offset')
    total = sum(dxs)
    mon.log(pts, dxs)
    moved = Points([(x + total, y) for x, y in pts], uniform=uniform, interpolation=interp)
    # A series gives its own points only, other curves the bounds of a domain as well
    pairs = [(c, moved.map(lambda y: y))]
    if all(p[1] is not None for p in pts):
        for f in (lambda p: p.ema(0.5, uniform=uniform), lambda p: p.sma(min(2, n), uniform=uniform),
                  lambda p: p.integral(uniform=uniform), lambda p: p * 2 - 1,
                  lambda p: p.trailing_max(2, uniform=uniform), lambda p: p.differential()):
            a = f(src)
            for dx in dxs:
                a = a.offset(dx)
            pairs.append((a, f(moved)))
    for a, b in pairs:
        mon.check(iv_tuple(a.domain) == iv_tuple(b.domain), lambda: f'domain is {a.domain}, expected {b.domain}')
        for x, _ in pts:
            for x1 in (x + total, x + total + h / 2, x + total - h / 4, x + total + 20 * h):
                mon.same(a.y(x1), b.y(x1), f'y({x1})')
                for fwd in (False, True):
                    mon.same(a.d_y(x1, forward=fwd) if a.domain.contains(x1) else None,
                             b.d_y(x1, forward=fwd) if b.domain.contains(x1) else None, f'd_y({x1}, {fwd})')
                if a.domain.contains(x1):
                    mon.same(a.x_next(x1), b.x_next(x1), f'x_next({x1})')
                    mon.same(a.x_previous(x1), b.x_previous(x1), f'x_previous({x1})')
                ms = rng.choice([0.5, 1.5, 2, 4]) * h
                for fwd in (False, True):
                    if a.domain.contains(x1):
                        mon.same(a.d_y(x1, forward=fwd, min_step=ms), b.d_y(x1, forward=fwd, min_step=ms), f'd_y({x1}, {fwd}, {ms})')
                mon.same(a.x_next(x1, min_step=ms), b.x_next(x1, min_step=ms), f'x_next({x1}, {ms})')
                mon.same(a.x_previous(x1, min_step=ms), b.x_previous(x1, min_step=ms), f'x_previous({x1}, {ms})')
                p, q = a.next_point(x1, min_step=ms), b.next_point(x1, min_step=ms)
                mon.same(p, q, f'next_point({x1}, {ms})')
                mon.event('moved steps at least apart')
        mon.same(a.sample_points(), b.sample_points(), 'samples')
        ms = rng.choice([1, 1.5, 2, 4]) * h
        mon.same(a.sample_points(min_step=ms), b.sample_points(min_step=ms), f'samples by at least {ms}')
        mon.same(a.sample_points(step=ms), b.sample_points(step=ms), f'samples by {ms}')
        if not a.domain.is_empty:
            d = iv((a.domain.start + h / 4, a.domain.end + h, rng.random() < 0.5, rng.random() < 0.5))
            mon.same(a.sample_points(domain=d), b.sample_points(domain=d), f'samples in {d}')


families = [
    Family('graphs', graph_family(['offset', 'shift'], W), 4000, 80000),
    Family('durations', durations, 2000, 40000),
    Family('uneven', uneven, 800, 20000),
    Family('chains', chains, 1500, 30000),
]
