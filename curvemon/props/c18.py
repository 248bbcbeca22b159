"""C18: extremas of a curve around a reference."""
from ..core import Family
from ..engine import graph_family, ANY, iv_tuple
from ..graph import make_points, ydata
from ..load import Points, Extremas
from .. import ref as R
from ..single import as_series

RULE = ('The extremas of random series around constants and other curves are compared with the most extreme points of '
        'the runs of points at one side, which are cut from the list of points. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['long course', 'derived from a function', 'node extremas', 'constant reference', 'moving reference', 'deviation', 'confirmed', 'none confirmed',
                   'run not over', 'too close', 'missing value', 'edited', 'reference edited', 'between extremas',
                   'outside', 'by step', 'step to an extrema']

W = dict(ANY, extremas=4)


def runs(pts, ref, dev):
    """The most extreme (first) point of each run at one side of the reference which is followed by another run."""
    sides = []
    for x, y in pts:
        r = ref(x)
        if y is None or r is None or abs(y - r) <= abs(dev) * abs(r):
            continue
        s = y > r
        if not sides or sides[-1][0] != s:
            sides.append((s, []))
        sides[-1][1].append((x, y))
    out = []
    for s, ps in sides[:-1]:
        best = max(p[1] for p in ps) if s else min(p[1] for p in ps)
        out.append(next(p for p in ps if p[1] == best))
    return out, len(sides)


def direct(rng, mon, tier):
    h = rng.choice([2 ** -9, 0.25, 0.5, 1, 1, 2, 60])
    n = rng.choice([1, 3, 6, 10, 16, 40] + [400, 1500] * (rng.random() < 0.01))
    mon.event('long course', n > 100)
    uniform = rng.random() < 0.6
    x0 = rng.choice([0, -5 * h, 7 * h, 1.6e9 if h >= 1 else 3])
    kind = rng.choice(['any', 'any', 'small'])
    pts = make_points(rng, n, h, x0, uniform, kind, none_p=rng.choice([0, 0, 0.15]))
    src = Points(list(pts), uniform=uniform, interpolation=rng.choice([0, 0, -1, 1]))
    dev = rng.choice([0, 0, 0.125, 0.5, -0.25, 2])
    other = None
    if rng.random() < 0.5:
        level = rng.choice([0, 1, -2, 4, 8])
        target = level
        ref = lambda x: level
        mon.event('constant reference')
    else:
        rp = make_points(rng, n + rng.choice([0, 0, 2]), h, x0 - rng.choice([0, 0, 1]) * h, True, kind)
        target = other = Points(list(rp))
        model = R.RPoints(rp)
        ref = lambda x: model.y(x)
        mon.event('moving reference')
    c = Extremas(src, target, min_deviation=dev)
    if dev:
        mon.event('deviation')
    mon.log(pts, target if other is None else rp, dev)
    for _ in range(rng.choice([1, 2, 3])):
        ex, count = runs(pts, ref, dev)
        mon.event('confirmed', len(ex))
        mon.event('none confirmed', not ex)
        mon.event('run not over', count > 0)
        mon.event('missing value', any(p[1] is None for p in pts))
        mon.event('too close', any(p[1] is not None and ref(p[0]) is not None and
                                   0 < abs(p[1] - ref(p[0])) <= abs(dev) * abs(ref(p[0])) for p in pts))

        def values():
            xs = [p[0] for p in pts] + [p[0] + h / 4 for p in pts] + ([pts[0][0] - h, pts[-1][0] + h] if pts else [x0])
            rng.shuffle(xs)
            for x in xs[:8]:
                e = R.table([p[0] for p in ex], [p[1] for p in ex], x)
                mon.event('outside', e is None)
                mon.event('between extremas', e is not None and all(p[0] != x for p in ex))
                mon.same(c.y(x), e, lambda: f'y({x}) of the extremas {ex}', 1e-9, 1e-9)

        def extremas():
            for p in ex:
                mon.same(c.y(p[0]), p[1], lambda: f'extrema at {p[0]}')

        def domain():
            d = (pts[0][0], pts[-1][0], False, False) if pts else None
            mon.check(iv_tuple(c.domain) == d, lambda: f'domain is {iv_tuple(c.domain)}, expected {d}')

        def samples():
            mon.same(c.sample_points() if pts else [], ex, 'samples')

        def by_step():
            if not pts:
                return
            k = rng.choice([0.5, 1, 1.5]) * h
            g = [pts[0][0] + i * k for i in range(int((pts[-1][0] - pts[0][0]) / k) + 2)]
            e = [(x, R.table([p[0] for p in ex], [p[1] for p in ex], x)) for x in g if x <= pts[-1][0]]
            mon.same(c.sample_points(step=k), [p for p in e if p[1] is not None], lambda: f'samples by {k}', 1e-9, 1e-9)
            mon.event('by step')

        def steps():
            pairs = list(zip(ex, ex[1:]))
            rng.shuffle(pairs)
            for a, b in pairs:
                up = [lambda: mon.same(c.x_next(a[0]), b[0], f'extrema after {a[0]}'),
                      lambda: mon.same(c.x_previous(b[0]), a[0], f'extrema before {b[0]}')]
                if b[0] - a[0] > h / 2:
                    m = (a[0] + b[0]) / 2
                    up += [lambda: mon.same(c.x_next(m), b[0], f'extrema after {m}'),
                           lambda: mon.same(c.x_previous(m), a[0], f'extrema before {m}')]
                rng.shuffle(up)
                for f in up:
                    f()
                mon.event('step to an extrema')
        asks = [values, extremas, domain, samples, by_step, steps]
        rng.shuffle(asks)
        for f in asks[:rng.choice([1, 3, 6])]:
            f()
        # Edit and again
        b = rng.random()
        if other is not None and b < 0.3:
            j = rng.randrange(len(rp))
            rp = rp[:j] + [(rp[j][0], ydata(rng, kind))] + rp[j + 1:]
            other.replace(rp[j])
            model = R.RPoints(rp)
            mon.event('reference edited')
        elif not pts or b < 0.6:
            p = (pts[-1][0] + h if pts else x0, ydata(rng, kind))
            src.append(p)
            pts = pts + [p]
        elif b < 0.85:
            j = rng.randrange(len(pts))
            pts = pts[:j] + [(pts[j][0], ydata(rng, kind))] + pts[j + 1:]
            src.replace(pts[j])
        else:
            pts = make_points(rng, rng.choice([0, 3, 8]), h, x0 + h, uniform, kind)
            src.set(list(pts))
        mon.event('edited')


def functions(rng, mon, tier):
    as_series(rng, mon, ['extremas'],
              'derived from a function')


families = [
    Family('functions', functions, 400, 8000),
    Family('graphs', graph_family(['extremas'], W), 4000, 60000),
    Family('long', graph_family(['extremas'], W, edits=(5, 10, 20), n_derived=0, long=True), 150, 6000),
    Family('direct', direct, 6000, 100000),
]
