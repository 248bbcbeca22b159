"""C22: lines, sines, constants, functions and empty curves follow their closed forms."""
import math
from fractions import Fraction as F
from ..core import Family
from ..engine import iv_tuple
from ..graph import make_points, ydata, iv
from ..load import Line, Sin, Constant, Generic, Empty, Curve, Points
from .. import ref as R

RULE = ('Lines, sines, constants, plain functions and empty curves are described in all ways which they offer, '
        'looked up, inverted, set anew, and used by other curves; exact rational arithmetic for lines. Non-trivial: at '
        'least one expected value.')
REQUIRED_EVENTS = ['line by constant', 'line by point', 'line by two points', 'line by constant and point', 'inverted',
                   'sine by period', 'sine by frequency', 'phase at x', 'constant', 'constant on a domain', 'function',
                   'function on a domain', 'empty', 'set anew', 'set anew by little', 'derived follows', 'observed', 'refused', 'sampled function']


def watch(c):
    told = []
    t = c.add_observer(begin=lambda i: told.append(('begin', iv_tuple(i))), end=lambda i: told.append(('end', iv_tuple(i))))
    return told, t


def line_args(rng, mon, x0, s):
    """A random description: (keywords, exact point, exact slope)."""
    b = rng.random()
    m = rng.randint(-16, 16) / 8 / s
    p = (x0 + rng.randint(-8, 8) * s, ydata(rng))
    if b < 0.25:
        c = ydata(rng)
        mon.event('line by constant')
        return dict(const=c, slope=m), (F(0), F(c)), F(m)
    if b < 0.5:
        mon.event('line by point')
        return dict(p1=p, slope=m), (F(p[0]), F(p[1])), F(m)
    q = (p[0] + rng.choice([-5, -1, 1, 2, 7]) * s, ydata(rng))
    if b < 0.85 or q[0] == 0:
        mon.event('line by two points')
        kw = rng.choice([dict(p1=p, p2=q), dict(points=[p, q]), dict(points=(p, q))])
        return kw, (F(p[0]), F(p[1])), (F(q[1]) - F(p[1])) / (F(q[0]) - F(p[0]))
    c = ydata(rng)
    mon.event('line by constant and point')
    return dict(const=c, p2=q), (F(0), F(c)), (F(q[1]) - F(c)) / F(q[0])


def lines(rng, mon, tier):
    x0 = rng.choice([0, 0, 0, 12, -40, 1.6e9])
    s = rng.choice([1, 1, 0.25, 4, 60])
    kw, p, m = line_args(rng, mon, x0, s)
    c = Line(**kw)
    derived = [(c * 2 + 1, lambda y: 2 * y + 1), (c.map(lambda y: -y), lambda y: -y), (c.offset(s), None)]
    told, token = watch(c)
    for k in range(rng.choice([1, 2, 3])):
        mon.log(kw)
        mon.check(iv_tuple(c.domain) == R.ALL, 'domain of a line')
        scale = max(abs(float(p[1])), abs(float(m) * max(abs(x0), 100)), 1)
        tol = 1e-12 * scale * 4
        for _ in range(6):
            x = x0 + rng.randint(-40, 40) * s / 4
            e = float(p[1] + m * (F(x) - p[0]))
            mon.same(c.y(x), e, lambda: f'{kw}: y({x})', 1e-9, max(tol, 1e-9))
            mon.same(c(x), e, lambda: f'{kw}: y({x})', 1e-9, max(tol, 1e-9))
            for d, f in derived[:2]:
                mon.same(d.y(x), f(e), lambda: f'{kw}: derived at {x}', 1e-9, max(4 * tol, 1e-9))
            mon.same(derived[2][0].y(x + s), e, lambda: f'{kw}: moved to {x + s}', 1e-9, max(4 * tol, 1e-9))
            if abs(m) >= F(1, 1000):
                mon.same(c.x(e), x, lambda: f'{kw}: x({e})', 1e-9, max(1e-9, 4 * tol / abs(float(m))))
                mon.event('inverted')
            for fwd in (False, True):
                mon.same(c.d_y(x, forward=fwd), float(m), lambda: f'{kw}: slope', 1e-9, 1e-12)
        mon.same(c.slope, float(m), lambda: f'{kw}: slope', 1e-9, 1e-12)
        mon.same(c.const, float(p[1] - m * p[0]), lambda: f'{kw}: constant', 1e-9, max(1e-9, 4 * tol))
        before = (p, m)
        kw, p, m = line_args(rng, mon, x0, s)
        if rng.random() < 0.25:
            # By little only
            q = (float(before[0][0]), float(before[0][1]))
            k = float(before[1])
            e = 2.0 ** -rng.choice([20, 34, 40])
            if rng.random() < 0.5:
                k += e
            else:
                q = (q[0], q[1] + e)
            kw, p, m = dict(p1=q, slope=k), (F(q[0]), F(q[1])), F(k)
            mon.event('set anew by little')
        told.clear()
        c.set(**kw)
        mon.event('set anew')
        mon.event('derived follows')
        if any(p[1] + m * (F(x) - p[0]) != before[0][1] + before[1] * (F(x) - before[0][0]) for x in (0, 1)):
            mon.check(told == [('begin', R.ALL), ('end', R.ALL)], lambda: f'a new line told {told}')
            mon.event('observed')
    bad = rng.choice([dict(), dict(slope=1), dict(const=1), dict(p1=(0, 1)), dict(p2=(1, 2)), dict(p1=(None, 1), slope=1)])
    try:
        Line(**bad)
        ok = False
    except Exception:
        ok = True
    mon.event('refused')
    mon.check(ok, lambda: f'a line was made of {bad}', False)


def sine_args(rng, mon):
    a = rng.choice([1, 2, 0.5, -3, 10])
    p = rng.choice([1, 2, 0.5, 7, 6.5, 3600, -2, -7])
    kw = {'amplitude': a}
    if rng.random() < 0.5:
        kw['period'] = p
        mon.event('sine by period')
    else:
        kw['frequency'] = 1 / p
        mon.event('sine by frequency')
    w = 2 * math.pi / p
    phase = 0
    b = rng.random()
    if b < 0.35:
        phase = kw['phase'] = rng.randint(-8, 8) / 4
    elif b < 0.7:
        px = kw['phase_x'] = rng.randint(-8, 8) / 16 * p
        phase = px * w
        mon.event('phase at x')
    return kw, a, p, w, phase


def sines(rng, mon, tier):
    kw, a, p, w, ph = sine_args(rng, mon)
    c = Sin(**kw)
    twice = c * 2
    told, token = watch(c)
    for _ in range(rng.choice([1, 2, 3])):
        mon.log(kw)
        mon.check(iv_tuple(c.domain) == R.ALL, 'domain of a sine')
        mon.same(c.period, p, lambda: f'{kw}: period', 1e-9)
        mon.same(c.frequency, 1 / p, lambda: f'{kw}: frequency', 1e-9)
        for _ in range(6):
            x = rng.randint(-64, 64) / 16 * p
            e = a * math.sin(w * x + ph)
            mon.same(c.y(x), e, lambda: f'{kw}: y({x})', 1e-9, 1e-9)
            mon.same(c.y(x + p), e, lambda: f'{kw}: one period after {x}', 1e-9, 1e-9)
            mon.same(c.y(x + p / 2), -e, lambda: f'{kw}: half a period after {x}', 1e-9, 1e-9)
            mon.same(twice.y(x), 2 * e, lambda: f'{kw}: derived at {x}', 1e-9, 1e-9)
            for fwd in (False, True):
                mon.same(c.d_y(x, forward=fwd), a * w * math.cos(w * x + ph), lambda: f'{kw}: slope at {x}', 1e-9, 1e-9)
        told.clear()
        kw, a, p, w, ph = sine_args(rng, mon)
        c.set(**kw)
        mon.event('set anew')
        mon.check(told == [('begin', R.ALL), ('end', R.ALL)], lambda: f'a new sine told {told}')
        mon.event('observed')
    # Over a part, by steps
    p = abs(p)
    step = p / 8
    c = Generic(lambda x: 2 * x + 1, domain=iv((0, p, False, False)))
    n = 8
    a = c.sample_points(step=step)
    mon.check(abs(len(a) - (n + 1)) <= 1, f'{len(a)} samples')
    bad = rng.choice([dict(), dict(amplitude=1), dict(period=2), dict(amplitude=None, period=2), dict(amplitude=1, period=2, phase=None)])
    try:
        Sin(**bad)
        ok = False
    except Exception:
        ok = True
    mon.check(ok, lambda: f'a sine was made of {bad}', False)


def constants(rng, mon, tier):
    v = ydata(rng)
    d = R.ALL
    b = rng.random()
    if b < 0.5:
        c = rng.choice([Constant, Curve.const, Curve.parse])(v)
        mon.event('constant')
    else:
        lo = rng.randint(-8, 8) / 2
        d = (lo, lo + rng.randint(1, 8) / 2, rng.random() < 0.4, rng.random() < 0.4)
        c = Constant(v, domain=iv(d))
        mon.event('constant on a domain')
    told, token = watch(c)
    double = c * 2
    for _ in range(rng.choice([1, 2, 3])):
        mon.log(v, d)
        mon.check(iv_tuple(c.domain) == d, lambda: f'domain is {iv_tuple(c.domain)}, expected {d}')
        mon.same(c.value, v, 'value')
        for x in [rng.randint(-40, 40) / 4 for _ in range(4)] + [e for e in d[:2] if math.isfinite(e)]:
            e = v if R.inside(d, x) else None
            mon.same(c.y(x), e, lambda: f'constant {v} on {d} at {x}')
            mon.same(double.y(x), None if e is None else 2 * e, lambda: f'twice the constant {v} on {d} at {x}')
            mon.event('derived follows')
        mon.same(c.d_y(rng.randint(-3, 3)), 0, 'slope of a constant')
        told.clear()
        old, v = v, rng.choice([v, ydata(rng), v + 2 ** -32])
        c.value = v
        if v != old:
            mon.check(told == [('begin', d), ('end', d)], lambda: f'a new value told {told}')
            mon.event('observed')
        mon.event('set anew')
    z = Curve.zero(v)
    mon.same(z.y(ydata(rng)), 0, 'zero')


def functions(rng, mon, tier):
    k = rng.randint(-6, 6) / 2
    f = rng.choice([lambda x: x * x - k, lambda x: k * x, lambda x: None if x > 3 else x + k, math.sin])
    d = R.ALL
    if rng.random() < 0.6:
        lo = rng.randint(-8, 8) / 2
        d = (lo, lo + rng.randint(1, 8) / 2, rng.random() < 0.4, rng.random() < 0.4)
        mon.event('function on a domain')
        c = Generic(f, domain=rng.choice([iv(d), iv(d)]))
    else:
        mon.event('function')
        c = rng.choice([Generic, Curve.parse])(f)
    mon.log(k, d)
    mon.check(iv_tuple(c.domain) == d, lambda: f'domain is {iv_tuple(c.domain)}, expected {d}')
    both = c + Points([(-10, 1), (10, 1)])
    for x in [rng.randint(-32, 32) / 4 for _ in range(6)] + [e for e in d[:2] if math.isfinite(e)]:
        e = f(x) if R.inside(d, x) else None
        mon.same(c.y(x), e, lambda: f'function on {d} at {x}')
        mon.same(both.y(x), None if e is None else e + 1, lambda: f'sum with a function on {d} at {x}')
    if d != R.ALL:
        h = 0.25
        a = c.sample_points(min_step=h)
        xs = [d[0] + i * h for i in range(int((d[1] - d[0]) / h) + 1)]
        xs = [x for x in xs if R.inside(d, x)]
        mon.same(a, [(x, f(x)) for x in xs], 'samples of a function')
        mon.event('sampled function')
        mon.same(c.y_start() if not d[2] else None, f(d[0]) if not d[2] else None, 'first value')
        mon.same(c.y_end() if not d[3] else None, f(d[1]) if not d[3] else None, 'last value')


def empties(rng, mon, tier):
    c = rng.choice([Empty, Curve.empty, lambda: Points([])])()
    mon.event('empty')
    x = ydata(rng)
    mon.check(c.domain.is_empty, 'domain of an empty curve')
    mon.check(c.y(x) is None and c(x) is None, 'value of an empty curve')
    mon.check(c.d_y(x) is None, 'slope of an empty curve')
    mon.check(c.first_point() is None and c.last_point() is None, 'points of an empty curve')
    mon.check(c.x_next(x) is None and c.x_previous(x) is None, 'steps of an empty curve')
    mon.check(c.sample_points() == [], 'samples of an empty curve')
    mon.check(c.get_range().is_empty, 'range of an empty curve')
    v = Constant(3)
    mon.check((v + c).y(x) is None and (c * 2).y(x) is None, 'arithmetic with an empty curve')
    mon.check((v + c).domain.is_empty, 'domain of arithmetic with an empty curve')
    mon.same(Curve.first([c, v]).y(x), 3, 'first of an empty curve and another')
    mon.same(Curve.max([c, v], ignore_empty=True).y(x), 3, 'maximum without the empty curve')
    mon.fingerprint.update(repr(x).encode())


families = [
    Family('lines', lines, 4000, 60000),
    Family('sines', sines, 2500, 40000),
    Family('constants', constants, 2500, 40000),
    Family('functions', functions, 2500, 40000),
    Family('empties', empties, 300, 3000),
]
