"""C06: arithmetic and maps of curves are pointwise."""
import math
from ..core import Family, Skip, close
from ..engine import graph_family, ANY, iv_tuple
from ..graph import iv, ARITH, ydata, make_points, FNS, T
from ..load import Points, Curve, Constant, Line, Generic, Empty, Interval
from .. import ref as R

RULE = ('Expressions over random curves, numbers, functions and lists are evaluated at random places and compared '
        'with the same expression over the values of the operands. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['many operands', 'node add', 'node sub', 'node mul', 'node div', 'node pow', 'node log', 'node neg', 'node abs',
                   'node inv', 'node map', 'division by zero', 'missing operand', 'reflected', 'map with x',
                   'map of None', 'domain of operands', 'exact', 'one and nothing', 'division by little']

OPS = ['add', 'sub', 'mul', 'div', 'pow', 'log', 'neg', 'abs', 'inv', 'map']
W = dict(ANY, arith=4, map=3, unary=3)


def operand(rng, h):
    """Returns (operand, curve-like reference, its domain)."""
    b = rng.random()
    if b < 0.45:
        n = rng.choice([1, 2, 4, 6, 9])
        x0 = rng.randint(-3, 3) * h
        uniform = rng.random() < 0.6
        pts = make_points(rng, n, h, x0, uniform, rng.choice(['any', 'small', 'small']), rng.choice([0, 0, 0.25]))
        interp = rng.choice([0, 0, -1, 1])
        r = R.RPoints(pts, interp)
        if interp == 0 and uniform and rng.random() < 0.2:
            return list(pts), r
        return Points(list(pts), interpolation=interp, uniform=uniform), r
    if b < 0.6:
        v = rng.choice([0, 1, 2, -1, 0.5, -3, 0.0, 1e-7, -2.5e-8])
        return v, R.RConst(v)
    if b < 0.7:
        v = float(rng.randint(-3, 3))
        d = rng.choice([None, (0, 4 * h, False, True)])
        return Constant(v, domain=None if d is None else iv(d)), R.RConst(v, d)
    if b < 0.8:
        m, c = rng.randint(-4, 4) / h, rng.randint(-3, 3)
        return Line(const=c, slope=m), R.RLine(0, c, m)
    if b < 0.9:
        f = FNS[rng.choice(list(FNS))]
        return (f, R.RFn(f)) if rng.random() < 0.5 else (Generic(f), R.RFn(f))
    if b < 0.95:
        d = (rng.randint(-4, 2) * h, rng.randint(3, 9) * h, rng.random() < 0.5, rng.random() < 0.5)
        f = FNS['saw']
        return Generic(f, domain=iv(d)), R.RFn(f, d)
    return Empty(), R.REmpty()


def places(rng, refs, h):
    xs = []
    for r in refs:
        if isinstance(r, R.RPoints):
            xs += r.xs
            xs += [(a + b) / 2 for a, b in zip(r.xs, r.xs[1:])]
        d = r.dom()
        if d:
            xs += [v for v in d[:2] if math.isfinite(v)]
    xs += [rng.randint(-20, 50) / 4 * h for _ in range(5)]
    return rng.sample(xs, min(len(xs), 14))


def expression(rng, mon, tier):
    h = rng.choice([1, 0.5, 60])
    op = rng.choice(['add', 'sub', 'mul', 'div', 'add', 'sub', 'mul', 'div', 'div', 'pow', 'log'])
    f, oper, method, many = ARITH[op]
    n = rng.choice([1, 2, 2, 2, 2, 3, 4])
    if op not in ('pow', 'log') and rng.random() < 0.1:
        n = rng.choice([5, 7, 9, 12])
        mon.event('many operands')
    ops, refs = zip(*[operand(rng, h) for _ in range(n)])
    if not any(isinstance(o, Curve) for o in ops):
        raise Skip()
    if op in ('pow', 'log'):
        # Positive values only
        first = lambda y: abs(y) + 1    # may be one, which no power changes
        other = lambda y: abs(y) + 1.5
        if op == 'log':
            n = min(n, 2)
        fs = [first] + [other] * (n - 1)
        refs, ops = refs[:n], ops[:n]
        refs = [R.RMap(r, f, True) for r, f in zip(refs, fs)]
        ops = [Curve.parse(o).map(f, skip_none=True) for o, f in zip(ops, fs)]
    results = []
    ops = list(ops)
    if n == 2 and oper is not None:
        if isinstance(ops[0], Curve) or isinstance(ops[1], Curve):
            results.append(oper(ops[0], ops[1]))
            if not isinstance(ops[0], Curve):
                mon.event('reflected')
    if n == 2 and isinstance(ops[0], Curve):
        results.append(getattr(ops[0], method)(ops[1]))
    if n == 2 and op == 'pow' and isinstance(ops[1], Curve):
        results.append(ops[1].raised(ops[0]))
    results.append(many(list(ops)))
    if isinstance(ops[0], Curve):
        results.append(many(*ops))
    results.append(many(tuple(ops)))
    d = R.intersect([r.dom() for r in refs])
    mon.log(op, [repr(o) for o in ops], [getattr(r, 'ys', None) for r in refs])
    for c in results:
        mon.check(iv_tuple(c.domain) == d, lambda: f'{op}: domain is {iv_tuple(c.domain)}, expected {d}', d is not None)
    mon.event('domain of operands')
    for x in places(rng, refs, h):
        ys = [r.y(x) for r in refs]
        e = None
        if R.inside(d, x):
            if None in ys[1:] and ys[0] == 1 and op in ('pow', 'log'):
                mon.event('one and nothing')
            if None in ys:
                mon.event('missing operand')
            if op == 'div' and None not in ys:
                if any(0 < abs(y) < 1e-9 for y in ys):
                    continue    # what is left of a zero by rounding
                mon.event('division by little', any(0 < abs(y) < 1e-6 for y in ys[1:]))
                e = ys[0]
                # The quotient of exact values is exact enough to be divided by exactly zero
                for y in ys[1:]:
                    if y == 0:
                        e = math.inf if e >= 0 else -math.inf
                        mon.event('division by zero')
                    else:
                        e = e / y
            else:
                try:
                    e = f(ys)
                    if None in ys and ys.index(None) > 1:
                        # The operation goes on up to the missing operand
                        f(ys[:ys.index(None)])
                except (ZeroDivisionError, ValueError, OverflowError):
                    continue
        if e is not None and isinstance(e, float) and math.isfinite(e) and abs(e) > 1e12:
            continue
        for c in results:
            mon.same(c.y(x), e, lambda: f'{op} at {x!r} of {ys}', 1e-9, 1e-9)
            mon.same(c(x), e, lambda: f'{op} called at {x!r} of {ys}', 1e-9, 1e-9)


def unary(rng, mon, tier):
    h = rng.choice([1, 0.5, 60])
    o, r = operand(rng, h)
    c = Curve.parse(o)
    mon.log(repr(o), getattr(r, 'ys', None))
    pos = c.map(lambda y: None if y is None else abs(y) + 1)
    seen = []

    def with_x(x, y):
        seen.append((x, y))
        return (x, y)

    def named(y):
        return ('none',) if y is None else ('y', y)
    cases = [
        ('neg', -c, lambda x, y: None if y is None else -y),
        ('neg', c.additive_inverse(), lambda x, y: None if y is None else -y),
        ('abs', abs(c), lambda x, y: None if y is None else abs(y)),
        ('abs', c.abs(), lambda x, y: None if y is None else abs(y)),
        ('pos', +c, lambda x, y: y),
        ('inverse', pos.multiplicative_inverse(), lambda x, y: None if y is None else 1 / (abs(y) + 1)),
        ('log', pos.log(), lambda x, y: None if y is None else math.log(abs(y) + 1)),
        ('log2', pos.log(2), lambda x, y: None if y is None else math.log(abs(y) + 1, 2)),
        ('map with x', c.map(with_x), lambda x, y: (x, y)),
        ('map with x, skip', c.map(with_x, skip_none=True), lambda x, y: None if y is None else (x, y)),
        ('map', c.map(named), lambda x, y: named(y)),
        ('map, skip', c.map(named, skip_none=True), lambda x, y: None if y is None else named(y)),
    ]
    d = r.dom()
    for x in places(rng, [r], h):
        y = r.y(x)
        for name, m, f in cases:
            if name == 'map with x':
                mon.event('map with x')
            if name == 'map' and y is None:
                mon.event('map of None')
            e = f(x, y)
            a = m.y(x)
            mon.observations += 1
            mon.informative += 1
            mon.fingerprint.update(repr(e).encode())
            ok = a == e or close(a, e) or (isinstance(e, tuple) and isinstance(a, tuple) and len(a) == len(e) and
                                           all(p == q or close(p, q) for p, q in zip(a, e)))
            if not ok:
                mon.fail(f'{name} at {x} of {y} is {a!r}, expected {e!r}')
    for name, m, f in cases:
        mon.check(iv_tuple(m.domain) == d, lambda: f'{name}: domain is {iv_tuple(m.domain)}, expected {d}')


def exact(rng, mon, tier):
    """Sums, differences and powers of integers are exact."""
    n = rng.choice([1, 2, 4])
    big = rng.choice([10, 1000, 10 ** 9, 2 ** 60])
    pts = [(i, rng.randint(-big, big)) for i in range(n)]
    p = Points(list(pts))
    k = rng.choice([rng.randint(-big, big), rng.randint(2, 9)])
    m = rng.choice([2, 3, 17, 41])
    qts = [(i, rng.randint(1, 60)) for i in range(n)]
    q = Points(list(qts))
    cases = [('+', p + k, lambda y, z: y + k), ('-', p - k, lambda y, z: y - k),
             ('**', p ** m, lambda y, z: y ** m), ('** curve', p ** q, lambda y, z: y ** z), ('neg', -p, lambda y, z: -y),
             ('reflected -', k - p, lambda y, z: k - y), ('+ curve', p + q, lambda y, z: y + z),
             ('abs', abs(p), lambda y, z: abs(y)),
             ('chain', (p + 1) - q - k, lambda y, z: y + 1 - z - k)]
    for name, c, f in cases:
        for (x, y), (_, z) in zip(pts, qts):
            a, e = c.y(x), f(y, z)
            mon.observations += 1
            mon.informative += 1
            mon.fingerprint.update(repr(e).encode())
            mon.check(a == e, lambda: f'{name} of the integers {y}, {k}, {m}, {z} is {a!r}, expected {e!r}')
    mon.event('exact')


families = [
    Family('exact', exact, 500, 5000),
    Family('graphs', graph_family(OPS, W), 5000, 100000),
    Family('expression', expression, 6000, 100000),
    Family('unary', unary, 3000, 40000),
]
