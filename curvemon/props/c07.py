"""C07: smallest, largest and first value of several curves."""
import math
from ..core import Family, Skip
from ..engine import graph_family, ANY, iv_tuple
from ..graph import iv, make_points
from ..load import Curve, Points
from .. import ref as R
from .c06 import operand, places

RULE = ('The minimum, maximum and first of random curves and numbers are compared at random places with the same '
        'choice among the values of the operands. Non-trivial: at least one expected value.')
REQUIRED_EVENTS = ['many operands', 'min', 'max', 'first', 'some missing', 'all missing', 'ignore_empty', 'in a gap', 'infinite value', 'node min',
                   'node max', 'node first']

W = dict(ANY, select=6)


def select(rng, mon, tier):
    h = rng.choice([1, 0.5, 60])
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, rng.choice([7, 12])])
    mon.event('many operands', n > 5)
    ops, refs = zip(*[operand(rng, h) for _ in range(n)])
    ops, refs = list(ops), list(refs)
    if rng.random() < 0.2:
        # Values may be infinite, as those of quotients are
        k = rng.randrange(n)
        pts = make_points(rng, rng.choice([1, 4, 8]), h, rng.randint(-3, 3) * h, True)
        pts = [(x, rng.choice([y, math.inf, -math.inf])) for x, y in pts]
        ops[k], refs[k] = Points(list(pts), interpolation=-1, uniform=True), R.RPoints(pts, -1)
        if rng.random() < 0.5:
            ops[k] = ops[k] + 0
        mon.event('infinite value')
    if not any(isinstance(o, Curve) for o in ops):
        raise Skip()
    for op in ('min', 'max', 'first'):
        for ie in ([None] if op == 'first' else [False, True, None]):
            kw = {} if ie is None else {'ignore_empty': ie}
            many = getattr(Curve, op)
            results = [many(list(ops), **kw)]
            if isinstance(ops[0], Curve):
                results.append(many(*ops, **kw))
            union = op == 'first' or bool(ie)
            ds = [r.dom() for r in refs]
            d = R.hull(ds) if union else R.intersect(ds)
            mon.event(op)
            if ie:
                mon.event('ignore_empty')
            for c in results:
                mon.check(iv_tuple(c.domain) == R.norm(d), lambda: f'{op}({ie}): domain {iv_tuple(c.domain)} '
                          f'of {ds}, expected {d}', d is not None)
            for x in places(rng, refs, h):
                ys = [r.y(x) for r in refs]
                vals = [y for y in ys if y is not None]
                e = None
                if R.inside(d, x) and vals:
                    e = {'min': min, 'max': max, 'first': lambda v: v[0]}[op](vals)
                if R.inside(d, x):
                    if len(vals) < len(ys):
                        mon.event('some missing' if vals else 'all missing')
                    if not vals and not any(R.inside(v, x) for v in ds):
                        mon.event('in a gap')
                for c in results:
                    mon.same(c.y(x), e, lambda: f'{op}({ie}) at {x!r} of {ys}', 1e-9, 1e-12)


families = [
    Family('graphs', graph_family(['min', 'max', 'first'], W), 5000, 100000),
    Family('select', select, 4000, 60000),
]
