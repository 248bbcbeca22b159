"""C09: what a curve answers does not depend on what it was asked before."""
import math
from ..core import Family
from ..graph import iv, make_points
from ..load import Accumulator, Generic, Interval, Points
from ..single import alike, answer, one_curve, series, some_question
from ..engine import build, log_world, edit, editable, observe, random_query, same_result, ANY

RULE = ('Two copies of a random graph, built on the same data, are asked the same questions in different orders, one '
        'of them with repetitions and with further questions in between, and every pair of answers is compared. '
        'Non-trivial: at least one answer was a value.')
REQUIRED_EVENTS = ['question', 'repeated', 'asked after edits', 'answered by step', 'answered by sampling',
                   'one question each', 'with a minimum step', 'accumulated over a function',
                   'asked closely', 'with parameters', 'very many questions']

STATE = dict(ANY, arith=1.5, select=1.5, map=1, unary=0.5, sma=3, ema=3, smma=1.5, rsi=1, acc=3, integral=3,
             extremas=2.5, piecewise=1.5, ext=1.5, diff=1.5)


def questions(w, ids, n):
    qs = []
    for _ in range(n):
        i = w.rng.choice(ids)
        qs.append((i, random_query(w, i)))
    return qs


def agree(w, mon, i, q, a, b, what):
    mon.observations += 1
    if b is not None:
        mon.informative += 1
        mon.fingerprint.update(repr((q, b)).encode())
    if not same_result(w, i, q, a, b):
        mon.log(*[f'\n   {s}' for s in w.describe()])
        mon.fail(f'{i}={w.by_id[i][1]} {w.by_id[i][3]}: {q} is {a!r} {what}, but {b!r} in another order')


def count(mon, q):
    mon.event('question')
    if q[0] in ('next', 'prev', 'next_point', 'previous_point'):
        mon.event('answered by step')
    if q[0] == 'samples':
        mon.event('answered by sampling')


def orders(rng, mon, tier):
    w = build(rng, STATE, loose=True)
    log_world(w, mon)
    for _ in range(rng.choice([0, 0, 1, 3])):
        edit(w, mon, rng.choice(editable(w)))
    ids = [n[0] for n in w.nodes]
    qs = questions(w, ids, rng.choice([6, 10, 16]))
    a = w.rebuild()
    first = {}
    for k, (i, q) in enumerate(qs):
        first[k] = observe(w, a[i], i, q)
        count(mon, q)
    b = w.rebuild()
    order = list(range(len(qs)))
    if rng.random() < 0.5:
        rng.shuffle(order)
    else:
        order.reverse()
    extra = questions(w, ids, 6)
    for k in order:
        i, q = qs[k]
        if rng.random() < 0.4:
            j, p = rng.choice(extra)
            observe(w, b[j], j, p)
        agree(w, mon, i, q, observe(w, b[i], i, q), first[k], 'in a second order')
        if rng.random() < 0.3:
            mon.event('repeated')
            agree(w, mon, i, q, observe(w, b[i], i, q), first[k], 'when asked again')
    for k in rng.sample(order, 3):
        # The only question which this copy is asked
        i, q = qs[k]
        c = w.rebuild(w.ancestors(i))
        mon.event('one question each')
        agree(w, mon, i, q, observe(w, c[i], i, q), first[k], 'when asked first')


def edited(rng, mon, tier):
    """Questions between the edits do not change what is answered after them."""
    w = build(rng, STATE, loose=True)
    log_world(w, mon)
    ids = [n[0] for n in w.nodes]
    quiet = w.rebuild()
    for _ in range(rng.choice([1, 2, 4])):
        # One copy is asked between edits and the other one is not
        for i, q in questions(w, ids, rng.choice([2, 4, 8])):
            observe(w, w.live[i], i, q)
        src = rng.choice(editable(w))
        act = w.choose_edit(src, w.by_id[src][1], w.by_id[src][3])
        mon.log('edit', src, act)
        w.apply(src, act)
        asked, w.live = w.live, quiet
        w.apply_live(src, act)
        w.live = asked
    for i, q in questions(w, ids, 14):
        mon.event('asked after edits')
        count(mon, q)
        agree(w, mon, i, q, observe(w, w.live[i], i, q), observe(w, quiet[i], i, q),
              'on a curve which was asked between the edits')


def many(rng, mon, tier):
    """One curve is asked very many questions, and then some of them again."""
    w = build(rng, STATE, loose=True, n_derived=rng.choice([1, 2, 3]))
    log_world(w, mon)
    if rng.random() < 0.5:
        edit(w, mon, rng.choice(editable(w)))
    ids = [n[0] for n in w.nodes]
    i = ids[-1] if rng.random() < 0.8 else rng.choice(ids)
    c = w.rebuild(w.ancestors(i))[i]
    xs = w.query_xs(i, 20)
    xs = [x for x in xs if math.isfinite(x)]
    if not xs:
        return
    a, b = min(xs), max(xs)
    n = rng.choice([50, 200, 500, 1200])
    qs = [(('y', rng.choice(xs) if rng.random() < 0.1 else rng.uniform(a, b)) if rng.random() < 0.95 else random_query(w, i))
          for _ in range(n)]
    if rng.random() < 0.5:
        qs.sort(key=lambda q: q[1] if q[0] == 'y' else a)
    mon.log(f'{n} questions')
    first = [observe(w, c, i, q) for q in qs]
    mon.event('question', n)
    for k in rng.sample(range(n), 30):
        agree(w, mon, i, qs[k], observe(w, c, i, qs[k]), first[k], f'after {n} further questions')
    mon.event('very many questions', n > 300)
    fresh = w.rebuild(w.ancestors(i))[i]
    for k in rng.sample(range(n), 8):
        agree(w, mon, i, qs[k], observe(w, fresh, i, qs[k]), first[k], 'on another copy')


def apart(rng, mon, tier):
    """Curves which leave out points, as they step by more than the distance of the points."""
    h = rng.choice([0.5, 1, 2, 60])
    pts = make_points(rng, rng.choice([3, 8, 12, 20]), h, rng.choice([0, -5 * h]), rng.random() < 0.6)
    ms = rng.choice([0.5, 1, 1.5, 2, 2.5, 4]) * h
    k = rng.choice([1, 2, 3, 5])
    kind = rng.choice(['sma', 'sma', 'sma period', 'ema', 'smma', 'min', 'max', 'diff'])

    def make():
        src = Points(list(pts), uniform=False)
        if kind == 'sma':
            return src.sma(k, min_step=ms, uniform=False)
        if kind == 'sma period':
            return src.sma(k * h, is_period=True, min_step=ms, uniform=False)
        if kind == 'ema':
            return src.ema(1 / k, min_step=ms, uniform=False)
        if kind == 'smma':
            return src.smma(k, min_step=ms, uniform=False)
        if kind == 'diff':
            return src.map(lambda y: y, min_step=ms).differential()
        return getattr(src, 'trailing_' + kind)(k, min_step=ms, uniform=False)

    def answer(c, q):
        try:
            if q[0] == 'samples':
                return c.sample_points(iv(q[1]))
            return getattr(c, q[0])(*q[1:])
        except Exception as e:
            return 'raised'
    mon.log(kind, k, ms, pts)
    c = make()
    qs = []
    for _ in range(12):
        x = rng.choice(pts)[0] + rng.choice([0, 0, 0, 0.5, 0.25, 1]) * h
        qs.append(rng.choice([('y', x), ('y', x), ('y', x), ('x_next', x), ('x_previous', x),
                              ('samples', (x, x + 3 * h, False, False))]))
    for q in qs:
        e, a = answer(make(), q), answer(c, q)
        mon.same(a, e, lambda: f'{kind}({k}, min_step={ms}): {q} after {qs}', 1e-9, 1e-9)
        mon.event('with a minimum step', e is not None)


SCANS = {
    'ema': lambda c, h, u: c.ema(0.5, min_step=h, uniform=u),
    'smma': lambda c, h, u: c.smma(3, min_step=h, uniform=u),
    'sma': lambda c, h, u: c.sma(3, min_step=h, uniform=u),
    'sma period': lambda c, h, u: c.sma(3 * h, is_period=True, min_step=h, uniform=u),
    'rsi': lambda c, h, u: c.rsi(3, min_step=h, uniform=u),
    'integral': lambda c, h, u: c.integral(uniform=u),
    'trailing max': lambda c, h, u: c.trailing_max(2, min_step=h, uniform=u),
    'trailing min': lambda c, h, u: c.trailing_min(3 * h, is_period=True, min_step=h, uniform=u),
    'accumulator': lambda c, h, u: Accumulator(c, lambda x, y, last: (last or 0) + y, min_step=h, uniform=u),
}


def functions(rng, mon, tier):
    """Accumulating curves of a function which has steps, asked at these steps and between them."""
    h = rng.choice([0.5, 1, 2])
    lo, hi = rng.choice([0, -4]) * h, 12 * h
    a, b = rng.choice([1, 2, 3]), rng.choice([0, 1, -1])
    over = rng.choice(['function', 'map', 'differential'])
    kind = rng.choice(list(SCANS))
    uniform = rng.random() < 0.5

    def make():
        f = Generic(lambda x: a * math.sin(x) + b * x, domain=Interval(lo, hi), min_step=h)
        if over == 'map':
            f = f.map(lambda y: y + 1, min_step=h)
        elif over == 'differential':
            f = f.differential()
        return SCANS[kind](f, h, uniform)

    def answer(c, x):
        try:
            return c.y(x)
        except Exception as e:
            return 'raised'
    parts = [0, 0.5, 0.25] if not kind.startswith('sma') else [0]
    xs = [lo + (rng.randint(0, 14) + rng.choice(parts)) * h for _ in range(8)]
    mon.log(kind, 'of a', over, a, b, 'from', lo, 'to', hi, 'by', h, 'uniform' if uniform else 'uneven', xs)
    c = make()
    for x in xs:
        e, v = answer(make(), x), answer(c, x)
        mon.same(v, e, lambda: f'{kind} of a {over} at {x} after {xs}')
        mon.event('accumulated over a function', isinstance(e, float))


def parameters(rng, mon, tier):
    """Questions close to each other and with all of their parameters, next to curves which are asked only once."""
    h = rng.choice([0.5, 1, 2, 60])
    pts = make_points(rng, rng.choice([3, 6, 10, 16]), h, rng.choice([0, -5 * h]), rng.random() < 0.6)
    name, build_one = one_curve(rng, pts, h)
    make = lambda: build_one(lambda: series(pts))
    mon.log(name, pts)
    c = make()
    qs = []
    for _ in range(14):
        q = some_question(rng, mon, name, pts, h, qs)
        qs.append(q)
        e, a = answer(make(), q), answer(c, q)
        mon.observations += 1
        if e is not None:
            mon.informative += 1
            mon.fingerprint.update(repr((q, e)).encode())
        mon.event('with parameters', bool(q[2]))
        if not alike(a, e):
            mon.fail(f'{name}: {q} is {a!r} after {qs[:-1]}, but {e!r} when asked first')


families = [
    Family('parameters', parameters, 2500, 50000),
    Family('functions', functions, 400, 8000),
    Family('apart', apart, 2000, 40000),
    Family('many', many, 1000, 20000),
    Family('orders', orders, 5000, 100000),
    Family('edited', edited, 3500, 60000),
]
