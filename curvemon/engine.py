"""Workloads over random graphs, and the monitors which watch them."""
import math
from . import ref as R
from .core import close, Skip
from .graph import World, iv, iv_tuple, T

# Builders with their weights
ANY = {
    'arith': 3, 'select': 3, 'map': 2, 'unary': 1, 'diff': 1.5, 'offset': 1.5, 'shift': 0.8, 'integral': 1.5, 'sma': 2.5,
    'ema': 2.5, 'smma': 1, 'rsi': 0.7, 'acc': 2, 'extremas': 1, 'subset': 0.7, 'piecewise': 1, 'ext': 1, 'field': 0.5,
}
SOURCES = {'points': 6, 'const': 0.7, 'line': 0.5, 'sin': 0.3, 'fn': 0.4, 'quotes': 0.6}


def weighted(rng, weights):
    items = list(weights.items())
    x = rng.random() * sum(w for _, w in items)
    for k, w in items:
        x -= w
        if x < 0:
            return k
    return items[-1][0]


def build(rng, weights=ANY, sources=SOURCES, n_sources=None, n_derived=None, first='points', loose=False,
          after_sources=None, long=False):
    w = World(rng)
    w.loose = loose
    if long:
        w.make_long()
    if first:
        for _ in range(20):
            if add_source(w, first) is not None:
                break
    for _ in range(rng.choice([0, 1, 1, 2]) if n_sources is None else n_sources):
        add_source(w, weighted(rng, sources))
    if after_sources:
        after_sources(w)
    want = rng.choice([1, 2, 3, 3, 4, 5, 6]) if n_derived is None else n_derived
    for _ in range(want * 4):
        if len(w.deriveds()) >= want:
            break
        add_derived(w, weighted(rng, weights))
    return w


def add_source(w, kind, **kw):
    return getattr(w, f'add_{kind}')(**kw)


def add_derived(w, kind):
    return getattr(w, f'add_{kind}')()


def log_world(w, mon):
    for line in w.describe():
        mon.log(line)
    for n in w.nodes:
        mon.event(f'node {n[1]}')


def edit(w, mon, source=None):
    r = w.rng
    source = source or r.choice(w.sources()) if w.sources() else None
    if source is None:
        return None
    _, op, _, a = w.by_id[source]
    if op in ('fn', 'empty'):
        return None
    act = w.choose_edit(source, op, a)
    mon.log('edit', source, act)
    mon.event(f'edit {act[0]}')
    w.apply(source, act)
    return source, act


def editable(w, of=None):
    ids = w.sources() if of is None else [i for i in w.ancestors(of) if i in w.state]
    return [i for i in ids if w.by_id[i][1] not in ('fn', 'empty')]


# --- observations of one curve, comparable between curves

def observe(w, c, i, q):
    """Performs the query q on the curve c of node i."""
    kind = q[0]
    if c is w.live.get(i):
        w.asked[i, kind] = q
        w.last = (i, q)
    if kind == 'y':
        return c.y(q[1])
    if kind == 'call':
        return c(q[1])
    if kind == 'next':
        return c.x_next(q[1]) if len(q) == 2 else c.x_next(q[1], min_step=q[2])
    if kind == 'prev':
        return c.x_previous(q[1]) if len(q) == 2 else c.x_previous(q[1], min_step=q[2])
    if kind == 'next_point':
        return c.next_point(q[1])
    if kind == 'previous_point':
        return c.previous_point(q[1])
    if kind == 'domain':
        return iv_tuple(c.domain)
    if kind == 'd_y':
        return c.d_y(q[1], forward=q[2])
    if kind == 'samples':
        d = None if q[1] is None else iv(q[1])
        points = c.sample_points(domain=d) if q[2] is None else c.sample_points(domain=d, min_step=q[2])
        result = list(points)
        if isinstance(points, list):
            # The list belongs to the one who asked
            points.clear()
        return result
    if kind == 'range':
        r = c.get_range(domain=None if q[1] is None else iv(q[1]))
        return iv_tuple(r)
    if kind == 'first_point':
        return c.first_point()
    if kind == 'last_point':
        return c.last_point()
    raise ValueError(kind)


def some_interval(w, i):
    """A finite interval around the domain of i."""
    r = w.rng
    xs = sorted(w.query_xs(i, 6))
    a, b = r.choice(xs), r.choice(xs)
    a, b = min(a, b), max(a, b)
    if a == b:
        b = a + w.h * r.choice([0, 1, 2])
    lo_open, hi_open = (False, False) if a == b else (r.random() < 0.35, r.random() < 0.35)
    return (a, b, lo_open, hi_open)


def random_query(w, i, kinds=None):
    r = w.rng
    t = w.traits[i]
    op = w.by_id[i][1]
    k = ['y', 'y', 'y', 'y', 'call', 'domain']
    if t.steps or op == 'extremas':
        k += ['next', 'prev', 'next', 'prev', 'samples', 'next_point', 'previous_point']
        if not t.wild:
            k += ['d_y', 'first_point', 'last_point']
            if t.total and not t.wide:
                k.append('range')
    elif t.finite and t.grid == 'dense':
        k += ['dsamples']
    if kinds:
        k = [v for v in k if v in kinds] or ['y']
    kind = r.choice(k)
    x = w.query_xs(i, 1)[0]
    if kind in ('y', 'call', 'next_point', 'previous_point'):
        return (kind, x)
    if kind in ('next', 'prev'):
        return (kind, x) if r.random() < 0.7 else (kind, x, w.h * r.choice([0.125, 0.5, 1, 1.5, 4]))
    if kind == 'd_y':
        return (kind, x, r.random() < 0.5)
    if kind == 'dsamples':
        return ('samples', None, w.h * r.choice([0.5, 0.25]))
    if kind == 'samples':
        return (kind, None if r.random() < 0.4 and t.finite else some_interval(w, i), None)
    if kind == 'range':
        return (kind, None if t.finite and r.random() < 0.5 else some_interval(w, i))
    return (kind,)


def same_result(w, i, q, a, b):
    rel, abs_ = w.tol(i)
    if q[0] in ('y', 'call'):
        return w.compare(i, a, b)
    if q[0] in ('samples', 'next_point', 'previous_point', 'first_point', 'last_point'):
        pa = [a] if q[0] != 'samples' else a
        pb = [b] if q[0] != 'samples' else b
        if pa == [None] or pb == [None]:
            return pa == pb
        return len(pa) == len(pb) and all(
            close(p[0], s[0]) and w.compare(i, p[1], s[1]) for p, s in zip(pa, pb))
    if q[0] == 'd_y':
        # Differences of rounding errors are divided by the distance
        return close(a, b, max(rel, 1e-7), max(abs_, 1e-7, abs_ / min(w.h, 1) * 8))
    return close(a, b, rel, abs_)


# --- monitors against the reference

def values_match(w, mon, i, k=8, when=''):
    # What was asked last, before an edit perhaps, is asked again first
    q = w.asked.get((i, 'y'))
    for x in ([q[1]] if q else []) + w.query_xs(i, k):
        value_matches(w, mon, i, x, when)


def value_matches(w, mon, i, x, when=''):
    e = w.ref[i].y(x)
    a = observe(w, w.live[i], i, ('y', x))
    mon.observations += 1
    if e is not None:
        mon.informative += 1
        mon.fingerprint.update(repr(e).encode())
    if not w.compare(i, a, e):
        mon.log(*[f'\n   {s}' for s in w.describe()])
        mon.fail(f'{i}={w.by_id[i][1]} {w.by_id[i][3]} {when}: y({x}) is {a!r}, expected {e!r}')


def steps_match(w, mon, i, k=4):
    if not w.traits[i].steps:
        return
    r = w.rng
    c, ref = w.live[i], w.ref[i]
    qs = [w.asked[i, kind] for kind in ('next', 'prev') if (i, kind) in w.asked]
    for x in w.query_xs(i, k):
        for kind in ('next', 'prev'):
            qs.append((kind, x) if r.random() < 0.7 else (kind, x, w.h * r.choice([0.125, 0.5, 1, 1.5, 4])))
    for q in qs:
        a = observe(w, c, i, q)
        e = (ref.nxt if q[0] == 'next' else ref.prv)(*q[1:])
        mon.same(a, e, lambda: f'{i}={w.by_id[i][1]} {q}', 0, 1e-9)


def domain_matches(w, mon, i):
    e = w.ref[i].dom()
    a = iv_tuple(w.live[i].domain)
    mon.check(a == e, lambda: f'{i}={w.by_id[i][1]} {w.by_id[i][3]}: domain is {a}, expected {e}', e is not None)


def samples_match(w, mon, i):
    t = w.traits[i]
    r = w.rng
    dense = t.grid == 'dense'
    if not (t.steps or dense and not t.ext):
        return
    if dense and 'field' in {w.by_id[k][1] for k in w.ancestors(i)}:
        return      # fields have a larger minimum step
    d = None if t.finite and r.random() < 0.4 else some_interval(w, i)
    ms = None
    if dense:
        ms = w.h * r.choice([0.25, 0.5, 1])
    elif r.random() < 0.3 and w.by_id[i][1] != 'points':
        ms = w.h * r.choice([0.5, 1, 2, 3])
    if (i, 'sampled') in w.asked and r.random() < 0.5:
        d, ms = w.asked[i, 'sampled'][1:]
    w.asked[i, 'sampled'] = ('sampled', d, ms)
    c, ref = w.live[i], w.ref[i]
    full = ref.dom() if d is None else R.intersect([ref.dom(), d])
    if dense and full is not None and (full[1] - full[0]) / ms > 400:
        return
    kw = {} if ms is None else {'min_step': ms}
    a = c.sample_points(domain=None if d is None else iv(d), **kw)
    e = ref.samples(d, ms or R.MS)
    ok = len(a) == len(e) and all(close(p[0], s[0]) and w.compare(i, p[1], s[1]) for p, s in zip(a, e))
    mon.check(ok, lambda: f'{i}={w.by_id[i][1]} sample_points({d}, {ms}) is {a}, expected {e}', len(e) > 0)


def matches_rebuilt(w, mon, ids, k=6, when=''):
    """The live curves agree with the same graph built from scratch."""
    fresh = w.rebuild()
    mon.event('rebuild')
    todo = [w.last] if w.last and w.last[0] in fresh else []
    for i in ids:
        # What was asked last, before an edit perhaps, is asked again first
        qs = [q for (j, kind), q in w.asked.items() if j == i and kind != 'sampled']
        qs += [('domain',)] + [('y', x) for x in w.query_xs(i, k)] + [random_query(w, i) for _ in range(3)]
        todo += [(i, q) for q in qs]
    for i, q in todo:
        e = observe(w, fresh[i], i, q)
        a = observe(w, w.live[i], i, q)
        mon.observations += 1
        if e is not None:
            mon.informative += 1
            mon.fingerprint.update(repr(e).encode())
        if not same_result(w, i, q, a, e):
            mon.log(*[f'\n   {s}' for s in w.describe()])
            mon.fail(f'{i}={w.by_id[i][1]} {w.by_id[i][3]} {when}: {q} is {a!r}, '
                     f'but {e!r} if it is rebuilt from the same data')


# --- families

def check_node(w, mon, i, k=8, when=''):
    domain_matches(w, mon, i)
    values_match(w, mon, i, k, when)
    steps_match(w, mon, i, 2)
    samples_match(w, mon, i)


def graph_family(ops, weights=None, sources=SOURCES, first='points', edits=(0, 1, 2, 3), check=check_node,
                 n_derived=None, prepare=None, long=False):
    """Curves of the given kinds anywhere in a random graph agree with the reference, also after edits."""
    if weights is None:
        weights = ANY

    def run(rng, mon, tier):
        w = build(rng, weights, sources, n_derived=rng.choice([0, 1, 1, 2, 3]) if n_derived is None else n_derived,
                  first=first, long=long)
        if prepare:
            prepare(w)
        wanted = rng.choice([1, 1, 2, 3])
        adders = [OPS_ADDERS.get(o, o) for o in ops]
        for _ in range(25):
            if sum(1 for n in w.nodes if n[1] in ops) >= wanted:
                break
            a = rng.choice(adders)
            if isinstance(a, tuple):
                getattr(w, a[0])(a[1])
            else:
                getattr(w, 'add_' + a)()
            if rng.random() < 0.4:
                add_derived(w, weighted(rng, weights))
        targets = [n[0] for n in w.nodes if n[1] in ops]
        if not targets:
            raise Skip()
        log_world(w, mon)
        for i in targets:
            check(w, mon, i, 8, 'at first')
        if long:
            mon.event('long history')
        for k in range(rng.choice(edits)):
            src = editable(w, rng.choice(targets))
            if not src:
                break
            read = rng.random() < 0.4
            if read:
                read_while_edited(w, mon, rng.choice(src), targets)
            else:
                edit(w, mon, rng.choice(src))
            for i in targets:
                if rng.random() < (0.25 if long else 0.9 if read else 0.7):
                    check(w, mon, i, 5, 'after an edit')
    return run


def read_while_edited(w, mon, source, targets):
    """An edit, at the begin or end of which the curves are read. What they answer is compared afterwards."""
    r = w.rng
    at_begin, at_end = r.random() < 0.8, r.random() < 0.4

    def read():
        for i in targets:
            q = w.asked.get((i, 'y'))
            xs = w.query_xs(i, 1) + ([q[1]] if q and r.random() < 0.5 else [])
            for x in xs:
                observe(w, w.live[i], i, ('y', x))
            if r.random() < 0.3:
                observe(w, w.live[i], i, ('domain',))
        mon.event('read while edited')

    token = w.live[source].add_observer(begin=read if at_begin else None, end=read if at_end or not at_begin else None)
    edit(w, mon, source)
    w.live[source].remove_observer(token)


OPS_ADDERS = {
    'add': ('add_arith', 'add'), 'sub': ('add_arith', 'sub'), 'mul': ('add_arith', 'mul'), 'div': ('add_arith', 'div'),
    'pow': ('add_arith', 'pow'), 'log': ('add_arith', 'log'), 'min': ('add_select', 'min'),
    'max': ('add_select', 'max'), 'first': ('add_select', 'first'), 'neg': ('add_unary', 'neg'),
    'abs': ('add_unary', 'abs'), 'inv': ('add_unary', 'inv'),
}
