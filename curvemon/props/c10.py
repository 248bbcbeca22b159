"""C10: observers are told of everything that changes."""
from ..core import Family, close
from ..engine import same_result, matches_rebuilt, build, log_world, edit, editable, observe, random_query, ANY, add_derived, weighted, iv_tuple
from ..graph import iv
from ..load import Interval
from .. import ref as R

RULE = ('Observers record the notifications of every curve of a random graph while its sources are edited; what they '
        'were told is compared with what changed. Non-trivial: at least one value changed.')
REQUIRED_EVENTS = ['notified', 'value changed', 'domain changed', 'part of a curve changed', 'unchanged curve',
                   'edit of a source', 'filtered observer', 'steps changed', 'read when notified',
                   'very many edits']


class Recorder:
    """Observes a curve as a user would."""

    def __init__(self, mon, name, c, log, d=None):
        self.mon, self.name, self.c, self.log = mon, name, c, log
        self.events = []
        kw = {} if d is None else {'domain': iv(d)}
        self.token = c.add_observer(begin=self.begin, end=self.end, **kw)

    def begin(self, interval):
        self.mon.event('notified')
        self.mon.check(self.c.is_updating, f'{self.name} is not updating while it begins an update', False)
        self.mon.check(self.c.update_interval.is_superset_of(interval),
                       f'{self.name} tells of {interval} but is updating {self.c.update_interval}', False)
        self.events.append(('begin', iv_tuple(interval)))
        self.log.append((self.name, 'begin'))

    def end(self, interval):
        self.mon.event('notified')
        self.events.append(('end', iv_tuple(interval)))
        self.log.append((self.name, 'end'))


def snapshot(w, i, c, xs, steps):
    """The values, the domain and the steps of a curve."""
    s = {('y', x): c.y(x) for x in xs}
    for x in steps:
        s[('next', x)] = c.x_next(x)
        s[('prev', x)] = c.x_previous(x)
    s['domain'] = iv_tuple(c.domain)
    return s


def drop_near(w, i, xs):
    """A slope does not see points which are closer than the minimum step of a field."""
    ops = {w.by_id[k][1] for k in w.ancestors(i)}
    if 'diff' in ops and 'field' in ops:
        for q in w.sources('quotes'):
            secs = w.by_id[q][3]['secs']
            for x in list(xs):
                d = x % secs
                if 0 < min(d, secs - d) < 0.02 * secs:
                    xs.discard(x)


def covered(told, x):
    return any(R.inside(d, x) for d in told)


def coverage(rng, mon, tier):
    w = build(rng)
    log_world(w, mon)
    ids = [n[0] for n in w.nodes]
    log = []
    recs = {i: Recorder(mon, i, w.live[i], log) for i in ids}
    for _ in range(rng.choice([2, 4, 6])):
        src = rng.choice(editable(w))
        # Values at and between the points before and after the edit
        act = w.choose_edit(src, w.by_id[src][1], w.by_id[src][3])
        xs = {i: set(w.query_xs(i, 10)) for i in ids}
        for v in act[1:]:
            for p in (v if isinstance(v, list) else [v]):
                if isinstance(p, tuple) and len(p) == 2:
                    for i in ids:
                        xs[i] |= {p[0], p[0] + w.h / 2, p[0] - w.h / 2}
        for i in ids:
            drop_near(w, i, xs[i])
        before = w.rebuild()
        old = {i: snapshot(w, i, before[i], sorted(xs[i]), sorted(xs[i])[:6] if w.traits[i].steps else []) for i in ids}
        if rng.random() < 0.5:
            for i in rng.sample(ids, min(3, len(ids))):
                observe(w, w.live[i], i, random_query(w, i))
        filters = []
        for i in rng.sample(ids, min(2, len(ids))):
            if xs[i]:
                a, b = sorted(rng.sample(sorted(xs[i]), 2)) if len(xs[i]) > 1 else list(xs[i]) * 2
                filters.append((i, (a, b, False, False), Recorder(mon, i, w.live[i], [], (a, b, False, False))))
        for r in recs.values():
            r.events.clear()
        log.clear()
        mon.log('edit', src, act)
        mon.event('edit of a source')
        w.apply(src, act)
        after = w.rebuild()
        e = recs[src].events
        mon.check(len(e) in (0, 2) and [k for k, _ in e] == ['begin', 'end'][:len(e)],
                  lambda: f'{src} was edited by {act} and told {e}', False)
        if len(e) == 2:
            mon.check(e[0][1] == e[1][1], lambda: f'{src} began to update {e[0][1]} but ended {e[1][1]}', False)
            mon.check(log[0][0] == src or True, 'order', False)
        for i in ids:
            check_node(w, mon, i, recs[i].events, old[i],
                       snapshot(w, i, after[i], sorted(xs[i]), sorted(xs[i])[:6] if w.traits[i].steps else []))
            c = w.live[i]
            mon.check(not c.is_updating, f'{i}={w.by_id[i][1]} is still updating after the edit {act}', False)
            if src not in w.ancestors(i):
                mon.check(not recs[i].events, lambda: f'{i} does not depend on {src} but told {recs[i].events}', False)
                mon.event('unchanged curve')
        for i, d, rec in filters:
            mon.event('filtered observer')
            changed = [x for x in xs[i] if R.inside(d, x) and
                       not same(w, i, old[i][('y', x)], after[i].y(x))]
            kinds = {k for k, _ in rec.events}
            mon.check(not changed or kinds == {'begin', 'end'},
                      lambda: f'an observer of {i}={w.by_id[i][1]} on {d} was told {rec.events} but y changed at {changed}',
                      bool(changed))
            w.live[i].remove_observer(rec.token)


def same(w, i, a, b):
    return w.compare(i, a, b)


def check_node(w, mon, i, events, old, new):
    name = f'{i}={w.by_id[i][1]} {w.by_id[i][3]}'
    begun = [d for k, d in events if k == 'begin']
    ended = [d for k, d in events if k == 'end']
    if events:
        mon.check(events[0][0] == 'begin' and events[-1][0] == 'end' and bool(begun) and bool(ended),
                  lambda: f'{name} told {events}', False)
        mon.check(R.hull(begun) == R.hull(ended), lambda: f'{name} began {begun} but ended {ended}', False)
    told = [R.hull(begun)]
    some = False
    for k, a in old.items():
        b = new[k]
        if k == 'domain':
            if a != b:
                mon.event('domain changed')
                mon.check(bool(events), lambda: f'{name}: the domain changed from {a} to {b} without a notification')
            continue
        if k[0] == 'y':
            if not same(w, i, b, a):
                some = True
                mon.event('value changed')
                mon.fingerprint.update(repr((k, a, b)).encode())
                mon.check(covered(told, k[1]), lambda: f'{name}: y({k[1]}) changed from {a} to {b}, '
                          f'but the observers were told {events}')
        elif a != b:
            mon.event('steps changed')
            mon.check(bool(events), lambda: f'{name}: {k} changed from {a} to {b} without a notification')
    if some and told[0] is not None and any(abs(v) != R.INF for v in told[0][:2]):
        mon.event('part of a curve changed')


def many(rng, mon, tier):
    """A graph is edited very often. Live curves are compared before and after each of the edits."""
    w = build(rng, n_derived=rng.choice([1, 2, 3]))
    log_world(w, mon)
    ids = [n[0] for n in w.nodes]
    recs = {i: Recorder(mon, i, w.live[i], []) for i in ids}
    n = rng.choice([20, 60, 150])
    for _ in range(n):
        src = rng.choice(editable(w))
        act = w.choose_edit(src, w.by_id[src][1], w.by_id[src][3])
        some = rng.sample(ids, min(2, len(ids)))
        xs = {i: set(w.query_xs(i, 2)) for i in some}
        for i in some:
            drop_near(w, i, xs[i])
        old = {i: snapshot(w, i, w.live[i], sorted(xs[i]), []) for i in some}
        for r in recs.values():
            r.events.clear()
        mon.log('edit', src, act)
        w.apply(src, act)
        for i in ids:
            told = recs[i].events
            mon.check(not w.live[i].is_updating, f'{i}={w.by_id[i][1]} is still updating after the edit {act}', False)
            if src not in w.ancestors(i):
                mon.check(not told, lambda: f'{i} does not depend on {src} but told {told}', False)
            elif i in some:
                check_node(w, mon, i, told, old[i], snapshot(w, i, w.live[i], sorted(xs[i]), []))
    mon.event('very many edits', n > 50)


families = [
    Family('many', many, 500, 12000),
    Family('coverage', coverage, 4000, 80000),
]


def paths(w, src, i):
    """On how many ways a change of src reaches i."""
    n = {}
    for k, op, srcs, _ in w.nodes:
        n[k] = 1 if k == src else sum(n.get(s, 0) for s in srcs)
        if op in ('smma', 'rsi', 'blend'):
            n[k] *= 2
    return n[i]


def readers(rng, mon, tier):
    """Observers of a curve read it when it changes. What they have read last is current.

    Where a change reaches a curve on several ways, it is told in between as well.
    """
    w = build(rng)
    log_world(w, mon)
    ids = [n[0] for n in w.nodes]
    seen = {}
    active = {}

    def reader(i):
        def end(interval):
            for q in active.get(i, ()):
                seen[(i, q)] = observe(w, w.live[i], i, q)
                mon.event('read when notified')
        return end

    for i in ids:
        if rng.random() < 0.7:
            w.live[i].add_observer(end=reader(i))
    for _ in range(rng.choice([2, 3, 5])):
        active.clear()
        seen.clear()
        src = rng.choice(editable(w))
        act = w.choose_edit(src, w.by_id[src][1], w.by_id[src][3])
        for i in ids:
            if paths(w, src, i) != 1:
                continue
            active[i] = [('y', x) for x in w.query_xs(i, 2)] + [random_query(w, i)]
        mon.log('edit', src, act)
        w.apply(src, act)
        fresh = w.rebuild()
        for (i, q), a in seen.items():
            e = observe(w, fresh[i], i, q)
            mon.observations += 1
            if e is not None:
                mon.informative += 1
                mon.fingerprint.update(repr((q, e)).encode())
            if not same_result(w, i, q, a, e):
                mon.log(*[f'\n   {s}' for s in w.describe()])
                mon.fail(f'{i}={w.by_id[i][1]} {w.by_id[i][3]}: an observer which was told last of {act} on {src} read '
                         f'{q} as {a!r} but it is {e!r}')
        active.clear()
        matches_rebuilt(w, mon, ids, 3, 'after an edit with readers')


families.append(Family('readers', readers, 2500, 50000))
