"""C08: a derived curve always equals one rebuilt from the current data."""
from ..core import Family
from ..engine import (
    build, edit, log_world, matches_rebuilt, random_query, observe, editable, same_result, ANY, SOURCES, add_derived,
    weighted
)
from ..graph import World, make_points
from ..load import Interval
from ..single import alike, answer, evenly, one_curve, series, some_question

RULE = ('A random graph of curves is queried and its sources are edited in a random order; after each edit every '
        'derived curve is compared with the same graph rebuilt from scratch. Non-trivial: the rebuilt curve gave at '
        'least one value other than None.')
REQUIRED_EVENTS = ['rebuild', 'edit append', 'edit replace', 'edit reset', 'edit set', 'edit or_append',
                   'edit append_list', 'edit value', 'edit line', 'edit sin', 'read at begin', 'read at end',
                   'edit at end', 'edit by a derived curve', 'derived after edits', 'observed before curves are derived', 'long history',
                   'parameters after an edit', 'very many edits']


def queries(w, mon, ids, k):
    for _ in range(k):
        i = w.rng.choice(ids)
        observe(w, w.live[i], i, random_query(w, i))
        mon.event('query')


def live(rng, mon, tier):
    w = build(rng, loose=True)
    log_world(w, mon)
    ids = [n[0] for n in w.nodes]
    for _ in range(rng.choice([2, 4, 6, 10])):
        queries(w, mon, ids, rng.choice([0, 1, 3, 6]))
        if rng.random() < 0.08:
            # Curves may be derived at any time
            add_derived(w, weighted(rng, ANY))
            ids = [n[0] for n in w.nodes]
            mon.event('derived after edits')
        edit(w, mon, rng.choice(editable(w)))
        if rng.random() < 0.7:
            k = ids if len(ids) < 5 else rng.sample(ids, 4)
            matches_rebuilt(w, mon, k, 4)
    matches_rebuilt(w, mon, ids, 8, 'at the end')


def callbacks(rng, mon, tier):
    """Curves are read, and other sources are edited, by observers of an edit."""
    # What the observers do: they are quiet while the curves are compared
    state = {'active': False, 'depth': 0, 'old': None, 'midway': False}
    tokens = []
    early = set()

    def watch_sources(w):
        # The sources are observed before any curve is derived from them
        if rng.random() < 0.5:
            for i in editable(w):
                tokens.append((i, w.live[i].add_observer(begin=on_begin(i), end=on_end(i))))
                early.add(i)
            mon.event('observed before curves are derived')

    def on_begin(i):
        def f(interval):
            if not state['active']:
                return
            j = rng.choice(ids)
            q = random_query(w, j)
            try:
                a = observe(w, w.live[j], j, q)
            except Exception:
                if state['midway']:
                    return
                raise
            mon.event('read at begin')
            if i == state['source'] and state['depth'] == 0:
                # Nothing has changed yet
                e = observe(w, state['old'][j], j, q)
                mon.observations += 1
                if not same_result(w, j, q, a, e):
                    mon.fail(f'{j}={w.by_id[j][1]} {w.by_id[j][3]} when an update of {i} begins: '
                             f'{q} is {a!r}, but it was {e!r}')
        return f

    def on_end(i):
        def f(interval):
            if not state['active']:
                return
            if i != state['source']:
                # Until the source is done, only some of the curves know of the change
                others = [s for s in sources if s != state['source']]
                if others and state['depth'] == 0 and rng.random() < 0.1:
                    state['depth'] += 1
                    state['midway'] = True
                    for j in ids:
                        if rng.random() < 0.5:
                            try:
                                observe(w, w.live[j], j, random_query(w, j))
                            except Exception:
                                # What is read now is not claimed, only what remains of it afterwards
                                pass
                    edit(w, mon, rng.choice(others))
                    state['midway'] = False
                    state['depth'] -= 1
                    mon.event('edit by a derived curve')
                return
            j = rng.choice(ids)
            observe(w, w.live[j], j, random_query(w, j))
            mon.event('read at end')
            if state['depth'] == 0:
                # All curves which were derived from the source have been told
                matches_rebuilt(w, mon, rng.sample(ids, min(3, len(ids))), 2, f'when the update of {i} ends')
                others = [s for s in sources if s != i]
                if others and rng.random() < 0.3:
                    state['depth'] += 1
                    edit(w, mon, rng.choice(others))
                    state['depth'] -= 1
                    mon.event('edit at end')
        return f

    w = build(rng, n_derived=rng.choice([1, 2, 3, 4]), n_sources=rng.choice([1, 1, 2]), loose=True,
              after_sources=watch_sources)
    log_world(w, mon)
    ids = [n[0] for n in w.nodes]
    sources = editable(w)
    for i in ids:
        if i in early:
            continue
        if i in sources or rng.random() < 0.4:
            tokens.append((i, w.live[i].add_observer(begin=on_begin(i), end=on_end(i))))
    for _ in range(rng.choice([2, 3, 5])):
        queries(w, mon, ids, rng.choice([0, 2, 4]))
        state['source'] = rng.choice(sources)
        state['old'] = w.rebuild()
        state['active'] = True
        edit(w, mon, state['source'])
        state['active'] = False
        matches_rebuilt(w, mon, ids, 3, 'after an edit with observers')


DEEP = dict(ANY, arith=1, select=1, map=1, unary=0.3, sma=4, ema=4, smma=2, acc=3, integral=3, extremas=2, offset=2,
            diff=2, ext=2, piecewise=1, subset=1)


def deep(rng, mon, tier):
    """Long chains of curves which keep state, with reads in between."""
    w = build(rng, DEEP, {'points': 1}, n_sources=rng.choice([0, 1]), n_derived=rng.choice([3, 5, 7]), loose=True)
    log_world(w, mon)
    ids = [n[0] for n in w.nodes]
    for _ in range(rng.choice([3, 6])):
        queries(w, mon, ids[-3:], rng.choice([0, 1, 2]))
        edit(w, mon, rng.choice(editable(w)))
        if rng.random() < 0.6:
            matches_rebuilt(w, mon, ids[-2:], 3)
    matches_rebuilt(w, mon, ids, 5, 'at the end')


LONG = dict(ANY, sma=4, ema=4, smma=2, rsi=2, acc=4, integral=3, extremas=2, field=0)


def long(rng, mon, tier):
    """Series of hundreds of points with long histories of edits, mostly at the end."""
    w = build(rng, LONG, {'points': 1}, n_sources=rng.choice([0, 0, 1]), n_derived=rng.choice([1, 2, 3]), long=True)
    log_world(w, mon)
    ids = [n[0] for n in w.nodes]
    for k in range(rng.choice([10, 25, 50])):
        queries(w, mon, ids, rng.choice([0, 0, 1, 2]))
        edit(w, mon, rng.choice(editable(w)))
        if k % 5 == 4 and rng.random() < 0.5:
            matches_rebuilt(w, mon, rng.sample(ids, min(2, len(ids))), 3)
    mon.event('long history')
    matches_rebuilt(w, mon, ids, 8, 'at the end')


def many(rng, mon, tier):
    """A graph of few points is edited and asked very often."""
    w = build(rng, ANY, n_sources=rng.choice([0, 1]), n_derived=rng.choice([1, 2, 3]))
    log_world(w, mon)
    ids = [n[0] for n in w.nodes]
    n = rng.choice([20, 60, 150])
    for k in range(n):
        queries(w, mon, ids, rng.choice([0, 1, 1, 2]))
        edit(w, mon, rng.choice(editable(w)))
        if k % 20 == 19:
            matches_rebuilt(w, mon, rng.sample(ids, min(2, len(ids))), 3, f'after {k + 1} edits')
    mon.event('very many edits', n > 50)
    matches_rebuilt(w, mon, ids, 4, f'after {n} edits')


def one_step(rng, mon, tier):
    """Every kind of curve derived from one series, asked with all parameters between edits of the series."""
    h = rng.choice([0.5, 1, 2, 60])
    pts = make_points(rng, rng.choice([3, 6, 10, 16]), h, rng.choice([0, -5 * h]), rng.random() < 0.7)
    name, derive = one_curve(rng, pts, h)
    if name == 'blend':
        return      # its domain is fixed when it is made
    uniform = evenly(pts)
    step = pts[1][0] - pts[0][0] if uniform else h
    source = series(pts, uniform)
    c = derive(lambda: source)
    now = list(pts)
    mon.log(name, pts)
    history = []
    for _ in range(rng.choice([1, 2, 4])):
        asked = []
        for _ in range(rng.choice([1, 3, 6])):
            q = some_question(rng, mon, name, now, h, asked)
            asked.append(q)
            history.append(q)
            answer(c, q)
        kind = rng.choice(['append', 'append', 'append', 'replace', 'replace', 'set', 'reset'])
        value = round(rng.uniform(-8, 8), 3)
        if kind == 'append':
            p = (now[-1][0] + step, value)
            source.append(p)
            now.append(p)
        elif kind == 'replace':
            i = rng.choice([0, 1, -1, -2, rng.randrange(len(now))])
            p = now[i] = (now[i][0], value)
            source.replace(p)
        elif kind == 'set':
            p = now = [(x, round(y + value, 3)) for x, y in now]
            source.set(list(now))
        else:
            i = rng.randint(2, len(now))
            p = Interval.gte((now[i - 1][0] + now[i][0]) / 2 if i < len(now) else now[-1][0] + step)
            source.reset(p)
            now = now[:i]
        history.append((kind, p))
        fresh = derive(lambda: series(now, uniform))
        for q in rng.sample(asked, 1) + [some_question(rng, mon, name, now, h, asked) for _ in range(5)]:
            history.append(q)
            e, a = answer(fresh, q), answer(c, q)
            mon.event('parameters after an edit', bool(q[2]))
            mon.observations += 1
            if e is not None:
                mon.informative += 1
                mon.fingerprint.update(repr((q, e)).encode())
            if not alike(a, e):
                mon.fail(f'{name}: {q} is {a!r} after {history[-12:]}, but {e!r} on the rebuilt curve of {now}')


families = [
    Family('many', many, 500, 12000),
    Family('one_step', one_step, 2500, 50000),
    Family('live', live, 4000, 80000),
    Family('callbacks', callbacks, 2500, 40000),
    Family('deep', deep, 2500, 40000),
    Family('long', long, 200, 12000),
]
