"""C26: an exception of the user's code leaves no trace in the curves."""
from ..core import Family, Skip
from ..engine import iv_tuple
from ..graph import make_quote
from ..load import Quotes
from ..engine import build, log_world, edit, editable, observe, random_query, same_result, ANY, matches_rebuilt

RULE = ('Exceptions are injected into the functions and source curves of random graphs while these are asked; the same '
        'and other questions are then asked again and compared with a copy in which nothing failed. Non-trivial: at '
        'least one answer after a fault was a value.')
REQUIRED_EVENTS = ['fault', 'fault in a function', 'fault in a source', 'same question again', 'other questions',
                   'edited after a fault', 'fault in an encoder', 'faults in a row', 'fault during sampling',
                   'very many faults']

STATE = dict(ANY, arith=1.5, select=1.5, map=2.5, unary=0.5, sma=3, ema=3, smma=1.5, rsi=1, acc=3, integral=3,
             extremas=2.5, piecewise=1, ext=1.5, diff=1.5, field=0.3)


class Fault(Exception):
    pass


class Faults:
    """Raises at the n-th call of a wrapped function once it is armed."""

    sources = ('points', 'fn')

    def __init__(self, mon):
        self.mon = mon
        self.left = None

    def at(self, f):
        where = 'source' if hasattr(f, '__self__') else 'function'

        def wrapped(*a, **k):
            if self.left is not None:
                self.left -= 1
                if self.left < 0:
                    self.left = None
                    self.mon.event(f'fault in a {where}')
                    raise Fault()
            return f(*a, **k)
        return wrapped


def ask(w, mon, i, q, a, b, what):
    mon.observations += 1
    if b is not None:
        mon.informative += 1
        mon.fingerprint.update(repr((q, b)).encode())
    if not same_result(w, i, q, a, b):
        mon.log(*[f'\n   {s}' for s in w.describe()])
        mon.fail(f'{i}={w.by_id[i][1]} {w.by_id[i][3]}: {q} is {a!r} {what}, but {b!r} if nothing has failed')


def faults(rng, mon, tier):
    w = build(rng, STATE, loose=True)
    log_world(w, mon)
    f = Faults(mon)
    w.fault = f
    live = w.rebuild()
    w.fault = None
    w.live = live
    ids = [n[0] for n in w.nodes if n[0] not in w.state] or [n[0] for n in w.nodes]
    hits = 0
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(rng.choice([1, 1, 2, 4])):
            i = rng.choice(ids)
            for _ in range(rng.choice([0, 0, 1])):
                observe(w, live[i], i, random_query(w, i))
            q = random_query(w, i)
            f.left = rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 21, 40])
            try:
                observe(w, live[i], i, q)
                f.left = None
                continue
            except Fault:
                pass
            hits += 1
            mon.event('fault')
            if q[0] == 'samples':
                mon.event('fault during sampling')
            if hits > 1:
                mon.event('faults in a row')
            if rng.random() < 0.04:
                # Once more, and very often
                n = rng.choice([0, 0, 1, 3])
                failed = 0
                for _ in range(rng.choice([30, 300, 1200])):
                    f.left = n
                    try:
                        observe(w, live[i], i, q)
                    except Fault:
                        failed += 1
                    f.left = None
                mon.event('very many faults', failed > 200)
            if rng.random() < 0.5:
                c = w.rebuild(w.ancestors(i))
                ask(w, mon, i, q, observe(w, live[i], i, q), observe(w, c[i], i, q), 'after a fault')
                mon.event('same question again')
        if hits and rng.random() < 0.6:
            c = w.rebuild()
            for _ in range(8):
                i = rng.choice(ids)
                q = random_query(w, i)
                ask(w, mon, i, q, observe(w, live[i], i, q), observe(w, c[i], i, q), 'after a fault')
                mon.event('other questions')
        e = editable(w)
        if e and rng.random() < 0.7:
            edit(w, mon, rng.choice(e))
            if hits:
                mon.event('edited after a fault')
    if not hits:
        raise Skip()
    matches_rebuilt(w, mon, ids, 4, 'after a fault')


def encoders(rng, mon, tier):
    """An encoder which raises for one of the quotes."""
    rows = [(float(60 * i), make_quote(rng)) for i in range(rng.choice([2, 4, 7]))]
    bad = None

    def encode(p):
        if bad is not None and p['t'] == bad:
            raise Fault()
        return (p['t'], list(p['q']))
    given = [dict(t=t, q=q) for t, q in rows]
    k = rng.randrange(len(rows))
    q = Quotes(60, given[:k], encoder=encode)
    derived = q.close.sma(2), q.hl2.extension('constant'), q.trailing_high(2)
    told = []
    q.add_observer(begin=lambda: told.append('begin'), end=lambda: told.append('end'))

    def seen():
        xs = [t + d for t, _ in rows for d in (0, 30)] + [-60.0]
        return (q.sample_points(), iv_tuple(q.domain), q.is_updating, [[c.y(x) for x in xs] for c in derived],
                [c.is_updating for c in derived])
    for _ in range(rng.choice([1, 2])):
        before = seen()
        told.clear()
        j = rng.randrange(k, len(rows))
        bad = rows[j][0]
        mon.log(rows, k, j)
        how = rng.choice(['append', 'append_list', 'set'])
        try:
            if how == 'append':
                q.append(given[j])
            elif how == 'append_list':
                q.append_list(given[k:])
            else:
                q.set(given[:j + 1])
            mon.fail(f'{how} did not raise')
        except Fault:
            pass
        bad = None
        mon.event('fault in an encoder')
        mon.check(seen() == before, lambda: f'after {how} with a failing encoder: {seen()}, before {before}')
        mon.check(not told, lambda: f'told of {told} by a failing {how}')
    q.append_list(given[k:])
    mon.same(q.sample_points(), [(t, list(r)) for t, r in rows], 'quotes after a fault')
    fresh = Quotes(60, given, encoder=encode)
    d2 = fresh.close.sma(2), fresh.hl2.extension('constant'), fresh.trailing_high(2)
    for c, d in zip(derived, d2):
        for t, _ in rows:
            mon.same(c.y(t), d.y(t), lambda: f'{c} at {t}')


families = [
    Family('encoders', encoders, 1000, 10000),
    Family('faults', faults, 8000, 120000),
]
