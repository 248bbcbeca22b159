"""C03: a rejected edit raises and leaves no trace."""
import math
from ..core import Family, Violation
from ..engine import iv_tuple, observe, random_query, same_result, build, editable, log_world, edit, matches_rebuilt
from ..graph import World, make_quote, make_points, ydata
from ..load import Points, Line, Sin, Quotes, Interval
from .. import ref as R

RULE = ('Edits which are not valid are attempted on the sources of a random graph in between valid ones. Each must '
        'raise, notify nobody, leave the source and the curves derived from it as they were, and not get in the way '
        'of later edits. Non-trivial: an edit was rejected while the source held points.')
REQUIRED_EVENTS = ['append not ascending', 'append duplicate', 'append off the grid', 'later point off the grid',
                   'replace outside', 'replace between', 'set not evenly spaced', 'reset leaves a gap',
                   'line without slope', 'sin without period', 'quotes not ascending', 'insert off the grid']


def bad_edits(w, i):
    """Edits of source i which are not valid: (name, callable on a curve)."""
    r = w.rng
    _, op, _, a = w.by_id[i]
    st = w.state[i]
    out = []
    if op == 'line':
        out.append(('line without slope', lambda c: c.set(p1=(0, 1))))
        out.append(('line without point', lambda c: c.set(slope=2)))
        out.append(('line without anything', lambda c: c.set()))
        return out
    if op == 'sin':
        out.append(('sin without period', lambda c: c.set(amplitude=2)))
        out.append(('sin without amplitude', lambda c: c.set(period=3)))
        out.append(('sin without period', lambda c: c.set(amplitude=3, phase=1)))
        return out
    if op not in ('points', 'quotes'):
        return out
    pts = st['pts']
    if not pts:
        return out
    xs = [p[0] for p in pts]
    h = a['h'] if op == 'points' else a['secs']
    uniform = op == 'quotes' or a['uniform']

    def y():
        return make_quote(r) if op == 'quotes' else ydata(r)
    before = r.choice([xs[0] - h, xs[0] - h / 2, r.choice(xs), xs[-1] - h / 4 if len(xs) > 1 else xs[0]])
    if before >= xs[-1]:
        before = xs[-1]
    name = 'append duplicate' if before in xs else 'append not ascending'
    if op == 'quotes':
        name = 'quotes not ascending'
    p = (before, y())
    out.append((name, lambda c: c.append(p)))
    out.append((name, lambda c: c.append_list([p, (xs[-1] + h, y())])))
    if op == 'points':
        off = r.choice([xs[0] - h, xs[0] - 0.01 * h, xs[-1] + 0.01 * h, xs[-1] + h, xs[-1] + 5 * h])
        out.append(('replace outside', lambda c: c.replace((off, y()))))
        # Appending by replacing is not possible before the first point
        out.append(('replace before', lambda c: c.replace((xs[0] - r.choice([1, 0.5]) * h, y()), or_append=True)))
    if uniform and len(pts) > 1:
        x1 = xs[-1] + h * r.choice([0.5, 1.5, 2, 3, 0.9, 1.1, 1.01])
        out.append(('append off the grid', lambda c: c.append((x1, y()))))
        k = r.choice([2, 3, 4])
        tail = [(xs[-1] + (j + 1) * h, y()) for j in range(k)]
        j = r.randrange(k)
        d = r.choice([0.5, -0.5, 0.1, -0.1])
        tail[j] = (tail[j][0] + d * h, tail[j][1])
        # ...the last one is on the grid, too
        out.append(('later point off the grid', lambda c: c.append_list(list(tail))))
        n = r.choice([3, 4, 5])
        j = r.randrange(1, n - 1)
        x0 = xs[0] + r.randint(-3, 3) * h
        new = [(x0 + m * h, y()) for m in range(n)]
        new[j] = (new[j][0] + d * h, new[j][1])
        out.append(('set not evenly spaced', lambda c: c.set(list(new))))
        if op == 'points':
            m = r.randrange(len(xs) - 1)
            xb = xs[m] + (xs[m + 1] - xs[m]) * r.choice([0.5, 0.25, 0.01, 0.99])
            out.append(('replace between', lambda c: c.replace((xb, y()))))
            out.append(('insert off the grid', lambda c: c.replace((xb, y()), or_append=True)))
            if len(xs) > 2:
                m = r.randrange(1, len(xs) - 1)
                out.append(('reset leaves a gap', lambda c: c.reset(Interval.closed(xs[m] - h / 4, xs[m] + h / 4))))
    return out


def snapshot(w, i, c):
    qs = [('domain',)] + [('y', x) for x in w.query_xs(i, 5)]
    t = w.traits[i]
    if w.by_id[i][1] in ('points', 'quotes'):
        qs.append(('samples', None, None))
    if w.by_id[i][1] != 'quotes':
        qs += [random_query(w, i) for _ in range(2)]
    return [(q, observe(w, c, i, q)) for q in qs]


def recorder(calls, kind, i):
    return lambda d: calls.append((kind, i))


def rejected(rng, mon, tier):
    w = build(rng, n_derived=rng.choice([0, 1, 2, 3]),
              sources={'points': 4, 'quotes': 2, 'line': 1, 'sin': 1})
    log_world(w, mon)
    ids = [n[0] for n in w.nodes]
    calls = []
    for i in ids:
        w.live[i].add_observer(begin=recorder(calls, 'begin', i), end=recorder(calls, 'end', i))
    for _ in range(rng.choice([2, 4, 6])):
        i = rng.choice(editable(w))
        bad = bad_edits(w, i)
        if not bad:
            edit(w, mon, i)
            continue
        before = {j: snapshot(w, j, w.live[j]) for j in (ids if rng.random() < 0.5 else [i])}
        calls.clear()
        for name, f in rng.sample(bad, min(len(bad), 2)):
            mon.log('try', i, name)
            try:
                f(w.live[i])
                ok = False
            except Exception as e:
                ok = True
            mon.check(ok, lambda: f'{i}: "{name}" was accepted with points {w.state[i]}', True)
            mon.event(name)
        mon.check(not calls, lambda: f'{i}: "{name}" notified {calls}')
        for j in ids:
            mon.check(not w.live[j].is_updating, lambda: f'{j} is updating after "{name}" of {i} was rejected')
        for j, snap in before.items():
            for q, e in snap:
                a = observe(w, w.live[j], j, q)
                mon.observations += 1
                if not same_result(w, j, q, a, e):
                    mon.fail(f'{j}={w.by_id[j][1]}: {q} is {a!r} after "{name}" of {i} was rejected, but {e!r} before')
        # A valid edit is still possible and still notifies
        if rng.random() < 0.7:
            k = rng.choice(editable(w))
            old = repr(w.state[k])
            calls.clear()
            _, act = edit(w, mon, k)
            for j in ids:
                mon.check(not w.live[j].is_updating, lambda: f'{j} is updating after a valid edit')
            if old != repr(w.state[k]) and w.by_id[k][1] != 'const':
                got = [c[0] for c in calls if c[1] == k]
                mon.check(got == ['begin', 'end'], lambda: f'{k}: the valid edit {act} notified {got}')
            if rng.random() < 0.5:
                matches_rebuilt(w, mon, rng.sample(ids, min(len(ids), 3)), 3)


def constructors(rng, mon, tier):
    """Series which are not valid cannot be made."""
    h = rng.choice([1, 0.5, 60])
    n = rng.choice([3, 4, 6, 10])
    x0 = rng.choice([0, -3, 1000])
    xs = [x0 + i * h for i in range(n)]
    j = rng.randrange(1, n - 1)
    xs[j] += h * rng.choice([0.1, -0.1, 0.5, -0.5, 0.01])
    pts = [(x, ydata(rng)) for x in xs]
    try:
        Points(list(pts))
        ok = False
    except Exception:
        ok = True
    mon.check(ok, lambda: f'Points({pts}) was accepted as evenly spaced')
    mon.fingerprint.update(repr(pts).encode())
    mon.event('constructor')
    c = Points(list(pts), uniform=False)
    mon.check(c.sample_points() == pts, 'an irregular series holds its points')


families = [
    Family('rejected', rejected, 5000, 80000),
    Family('constructors', constructors, 300, 3000),
]
