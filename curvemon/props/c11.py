"""C11: observers are called as they were registered."""
import gc
import weakref
import functools
from ..core import Family
from ..engine import iv_tuple
from ..graph import World, iv, make_points, ydata
from ..load import Points, Constant, Curve, Generic
from .. import ref as R

RULE = ('Observers are added to and removed from a curve in random ways, also by each other during a notification, '
        'while the curve is edited; the calls they receive are compared with a model of the registry. Non-trivial: at '
        'least one observer was called.')
REQUIRED_EVENTS = ['called', 'not called', 'removed by token', 'removed by object', 'removed with its object',
                   'removed during a notification', 'removed itself', 'added during a notification', 'prioritized',
                   'without interval', 'method', 'no callbacks', 'same callback twice', 'object released',
                   'other callable', 'all removed during a notification',
                   'several begins of an update', 'very many observers']

WITH_INTERVAL = ('interval', 'method', 'default', 'callable', 'partial')
OTHER = ['default', 'callable', 'partial', 'keyword only']
FORMS = ['interval'] * 4 + ['none'] * 2 + ['method'] * 2 + ['bare method'] * 2 + OTHER


class Obj:
    pass


class Entry:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Registry:
    """Both the curve and the model of its observers."""

    def __init__(self, rng, mon, c):
        self.rng, self.mon, self.c = rng, mon, c
        self.model = []         # entries in the order of their calls
        self.objects = {}       # name: object
        self.owned = {}         # name: names of entries
        self.calls = []
        self.n = 0
        self.busy = False

    # What the callbacks do

    def called(self, e, kind, *args):
        self.calls.append((e.name, kind, tuple(iv_tuple(a) for a in args)))
        for act in e.acts.get(kind, ()):
            self.act_live(act, e)

    def callback(self, e, kind, form):
        # No callback may hold on to the object of its observer
        if form == 'interval':
            return lambda interval: self.called(e, kind, interval)
        if form == 'none':
            return lambda: self.called(e, kind)
        reg = self

        class Handler:
            def with_interval(self, interval):
                reg.called(e, kind, interval)

            def without(self):
                reg.called(e, kind)

            def __call__(self, interval):
                reg.called(e, kind, interval)
        h = Handler()
        if form == 'default':
            return lambda interval=None: self.called(e, kind, *([] if interval is None else [interval]))
        if form == 'callable':
            return h
        if form == 'partial':
            return functools.partial(lambda what, interval: self.called(e, what, interval), kind)
        if form == 'keyword only':
            return lambda *, x=1: self.called(e, kind)
        return h.with_interval if form == 'method' else h.without

    def add(self, acts=None, live=True):
        r = self.rng
        self.n += 1
        forms = FORMS
        e = Entry(name=f'o{self.n}', begin=r.choice(forms + [None]), end=r.choice(forms + [None]), acts=acts or {},
                  domain=None, obj=None, auto=False, prioritize=r.random() < 0.3, token=None)
        b = r.random()
        if b < 0.35:
            a = r.randint(-4, 12)
            e.domain = (a, a + r.choice([1, 2, 5]), False, False)
            if r.random() < 0.2:
                e.domain = (a + 0.5, a + 0.5, False, False)
            if e.domain[0] < e.domain[1] and r.random() < 0.4:
                e.domain = (e.domain[0], e.domain[1], True, r.random() < 0.5)
        if r.random() < 0.4:
            e.obj = r.choice(list(self.objects) + [None])
            if e.obj is None or r.random() < 0.4:
                e.obj = f'obj{self.n}'
                self.objects[e.obj] = Obj()
            e.auto = r.random() < 0.5
        self.register(e)
        return e

    def register(self, e):
        kw = {}
        args = []
        if e.obj is not None:
            args.append(self.objects[e.obj])
            kw['autoremove'] = e.auto
        if e.domain is not None:
            kw['domain'] = iv(e.domain)
        if e.prioritize:
            kw['prioritize'] = True
            self.mon.event('prioritized')
        for kind in ('begin', 'end'):
            form = getattr(e, kind)
            if form is not None:
                kw[kind] = self.callback(e, kind, form)
                if form not in WITH_INTERVAL:
                    self.mon.event('without interval')
                if 'method' in form:
                    self.mon.event('method')
                if form in OTHER:
                    self.mon.event('other callable')
        e.token = self.c.add_observer(*args, **kw)
        if e.begin is None and e.end is None:
            self.mon.event('no callbacks')
            self.mon.check(not e.token, 'an observer without callbacks was registered', False)

    def model_add(self, e):
        if e.begin is None and e.end is None:
            return
        if e.prioritize:
            self.model.insert(0, e)
        else:
            self.model.append(e)

    def model_remove(self, f):
        self.model = [e for e in self.model if not f(e)]

    # Actions are recorded with the names of what they affect, to be repeated on the model

    def act_live(self, act, me):
        kind, arg = act
        if kind == 'remove':
            self.c.remove_observer(arg.token)
            self.mon.event('removed itself' if arg is me else 'removed during a notification')
        elif kind == 'remove object':
            if arg in self.objects:
                self.c.remove_observer(self.objects[arg])
        elif kind == 'add':
            if arg.token is None:
                self.register(arg)
                self.mon.event('added during a notification')

    def act_model(self, act):
        kind, arg = act
        if kind == 'remove':
            self.model_remove(lambda e: e is arg)
        elif kind == 'remove object':
            self.model_remove(lambda e: e.obj == arg)
        elif kind == 'add':
            if not getattr(arg, 'added', False):
                arg.added = True
                self.model_add(arg)

    def expected(self, notifications):
        calls = []
        for kind, d in notifications:
            for e in list(self.model):
                if e not in self.model:
                    continue
                if e.domain is not None and R.intersect([e.domain, d]) is None:
                    self.mon.event('not called')
                    continue
                form = getattr(e, kind)
                if form is None:
                    continue
                calls.append((e.name, kind, (d,) if form in WITH_INTERVAL else ()))
                for act in e.acts.get(kind, ()):
                    self.act_model(act)
        return calls


def hull(ds):
    a, b = min(d[0] for d in ds), max(d[1] for d in ds)
    return (a, b, all(d[2] for d in ds if d[0] == a), all(d[3] for d in ds if d[1] == b))


def within(d, ds):
    return bool(ds) and within_all([d], hull(ds))


def within_all(ds, h):
    return hull(list(ds) + [h]) == h


def make_curve(rng, nested=False):
    """Returns (curve, edit) where the edit changes the curve."""
    pts = [(float(i), ydata(rng)) for i in range(8)]
    p = Points(pts)
    kind = rng.choice(['points', 'points', 'map', 'offset', 'ema', 'integral', 'constant', 'sum'] + ['apart', 'nested'] * (2 * nested))
    if kind == 'constant':
        c = Constant(1)

        def change():
            c.value = ydata(rng) + 1000 * rng.random()
        return kind, c, change

    if kind == 'nested':
        # Updates which begin before the others are over
        c = Generic(lambda x: x)

        def nested():
            ds = []
            for _ in range(rng.choice([1, 2, 2, 3])):
                a = rng.randint(-4, 10)
                ds.append(iv((a, a + rng.choice([0.5, 1, 3]), rng.random() < 0.3, rng.random() < 0.3)))
            c._told_ds = [iv_tuple(d) for d in ds]
            for d in ds:
                c.begin_update(d)
            for d in rng.choice([ds, ds[::-1]]):
                c.end_update(d)
        return kind, c, nested

    def edit():
        n = int(p.domain.end) + 1
        b = rng.random()
        if b < 0.4:
            p.append((float(n), ydata(rng)))
        elif b < 0.8 or n < 4:
            p.replace((float(rng.randrange(n)), ydata(rng)))
        else:
            p.set([(float(i), ydata(rng)) for i in range(rng.randint(5, 9))])
    c = {'points': lambda: p, 'map': lambda: p.map(lambda y: y * 2), 'offset': lambda: p.offset(3),
         'ema': lambda: p.ema(0.5), 'integral': lambda: p.integral(), 'sum': lambda: p + 1,
         'apart': lambda: p + p.offset(3)}[kind]()
    c._keep = p
    return kind, c, edit


def many(rng, mon, tier):
    """Very many observers and edits."""
    registry(rng, mon, tier, True)


def registry(rng, mon, tier, many=False):
    kind, c, edit = make_curve(rng, nested=True)
    mon.log(kind)
    reg = Registry(rng, mon, c)
    told = []
    # A witness of everything that is told
    w = Entry(name='witness', begin='interval', end='interval', acts={}, domain=None, obj=None, auto=False,
              prioritize=False, token=None)
    reg.register(w)
    reg.model_add(w)
    everything = [w]
    for _ in range(rng.choice([30, 60, 100] if many else [4, 8, 14])):
        b = rng.random() ** (1.6 if many else 1)
        mon.event('very many observers', len(reg.model) > 30)
        if b < 0.5 or len(everything) < 3:
            acts = {}
            if rng.random() < 0.35:
                k = rng.choice(['begin', 'end'])
                a = rng.random()
                if a < 0.3:
                    acts[k] = [('remove', None)]
                elif a < 0.6 and len(everything) > 1:
                    acts[k] = [('remove', rng.choice(everything[1:]))]
                elif a < 0.75 and reg.objects:
                    acts[k] = [('remove object', rng.choice(list(reg.objects)))]
                else:
                    reg.n += 1
                    acts[k] = [('add', Entry(name=f'late{reg.n}', begin='interval', end='none', acts={}, domain=None,
                                             obj=None, auto=False, prioritize=rng.random() < 0.5, token=None))]
            e = reg.add(acts)
            for k in acts:
                acts[k] = [(a, e if a == 'remove' and v is None else v) for a, v in acts[k]]
            reg.model_add(e)
            everything.append(e)
            if e.token and rng.random() < 0.1:
                # The same observer once more
                reg.n += 1
                f = Entry(**{**e.__dict__, 'acts': {}, 'name': f'o{reg.n}'})
                reg.register(f)
                reg.model_add(f)
                everything.append(f)
                mon.event('same callback twice')
            mon.log('add', {k: v for k, v in e.__dict__.items() if k != 'acts'}, [(k, a) for k, v in acts.items() for a, _ in v])
        elif b < 0.6:
            e = rng.choice(everything[1:])
            c.remove_observer(e.token)
            reg.model_remove(lambda o: o is e)
            if rng.random() < 0.3:
                c.remove_observer(e.token)      # once more changes nothing
                c.remove_observer(0)
            mon.event('removed by token')
            mon.log('remove', e.name)
        elif b < 0.7 and reg.objects:
            k = rng.choice(list(reg.objects))
            c.remove_observer(reg.objects[k])
            reg.model_remove(lambda o: o.obj == k)
            mon.event('removed by object')
            mon.log('remove object', k)
        elif b < 0.8 and reg.objects:
            # Objects whose observers go with them
            k = rng.choice(list(reg.objects))
            if all(e.auto for e in reg.model if e.obj == k):
                r = weakref.ref(reg.objects.pop(k))
                mon.check(r() is None, 'a curve keeps the objects of its observers alive', False)
                mon.event('object released')
                if any(e.obj == k for e in reg.model):
                    mon.event('removed with its object')
                reg.model_remove(lambda o: o.obj == k)
                for e in everything:
                    for v in e.acts.values():
                        v[:] = [a for a in v if a != ('remove object', k)]
                mon.log('release', k)
        elif b < 0.84:
            try:
                c.add_observer(begin=lambda: reg.calls.append('refused'), autoremove=True)
                ok = False
            except Exception:
                ok = True
            mon.check(ok, 'automatic removal without an object was accepted', False)
        for _ in range(rng.choice([0, 1, 1])):
            reg.calls.clear()
            edit()
            notifications = [(k, d[0]) for n, k, d in reg.calls if n == 'witness']
            e = reg.expected(notifications)
            mon.event('several begins of an update', len([k for k, _ in notifications if k == 'begin']) > 1)
            mon.event('called', len(e) - len(notifications))
            mon.check(bool(notifications), 'an edit was not told', False)
            if kind == 'nested':
                # What begins is told, unless it lies within what was told to begin before
                begun = [d for k, d in notifications if k == 'begin']
                for d in c._told_ds:
                    mon.check(any(d == b for b in begun) or within(d, begun),
                              lambda: f'{d} of {c._told_ds} was not told to begin, but {begun}', False)
                ends = [d for k, d in notifications if k == 'end']
                mon.check(bool(ends) and within_all(c._told_ds, hull(ends)),
                          lambda: f'{c._told_ds} ended as {notifications}', False)
            mon.fingerprint.update(repr(e).encode())
            mon.check(reg.calls == e, lambda: f'{kind}: called {reg.calls}, expected {e}', len(e) > len(notifications))


def alone(rng, mon, tier):
    """An observer which removes all observers, so that none is left during the notification."""
    kind, c, edit = make_curve(rng)
    n = rng.choice([1, 1, 2, 3])
    j = rng.randrange(n)
    when = rng.choice(['begin', 'end'])
    via = rng.choice(['token', 'object', 'object of all'])
    mon.log(kind, n, j, when, via)
    calls, tokens = [], []
    objects = [Obj() for _ in range(1 if via == 'object of all' else n)]

    def call(k, kind):
        calls.append((k, kind))
        if k == j and kind == when:
            for o in (tokens if via == 'token' else objects):
                c.remove_observer(o)
    for _ in range(rng.choice([1, 2])):
        del tokens[:]
        for k in range(n):
            tokens.append(c.add_observer(*([] if via == 'token' else [objects[k % len(objects)]]),
                                         begin=functools.partial(lambda k: call(k, 'begin'), k),
                                         end=functools.partial(lambda k: call(k, 'end'), k)))
        calls.clear()
        edit()
        if when == 'begin':
            e = [(k, 'begin') for k in range(j + 1)]
        else:
            e = [(k, 'begin') for k in range(n)] + [(k, 'end') for k in range(j + 1)]
        mon.check(calls == e, lambda: f'{kind}: called {calls}, expected {e}')
        mon.check(not c.is_updating, f'{kind} is still updating', False)
        calls.clear()
        edit()
        mon.check(not calls, lambda: f'{kind}: called {calls} after all observers were removed', False)
        mon.event('all removed during a notification')


families = [
    Family('registry', registry, 6000, 100000),
    Family('many', many, 500, 12000),
    Family('alone', alone, 1000, 10000),
]
