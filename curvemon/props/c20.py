"""C20: descriptors mean the same as the calls they describe."""
import copy
import datetime
import json
import math
from ..core import Family, Skip
from ..engine import iv_tuple
from ..graph import make_points, ydata
from ..load import Points, Curve, Constant, Line, Generic

RULE = ('Random nested descriptors are rendered together with the direct calls which they stand for; both curves are '
        'compared, and the descriptor with a copy of itself. Non-trivial: at least one value.')
REQUIRED_EVENTS = ['list with a name', 'curve with a name', 'chained', 'nested', 'args', 'named arguments', '@log', '@log2', '@log10', '@date', 'date scope',
                   'points', 'line', 'class method after a curve', 'list after a curve', 'instance method first',
                   'from JSON', 'plain value', 'named curves', 'refused', 'parsed', 'number after a date', 'args in log',
                   'log of a curve', 'decorated and chained']

BASES = {'log': math.e, 'log2': 2, 'log10': 10}
BIG = {'add': sum, 'multiply': math.prod}


def date(rng, mon):
    t = rng.randint(0, 1800000000) // 60 * 60
    off = rng.choice([0, 0, 12, -5, 9])
    d = datetime.datetime.fromtimestamp(t, datetime.timezone(datetime.timedelta(hours=off)))
    z = d.strftime('%z')
    return rng.choice([d.strftime('%Y-%m-%d %H:%M') + z, d.strftime('%Y-%m-%dT%H:%M:%S') + z[:3] + ':' + z[3:]]), t


class Gen:
    """Makes pairs of a descriptor and a function which makes the same curve by direct calls."""

    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        self.lg = None          # the surrounding logarithm
        self.dates = False

    def num(self, pos=False):
        """A number literal."""
        v = rng_num(self.rng, pos or self.lg is not None)
        return v, (math.log(v) / math.log(BASES[self.lg]) if self.lg else v)

    def x(self):
        if self.dates:
            s, t = date(self.rng, self.mon)
            self.mon.event('date scope')
            return s, t
        if self.lg or self.rng.random() < 0.3:
            s, t = date(self.rng, self.mon)
            self.mon.event('@date')
            return {'@date': s}, t
        v = self.rng.randint(-20, 20) / 2
        return v, v

    def pairs(self, n):
        out = {}
        dates = self.lg or self.rng.random() < 0.3
        for _ in range(n):
            if dates and not self.dates:
                s, t = date(self.rng, self.mon)
                self.mon.event('@date')
                x, v = {'@date': s}, t
            elif self.dates:
                x, v = self.x()
            else:
                x = v = self.rng.randint(-20, 20) / 2
            y = self.num()
            if self.dates:
                self.mon.event('number after a date')
            out[v] = (x, *y)
        ks = sorted(out)
        if len(ks) < 2:
            raise Skip()
        return [[out[k][0], out[k][1]] for k in ks], [(k, out[k][2]) for k in ks]

    def head(self, depth):
        """The first function of a mapping: (key, value, make)."""
        r = self.rng
        b = r.random()
        if b < 0.2:
            v, e = self.num()
            return r.choice(['$const', '$constant']), r.choice([v, [v]]), lambda: Constant(e)
        if b < 0.35:
            d, e = self.pairs(2)
            self.mon.event('line')
            return '$line', {'points': d}, lambda: Line(points=e)
        if b < 0.75 or depth <= 0:
            name = r.choice(['add', 'subtract', 'multiply', 'divide', 'max', 'min', 'first'])
            args = [self.operand(depth - 1, i) for i in range(r.choice([1, 2, 2, 3]))]
            ds, ms = [a[0] for a in args], [a[1] for a in args]
            kw = {}
            v = ds
            if name in ('max', 'min') and r.random() < 0.3:
                kw['ignore_empty'] = r.random() < 0.5
                v = {'@args': ds, **kw}
                self.mon.event('args')
            elif r.random() < 0.2:
                v = {'funcs': ds}
                self.mon.event('list with a name')
            elif r.random() < 0.25:
                v = {'@args': ds}
                self.mon.event('args')
                self.mon.event('args in log', self.lg is not None)
            elif len(ds) == 1 and not isinstance(ds[0], (list, dict)) and r.random() < 0.5:
                v = ds[0]
            f = getattr(Curve, name + '_many', None) or getattr(Curve, name)
            return '$' + name, v, lambda: f([m() for m in ms], **kw)
        # A method of the first argument
        d, m = self.operand(depth - 1, 0)
        k, args, kw, f = self.method(m)
        self.mon.event('instance method first')
        if isinstance(d, list):
            self.mon.event('points')
        if kw:
            self.mon.event('args')
            self.mon.event('args in log', self.lg is not None)
            return k, {'@args': [d] + args, **kw}, lambda: f(m())
        return k, [d] + args, lambda: f(m())

    def operand(self, depth, i):
        r = self.rng
        b = r.random()
        if b < 0.45 or depth < 0:
            v, e = self.num()
            return v, lambda: Constant(e)
        if b < 0.6 and i > 0:
            d, e = self.pairs(r.choice([2, 3, 5]))
            self.mon.event('points')
            return d, lambda: Points(e)
        self.mon.event('nested')
        return self.mapping(depth)

    def method(self, make):
        """A method of the curve made by make: (key, positional arguments, named arguments, call)."""
        r = self.rng
        kind, c = call(make)
        if kind == 'error':
            raise Skip()
        finite = call(lambda: c.domain.is_finite and not c.domain.is_empty)[1] is True
        # Inside a logarithm number arguments are converted like all others
        options = ['abs', 'additive_inverse']
        if not self.lg:
            # Whether arguments with names are converted in a logarithm is not specified
            options += ['log2', 'log', 'raised']
            options += ['offset', 'offset', 'offset by days', 'powers']
            if finite:
                options += ['ema', 'trailing_max', 'integral', 'extension']
        if self.dates:
            options = ['abs', 'additive_inverse', 'offset'] if not self.lg else ['abs']
        if finite and not self.lg:
            options.append('ema from a curve')
        k = r.choice(options)
        if k == 'abs':
            return '$abs', [], {}, lambda c: c.abs()
        if k == 'additive_inverse':
            return '$additive_inverse', [], {}, lambda c: c.additive_inverse()
        if k == 'log2':
            return '$log2', [], {}, lambda c: (c.abs() + 1 if False else c).log(2)
        if k == 'log':
            if r.random() < 0.5:
                return '$log', [], {}, lambda c: c.log()
            v = r.choice([3, 10, 0.5, 2.5])
            return '$log', [], {'base': v}, lambda c: c.log(base=v)
        if k == 'raised':
            v = r.choice([3, 10, 0.5, 2.5])
            return '$raised', [], {'base': v}, lambda c: c.raised(base=v)
        if k == 'offset':
            v, e = self.num()
            return '$offset', *r.choice([([v], {}), ([], {'x': v})]), lambda c: c.offset(e)
        if k == 'offset by days':
            v = r.randint(-3, 3)
            return '$offset', [v], {'duration': '1d'}, lambda c: c.offset(v, duration='1d')
        if k == 'ema':
            v = r.choice([0.5, 0.25, 1])
            return '$ema', [v], {'uniform': False}, lambda c: c.ema(v, uniform=False)
        if k == 'ema from a curve':
            v = r.choice([0.5, 0.25])
            d, m = self.mapping(0)
            self.mon.event('curve with a name')
            return '$ema', [], {'degree': v, 'init': d, 'uniform': False}, lambda c: c.ema(v, init=m(), uniform=False)
        if k == 'trailing_max':
            v = r.choice([1, 2, 3])
            return '$trailing_max', *r.choice([([v], {'uniform': False}), ([], {'degree': v, 'uniform': False})]), \
                lambda c: c.trailing_max(v, uniform=False)
        if k == 'integral':
            v = rng_num(r)
            return '$integral', [], {'const': v, 'uniform': False}, lambda c: c.integral(const=v, uniform=False)
        if k == 'extension':
            a = r.choice(['constant', 'tangent'])
            s = r.random() < 0.5
            return '$extension', *r.choice([([a], {'start': s}), ([], {'name': a, 'start': s})]), \
                lambda c: c.extension(a, start=s)
        v = r.choice([1, 2, 3])
        return '$pow', [v], {}, lambda c: c.pow(v)

    def mapping(self, depth):
        r = self.rng
        d = {}
        b = r.random()
        if b < 0.15 and not self.lg:
            self.lg = name = r.choice(list(BASES))
            inner, m = self.mapping(depth - 1)
            self.lg = None
            self.mon.event('@' + name)
            d['@' + name] = inner
            make = lambda m=m, base=BASES[name]: m().raised(base)
        elif b < 0.25 and not self.dates:
            self.dates = True
            inner, make = self.mapping(depth - 1)
            self.dates = False
            d['@date'] = inner
        else:
            k, v, make = self.head(depth)
            d[k] = v
        decorated = next(iter(d)).startswith('@')
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            b = r.random()
            if b < 0.55:
                k, args, kw, f = self.method(make)
                if k in d or decorated and k in ('$log', '$log2'):
                    continue
                if args and kw:
                    d[k] = {'@args': args, **kw}
                    self.mon.event('args')
                    self.mon.event('args in log', self.lg is not None)
                elif kw:
                    d[k] = kw
                    self.mon.event('named arguments')
                else:
                    d[k] = args
                if k.startswith('$log'):
                    self.mon.event('log of a curve')
                make = (lambda m, f: lambda: f(m()))(make, f)
            else:
                name = r.choice(['add', 'subtract', 'multiply', 'max', 'min'])
                k = '$' + name
                if k in d:
                    continue
                f = getattr(Curve, name + '_many', None) or getattr(Curve, name)
                n = r.choice([1, 1, 2])
                args = [self.num() for _ in range(n)]
                ds = [a[0] for a in args]
                es = [a[1] for a in args]
                if n == 1 and r.random() < 0.5:
                    d[k] = ds[0]
                elif r.random() < 0.3:
                    d[k] = [ds]
                    self.mon.event('list after a curve')
                else:
                    d[k] = ds
                self.mon.event('class method after a curve')
                make = (lambda m, f, es: lambda: f([m()] + [Constant(e) for e in es]))(make, f, es)
            self.mon.event('chained')
            self.mon.event('decorated and chained', decorated)
        return d, make


def rng_num(rng, pos=False):
    v = rng.randint(-12, 12) / 4
    if pos:
        v = rng.choice([2, 4, 10, 0.5, 3, 8.25, 1000, rng.randint(1, 40) / 4])
    if v == int(v) and rng.random() < 0.5:
        v = int(v)
    return v


def call(f):
    try:
        return ('value', f())
    except RecursionError:
        raise
    except Exception as e:
        # Powers and logarithms without a value: in chains these show when the curve is made
        if isinstance(e, (OverflowError, ZeroDivisionError)) or 'math domain' in str(e) or 'complex' in str(e):
            raise Skip()
        return ('error', f'{type(e).__name__}: {e}')


def descriptors(rng, mon, tier):
    g = Gen(rng, mon)
    d, make = g.mapping(rng.choice([0, 1, 1, 2, 3]))
    mon.log(json.dumps(d))
    before = copy.deepcopy(d)
    given = d
    if rng.random() < 0.5:
        given = json.loads(json.dumps(d))
        mon.event('from JSON')
    via = rng.choice([Curve.parse, Curve.parse_descriptor])
    e = call(make)
    a = call(lambda: via(given))
    if e[0] == 'error' or a[0] == 'error':
        mon.check(e == a, lambda: f'{json.dumps(d)} gives {a}, the direct call {e}', False)
        raise Skip()
    a, e = a[1], e[1]
    mon.check(isinstance(a, Curve), lambda: f'{json.dumps(d)} is {a!r}')
    mon.check(given == before and d == before, lambda: f'{json.dumps(before)} became {json.dumps(given)}', False)
    again = via(given)
    de, da = call(lambda: iv_tuple(e.domain)), call(lambda: iv_tuple(a.domain))
    if de[0] == 'error' or da[0] == 'error':
        mon.check(da == de, lambda: f'{json.dumps(d)} has the domain {da}, expected {de}', False)
        raise Skip()
    da, de = da[1], de[1]
    mon.check(da == de, lambda: f'{json.dumps(d)} has the domain {da}, expected {de}')
    xs = [0, 1, -2.5, 7, 1.5e9, 1.2e9 + 30]
    if de is not None:
        for b in de[:2]:
            if math.isfinite(b):
                xs += [b, b + 1, b - 1, b + 3600]
        if math.isfinite(de[0]) and math.isfinite(de[1]):
            xs += [(de[0] + de[1]) / 2, de[0] + (de[1] - de[0]) / 8]
    for x in xs:
        va, ve, vb = call(lambda: a.y(x)), call(lambda: e.y(x)), call(lambda: again.y(x))
        mon.check(va[0] == ve[0] == vb[0], lambda: f'{json.dumps(d)}: y({x}) is {va}, expected {ve}', False)
        if ve[0] == 'value':
            mon.same(va[1], ve[1], lambda: f'{json.dumps(d)}: y({x})', 1e-7, 1e-7)
            mon.same(vb[1], ve[1], lambda: f'{json.dumps(d)} parsed again: y({x})', 1e-7, 1e-7)


def literals(rng, mon, tier):
    """Values on their own, names, and the logarithm line of the documentation."""
    v = rng.choice([2, 10, 0.5, 8.25, 1000])
    name = rng.choice(list(BASES))
    mon.same(Curve.parse_descriptor({'@' + name: v}, fragment=True), v, f'@{name} of {v}', 1e-9)
    mon.event('plain value')
    s, t = date(rng, mon)
    mon.same(Curve.parse_descriptor({'@date': s}, fragment=True), t, f'@date of {s}')
    # In a scope of dates only text is a date
    y = rng_num(rng)
    e = Curve.parse_descriptor({'@date': [s, y, {'a': [s], 'b': [y, None]}]}, fragment=True)
    mon.same(e[0], t, 'date in a list')
    mon.same(e[1], y, 'number next to a date')
    mon.same(e[2]['a'], [t], 'date in a mapping')
    mon.check(e[2]['b'] == [y, None], lambda: f'[{y}, None] became {e[2]["b"]}')
    # Several curves with names
    (s0, t0), (s1, t1) = sorted([date(rng, mon), date(rng, mon)], key=lambda p: p[1])
    if t0 == t1:
        raise Skip()
    y0, y1 = rng.randint(1, 4000) / 4, rng.randint(1, 4000) / 4
    d = {'price': {'@' + name: {'$line': {'points': [[{'@date': s0}, y0], [{'@date': s1}, y1]]}}}, 'other': {'$add': [1, v]},
         'plain': v}
    before = copy.deepcopy(d)
    c = Curve.parse_descriptor(d)
    mon.check(set(c) == set(d) and d == before, lambda: f'names are {set(c)}')
    mon.same(c['other'].y(0), 1 + v, 'named sum')
    mon.same(c['plain'], v, 'named value')
    mon.event('named curves')
    for u in (0, 0.25, 0.5, 1):
        x = t0 + u * (t1 - t0)
        e = math.exp((1 - u) * math.log(y0) + u * math.log(y1))
        # Logarithms of far lines lose some digits
        mon.same(c['price'].y(x), e, lambda: f'{d}: price at {x}', 1e-4 if t1 - t0 > 1e5 else 1e-1)


def parsing(rng, mon, tier):
    v = rng_num(rng)
    pts = make_points(rng, rng.choice([1, 2, 5]), 1, 0, True)
    c = Constant(v)
    mon.check(Curve.parse(None) is None, 'None is a curve', False)
    mon.check(Curve.parse(c) is c, 'a curve became another one')
    mon.same(Curve.parse(v).y(rng_num(rng)), v, 'number')
    n = rng.choice([0, 0, 1, v])
    a, b = Curve.parse(n), Curve.parse(n)
    a.value = n + 1
    mon.same([q.y(0) for q in (a, b, Curve.parse(n), Constant.zero())], [n + 1, n, n, 0], 'numbers parsed one by one')
    mon.check(iv_tuple(Curve.parse(v).domain) == (-math.inf, math.inf, True, True), 'domain of a number')
    f = Curve.parse(lambda x: x * 2 + v)
    x = rng_num(rng)
    mon.same(f.y(x), x * 2 + v, 'function')
    form = rng.choice([list, tuple, lambda p: [list(q) for q in p]])
    p = Curve.parse(form(pts))
    mon.check(isinstance(p, Points), f'points became {type(p)}')
    mon.same(p.sample_points(), pts, 'points')
    mon.check(Curve.parse([]).domain.is_empty, 'no points')
    many = [c, v, pts, lambda x: x]
    for a in (Curve.parse_many(many), Curve.parse_many(*many)):
        mon.check(len(a) == 4 and a[0] is c, 'several')
        mon.same([q.y(0) for q in a], [v, v, pts[0][1], 0], 'several')
    mon.event('parsed')
    bad = rng.choice([
        lambda: Curve.parse('text'), lambda: Curve.parse([1, 2, 3]), lambda: Curve.parse([[1, 2, 3]]),
        lambda: Curve.parse(object()), lambda: Curve.parse({'$nothing': [1]}), lambda: Curve.parse_descriptor(v),
        lambda: Curve.parse_descriptor('text'), lambda: Curve.parse({'$add': [1, 2], 'other': v}),
        lambda: Curve.parse_descriptor({'@log2': v, 'other': 1}, fragment=True),
        lambda: Curve.parse_descriptor({'@date': '2020-02-12 01:23+1200', 'other': 1}, fragment=True),
        lambda: Curve.parse({'$add': [1, {'$nothing': 2}]}),
    ])
    try:
        r = bad()
        ok = False
    except Exception:
        ok, r = True, None
    mon.event('refused')
    mon.check(ok, f'a bad descriptor gave {r!r}', False)


families = [
    Family('descriptors', descriptors, 12000, 150000),
    Family('literals', literals, 1500, 15000),
    Family('parsing', parsing, 1500, 15000),
]
