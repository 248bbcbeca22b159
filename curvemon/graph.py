"""Random graphs of curves, their edits, and the same graph in the reference."""
import math
from . import ref as R
from .core import close
from .load import (
    Curve, Points, Constant, Line, Sin, Generic, Map, Piecewise, Extremas, Empty, Quotes,
    Interval, SMA, EMA, Integral, AccumulatorMap, Aggregate, Offset,
)

HS = [0.25, 0.5, 1, 1, 1, 2, 3, 60]


# --- functions which both sides use by name

def _sq(y):
    return y * y


def _half(y):
    return y / 2


def _absp1(y):
    return abs(y) + 1


def _nz(y):
    return 0.0 if y is None else y


def _none_neg(y):
    # The bound is no value which the data can reach but for rounding
    return None if y is None or y < 0.0123456789 else y


def _xy(x, y):
    return None if y is None else y + 0.5 * (x % 8)


MAPS = {
    # name: (function, needs skip_none, passes x, gives total, may give None)
    'sq': (_sq, True, False),
    'half': (_half, True, False),
    'absp1': (_absp1, True, False),
    'nz': (_nz, False, False),
    'none_neg': (_none_neg, False, False),
    'xy': (_xy, False, True),
}


def _wsum(ys):
    return sum((i + 1) * y for i, y in enumerate(ys))


def _span(ys):
    return max(ys) - min(ys)


def _newest(ys):
    return ys[0]


def _oldest(ys):
    return ys[-1]


def _xw(x, ys):
    return (x % 16) + sum((i + 1) * y for i, y in enumerate(ys))


ACCS = {
    'min': (min, False),
    'max': (max, False),
    'wsum': (_wsum, False),
    'span': (_span, False),
    'oldest': (_oldest, False),
    'newest': (_newest, False),
    'len': (len, False),
    'xw': (_xw, True),
}

FNS = {
    'ramp': lambda x: 0.5 * x,
    'par': lambda x: (x % 16) * (x % 16) / 8,
    'saw': lambda x: (x % 4) - 2,
}


def r_add(ys):
    return None if None in ys else sum(ys)


def r_sub(ys):
    if None in ys:
        return None
    v = ys[0]
    for y in ys[1:]:
        v = v - y
    return v


def r_mul(ys):
    if None in ys:
        return None
    v = 1.0
    for y in ys:
        v = v * y
    return v


def r_div(ys):
    if None in ys:
        return None
    v = ys[0]
    for y in ys[1:]:
        # What is left of a zero by rounding counts as zero; such quotients are not compared
        v = (math.inf if v >= 0 else -math.inf) if abs(y) < 1e-8 else v / y
    return v


def r_pow(ys):
    if None in ys:
        return None
    v = ys[0]
    for y in ys[1:]:
        v = v ** y
    return v


def r_log(ys):
    if None in ys:
        return None
    v = ys[0]
    for y in ys[1:]:
        v = math.log(v) / math.log(y)
    return v


def r_min(ys):
    return min((y for y in ys if y is not None), default=None)


def r_max(ys):
    return max((y for y in ys if y is not None), default=None)


def r_first(ys):
    return next((y for y in ys if y is not None), None)


ARITH = {
    'add': (r_add, lambda a, b: a + b, 'add', Curve.add_many),
    'sub': (r_sub, lambda a, b: a - b, 'subtract', Curve.subtract_many),
    'mul': (r_mul, lambda a, b: a * b, 'multiply', Curve.multiply_many),
    'div': (r_div, lambda a, b: a / b, 'divide', Curve.divide_many),
    'pow': (r_pow, lambda a, b: a ** b, 'pow', Curve.pow_many),
    'log': (r_log, None, 'log', Curve.log_many),
}
SELECT = {
    'min': (r_min, Curve.min),
    'max': (r_max, Curve.max),
    'first': (r_first, Curve.first),
}


EXACT_OPS = {'points', 'const', 'add', 'sub', 'mul', 'min', 'max', 'first', 'neg', 'abs', 'map', 'offset', 'field'}


class T:
    """What is known about a node: which uses of it are specified."""

    def __init__(self, grid, h=None, phase=None, total=True, mag=32.0, wild=False, finite=True, pos=False,
                 ext=False, wide=False, exact=False):
        self.grid = grid        # uni | irr | inf | dense
        self.h = h
        self.phase = phase
        self.total = total      # never None inside of its domain
        self.mag = mag
        self.wild = wild        # may be infinite or nan
        self.finite = finite
        self.pos = pos
        self.ext = ext          # stepping is not specified
        self.wide = wide        # y is given outside of the domain
        self.exact = exact      # no rounding at its own grid points

    def but(self, **kw):
        t = T.__new__(T)
        t.__dict__.update(self.__dict__)
        t.__dict__.update(kw)
        return t

    @property
    def scannable(self):
        return self.grid in ('uni', 'irr') and not self.wild and not self.ext

    @property
    def steps(self):
        return not self.ext and self.grid in ('uni', 'irr')


def phase_of(x, h):
    return (x / h) % 1.0


def iv(d):
    """Reference domain to Interval."""
    if d is None:
        return Interval.empty()
    return Interval(d[0], d[1], start_open=d[2], end_open=d[3])


def iv_tuple(i):
    """Interval to reference domain."""
    if i.is_empty:
        return None
    return (i.start, i.end, bool(i.start_open), bool(i.end_open))


def ydata(rng, kind='any'):
    if kind == 'any':
        return rng.randint(-80, 80) / 4
    if kind == 'small':
        return float(rng.randint(-3, 3))
    if kind == 'pos':
        return rng.randint(2, 80) / 4
    raise ValueError(kind)


def make_points(rng, n, h, x0, uniform, ykind='any', none_p=0.0):
    pts = []
    x = x0
    for i in range(n):
        y = None if rng.random() < none_p else ydata(rng, ykind)
        pts.append((x, y))
        x += h if uniform else h * rng.choice([0.25, 0.5, 1, 1, 1.5, 2, 3, 5])
    return pts


SHIFTS = [('1s', 1), ('2s', 2), ('3s', 3), ('5s', 5), ('15s', 15), ('30s', 30), ('1m', 60), ('2m', 120), ('5m', 300),
          ('15m', 900), ('30m', 1800), ('1h', 3600), ('4h', 14400), ('1d', 86400)]
DURATIONS = [('1h', 3600), ('15m', 900), ('1d', 86400), ('1m', 60), ('4h', 14400)]


def make_quote(rng):
    o, c = ydata(rng, 'pos'), ydata(rng, 'pos')
    hi = max(o, c) + rng.randint(0, 8) / 4
    lo = min(o, c) - rng.randint(0, 8) / 4
    if rng.random() < 0.04:
        # Quotes may be inconsistent
        lo = hi
    return [o, hi, lo, c, float(rng.randint(0, 50))]


class World:
    """A graph of nodes. `state` holds what the sources contain."""

    def __init__(self, rng):
        self.rng = rng
        self.nodes = []         # (id, op, srcs, args) in topological order
        self.by_id = {}
        self.state = {}
        self.traits = {}
        self.live = {}
        self.asked = {}         # (node, kind of query): the last one
        self.last = None        # the last query of all
        self._ref = None
        # Sources of a world mostly share a grid so that they overlap
        self.h = rng.choice(HS)
        self.x0 = rng.choice([0, 0, 0, -5 * self.h, 7 * self.h, 0.5 * self.h, 1.6e9])
        if self.x0 == 1.6e9:
            self.h = rng.choice([60, 300, 3600, 1])
        self.rebuilds = 0
        self.sizes = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 12, 14, 16]
        self.bursts = [1, 2, 3, 5]
        self.longest = 30
        self.long = False

    def make_long(self):
        """Series of hundreds of points, which are mostly appended to."""
        self.long = True
        self.sizes = [40, 90, 150, 300]
        self.bursts = [1, 2, 5, 30, 100]
        self.longest = 600

    # --- construction

    def add(self, op, srcs, args, trait, state=None):
        i = f'n{len(self.nodes)}'
        node = (i, op, list(srcs), args)
        if op not in EXACT_OPS and not (op == 'acc' and args['f'] in ('min', 'max', 'newest', 'oldest', 'len')):
            trait.exact = False
        self.nodes.append(node)
        self.by_id[i] = node
        self.traits[i] = trait
        if state is not None:
            self.state[i] = state
        self.live[i] = self.make(node, self.live)
        self._ref = None
        return i

    def describe(self):
        return [f'{i} = {op}({", ".join(map(str, srcs))}) {args}' for i, op, srcs, args in self.nodes] + \
            [f'{i} holds {s}' for i, s in self.state.items()]

    def sources(self, op=None):
        return [n[0] for n in self.nodes if n[0] in self.state and (op is None or n[1] == op)]

    def deriveds(self):
        return [n[0] for n in self.nodes if n[0] not in self.state]

    def ancestors(self, i):
        seen = set()
        todo = [i]
        while todo:
            k = todo.pop()
            if k in seen or not isinstance(k, str):
                continue
            seen.add(k)
            todo += self.by_id[k][2]
        return seen

    def make(self, node, live):
        """Builds the real curve of a node."""
        c = self._make(node, live)
        if self.fault is not None and node[1] in self.fault.sources:
            for name in ('y', 'x_next', 'x_previous'):
                setattr(c, name, self.fault.at(getattr(c, name)))
        return c

    def function(self, f, x=False):
        """A function which the user passes in."""
        if self.fault is None:
            return f
        g = self.fault.at(f)
        return (lambda x, y: g(x, y)) if x else (lambda y: g(y))

    def _make(self, node, live):
        i, op, srcs, a = node
        s = [live[k] if isinstance(k, str) else k for k in srcs]
        if op == 'points':
            st = self.state[i]
            return Points(list(st['pts']), interpolation=a['interp'], uniform=a['uniform'])
        if op == 'const':
            return Constant(self.state[i]['value'], domain=None if a.get('domain') is None else iv(a['domain']))
        if op == 'line':
            st = self.state[i]
            return Line(p1=(st['x'], st['y']), slope=st['m'])
        if op == 'sin':
            st = self.state[i]
            return Sin(amplitude=st['a'], period=st['p'], phase=st['ph'])
        if op == 'quotes':
            return Quotes(a['duration'], [(x, list(q)) for x, q in self.state[i]['pts']])
        if op == 'fn':
            kw = {} if a.get('step') is None else {'min_step': a['step']}
            return Generic(FNS[a['f']], domain=None if a.get('domain') is None else iv(a['domain']), **kw)
        if op == 'empty':
            return Empty()
        if op in ARITH:
            _, oper, method, many = ARITH[op]
            via = a['via']
            if via == 'op':
                return oper(s[0], s[1])
            if via == 'method':
                return getattr(s[0], method)(s[1])
            if via == 'args':
                return many(*s)
            if via == 'raised':
                return s[1].raised(s[0])
            return many(s)
        if op in SELECT:
            f = SELECT[op][1]
            kw = {} if op == 'first' else {'ignore_empty': a['ignore_empty']}
            return f(*s, **kw) if a['via'] == 'args' else f(s, **kw)
        if op == 'neg':
            return -s[0] if a['via'] == 'op' else s[0].additive_inverse()
        if op == 'abs':
            return abs(s[0]) if a['via'] == 'op' else s[0].abs()
        if op == 'inv':
            return s[0].multiplicative_inverse()
        if op == 'map':
            f, skip, _ = MAPS[a['f']]
            return s[0].map(self.function(f, a['f'] == 'xy'), skip_none=skip or a.get('skip', False))
        if op == 'field':
            return getattr(s[0], a['f'])
        if op == 'diff':
            return s[0].differential(forward=a['forward'])
        if op == 'offset':
            return s[0].offset(a['dx'])
        if op == 'shift':
            return s[0].offset(a['n'], duration=a['duration'])
        if op == 'integral':
            return s[0].integral(const=a['const'], interpolation=a['mode'], uniform=a['uniform'])
        if op == 'sma':
            return s[0].sma(a['n'], is_period=a['is_period'], uniform=a['uniform'])
        if op == 'ema':
            init = s[1] if len(s) > 1 else None
            return s[0].ema(a['n'], is_period=a['is_period'], init=init, uniform=a['uniform'])
        if op == 'smma':
            return s[0].smma(a['n'], uniform=a['uniform'])
        if op == 'rsi':
            return s[0].rsi(a['n'], uniform=a['uniform'])
        if op == 'acc':
            if a['f'] in ('min', 'max') and a.get('trailing', True):
                m = s[0].trailing_min if a['f'] == 'min' else s[0].trailing_max
                return m(a['n'], is_period=a['is_period'], interpolation=a['interp'], uniform=a['uniform'])
            return s[0].accumulator_map(self.function(*ACCS[a['f']]), a['n'], is_period=a['is_period'],
                                        interpolation=a['interp'], uniform=a['uniform'])
        if op == 'extremas':
            return Extremas(s[0], s[1], min_deviation=a['dev'])
        if op == 'subset':
            return s[0].subset(iv(a['domain']))
        if op == 'piecewise':
            return Piecewise(s, [iv(d) for d in a['domains']])
        if op == 'blend':
            return s[0].blend(s[1], a['b0'], a['b1'])
        if op == 'ext':
            kw = {}
            if a['kind'] == 'sin':
                kw['period'] = a['sin_period']
            if a.get('degree') is not None:
                kw['regression_degree'] = a['degree']
            if a.get('period') is not None:
                kw['regression_period'] = a['period']
            return s[0].extension(a['kind'], start=a['start'], end=a['end'], **kw)
        raise ValueError(op)

    def make_ref(self, node, refs):
        i, op, srcs, a = node
        s = [refs[k] if isinstance(k, str) else R.RConst(k) for k in srcs]
        if op == 'points':
            return R.RPoints(self.state[i]['pts'], a['interp'] or 0)
        if op == 'const':
            return R.RConst(self.state[i]['value'], a.get('domain'))
        if op == 'line':
            st = self.state[i]
            return R.RLine(st['x'], st['y'], st['m'])
        if op == 'sin':
            st = self.state[i]
            return R.RSin(st['a'], st['p'], st['ph'])
        if op == 'quotes':
            return R.RPoints(self.state[i]['pts'], -1)
        if op == 'fn':
            return R.RFn(FNS[a['f']], a.get('domain'), a.get('step') or R.MS)
        if op == 'empty':
            return R.REmpty()
        if op in ARITH:
            return R.RAgg(s, ARITH[op][0])
        if op in SELECT:
            return R.RAgg(s, SELECT[op][0], union=op == 'first' or a['ignore_empty'])
        if op == 'neg':
            return R.RMap(s[0], lambda y: -y, True)
        if op == 'abs':
            return R.RMap(s[0], abs, True)
        if op == 'inv':
            return R.RMap(s[0], lambda y: 1 / y, True)
        if op == 'map':
            f, skip, with_x = MAPS[a['f']]
            return R.RMap(s[0], f, skip or a.get('skip', False), with_x)
        if op == 'field':
            k = {'open': 0, 'high': 1, 'low': 2, 'close': 3, 'volume': 4}.get(a['f'])
            f = (lambda q: (q[1] + q[2]) / 2) if k is None else (lambda q: q[k])
            return RField(s[0], f, a['floor'])
        if op == 'diff':
            return R.RDiff(s[0], a['forward'])
        if op == 'offset':
            return R.ROffset(s[0], a['dx'])
        if op == 'shift':
            return R.RShift(s[0], a['secs'], a['n'])
        if op == 'integral':
            return R.RIntegral(s[0], a['const'], a['mode'] or 0)
        if op == 'sma':
            return R.RSMA(s[0], period=a['n']) if a['is_period'] else R.RSMA(s[0], degree=int(a['n']))
        if op == 'ema':
            init = s[1] if len(s) > 1 else None
            return R.REMA(s[0], period=a['n'], init=init) if a['is_period'] else R.REMA(s[0], alpha=a['n'], init=init)
        if op == 'smma':
            return R.REMA(s[0], alpha=1 / a['n'], init=R.RSMA(s[0], degree=a['n']))
        if op == 'rsi':
            return RRSI(s[0], a['n'])
        if op == 'acc':
            f, with_x = ACCS[a['f']]
            kw = {'period': a['n']} if a['is_period'] else {'degree': int(a['n'])}
            return R.RAcc(s[0], f, interp=a['interp'] or 0, with_x=with_x, **kw)
        if op == 'extremas':
            return R.RExtremas(s[0], s[1], abs(a['dev']))
        if op == 'subset':
            return R.RSubset(s[0], a['domain'])
        if op == 'piecewise':
            return R.RPiecewise(s, a['domains'])
        if op == 'blend':
            return RBlend(s[0], s[1], a['b0'], a['b1'], a['domain'])
        if op == 'ext':
            return R.RExt(s[0], a['kind'], a['start'], a['end'], a.get('degree'), a.get('period'), a.get('sin_period'))
        raise ValueError(op)

    @property
    def ref(self):
        if self._ref is None:
            refs = {}
            for n in self.nodes:
                refs[n[0]] = self.make_ref(n, refs)
            self._ref = refs
        return self._ref

    def rebuild(self, only=None):
        """The same graph, built from scratch on the current contents."""
        live = {}
        for n in self.nodes:
            if only is None or n[0] in only:
                live[n[0]] = self.make(n, live)
        self.rebuilds += 1
        return live

    # --- sources

    def add_points(self, uniform=None, n=None, none_p=None, ykind='any', interp=None, x0=None):
        rng = self.rng
        if uniform is None:
            uniform = rng.random() < 0.6
        if n is None:
            n = rng.choice(self.sizes)
        if none_p is None:
            none_p = rng.choice([0, 0, 0, 0.2])
        if interp is None:
            interp = rng.choice([None, None, 0, -1, 1])
        if x0 is None:
            x0 = self.x0 + rng.choice([0, 0, 0, 1, 2, -3]) * self.h
            if rng.random() < 0.15:
                x0 += self.h / 2
        h = self.h
        pts = make_points(rng, n, h, x0, uniform, ykind, none_p)
        t = T('uni' if uniform else 'irr', h, phase_of(x0, h), total=none_p == 0, pos=ykind == 'pos', exact=True)
        if interp in (-1, 1) and none_p:
            pass
        return self.add('points', [], {'interp': interp, 'uniform': uniform, 'none_p': none_p, 'ykind': ykind,
                                       'x0': x0, 'h': h}, t, {'pts': pts})

    def add_const(self, domain=None):
        v = self.rng.choice([0, 1, 2, -1, 0.5, 3.25, -7])
        return self.add('const', [], {'domain': domain}, T('inf', finite=domain is not None, ext=domain is not None, exact=True),
                        {'value': v})

    def add_line(self):
        r = self.rng
        st = {'x': self.x0 + r.randint(-4, 12) * self.h, 'y': ydata(r), 'm': r.randint(-8, 8) / 4 / self.h}
        return self.add('line', [], {}, T('inf', finite=False, mag=200.0), st)

    def add_sin(self):
        r = self.rng
        if self.x0 > 1e6:
            return None     # the argument of the sine loses its digits there
        st = {'a': r.randint(1, 12) / 2, 'p': r.choice([4, 7, 16]) * self.h, 'ph': r.choice([0, 1, 2.5])}
        return self.add('sin', [], {}, T('dense', finite=False), st)

    def add_fn(self):
        r = self.rng
        d = None
        if r.random() < 0.6:
            a = self.x0 + r.randint(-3, 6) * self.h
            d = (a, a + r.randint(1, 14) * self.h, r.random() < 0.3, r.random() < 0.3)
        step = r.choice([None, self.h / 2, self.h])
        return self.add('fn', [], {'f': r.choice(list(FNS)), 'domain': d, 'step': step},
                        T('dense', finite=d is not None, mag=1e9 if self.x0 > 1e6 else 100.0))

    def add_quotes(self, n=None):
        r = self.rng
        dur, secs = r.choice(DURATIONS)
        if n is None:
            n = r.choice([0, 1, 2, 5, 8, 12])
        x0 = 1.6e9 - 1.6e9 % secs
        pts = [(x0 + i * secs, make_quote(r)) for i in range(n)]
        return self.add('quotes', [], {'duration': dur, 'secs': secs, 'x0': x0},
                        T('uni', secs, 0.0, wild=True), {'pts': pts})

    # --- derived nodes. Each returns an id or None if it cannot be built here.

    # Whether curves which carry on may be made of piecewise curves. The domain of a piece may be larger than that of
    # its curve; where the last value is then is not specified. Such curves are compared with rebuilt ones only.
    loose = False
    fault = None          # where to inject exceptions, see props/c26

    def pick(self, ok, carries_on=False):
        c = [i for i, t in self.traits.items() if self.by_id[i][1] != 'quotes' and ok(t)]
        if carries_on and not self.loose:
            c = [i for i in c if not any(self.by_id[k][1] in ('piecewise', 'subset') for k in self.ancestors(i))]
        if not c:
            return None
        # Prefer recent nodes so that graphs become deep
        k = max(self.rng.randrange(len(c)) for _ in range(2))
        return c[k]

    def agg_trait(self, srcs, union=False):
        ts = [self.traits[k] if isinstance(k, str) else T('inf', finite=False, mag=abs(k) + 1, pos=k > 0, exact=True)
              for k in srcs]
        grids = [t for t in ts if t.grid != 'inf']
        if not grids:
            grid, h, ph = 'inf', None, None
        elif any(t.grid == 'dense' for t in grids):
            grid, h, ph = 'dense', None, None
        elif all(t.grid == 'uni' for t in grids) and not union and \
                len({(t.h, t.phase) for t in grids}) == 1:
            grid, h, ph = 'uni', grids[0].h, grids[0].phase
        else:
            grid, h, ph = 'irr', None, None
        finite = all(t.finite for t in ts) if union else any(t.finite for t in ts)
        return T(grid, h, ph, total=not union and all(t.total for t in ts), mag=sum(t.mag for t in ts),
                 wild=any(t.wild for t in ts), finite=finite,
                 ext=any(t.ext for t in ts) or (union and any(t.grid == 'inf' for t in ts)),
                 exact=grid in ('uni', 'inf') and all(t.exact for t in ts))

    def add_arith(self, op=None):
        r = self.rng
        op = op or r.choice(['add', 'sub', 'mul', 'div', 'pow', 'log', 'add', 'sub', 'mul', 'div'])
        if op in ('pow', 'log'):
            a = self.pick(lambda t: t.pos and not t.wild and t.mag < 1e6)
            if a is None:
                b = self.pick(lambda t: not t.wild and not t.ext and t.mag < 1e6)
                if b is None:
                    return None
                a = self.add_map('absp1', b)
            if op == 'pow':
                k = r.choice([0.5, 1, 2, -1, 0])
                if r.random() < 0.3:
                    b = self.pick(lambda t: not t.wild and t.mag < 100)
                    if b is not None:
                        tr = self.agg_trait([b])
                        return self.add('pow', [2, b], {'via': r.choice(['op', 'many', 'args', 'raised'])},
                                        tr.but(wild=True))
                t = self.agg_trait([a]).but(mag=max(self.traits[a].mag, 1) ** max(k, 1), pos=True)
                via = r.choice(['op', 'method', 'many', 'args'])
                return self.add('pow', [a, k], {'via': via}, t)
            base = r.choice([2, 10, math.e, 0.5])
            via = r.choice(['method', 'many', 'args'])
            return self.add('log', [a, base], {'via': via}, self.agg_trait([a]).but(pos=False))
        lim = 1e7
        def ok(t):
            return t.mag < lim
        a = self.pick(ok)
        if a is None:
            return None
        n = r.choice([2, 2, 2, 2, 3, 4])
        srcs = [a]
        while len(srcs) < n:
            b = r.random()
            if b < 0.25:
                srcs.append(r.choice([0, 1, 2, -1, 0.5, 3]))
            else:
                k = self.pick(ok)
                srcs.append(k)
        r.shuffle(srcs)
        if not any(isinstance(k, str) for k in srcs):
            return None
        if n == 2:
            via = r.choice(['op', 'op', 'method', 'many', 'args'])
            if via == 'method' and not isinstance(srcs[0], str):
                via = 'op'
            if via == 'args' and not isinstance(srcs[0], str):
                via = 'many'
        else:
            via = r.choice(['many', 'args'])
            if via == 'args' and not isinstance(srcs[0], str):
                via = 'many'
        t = self.agg_trait(srcs)
        if op == 'mul':
            m = 1.0
            for k in srcs:
                m *= max(1.0, self.traits[k].mag if isinstance(k, str) else abs(k))
            if m > 1e8:
                return None
            t.mag = m
        elif op == 'div':
            t.wild = True
            t.mag = 1e9
        return self.add(op, srcs, {'via': via}, t)

    def add_select(self, op=None):
        r = self.rng
        op = op or r.choice(['min', 'max', 'first'])
        n = r.choice([1, 2, 2, 2, 3, 4])
        srcs = []
        for _ in range(n):
            if srcs and r.random() < 0.15:
                srcs.append(r.choice([0, 1, -2.5, 4]))
                continue
            k = self.pick(lambda t: not t.wild)
            if k is None:
                return None
            srcs.append(k)
        if r.random() < 0.4 and isinstance(srcs[-1], str):
            r.shuffle(srcs)
        ie = op != 'first' and r.random() < 0.5
        via = r.choice(['many', 'args'])
        if via == 'args' and not isinstance(srcs[0], str):
            via = 'many'
        union = op == 'first' or ie
        t = self.agg_trait(srcs, union)
        ts = [self.traits[k] if isinstance(k, str) else None for k in srcs]
        if not union:
            t.total = all(x is None or x.total for x in ts)
        t.mag = max([x.mag for x in ts if x] + [8])
        return self.add(op, srcs, {'via': via, 'ignore_empty': ie}, t)

    def add_map(self, f=None, src=None):
        r = self.rng
        src = src or self.pick(lambda t: t.mag < 1e5 and not t.wild)
        if src is None:
            return None
        t = self.traits[src]
        f = f or r.choice(list(MAPS))
        args = {'f': f}
        if not MAPS[f][1] and r.random() < 0.3:
            args['skip'] = True
        nt = t.but(wide=t.wide or (f == 'nz' and not args.get('skip')))
        if f == 'sq':
            nt.mag = t.mag ** 2
        if f == 'absp1':
            nt.mag = t.mag + 1
            nt.pos = True
        elif f in ('half',):
            nt.pos = t.pos
        else:
            nt.pos = False
        if f == 'nz':
            nt.total = t.total or not args.get('skip')
        if f == 'none_neg':
            nt.total = False
        if f == 'xy':
            nt.mag = t.mag + 8
        if t.grid == 'dense':
            nt.grid = 'dense'
        return self.add('map', [src], args, nt)

    def add_unary(self, op=None):
        r = self.rng
        op = op or r.choice(['neg', 'abs', 'inv'])
        if op == 'inv':
            src = self.pick(lambda t: t.pos and not t.wild)
            if src is None:
                return None
            return self.add('inv', [src], {}, self.traits[src].but(pos=True))
        src = self.pick(lambda t: True)
        if src is None:
            return None
        return self.add(op, [src], {'via': r.choice(['op', 'method'])}, self.traits[src].but(pos=False, wide=False))

    def add_diff(self):
        src = self.pick(lambda t: (t.steps or t.grid == 'inf' and not t.ext) and not t.wild)
        if src is None or self.traits[src].grid == 'inf' and self.by_id[src][1] not in ('const', 'line'):
            return None
        t = self.traits[src]
        return self.add('diff', [src], {'forward': self.rng.random() < 0.4},
                        t.but(total=False, pos=False, mag=t.mag * 8 / self.h))

    def add_offset(self):
        r = self.rng
        src = self.pick(lambda t: True)
        if src is None:
            return None
        t = self.traits[src]
        dx = r.choice([0, 1, 2, -1, -3, 0.5, 7]) * self.h
        nt = t.but()
        if t.grid == 'uni':
            nt.phase = phase_of(t.phase * t.h + dx, t.h)
        return self.add('offset', [src], {'dx': dx}, nt.but(wide=False))

    def add_shift(self):
        """Moved by a number of durations."""
        r = self.rng
        src = self.pick(lambda t: t.finite and (t.steps or t.grid == 'dense'))
        if src is None:
            return None
        t = self.traits[src]
        d = self.ref[src].dom()
        span = d[1] - d[0] if d else 10 * self.h
        durations = [v for v in SHIFTS if v[1] / self.h >= 0.3 and span / 60 <= v[1] <= max(span / 2, 2 * self.h)]
        # Quotes which are empty now may be far apart later
        apart = max([self.by_id[i][3]['secs'] for i in self.ancestors(src) if self.by_id[i][1] == 'quotes'], default=0)
        durations = [v for v in durations if v[1] >= apart / 4]
        if not durations:
            return None
        duration, secs = r.choice(durations)
        n = r.choice([0, 1, 1, 2, 3, -1, -1, -2, 7])
        nt = t.but(wide=False, ext=False)
        if n:
            nt.grid, nt.h, nt.phase = 'uni', float(secs), 0.0
        else:
            # The ends need not be steps
            nt.grid, nt.h, nt.ext = 'irr', None, True
        return self.add('shift', [src], {'n': n, 'duration': duration, 'secs': secs}, nt)

    def scan_src(self, total=False, extra=lambda t: True):
        return self.pick(lambda t: t.scannable and (t.total or not total) and t.mag < 1e6 and extra(t), True)

    def add_integral(self, src=None):
        r = self.rng
        src = src or self.scan_src()
        if src is None:
            return None
        t = self.traits[src]
        return self.add('integral', [src], {
            'const': r.choice([0, 0, 5, -2.5]), 'mode': r.choice([None, 0, -1, 1]),
            'uniform': t.grid == 'uni'
        }, t.but(mag=t.mag * 20 * self.h, pos=False, wide=False))

    def add_sma(self, src=None):
        r = self.rng
        src = src or self.scan_src(total=True)
        if src is None:
            return None
        t = self.traits[src]
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 7])
        args = {'n': n, 'is_period': False, 'uniform': t.grid == 'uni'}
        return self.add('sma', [src], args, t.but(pos=False, wide=False))

    def add_ema(self, src=None):
        r = self.rng
        src = src or self.scan_src()
        if src is None:
            return None
        t = self.traits[src]
        srcs = [src]
        total = t.total
        if r.random() < 0.3:
            i = self.pick(lambda u: u.grid != 'dense' and not u.wild and not u.ext)
            if i is not None:
                srcs.append(i)
                total = False
        if r.random() < 0.3:
            args = {'n': r.choice([2, 4, 8]) * (t.h or self.h) * (6 if t.grid == 'irr' else 1), 'is_period': True}
        else:
            args = {'n': r.choice([1, 0.5, 0.25, 0.1, 1 / 3]), 'is_period': False}
        args['uniform'] = t.grid == 'uni'
        return self.add('ema', srcs, args, t.but(total=total, pos=False, wide=False))

    def add_smma(self):
        src = self.scan_src(total=True)
        if src is None:
            return None
        t = self.traits[src]
        return self.add('smma', [src], {'n': self.rng.choice([1, 2, 3, 4, 5]), 'uniform': t.grid == 'uni'},
                        t.but(total=False, pos=False, wide=False))

    def add_rsi(self):
        # Whether a value has changed must not depend on rounding
        src = self.scan_src(total=True, extra=lambda t: t.grid == 'uni' and t.exact)
        if src is None:
            return None
        t = self.traits[src]
        return self.add('rsi', [src], {'n': self.rng.choice([1, 2, 3, 5]), 'uniform': True},
                        t.but(total=False, pos=False, wild=True, wide=False))

    def add_acc(self, src=None):
        r = self.rng
        src = src or self.scan_src(total=True)
        if src is None:
            return None
        t = self.traits[src]
        args = {'f': r.choice(list(ACCS)), 'interp': r.choice([None, 0, -1, 1]), 'uniform': t.grid == 'uni'}
        args['trailing'] = r.random() < 0.7
        if r.random() < 0.35 and (t.grid == 'uni' or self.by_id[src][1] == 'points'):
            args['is_period'] = True
            h = t.h if t.grid == 'uni' else self.h
            args['n'] = r.choice([1, 2, 3, 5]) * h
        else:
            args['is_period'] = False
            args['n'] = r.choice([1, 2, 3, 4, 6])
        return self.add('acc', [src], args, t.but(mag=t.mag * 24 + 16, pos=False, wide=False))

    def add_extremas(self):
        r = self.rng
        # Ties must not depend on rounding
        src = self.scan_src(extra=lambda t: t.exact)
        if src is None:
            return None
        b = r.random()
        dev = r.choice([0, 0, 0.1, 0.5, -0.25])
        if b < 0.4:
            c = r.choice([0, 1, -2])
        elif b < 0.6 and self.traits[src].total:
            c = self.add_sma(src)
            dev = r.choice([0.1003, 0.0517, -0.2519])
        else:
            c = self.pick(lambda t: t.exact and t.grid != 'dense' and not t.ext)
        t = self.traits[src]
        return self.add('extremas', [src, c], {'dev': dev},
                        t.but(grid='irr', total=False, ext=True, pos=False, wide=False))

    def some_domain(self):
        r = self.rng
        a = self.x0 + r.randint(-3, 10) * self.h + r.choice([0, 0, 0.5]) * self.h
        b = a + r.randint(1, 10) * self.h
        return (a, b, r.random() < 0.4, r.random() < 0.4)

    def add_subset(self):
        src = self.pick(lambda t: True)
        if src is None:
            return None
        t = self.traits[src]
        inf = t.grid == 'inf'
        return self.add('subset', [src], {'domain': self.some_domain()},
                        t.but(grid='inf' if inf else 'dense', ext=t.ext or inf, total=False, finite=True, wide=False))

    def add_piecewise(self):
        r = self.rng
        n = r.choice([1, 2, 2, 3])
        srcs = []
        for _ in range(n):
            k = self.pick(lambda t: t.grid != 'dense' and not t.ext)
            if k is None:
                return None
            srcs.append(k)
        x = self.x0 + r.randint(-3, 6) * self.h + r.choice([0, 0, 0.5]) * self.h
        domains = []
        closed_start = r.random() < 0.7
        for _ in range(n):
            x1 = x + r.randint(1, 6) * self.h
            end_open = r.random() < 0.6
            domains.append((x, x1, not closed_start, end_open))
            closed_start = end_open
            x = x1
        if any(self.traits[k].grid == 'inf' for k in srcs):
            # A piece without points of its own ends at a point: the bound of the domain
            a, b = domains[0], domains[-1]
            domains[0] = (a[0], a[1], False, a[3])
            b = domains[-1]
            domains[-1] = (b[0], b[1], b[2], False)
        t = self.agg_trait(srcs, True)
        return self.add('piecewise', srcs, {'domains': domains},
                        t.but(total=False, finite=True, grid='irr', ext=False, pos=False, wide=False, wild=t.wild))

    def add_blend(self):
        r = self.rng
        a = self.pick(lambda t: t.finite and t.grid != 'dense' and not t.ext and not t.wild)
        if a is None:
            return None
        b = self.pick(lambda t: not t.wild and t.grid != 'dense' and not t.ext)
        d = self.ref[a].dom()
        # The domain of a blend is fixed when it is made
        if d is None or d[1] - d[0] < 2 * self.h or a == b:
            return None
        w = d[1] - d[0]
        b0 = d[0] + w * r.choice([0.25, 0.5, 0.5, 0])
        b1 = b0 + w * r.choice([0.125, 0.25, 0.5, 1])
        return self.add('blend', [a, b], {'b0': b0, 'b1': b1, 'domain': d},
                        self.agg_trait([a, b], True).but(total=False, finite=True, ext=True, wide=False))

    def add_ext(self):
        r = self.rng
        src = self.pick(lambda t: t.steps and t.total and not t.wild, True)
        if src is None:
            return None
        return self.add_ext_of(src)

    def add_ext_of(self, src):
        r = self.rng
        kind = r.choice(['constant', 'tangent', 'tangent', 'sin'])
        if kind == 'sin' and self.far(src):
            kind = 'tangent'
        a = {'kind': kind, 'start': r.random() < 0.6, 'end': r.random() < 0.75}
        if kind == 'sin':
            a['sin_period'] = r.choice([4, 6.5, 10]) * self.h
        if kind == 'tangent' and r.random() < 0.6:
            if r.random() < 0.6:
                a['degree'] = r.choice([1, 2, 3, 5])
            else:
                a['period'] = r.choice([1, 2, 4]) * self.h * (1 if self.traits[src].grid == 'uni' else 5)
        t = self.traits[src]
        return self.add('ext', [src], a, t.but(ext=True, finite=False, mag=t.mag * 8, pos=False, wide=False))

    def add_field(self, q=None):
        q = q or (self.rng.choice(self.sources('quotes')) if self.sources('quotes') else None)
        if q is None:
            return None
        secs = self.by_id[q][3]['secs']
        f = self.rng.choice(['open', 'high', 'low', 'close', 'volume', 'hl2'])
        return self.add('field', [q], {'f': f, 'floor': secs * 0.01},
                        T('uni', secs, 0.0, mag=100.0))

    # --- edits

    def edit(self, source=None, mon=None):
        """Makes a random valid edit of a source."""
        r = self.rng
        source = source or r.choice([s for s in self.sources()])
        _, op, _, a = self.by_id[source]
        act = self.choose_edit(source, op, a)
        self.apply(source, act)
        return source, act

    def choose_edit(self, source, op, a):
        r = self.rng
        st = self.state[source]
        if op == 'const':
            return ('value', r.choice([0, 1, 2, -1, 0.5, 3.25, -7, 9]))
        if op == 'line':
            return ('line', self.x0 + r.randint(-4, 12) * self.h, ydata(r), r.randint(-8, 8) / 4 / self.h)
        if op == 'sin':
            return ('sin', r.randint(1, 12) / 2, r.choice([4, 7, 16]) * self.h, r.choice([0, 1, 2.5]))
        if op == 'quotes':
            pts = st['pts']
            secs = a['secs']
            x = pts[-1][0] + secs if pts else a['x0'] + r.randint(0, 3) * secs
            b = r.random()
            if b < 0.5:
                return ('append', (x, make_quote(r)))
            if b < 0.8:
                return ('append_list', [(x + k * secs, make_quote(r)) for k in range(r.randint(1, 3))])
            x = a['x0'] + r.randint(0, 3) * secs
            return ('set', [(x + k * secs, make_quote(r)) for k in range(r.randint(0, 9))])
        pts = st['pts']
        uniform = a['uniform']
        h = a['h']

        def y():
            return None if r.random() < a['none_p'] else ydata(r, a['ykind'])

        def nexts(k):
            x = pts[-1][0] if pts else a['x0'] + r.randint(-1, 3) * h - h
            out = []
            for i in range(k):
                if i == 0 and not pts or uniform:
                    x += h
                else:
                    x += h * r.choice([0.25, 0.5, 1, 1, 1.5, 2, 3, 5])
                out.append((x, y()))
            return out

        kinds = ['append', 'append_list', 'set']
        if pts:
            kinds += ['append', 'replace', 'replace', 'replace', 'or_append', 'reset', 'reset', 'reset_all']
            if not uniform and len(pts) > 1:
                kinds += ['insert', 'insert']
        if self.long and pts and r.random() < 0.9:
            kinds = ['append', 'append', 'append_list', 'append_list', 'replace', 'or_append', 'reset']
        if len(pts) > self.longest:
            kinds = ['set', 'reset', 'replace', 'reset_all']
        k = r.choice(kinds)
        if k == 'append':
            return ('append', nexts(1)[0])
        if k == 'append_list':
            return ('append_list', nexts(r.choice(self.bursts)))
        if k == 'replace':
            return ('replace', (r.choice(pts)[0], y()))
        if k == 'insert':
            i = r.randrange(len(pts) - 1)
            x = pts[i][0] + (pts[i + 1][0] - pts[i][0]) * r.choice([0.25, 0.5, 0.5, 0.75])
            return ('replace', (x, y()))
        if k == 'or_append':
            if r.random() < 0.5:
                return ('or_append', nexts(1)[0])
            return ('or_append', (r.choice(pts)[0], y()))
        if k == 'reset_all':
            return ('reset', None)
        if k == 'set':
            x0 = a['x0'] + r.randint(-2, 4) * h
            n = r.choice([0, 1, 2, 3, 5, 8, 12] if not self.long else self.sizes)
            return ('set', make_points(r, n, h, x0, uniform, a['ykind'], a['none_p']))
        if k == 'reset':
            # A domain whose removal leaves the series evenly spaced if it has to be
            def off():
                return r.choice([0, 0, 0.25, -0.25, 0.5]) * h
            if uniform or r.random() < 0.5:
                if self.long:
                    # Mostly something of one of the ends
                    j = min(len(pts) - 1, r.choice([0, 1, 2, 5, 10, 30]))
                    if r.random() < 0.7:
                        return ('reset', (pts[-1 - j][0] + off(), R.INF, r.random() < 0.5, False))
                    return ('reset', (-R.INF, pts[j][0] + off(), False, r.random() < 0.5))
                cut = r.choice(pts)[0] + off()
                if r.random() < 0.6:
                    return ('reset', (cut, r.choice([R.INF, pts[-1][0], pts[-1][0] + h]), r.random() < 0.5, False))
                return ('reset', (r.choice([-R.INF, pts[0][0], pts[0][0] - h]), cut, False, r.random() < 0.5))
            p, q = sorted([r.choice(pts)[0] + off(), r.choice(pts)[0] + off()])
            return ('reset', (p, q, r.random() < 0.5, r.random() < 0.5))
        raise ValueError(k)

    def apply_model(self, source, act):
        st = self.state[source]
        k, v = act[0], act[1]
        if k == 'value':
            st['value'] = v
        elif k == 'line':
            st.update(x=act[1], y=act[2], m=act[3])
        elif k == 'sin':
            st.update(a=act[1], p=act[2], ph=act[3])
        elif k == 'append':
            st['pts'] = st['pts'] + [v]
        elif k == 'append_list':
            st['pts'] = st['pts'] + list(v)
        elif k in ('replace', 'or_append'):
            d = dict(st['pts'])
            d[v[0]] = v[1]
            st['pts'] = sorted(d.items())
        elif k == 'reset':
            st['pts'] = [p for p in st['pts'] if v is not None and not R.inside(R.norm(v), p[0])]
        elif k == 'set':
            st['pts'] = list(v)
        self._ref = None

    def apply_live(self, source, act):
        c = self.live[source]
        k, v = act[0], act[1]
        if k == 'value':
            c.value = v
        elif k == 'line':
            c.set(p1=(act[1], act[2]), slope=act[3])
        elif k == 'sin':
            c.set(amplitude=act[1], period=act[2], phase=act[3])
        elif k == 'append':
            c.append(v)
        elif k == 'append_list':
            c.append_list(list(v))
        elif k == 'replace':
            c.replace(v)
        elif k == 'or_append':
            c.replace(v, or_append=True)
        elif k == 'reset':
            c.reset() if v is None else c.reset(iv(R.norm(v)))
        elif k == 'set':
            c.set(list(v))

    def apply(self, source, act):
        # The model changes first: observers called by the edit may compare
        self.apply_model(source, act)
        self.apply_live(source, act)

    def tol(self, i):
        """(relative, absolute) tolerance for rounding errors."""
        ids = self.ancestors(i)
        mag = max(self.traits[k].mag for k in ids)
        rel, abs_ = 1e-9, max(1e-9, min(1e-13 * mag, 1e-5))
        if any(self.by_id[k][1] == 'ext' for k in ids) and self.far(i):
            # An x of this size has a rounding error of 2e-7, which is multiplied by the slope
            rel, abs_ = 1e-7, max(abs_, 3e-4, min(1e-6 * mag, 1e-2))
        if self.traits[i].wild:
            rel = 1e-6
        return rel, abs_

    def far(self, i):
        return self.x0 > 1e6 or any(self.by_id[k][1] in ('quotes', 'field') for k in self.ancestors(i))

    def compare(self, i, actual, expected):
        rel, abs_ = self.tol(i)
        t = self.traits[i]
        if t.wild and expected is not None and not isinstance(expected, list):
            # A quotient by a value near zero depends on rounding
            if not abs(expected) < 1e5:
                return True
        return close(actual, expected, rel, abs_)

    # --- queries

    def query_xs(self, i, k=12):
        """Places to look at: grid points, places in between, and beyond the ends."""
        r = self.rng
        xs = set()
        base = []
        for s in self.ancestors(i):
            st = self.state.get(s)
            if st and st.get('pts'):
                xs_ = [p[0] for p in st['pts']]
                base += xs_
                if self.long:
                    base += xs_[-8:] * (len(xs_) // 8)
        d = self.ref[i].dom()
        if d is not None:
            base += [v for v in d[:2] if math.isfinite(v)]
        if not base:
            base = [self.x0]
        h = self.h
        lo, hi = min(base), max(base)
        for _ in range(k):
            b = r.random()
            x = r.choice(base)
            if b < 0.5:
                pass
            elif b < 0.8:
                x += h * r.choice([0.5, 0.25, -0.5, 0.125, 1, -1])
            elif b < 0.9:
                x = lo + (hi - lo) * r.randint(0, 64) / 64
            else:
                x = r.choice([lo - h, hi + h, lo - 0.25 * h, hi + 3.5 * h])
            xs.add(float(x))
        return sorted(xs, key=lambda _: r.random())


class RField(R.RMap):
    """A field of quotes. It steps by at least 1% of the duration."""

    def __init__(self, src, f, floor):
        super().__init__(src, f, True)
        self.floor = floor

    def nxt(self, x, ms=R.MS):
        return self.src.nxt(x, max(ms, self.floor))

    def prv(self, x, ms=R.MS):
        return self.src.prv(x, max(ms, self.floor))


class RRSI(R.RTable):
    def __init__(self, src, n):
        super().__init__(src)
        self.n = n

    def compute(self, xs):
        up = down = None
        out = []
        y0 = None
        a = 1 / self.n
        us, ds = [], []
        for x in xs:
            y = self.src.y(x)
            d = None if y0 is None else (y - y0) / (x - px)
            u = 0 if d is None else max(d, 0)
            w = 0 if d is None else max(-d, 0)
            up = u if up is None else up + a * (u - up)
            down = w if down is None else down + a * (w - down)
            us.append(up)
            ds.append(down)
            y0, px = y, x
        self.us, self.ds = us, ds
        return xs, us

    def y(self, x):
        if not R.inside(self.dom(), x):
            return None
        xs, us = self.table()
        u = R.table(xs, us, x)
        d = R.table(xs, self.ds, x)
        rs = math.inf if d == 0 else u / d
        return 100 - 100 / (1 + rs)


class RBlend(R.Ref):
    def __init__(self, a, b, b0, b1, domain):
        super().__init__()
        self.a, self.b, self.b0, self.b1, self.domain = a, b, b0, b1, domain

    def get_dom(self):
        return self.domain

    def y(self, x):
        if not R.inside(self.domain, x):
            return None
        if x < self.b0:
            return self.a.y(x)
        if x >= self.b1:
            return self.b.y(x)
        if not R.inside(self.a.dom(), x) or not R.inside(self.b.dom(), x):
            return None
        u = (x - self.b0) / (self.b1 - self.b0)
        ya, yb = self.a.y(x), self.b.y(x)
        return None if ya is None or yb is None else (1 - u) * ya + u * yb
