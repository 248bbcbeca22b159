"""An independent reference interpreter of curves, working on plain lists.

It never imports curvepy. A domain is None (empty) or (lo, hi, lo_open, hi_open).
"""
import bisect
import math

from .core import Skip

MS = 1e-5
INF = math.inf
ALL = (-INF, INF, True, True)


def inside(d, x, start=True, end=True):
    """Whether x lies in d, optionally ignoring one of its ends."""
    if d is None:
        return False
    lo, hi, lo_open, hi_open = d
    if start and (x < lo or (x == lo and lo_open)):
        return False
    if end and (x > hi or (x == hi and hi_open) or (x == lo and lo_open)):
        return False
    return True


def norm(d):
    if d is None:
        return None
    lo, hi, a, b = d
    if lo > hi or (lo == hi and (a or b)):
        return None
    return d


def intersect(ds):
    lo, hi, lo_open, hi_open = ALL
    for d in ds:
        if d is None:
            return None
        if d[0] > lo or (d[0] == lo and d[2]):
            lo, lo_open = d[0], d[2]
        if d[1] < hi or (d[1] == hi and d[3]):
            hi, hi_open = d[1], d[3]
    return norm((lo, hi, lo_open, hi_open))


def hull(ds):
    ds = [d for d in ds if d is not None]
    if not ds:
        return None
    lo = min(d[0] for d in ds)
    hi = max(d[1] for d in ds)
    lo_open = all(d[2] for d in ds if d[0] == lo)
    hi_open = all(d[3] for d in ds if d[1] == hi)
    return (lo, hi, lo_open, hi_open)


class Ref:
    inf_step = False    # has no grid of its own
    dense = False       # steps by the minimum step
    floor = 0           # its own minimum step

    def __init__(self):
        self._grid = None
        self._dom = 0

    def dom(self):
        if self._dom == 0:
            self._dom = norm(self.get_dom())
        return self._dom

    def nxt(self, x, ms=MS):
        raise NotImplementedError

    def prv(self, x, ms=MS):
        raise NotImplementedError

    def grid(self):
        """The points which stepping through the domain visits."""
        if self._grid is None:
            g = []
            d = self.dom()
            if d is not None:
                assert math.isfinite(d[0])
                x = d[0]
                if inside(d, x):
                    g.append(x)
                x = self.nxt(x)
                while x is not None:
                    if inside(d, x):
                        g.append(x)
                    x = self.nxt(x)
            self._grid = g
        return self._grid

    def slope(self, x, forward=False):
        x1 = self.nxt(x) if forward else self.prv(x)
        if x1 is None:
            return None
        y1 = self.y(x1)
        y = self.y(x)
        if y is None or y1 is None:
            return None
        return (y1 - y) / (x1 - x)

    def samples(self, d=None, ms=MS):
        """Domain starts (if closed), steps in between and domain ends (if closed)."""
        d = self.dom() if d is None else intersect([self.dom(), d])
        if d is None:
            return []
        lo, hi, lo_open, hi_open = d
        xs = [] if lo_open else [lo]
        x = self.nxt(lo, ms)
        while x is not None and x < hi:
            xs.append(x)
            x = self.nxt(x, ms)
        if not hi_open and (not xs or xs[-1] != hi):
            xs.append(hi)
        return [(x, self.y(x)) for x in xs]


def lin(x, x0, y0, x1, y1):
    if y0 is None or y1 is None:
        return None
    u = (x - x0) / (x1 - x0)
    return (1 - u) * y0 + u * y1


def table(xs, ys, x, interp=0):
    """Looks up x in a table."""
    if not xs or x < xs[0] or x > xs[-1]:
        return None
    i = bisect.bisect_left(xs, x)
    if xs[i] == x:
        return ys[i]
    if interp == -1:
        return ys[i - 1]
    if interp == 1:
        return ys[i]
    return lin(x, xs[i - 1], ys[i - 1], xs[i], ys[i])


class RPoints(Ref):
    def __init__(self, pts, interp=0):
        super().__init__()
        self.xs = [p[0] for p in pts]
        self.ys = [p[1] for p in pts]
        self.interp = interp

    def get_dom(self):
        return (self.xs[0], self.xs[-1], False, False) if self.xs else None

    def grid(self):
        return self.xs

    def y(self, x):
        return table(self.xs, self.ys, x, self.interp)

    def nxt(self, x, ms=MS):
        i = bisect.bisect_left(self.xs, x + ms)
        return self.xs[i] if i < len(self.xs) else None

    def prv(self, x, ms=MS):
        i = bisect.bisect_right(self.xs, x - ms) - 1
        return self.xs[i] if i >= 0 else None

    def samples(self, d=None, ms=MS):
        return [(x, y) for x, y in zip(self.xs, self.ys) if d is None or inside(d, x)]


class RConst(Ref):
    inf_step = True

    def __init__(self, value, domain=None):
        super().__init__()
        self.value = value
        self.domain = domain or ALL

    def get_dom(self):
        return self.domain

    def y(self, x):
        return self.value if inside(self.domain, x) else None

    def slope(self, x, forward=False):
        return 0.0


class RLine(Ref):
    inf_step = True

    def __init__(self, x0, y0, slope):
        super().__init__()
        self.p = (x0, y0)
        self.m = slope

    def get_dom(self):
        return ALL

    def y(self, x):
        return self.p[1] + self.m * (x - self.p[0])

    def slope(self, x, forward=False):
        return self.m


class RSin(Ref):
    dense = True

    def __init__(self, amplitude, period, phase):
        super().__init__()
        self.a, self.w, self.ph = amplitude, 2 * math.pi / period, phase

    def get_dom(self):
        return ALL

    def y(self, x):
        return self.a * math.sin(self.w * x + self.ph)

    def slope(self, x, forward=False):
        return self.a * self.w * math.cos(self.w * x + self.ph)

    def nxt(self, x, ms=MS):
        return x + ms

    def prv(self, x, ms=MS):
        return x - ms


class REmpty(Ref):
    inf_step = True

    def get_dom(self):
        return None

    def y(self, x):
        return None


class RFn(Ref):
    """A function of x on a domain. It steps by `step`."""
    dense = True

    def __init__(self, f, domain=None, step=MS):
        super().__init__()
        self.f = f
        self.domain = domain or ALL
        self.step = step
        self.floor = step

    def get_dom(self):
        return self.domain

    def y(self, x):
        return self.f(x) if inside(self.domain, x) else None

    def nxt(self, x, ms=MS):
        x1 = x + max(ms, self.step)
        return x1 if inside(self.dom(), x1, start=False) else None

    def prv(self, x, ms=MS):
        x1 = x - max(ms, self.step)
        return x1 if inside(self.dom(), x1, end=False) else None


class RAgg(Ref):
    def __init__(self, srcs, f, union=False):
        super().__init__()
        self.srcs = srcs
        self.f = f
        self.union = union
        self.steppers = [s for s in srcs if not s.inf_step]
        self.inf_step = bool(srcs) and not self.steppers

    def get_dom(self):
        return (hull if self.union else intersect)([s.dom() for s in self.srcs])

    def y(self, x):
        if not inside(self.dom(), x):
            return None
        return self.f([s.y(x) for s in self.srcs])

    def nxt(self, x, ms=MS):
        c = [s.nxt(x, ms) for s in self.steppers]
        c = min((v for v in c if v is not None), default=None)
        if c is None or not inside(self.dom(), c, start=False):
            return None
        lo, _, lo_open, _ = self.dom()
        if c < lo or c == lo and lo_open:
            # The first point of the common domain
            return self.nxt(lo) if lo_open else lo
        return c

    def prv(self, x, ms=MS):
        c = [s.prv(x, ms) for s in self.steppers]
        c = max((v for v in c if v is not None), default=None)
        if c is None or not inside(self.dom(), c, end=False):
            return None
        _, hi, _, hi_open = self.dom()
        if c > hi or c == hi and hi_open:
            # The last point of the common domain
            return self.prv(hi) if hi_open else hi
        return c


class Wrap(Ref):
    """Steps like its source."""

    def __init__(self, src):
        super().__init__()
        self.src = src
        self.inf_step = src.inf_step
        self.dense = src.dense

    def get_dom(self):
        return self.src.dom()

    def nxt(self, x, ms=MS):
        return self.src.nxt(x, ms)

    def prv(self, x, ms=MS):
        return self.src.prv(x, ms)


class RMap(Wrap):
    def __init__(self, src, f, skip_none=False, with_x=False):
        super().__init__(src)
        self.floor = src.floor
        self.f = f
        self.skip_none = skip_none
        self.with_x = with_x

    def y(self, x):
        y = self.src.y(x)
        if y is None and self.skip_none:
            return None
        return self.f(x, y) if self.with_x else self.f(y)


class RDiff(Wrap):
    def __init__(self, src, forward=False):
        super().__init__(src)
        self.floor = src.floor
        self.forward = forward

    def y(self, x):
        return self.src.slope(x, self.forward)


class ROffset(Wrap):
    def __init__(self, src, dx):
        super().__init__(src)
        self.floor = src.floor
        self.dx = dx

    def get_dom(self):
        d = self.src.dom()
        return d and (d[0] + self.dx, d[1] + self.dx, d[2], d[3])

    def y(self, x):
        return self.src.y(x - self.dx) if inside(self.src.dom(), x - self.dx) else None

    def nxt(self, x, ms=MS):
        c = self.src.nxt(x - self.dx, ms)
        return c + self.dx if c is not None and inside(self.src.dom(), c) else None

    def prv(self, x, ms=MS):
        c = self.src.prv(x - self.dx, ms)
        return c + self.dx if c is not None and inside(self.src.dom(), c) else None

    def slope(self, x, forward=False):
        if not inside(self.src.dom(), x - self.dx):
            return None
        return self.src.slope(x - self.dx, forward)


class RShift(Wrap):
    """Moved by a number of durations.

    The steps of the duration are multiples of its length, or given as a sorted list.
    """

    def __init__(self, src, secs, count, steps=None):
        super().__init__(src)
        self.secs = secs
        self.count = count
        self.steps = steps

    def down(self, x):
        if self.steps:
            return self.steps[bisect.bisect_right(self.steps, x) - 1]
        return math.floor(x / self.secs) * self.secs

    def up(self, x):
        if self.steps:
            return self.steps[bisect.bisect_left(self.steps, x)]
        return math.ceil(x / self.secs) * self.secs

    def after(self, x, k):
        """The k-th step after the step x, or before it."""
        if self.steps:
            return self.steps[bisect.bisect_left(self.steps, x) + k]
        return x + k * self.secs

    def get_dom(self):
        d = self.src.dom()
        if d is None or not self.count:
            return d
        lo, hi = self.up(d[0]), self.down(d[1])
        if not inside(d, lo, end=False):
            lo = self.after(lo, 1)
        if not inside(d, hi, start=False):
            hi = self.after(hi, -1)
        if lo > hi:
            return None
        return (self.after(lo, self.count), self.after(hi, self.count), False, False)

    def y(self, x):
        d = self.src.dom()
        if not self.count:
            return self.src.y(x) if inside(d, x) else None
        if d is None:
            return None
        x0, x1 = self.down(x), self.up(x)
        s0, s1 = self.after(x0, -self.count), self.after(x1, -self.count)
        if not inside(d, s0) or not inside(d, s1):
            return None
        return self.src.y(s0) if x0 == x1 else lin(x, x0, self.src.y(s0), x1, self.src.y(s1))

    def nxt(self, x, ms=MS):
        d = self.dom()
        if d is None:
            return None
        c = self.after(self.down(x), 1) if x >= d[0] else self.up(d[0])
        if c - x < ms:
            c = self.up(x + ms)
        if c == d[0] and d[2]:
            c = self.after(c, 1)
        return c if inside(d, c) else None

    def prv(self, x, ms=MS):
        d = self.dom()
        if d is None:
            return None
        c = self.after(self.up(x), -1) if x <= d[1] else self.down(d[1])
        if x - c < ms:
            c = self.down(x - ms)
        if c == d[1] and d[3]:
            c = self.after(c, -1)
        return c if inside(d, c) else None


class RTable(Wrap):
    """Values at the grid of the source, interpolated in between."""
    interp = 0

    def __init__(self, src):
        super().__init__(src)
        self._table = None

    def table(self):
        if self._table is None:
            self._table = self.compute(self.src.grid())
        return self._table

    def y(self, x):
        if not inside(self.dom(), x):
            return None
        xs, ys = self.table()
        return table(xs, ys, x, self.interp)


class RIntegral(RTable):
    def __init__(self, src, const=0, mode=0):
        super().__init__(src)
        self.const = const
        self.mode = mode

    def compute(self, xs):
        ys = []
        total = None
        y0 = None
        for i, x in enumerate(xs):
            y = self.src.y(x)
            if y is not None:
                if total is None:
                    total = 0.0
                if i and y0 is not None:
                    w = x - xs[i - 1]
                    total += w * {0: (y0 + y) / 2, -1: y0, 1: y}[self.mode]
            ys.append(None if total is None else total + self.const)
            y0 = y
        return xs, ys


class RSMA(RTable):
    def __init__(self, src, degree=None, period=None):
        super().__init__(src)
        self.degree = degree
        self.period = period

    def first(self):
        xs = self.src.grid()
        if self.degree is not None:
            return self.degree - 1
        return max(i for i, x in enumerate(xs) if i == 0 or x < xs[0] + self.period - MS / 2)

    def get_dom(self):
        d = self.src.dom()
        if d is None:
            return None
        xs = self.src.grid()
        i = self.first()
        if i >= len(xs):
            return None
        return (xs[i], d[1], False, d[3])

    def compute(self, xs):
        ys = [self.src.y(x) for x in xs]
        vals = []
        for i in range(self.first(), len(xs)):
            if self.degree is not None:
                j = i - self.degree + 1
            else:
                j = i
                while j > 0 and xs[j - 1] > xs[i] - self.period + MS / 2:
                    j -= 1
            if j == i:
                vals.append(ys[i])
                continue
            area = sum((xs[k + 1] - xs[k]) * (ys[k] + ys[k + 1]) / 2 for k in range(j, i))
            vals.append(area / (xs[i] - xs[j]))
        return xs[self.first():], vals

    def y(self, x):
        if self.degree == 1:
            return self.src.y(x) if inside(self.dom(), x) else None
        return super().y(x)

    def nxt(self, x, ms=MS):
        c = self.src.nxt(x, ms)
        if self.dom() is None or c is None or not inside(self.dom(), c, start=False):
            return None
        return max(c, self.dom()[0])

    def prv(self, x, ms=MS):
        c = self.src.prv(x, ms)
        if self.dom() is None or c is None or not inside(self.dom(), c, end=False):
            return None
        return c


class REMA(RTable):
    def __init__(self, src, alpha=None, period=None, init=None):
        super().__init__(src)
        self.alpha = alpha
        self.period = period
        self.init = init

    def compute(self, xs):
        out = []
        e = None
        for i, x in enumerate(xs):
            y = self.src.y(x)
            if y is not None:
                if e is None:
                    e = y if self.init is None else self.init.y(x)
                else:
                    a = self.alpha if self.alpha is not None else (x - xs[i - 1]) / self.period
                    e = (1 - a) * e + a * y
            out.append(e)
        return xs, out


class RAcc(RTable):
    def __init__(self, src, f, degree=None, period=None, interp=0, with_x=False):
        super().__init__(src)
        self.f = f
        self.degree = degree
        self.period = period
        self.interp = interp
        self.with_x = with_x

    def compute(self, xs):
        ys = [self.src.y(x) for x in xs]
        out = []
        for i, x in enumerate(xs):
            window = []
            for j in range(i, -1, -1):
                if self.degree is not None and len(window) == self.degree:
                    break
                if self.period is not None and xs[j] < x - self.period:
                    break
                if self.degree is not None and j != i and ys[j] is None:
                    break
                window.append(ys[j])
            out.append(self.f(x, window) if self.with_x else self.f(window))
        return xs, out


def interpolated(ref, x):
    """Whether the value at x is only known up to rounding."""
    if isinstance(ref, RConst):
        return False
    if isinstance(ref, RPoints):
        i = bisect.bisect_left(ref.xs, x)
        if i == len(ref.xs) or ref.xs[i] == x or i == 0 or ref.interp:
            return False
        u = (x - ref.xs[i - 1]) / (ref.xs[i] - ref.xs[i - 1])
        return (u * 2 ** 16) % 1 != 0
    try:
        return ref.nxt(x - 2 * MS) != x
    except NotImplementedError:
        return True


class RExtremas(Ref):
    def __init__(self, src, ref, deviation):
        super().__init__()
        self.src = src
        self.ref = ref
        self.deviation = deviation
        self._ex = None

    def get_dom(self):
        return self.src.dom()

    def extremas(self):
        if self._ex is None:
            confirmed = []
            side = 0
            best = None
            for x in self.src.grid():
                y, r = self.src.y(x), self.ref.y(x)
                if y is not None and r is not None and interpolated(self.ref, x):
                    if abs(abs(y - r) - self.deviation * abs(r)) <= 1e-9 * max(1, abs(r)):
                        raise Skip()    # the side is decided by rounding
                if y is None or r is None or abs(y - r) <= self.deviation * abs(r):
                    continue
                s = 1 if y > r else -1
                if s == -side:
                    confirmed.append(best)
                    best = None
                if best is None or s * y > s * best[1]:
                    best = (x, y)
                side = s
            self._ex = confirmed
        return self._ex

    def y(self, x):
        ex = self.extremas()
        if not inside(self.dom(), x):
            return None
        return table([p[0] for p in ex], [p[1] for p in ex], x)

    # Stepping: the extremas within their interval and the source's steps elsewhere
    def nxt(self, x, ms=MS):
        xs = [p[0] for p in self.extremas()]
        if xs and xs[0] <= x + ms <= xs[-1]:
            return xs[bisect.bisect_left(xs, x + ms)]
        return self.src.nxt(x, ms)

    def prv(self, x, ms=MS):
        xs = [p[0] for p in self.extremas()]
        if xs and xs[0] <= x - ms <= xs[-1]:
            return xs[bisect.bisect_right(xs, x - ms) - 1]
        return self.src.prv(x, ms)


class RPiecewise(Ref):
    def __init__(self, srcs, domains):
        super().__init__()
        self.srcs = srcs
        self.domains = domains

    def get_dom(self):
        return hull(self.domains)

    def y(self, x):
        for s, d in zip(self.srcs, self.domains):
            if inside(d, x):
                return s.y(x)
        return None

    def bounds(self):
        b = {v for d in self.domains if d for v in d[:2]}
        return [v for v in b if math.isfinite(v) and inside(self.dom(), v)]

    def nxt(self, x, ms=MS):
        if not inside(self.dom(), x + ms, start=False):
            return None
        c = [v for v in self.bounds() if v >= x + ms]
        for s, d in zip(self.srcs, self.domains):
            if not s.inf_step:
                v = s.nxt(x, ms)
                if v is not None and inside(d, v):
                    c.append(v)
        return min(c, default=None)

    def prv(self, x, ms=MS):
        if not inside(self.dom(), x - ms, end=False):
            return None
        c = [v for v in self.bounds() if v <= x - ms]
        for s, d in zip(self.srcs, self.domains):
            if not s.inf_step:
                v = s.prv(x, ms)
                if v is not None and inside(d, v):
                    c.append(v)
        return max(c, default=None)


class RSubset(Ref):
    dense = True

    def __init__(self, src, domain):
        super().__init__()
        self.src = src
        self.domain = domain
        self.inf_step = src.inf_step
        self.dense = not src.inf_step
        self.floor = src.floor

    def get_dom(self):
        return self.domain

    def y(self, x):
        return self.src.y(x) if inside(self.dom(), x) else None

    def nxt(self, x, ms=MS):
        ms = max(ms, self.floor)
        return x + ms if inside(self.dom(), x + ms, start=False) else None

    def prv(self, x, ms=MS):
        ms = max(ms, self.floor)
        return x - ms if inside(self.dom(), x - ms, end=False) else None


class RExt(Ref):
    """Terminal: only its values and domain are specified."""

    def __init__(self, src, kind, start, end, degree=None, period=None, sin_period=None):
        super().__init__()
        self.src = src
        self.kind = kind
        self.ends = (start, end)
        self.degree = degree
        self.period = period
        self.sin_period = sin_period
        self._edges = None

    def edges(self):
        """For each end: None or (x, function of x)."""
        if self._edges is None:
            r = [None, None]
            d = self.src.dom()
            for k in (0, 1):
                if d is None or not self.ends[k]:
                    continue
                r[k] = self.edge(k, d[k])
            self._edges = r
        return self._edges

    def edge(self, k, x):
        y = self.src.y(x)
        if self.kind == 'constant':
            return lambda _: y
        step = self.src.nxt if k == 0 else self.src.prv
        if self.degree is not None or self.period is not None:
            if self.degree is not None:
                lim = x
                for _ in range(self.degree):
                    if step(lim) is not None:
                        lim = step(lim)
            else:
                lim = x + self.period if k == 0 else x - self.period
            pts = self.src.samples((min(x, lim), max(x, lim), False, False))
            if len(pts) < 2:
                return None
            xs = [p[0] for p in pts]
            ys = [p[1] for p in pts]
            if any(v is None for v in ys):
                return None
            mx, my = sum(xs) / len(xs), sum(ys) / len(ys)
            m = sum((a - mx) * (b - my) for a, b in zip(xs, ys)) / sum((a - mx) ** 2 for a in xs)
            y = my + m * (x - mx)
        else:
            m = self.src.slope(x, forward=(k == 0))
        if y is None or m is None:
            return None
        if self.kind == 'tangent':
            return lambda v: y + m * (v - x)
        # The sine through (x, y) with slope m and the given period
        w = 2 * math.pi / self.sin_period
        return lambda v: y * math.cos(w * (v - x)) + m / w * math.sin(w * (v - x))

    def get_dom(self):
        d = self.src.dom()
        if d is None:
            return None
        a, b = self.edges()
        return (-INF if a else d[0], INF if b else d[1], True if a else d[2], True if b else d[3])

    def y(self, x):
        d = self.src.dom()
        if d is None:
            return None
        if inside(d, x):
            return self.src.y(x)
        a, b = self.edges()
        if x <= d[0] and a:
            return a(x)
        if x >= d[1] and b:
            return b(x)
        return None


def decimated(pts, step):
    """The points which are visited from the first one when steps have to be at least so wide."""
    out = []
    for p in pts:
        if not out or p[0] >= out[-1][0] + step:
            out.append(p)
    return out
