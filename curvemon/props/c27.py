"""C27: what a trend line says about the curve."""
import math
from ..core import Family
from ..load import Points, Trend

RULE = ('Tops (bottoms) on a straight line with the curve clearly below (above) in between, followed by a random course which '
        'touches, leaves and crosses the line. Where the curve touches and crosses the line, its furthest points in '
        'between and the prediction are worked out from the list of points. Non-trivial: a course which crosses the line.')
REQUIRED_EVENTS = ['upper', 'lower', 'crossed', 'crossed twice', 'touched', 'run of touches', 'furthest', 'out of reach', 'relative tolerance',
                   'absolute tolerance', 'sloped', 'too few touches', 'left', 'retested', 'confirmed', 'fulfilled', 'failed', 'late retest',
                   'crossed back', 'timed out', 'extended', 'extended to a crossing', 'asked in between', 'edited', 'on the line', 'former course']
GOLD = (1 + math.sqrt(5)) / 2
NONE, LEFT, RETESTED, CONFIRMED, FULFILLED = range(5)


class Unclear(Exception):
    """Rounding decides what is expected."""


class Line:
    """The least squares line through points, its tolerance and reach."""

    def __init__(self, pts, tol, reach):
        n = len(pts)
        self.pts = list(pts)
        xm = sum(p[0] for p in pts) / n
        ym = sum(p[1] for p in pts) / n
        self.m = sum((p[0] - xm) * (p[1] - ym) for p in pts) / sum((p[0] - xm) ** 2 for p in pts)
        self.x0, self.x1 = pts[0][0], pts[-1][0]
        self.y0 = ym + self.m * (self.x0 - xm)
        self.y1 = ym + self.m * (self.x1 - xm)
        self.tol = tol
        self.end = self.x0 + reach * (self.x1 - self.x0)

    def y(self, x):
        return self.y0 + self.m * (x - self.x0)

    def width(self, x):
        """The tolerance at `x`."""
        a, b = self.tol(self.y0), self.tol(self.y1)
        return a + (b - a) / (self.x1 - self.x0) * (x - self.x0)

    def side(self, p):
        d, w = p[1] - self.y(p[0]), self.width(p[0])
        if abs(abs(d) - w) < 1e-6 * max(1, abs(p[1])) or w < 1e-3:
            raise Unclear()
        return 0 if abs(d) <= w else 1 if d > 0 else -1


def interest(line, pts):
    """Where the points touch and cross the line, and the furthest points in between."""
    touches, crossings, extremes = [], [], []
    run, stretch, before = [], [], None

    def close():
        if run:
            touches.append(list(run))
            run.clear()
        if stretch:
            # Of points as far as each other any may be named
            top = max(p[1] * s for p, s in stretch)
            extremes.append([p for p, s in stretch if p[1] * s >= top - 1e-9])
            stretch.clear()
    for i, p in enumerate(pts):
        s = line.side(p)
        if s == 0:
            if stretch:
                close()
            run.append(p)
            continue
        if run:
            if before is not None and before[1] != s:
                raise Unclear()  # passes the line at a touch
            close()
        elif before is not None and before[1] != s:
            close()
            q = before[0]
            a, b = q[1] - line.y(q[0]), p[1] - line.y(p[0])
            x = q[0] + (p[0] - q[0]) * a / (a - b)
            crossings.append((x, line.y(x)))
        stretch.append((p, s))
        before = (p, s)
    close()
    # Of touches as close as each other any may be named
    closest = []
    for r in touches:
        d = [abs(p[1] - line.y(p[0])) for p in r]
        closest.append([p for p, e in zip(r, d) if e <= min(d) + 1e-9])
    return closest, crossings, extremes


class Prediction:
    def __init__(self, line, upper, min_points):
        self.line, self.s, self.min_points = line, 1 if upper else -1, min_points
        self.phase, self.failed, self.ok = NONE, False, False
        self.crossing = self.far = self.target_of = self.retest = self.reached = None
        self.touches, self.seen = 0, -math.inf
        self.why = None

    def fail(self, why):
        self.failed, self.why = True, why

    @property
    def late(self):
        """The latest x of a retest"""
        return self.crossing[0] + (self.crossing[0] - self.line.x0) / GOLD

    @property
    def target(self):
        return self.crossing[1] + (self.target_of[1] - self.crossing[1]) * GOLD ** 2

    @property
    def until(self):
        return self.target_of[0] + (self.target_of[0] - self.line.x0) * GOLD

    def over(self, y, ref):
        d = (y - ref) * self.s
        if abs(d) < 1e-6 * max(1, abs(y)):
            raise Unclear()
        return d > 0

    def after(self, x, ref):
        if abs(x - ref) < 1e-6 * max(1, abs(x)):
            raise Unclear()
        return x > ref

    def follow(self, pts):
        if self.ok or self.failed:
            return
        touches, crossings, extremes = interest(self.line, pts)
        events = [(p[0][0], 't', p) for p in touches] + [(p[0], 'c', p) for p in crossings]
        events += [(p[0][0], 'e', p) for p in extremes if self.line.side(p[0]) == self.s]
        for x, kind, p in sorted(events, key=lambda e: e[0]):
            if self.ok or self.failed:
                return
            if x <= self.seen:
                continue
            if self.phase == NONE:
                self.touches += kind == 't'
                if kind == 'c':
                    if self.touches < self.min_points:
                        self.fail('too few touches')
                    else:
                        self.phase, self.crossing = LEFT, p
            elif kind == 'c':
                self.fail('crossed back')
            elif kind == 'e':
                if len(p) > 1:
                    raise Unclear()
                self.far = p = p[0]
                if self.phase == LEFT:
                    self.target_of = p
                if self.phase == RETESTED:
                    # Beyond the line through the origin and the furthest point
                    a, b = (self.line.x0, self.line.y0), self.target_of
                    y = a[1] + (b[1] - a[1]) / (b[0] - a[0]) * (p[0] - a[0])
                    if self.over(p[1], y + self.s * self.line.tol(y)):
                        self.phase = CONFIRMED
                if self.phase == CONFIRMED:
                    if self.over(p[1], self.target - self.s * self.line.tol(self.target)):
                        self.phase, self.ok, self.reached = FULFILLED, True, p
                    elif self.after(p[0], self.until):
                        self.fail('timed out')
            else:
                if len(p) > 1:
                    raise Unclear()
                if self.after(p[0][0], self.late):
                    self.fail('late retest')
                elif self.far is None:
                    self.fail('never left')
                else:
                    self.target_of = self.far
                    self.phase, self.retest = RETESTED, p[0]
        if events:
            self.seen = max(e[0] for e in events)
        if not (self.ok or self.failed) and self.phase != NONE:
            if self.after(pts[-1][0], self.late if self.phase == LEFT else self.until):
                self.fail('timed out')


def course(rng, s, tol, base, m, x0, h, reach):
    """Points, indexes of the tops, side of the line: -1 for tops."""
    k = rng.choice([3, 3, 4, 5])
    at = [0]
    near = rng.random() < (0.15 if reach == 10 else 0.6)
    for _ in range(k - 1):
        at.append(at[-1] + (1 if near else rng.choice([2, 2, 3, 4])))
    pts = []

    def add(d):
        i = len(pts)
        pts.append((x0 + h * i, base + m * h * i + d * tol))
    far = lambda: rng.choice([8, 12, 16, 32]) + rng.random()
    for i in range(at[-1] + 1):
        add(0 if i in at else -s * far())
    # The course after it
    side = -s
    plan = rng.random()
    if plan < 0.6:
        # As the prediction has it
        for _ in range(rng.randint(1, 2)):
            add(-s * far())
        side, u = s, rng.choice([4, 6, 10]) + rng.random()
        for _ in range(rng.randint(1, 3)):
            add(s * u * rng.uniform(0.7, 1))
        if rng.random() < 0.9:
            for _ in range(rng.choice([1, 1, 1, 2])):
                add(rng.choice([0, 0, 0.3, -0.3]))
                if rng.random() < 0.3:
                    add(s * u * rng.uniform(0.5, 1.3))
            for _ in range(rng.randint(0, 3)):
                add(s * u * rng.choice([0.8, 1.3, 1.6, 2, 2.8, 3.5]) * rng.uniform(0.95, 1.05))
    quiet = rng.random() < 0.3
    if quiet:
        # Neither touches nor comes further from the line
        for _ in range(rng.choice([4, 10, 20])):
            add(side * (2.5 + rng.random()))
    for _ in range(rng.choice([0, 2] if quiet else [0, 2, 5, 10, 20, 30])):
        b = rng.random()
        if b < 0.2:
            add(rng.choice([0, 0, 0.3, -0.3]))
        else:
            if b < 0.4 and abs(pts[-1][1] - (base + m * (pts[-1][0] - x0))) > 2 * tol:
                side = -side
            add(side * (rng.choice([2, 4, 8, 20]) + rng.random()))
    return pts, at


def reads(rng, mon, tier):
    s = rng.choice([1, -1])
    h = rng.choice([0.5, 1, 1, 60])
    x0 = rng.choice([0, 0, -7 * h, 16 * h])
    m = rng.choice([0, 0, rng.randint(-4, 4) / 4]) / h
    rel = rng.random() < 0.3
    unit = 0.5 if rel else rng.choice([0.25, 0.5])
    base = 100 if rel else rng.choice([100, 100, 0, -30])
    reach = rng.choice([10.0, 10.0, 10.0, 4.0, 2.0])
    pts, at = course(rng, s, unit, base, m, x0, h, reach)
    if rel and min(p[1] for p in pts) < 20:
        return
    k = len(at)
    kw = dict(min_width=h * at[-1], min_points=rng.choice([3, k, k]), search_length_rel=reach)
    if rel:
        kw['y_tol_rel'] = 0.005
        tol = lambda y: 0.005 * abs(y)
    else:
        kw['y_tol_abs'] = unit
        tol = lambda y: unit
    upper = s > 0
    mon.log('upper' if upper else 'lower', pts, kw)
    # What is expected
    tops = [pts[i] for i in at]
    try:
        line = Line(tops, tol, kw['search_length_rel'])
        inside = pts[:at[-1] + 1]
        known = None
        beyond = False
        for p in pts[at[-1] + 1:]:
            if 0 < abs(p[0] - line.end) < 1e-6 * h:
                raise Unclear()
            if p[0] >= line.end:
                beyond = True
                break
            inside.append(p)
            if line.side(p) == 0:
                line = Line(line.pts + [p], tol, kw['search_length_rel'])
                known = None
            else:
                # Points on the way are told one by one
                if known is None:
                    known = Prediction(line, upper, kw['min_points'])
                    known.follow(inside[:-1])
                known.follow(inside)
        if known is None:
            known = Prediction(line, upper, kw['min_points'])
            known.follow(inside)
        touches, crossings, extremes = interest(line, inside)
    except Unclear:
        mon.event('unclear')
        return
    lead = rng.random() < 0.25
    if lead:
        # A former course, at least the least width before the first top
        n = at[-1] + rng.choice([0, 0, 1, 5])
        p, q = (x0 - h * n, base - m * h * n + rng.choice([-40, -20, 20, 40]) * unit), pts[0]
        lead = not any(abs(q[1] + (q[1] - p[1]) / (q[0] - p[0]) * (r[0] - q[0]) - r[1]) < 3 * unit for r in pts[1:])
        if lead:
            pts.insert(0, p)
            mon.log('after', p)
    # What is told
    Series = lambda p: Points(p, uniform=not lead)
    src = Series(list(pts))
    b = rng.random()
    if b < 0.25:
        n = rng.randrange(1, len(pts))
        src = Series(list(pts[:n]))
    elif b < 0.5:
        other = list(pts)
        j = rng.randrange(len(pts))
        other[j] = (other[j][0], other[j][1] + s * unit * rng.choice([-20, -8, 8, 20]))
        src = Series(other)
    t = Trend(src, **kw)
    if b < 0.25:
        for p in pts[n:]:
            if rng.random() < 0.5:
                (t.upper if upper else t.lower)(rng.choice([p[0], x0]))
            src.append(p)
        mon.event('asked in between')
    elif b < 0.5:
        t.y(rng.choice(pts)[0])
        src.replace(pts[j])
        mon.event('edited')
    t.y(x0)
    t.y(pts[-1][0])
    ls = [l for l in (t.upper if upper else t.lower)(x0) if all(p in l.trend_points for p in tops)]
    what = f'{"upper" if upper else "lower"} trend line through {tops} of {pts}'
    sure = min(b - a for a, b in zip(at, at[1:])) > 1 and kw == dict(kw, min_points=k, search_length_rel=10)
    mon.check(not sure or len(ls) == 1, lambda: f'{len(ls)} {what}')
    if not sure and (len(ls) != 1 or len(ls[0].trend_points) != len(line.pts)):
        # Other trend lines came before it
        mon.event('not recognised')
        return
    l = ls[0]
    if lead and any(not line.x0 <= p[0] < line.end for q in (l.tangent_points, l.intersections, l.extremas) for p in q):
        # The line was another one before and also tells of the course along that
        mon.event('former line')
        return
    mon.event('upper' if upper else 'lower')
    mon.event('former course', lead)
    mon.event('relative tolerance' if rel else 'absolute tolerance')
    mon.event('sloped', m != 0)
    mon.event('out of reach', beyond)
    mon.same([tuple(p) for p in l.trend_points], line.pts, lambda: f'{what}: points')
    same = lambda a, b, w: mon.same(a, b, lambda: f'{what}: {w}', 1e-9, 1e-7)
    same([tuple(q) for q in l], [(line.x0, line.y0), (line.x1, line.y1)], 'line')
    # Touches, crossings and furthest points
    mon.check(len(l.tangent_points) == len(touches) and all(tuple(p) in q for p, q in zip(l.tangent_points, touches)),
              lambda: f'{what}: touched at {l.tangent_points}, expected one of each of {touches}')
    same([tuple(p) for p in l.intersections], crossings, 'crossings')
    mon.check(len(l.extremas) == len(extremes) and all(tuple(p) in q for p, q in zip(l.extremas, extremes)),
              lambda: f'{what}: furthest points {l.extremas}, expected one of each of {extremes}')
    mon.event('touched', len(touches) > k)
    sides = [line.side(p) for p in inside]
    mon.event('run of touches', any(a == b == 0 for a, b in zip(sides, sides[1:])))
    mon.event('furthest', any(a == b != 0 for a, b in zip(sides[at[-1]:], sides[at[-1] + 1:])))
    mon.event('crossed', bool(crossings))
    mon.event('crossed twice', len(crossings) > 1)
    # Which points are on the line
    for p in pts:
        try:
            e = p[0] >= line.x0 and line.side(p) == 0 and p[0] < line.end
        except Unclear:
            continue
        mon.check(l.is_point_on_trend(p) == e, lambda: f'{what}: {p} {"not " if e else ""}on the line')
    mon.event('on the line')
    # Extended
    for _ in range(3):
        i = rng.choice([None, 0, 1, -1, -2, 5])
        mult = rng.choice([None, 1.5, 3])
        top = rng.choice([None, 2 * h, 5.25 * h])
        e, j = line.x1, None
        if i is not None and crossings:
            j = max(0, len(crossings) + i) if i < 0 else min(i, len(crossings) - 1)
            e = max(e, crossings[j][0])
            mon.event('extended to a crossing')
        if mult is not None:
            e = line.x0 + (e - line.x0) * mult
        if top is not None:
            e = min(e, line.x0 + top)
        if j is not None and j + 1 < len(crossings):
            e = min(e, crossings[j + 1][0])
        q = l.line_extended(width_mult=mult, width_max=top, intersection_index=i)
        same([tuple(p) for p in q], [(line.x0, line.y0), (e, line.y(e))], f'extended (multiplied by {mult}, at most {top}, crossing {i})')
        mon.event('extended')
    # Prediction
    w = known
    mon.check((l.prediction_phase, l.prediction_failed, l.prediction_succeeded) == (w.phase, w.failed, w.ok), lambda:
              f'{what}: prediction (phase, failed, succeeded) is {(l.prediction_phase, l.prediction_failed, l.prediction_succeeded)}, '
              f'expected {(w.phase, w.failed, w.ok)}, {w.why}')
    if w.why:
        mon.event(w.why)
        mon.event('failed')
    for f, name in ((LEFT, 'left'), (RETESTED, 'retested'), (CONFIRMED, 'confirmed'), (FULFILLED, 'fulfilled')):
        mon.event(name, w.phase == f)
    tup = lambda p: None if p is None else tuple(p)
    o = (line.x0, line.y0)
    same(tup(l.prediction_origin), o, 'origin of the prediction')
    same(tup(l.prediction_intersection), w.crossing, 'crossing of the prediction')
    same(tup(l.prediction_retest_point), w.retest, 'retest')
    same(tup(l.prediction_success_point), w.reached, 'point at which the prediction is fulfilled')
    same(l.prediction_retest_x_max, None if w.crossing is None else w.late, 'latest retest')
    same(tup(l.prediction_extrema), w.target_of, 'furthest point of the prediction')
    if w.target_of is None:
        same(l.prediction_y, None, 'target')
        same(l.prediction_line, None, 'target line')
        same(l.prediction_confirmation_line, None, 'confirmation line')
        e = None if w.crossing is None else [o, (w.late, line.y(w.late))]
    else:
        y = w.target
        same(l.prediction_y, y, 'target')
        same((l.prediction_y_min, l.prediction_y_max), (y - tol(y), y + tol(y)), 'range of the target')
        same((l.prediction_x_min, l.prediction_x_max), (w.target_of[0], w.until), 'time of the target')
        same([tuple(p) for p in l.prediction_line], [(w.target_of[0], y), (w.until, y)], 'target line')
        same([tuple(p) for p in l.prediction_confirmation_line], [o, w.target_of], 'confirmation line')
        e = [o, (w.until, line.y(w.until))]
    mon.check(l.prediction_valid == (w.target_of is not None and w.target > 0), lambda: f'{what}: prediction valid: {l.prediction_valid}, target {w.target_of and w.target}')
    q = l.prediction_trend_line
    same(None if q is None else [tuple(p) for p in q], e, 'extended trend line')


families = [
    Family('reads', reads, 3000, 60000),
]
