"""Arcs and drilled holes, computed independently of the library"""
import math

from . import model


class Arc(object):
    """
    True arc: start, end (dicts XYZ), centre given by I/J/K or R, in a plane.
    Coordinates (p, q, n): p and q right handed seen from the positive side of n.
    """
    def __init__(self, word, params, start, end, plane, arc_abs):
        (self.p, self.q) = model.PLANE_AXES[plane]
        self.n = model.PLANE_NORMAL[plane]
        self.start = (start[self.p], start[self.q])
        self.end = (end[self.p], end[self.q])
        self.h0 = start[self.n]
        self.h1 = end[self.n]
        self.cw = (word[1] == 2.0)
        self.ok = True
        chord = math.hypot(self.end[0] - self.start[0], self.end[1] - self.start[1])
        if 'R' in params:
            r = abs(params['R'])
            half = chord / 2.0
            if half > r:
                self.slack = half - r
                r = half
            else:
                self.slack = 0.0
            if chord < 1e-9:
                self.ok = False
                return
            mid = ((self.start[0] + self.end[0]) / 2, (self.start[1] + self.end[1]) / 2)
            u = ((self.end[0] - self.start[0]) / chord, (self.end[1] - self.start[1]) / chord)
            left = (-u[1], u[0])
            d = math.sqrt(max(0.0, r * r - half * half))
            # a short (R > 0) clockwise arc has its centre on the right of its chord
            side = -1 if self.cw else 1
            if params['R'] < 0:
                side = -side
            self.centre = (mid[0] + side * d * left[0], mid[1] + side * d * left[1])
            self.r0 = self.r1 = r
        else:
            ij = {'X': 'I', 'Y': 'J', 'Z': 'K'}
            c = []
            for (a, s) in ((self.p, self.start[0]), (self.q, self.start[1])):
                v = params.get(ij[a])
                if arc_abs:
                    c.append(v if v is not None else 0.0)
                else:
                    c.append(s + (v or 0.0))
            self.centre = tuple(c)
            self.r0 = math.hypot(self.start[0] - c[0], self.start[1] - c[1])
            self.r1 = math.hypot(self.end[0] - c[0], self.end[1] - c[1])
            if min(self.r0, self.r1) < 1e-9:
                self.ok = False
                return
            # how far radii that differ (rounding) leave the arc undefined
            self.slack = abs(self.r0 - self.r1)
        self.a0 = math.atan2(self.start[1] - self.centre[1], self.start[0] - self.centre[0])
        a1 = math.atan2(self.end[1] - self.centre[1], self.end[0] - self.centre[0])
        if chord < 1e-6:
            self.sweep = 2 * math.pi
        else:
            s = (self.a0 - a1) if self.cw else (a1 - self.a0)
            self.sweep = s % (2 * math.pi)
            if self.sweep < 1e-7:
                self.sweep += 2 * math.pi
        # P: so many turns (the last one as far as the end)
        self.sweep += 2 * math.pi * ((params.get('P') or 1) - 1)
        self.radius = max(self.r0, self.r1)

    def progress(self, pt, near):
        """angle advanced along the arc at (p, q), the value closest to near"""
        a = math.atan2(pt[1] - self.centre[1], pt[0] - self.centre[0])
        s = (self.a0 - a) if self.cw else (a - self.a0)
        return s + 2 * math.pi * round((near - s) / (2 * math.pi))

    def at(self, s):
        """(p, q, n) of the arc after an angle s"""
        f = s / self.sweep
        r = self.r0 + (self.r1 - self.r0) * f
        a = self.a0 - s if self.cw else self.a0 + s
        return (self.centre[0] + r * math.cos(a), self.centre[1] + r * math.sin(a), self.h0 + (self.h1 - self.h0) * f)

    def distance(self, pt):
        """(distance of (p, q, n) from the arc, angle of the closest place)"""
        def dist(t):
            (x, y, z) = self.at(t)
            return math.sqrt((x - pt[0]) ** 2 + (y - pt[1]) ** 2 + (z - pt[2]) ** 2)
        n = int(64 * self.sweep) + 4
        best = min((dist(self.sweep * k / n), self.sweep * k / n) for k in range(n + 1))
        step = self.sweep / n
        for _ in range(12):
            step /= 4
            c = best[1]
            for k in range(-4, 5):
                t = min(self.sweep, max(0.0, c + k * step))
                best = min(best, (dist(t), t))
        return best


def check_side(arc, points, side, tol):
    """the moves stay inside (i) or outside (o) of the arc's circle; None, or what is wrong"""
    tol += 1e-6 + 3 * arc.slack
    for (i, (a, b)) in enumerate(zip(points, points[1:])):
        a = (a[arc.p] - arc.centre[0], a[arc.q] - arc.centre[1])
        b = (b[arc.p] - arc.centre[0], b[arc.q] - arc.centre[1])
        if side == 'i':
            r = max(math.hypot(*a), math.hypot(*b))
            if r > max(arc.r0, arc.r1) + tol:
                return 'move %d is %g outside of the circle' % (i + 1, r - arc.radius)
        else:
            d = (b[0] - a[0], b[1] - a[1])
            n = d[0] ** 2 + d[1] ** 2
            t = min(1.0, max(0.0, -(a[0] * d[0] + a[1] * d[1]) / n)) if n > 1e-18 else 0.0
            r = math.hypot(a[0] + t * d[0], a[1] + t * d[1])
            if r < min(arc.r0, arc.r1) - tol:
                return 'move %d is %g inside of the circle' % (i + 1, arc.radius - r)
    return None


def check_arc(arc, points, max_error, rounding, end):
    """
    points: [dict XYZ] reached by the replacing moves, starting with the start.
    None, or what is wrong.
    """
    tol = max_error * (1 + 1e-6) + 1e-6 + rounding + 3 * arc.slack
    coarse = max_error > arc.radius * 0.45
    near = 0.0
    last = 0.0
    backlash = (1e-6 + 3 * rounding + 2 * arc.slack) / max(arc.radius - max_error, arc.radius * 0.2) + 1e-7
    cur = points[0]
    for (i, nxt) in enumerate(points[1:]):
        a = (cur[arc.p], cur[arc.q], cur[arc.n])
        b = (nxt[arc.p], nxt[arc.q], nxt[arc.n])
        k = 8
        for j in range(1, k + 1):
            f = j / float(k)
            pt = tuple(a[m] + (b[m] - a[m]) * f for m in range(3))
            s = arc.progress(pt[:2], near)
            r = math.hypot(pt[0] - arc.centre[0], pt[1] - arc.centre[1])
            # quick bound: the place of the arc at the same angle
            sc = min(arc.sweep, max(0.0, s))
            (x, y, z) = arc.at(sc)
            d = math.sqrt((x - pt[0]) ** 2 + (y - pt[1]) ** 2 + (z - pt[2]) ** 2)
            if d > tol:
                (d, _) = arc.distance(pt)
            if d > tol:
                return 'move %d strays %.6g from the arc (allowed %.6g) at %s' % (i + 1, d, max_error, fmt(arc, pt))
            if not coarse:
                if s < last - backlash:
                    return 'move %d goes back along the arc by %.6g rad at %s' % (i + 1, last - s, fmt(arc, pt))
                if s > arc.sweep + backlash * 2:
                    return 'move %d goes beyond the end of the arc (%.6g of %.6g rad) at %s' % (i + 1, s, arc.sweep, fmt(arc, pt))
                if s > near + 2.6:
                    return 'move %d jumps along the arc by %.6g rad' % (i + 1, s - near)
            last = max(last, s)
            near = s
        cur = nxt
    if end is not None:
        for a in 'XYZ':
            if abs(cur[a] - end[a]) > 1e-6 * (1 + abs(end[a])) + (rounding if rounding > 0.001 else 0):
                return 'ends at %s%.9g instead of %.9g' % (a, cur[a], end[a])
        if not coarse and abs(near - arc.sweep) > 2 * backlash + 1e-6:
            return 'covers %.6g of %.6g rad' % (near, arc.sweep)
    return None


def fmt(arc, pt):
    return '%s%.6g %s%.6g %s%.6g' % (arc.p, pt[0], arc.q, pt[1], arc.n, pt[2])


# ---------------------------------------------------------------- drilling
class Drilling(object):
    """
    Follows the moves that replace one drilling cycle (XY plane), as a machine makes
    them: complains (returns text) about the first move that is not acceptable.
    """
    def __init__(self, code, params, start, incremental, return_r):
        self.start = dict(start)
        self.pos = dict(start)
        r = params['R']
        z = params['Z']
        if incremental:
            self.retract = start['Z'] + r
            self.depth = self.retract + z
        else:
            self.retract = r
            self.depth = z
        n = params.get('L')
        n = 1 if not n else int(n)
        self.holes = []
        (x, y) = (start['X'], start['Y'])
        for _ in range(n):
            if incremental:
                x += params.get('X') or 0.0
                y += params.get('Y') or 0.0
            else:
                x = params['X'] if params.get('X') is not None else start['X']
                y = params['Y'] if params.get('Y') is not None else start['Y']
            self.holes.append((x, y))
        self.final = {'X': x, 'Y': y, 'Z': self.retract if return_r else start['Z']}
        self.clear = self.retract
        self.cut = []       # [(x, y, depth reached by feeding)]
        self.hole = 0       # the hole being drilled, or to be drilled next
        self.kind = code[1]
        self.peck = abs(params.get('Q') or 0.0) if self.kind in (73.0, 83.0) else None
        self.seconds = params.get('P')
        self.top = None     # highest since the last feed down (None: no feed at this hole yet)
        self.here = self.retract    # how far this hole has been drilled
        self.bottom = None  # arrived at the bottom of a hole: 'arrived', then 'dwelt'

    def level(self, x, y):
        """down to where there is no material any more at x, y"""
        lev = self.retract
        for (a, b, d) in self.cut:
            if model.close(a, x, 1e-5) and model.close(b, y, 1e-5):
                lev = min(lev, d)
        return lev

    def dwell(self, seconds):
        if self.kind not in (82.0, 89.0):
            return 'dwells'
        if self.bottom != 'arrived':
            return 'dwells other than (once) at the bottom of a hole'
        if self.seconds is not None and not model.close(seconds, self.seconds, 1e-6):
            return 'dwells for %s instead of %s' % (seconds, self.seconds)
        self.bottom = 'dwelt'
        return None

    def leave(self, rapid):
        """up from the bottom"""
        if self.kind in (82.0, 89.0) and self.bottom != 'dwelt':
            return 'leaves the bottom of a hole without a dwell'
        if rapid == (self.kind in (85.0, 89.0)) and self.final['Z'] > self.depth + 1e-6:
            # (ending a hole at its bottom, this is the way to the next)
            return 'withdraws with a rapid move' if rapid else 'withdraws with a feed move'
        self.bottom = None
        return None

    def descend(self, level, z, eps):
        """a feed from (somewhere over) level, down to z"""
        if self.peck is None:
            if z > self.depth + eps:
                return 'stops at Z%.6g' % z
            return None
        want = max(level - self.peck, self.depth)
        if abs(z - want) > eps:
            return 'pecks from Z%.6g to Z%.6g, the increment is %.6g' % (level, z, self.peck)
        if self.top is None:
            return None
        if self.kind == 83.0 and self.top < self.retract - eps:
            return 'withdrawn to Z%.6g only, between pecks (retract level Z%.6g)' % (self.top, self.retract)
        if self.kind == 73.0 and self.top <= level + eps:
            return 'not withdrawn between pecks'
        if self.kind == 73.0 and self.top >= self.retract - eps and self.retract - level > 1:
            return 'withdrawn all the way between pecks'
        return None

    def move(self, rapid, to):
        a = self.pos
        b = dict(to)
        self.pos = b
        eps = 1e-6 * (1 + abs(self.depth) + abs(self.retract))
        if self.bottom and b['Z'] > a['Z']:
            bad = self.leave(rapid)
            if bad:
                return bad
        if self.top is not None:
            self.top = max(self.top, b['Z'])
        across = not (model.close(a['X'], b['X']) and model.close(a['Y'], b['Y']))
        if b['Z'] < self.depth - eps:
            return 'goes down to Z%.6g, the hole is to Z%.6g' % (b['Z'], self.depth)
        if across:
            if not rapid:
                return 'cuts across from X%.6g Y%.6g to X%.6g Y%.6g' % (a['X'], a['Y'], b['X'], b['Y'])
            if min(a['Z'], b['Z']) < self.clear - eps:
                return 'moves across at Z%.6g, below the retract level Z%.6g (started from Z%.6g)' % (
                    min(a['Z'], b['Z']), self.retract, self.start['Z'])
            if not model.close(a['Z'], b['Z']) and b['Z'] < a['Z'] and b['Z'] < self.clear - eps:
                return 'goes down while moving across'
        if rapid and b['Z'] < a['Z'] and b['Z'] < self.level(b['X'], b['Y']) - eps:
            return 'rapid move into uncut material: from Z%.6g to Z%.6g at X%.6g Y%.6g, cut down to Z%.6g' % (
                a['Z'], b['Z'], b['X'], b['Y'], self.level(b['X'], b['Y']))
        if not rapid and b['Z'] < a['Z']:
            if self.hole >= len(self.holes):
                return 'drills more than %d holes' % len(self.holes)
            (x, y) = self.holes[self.hole]
            if not (model.close(b['X'], x) and model.close(b['Y'], y)):
                return 'drills at X%.6g Y%.6g instead of hole %d at X%.6g Y%.6g' % (b['X'], b['Y'], self.hole + 1, x, y)
            if self.top is None and a['Z'] > self.retract + eps:
                return 'feeds down from Z%.6g, above the retract level Z%.6g' % (a['Z'], self.retract)
            # (a hole once more, where one is already)
            bad = self.descend(self.here, b['Z'], eps)
            if bad:
                return bad
            self.here = b['Z']
            self.top = b['Z']
            self.cut.append((b['X'], b['Y'], b['Z']))
            if abs(b['Z'] - self.depth) <= eps:
                self.hole += 1
                self.bottom = 'arrived'
                self.top = None
                self.here = self.retract
        return None

    def end(self):
        if self.hole < len(self.holes):
            return 'only %d of %d holes drilled to depth' % (self.hole, len(self.holes))
        for a in 'XYZ':
            if not model.close(self.pos[a], self.final[a]):
                return 'ends at %s%.6g, the cycle at %s%.6g' % (a, self.pos[a], a, self.final[a])
        return None
