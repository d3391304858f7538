"""Gap landscapes: pure deterministic functions of the position, described by JSON."""
import math


class Landscape:
    def __init__(self, spec, limits, periodic):
        self.spec = spec
        self.limits = [sorted(l) for l in limits]
        self.sizes = [b - a for a, b in self.limits]
        self.periodic = periodic
        self.kind = spec['kind']
        self.holes = spec.get('holes', ())

    def delta(self, i, a, b):
        d = a - b
        if self.periodic:
            L = self.sizes[i]
            d = d % L
            return min(d, L - d)
        return abs(d)

    def dist(self, p, q):
        return math.sqrt(sum(self.delta(i, a, b)**2 for i, (a, b) in enumerate(zip(p, q))))

    def base(self, p):
        s = self.spec
        k = self.kind
        if k == 'points':
            v = min((sl * self.dist(p, c) for c, sl in zip(s['centers'], s['slopes'])), default=math.inf)
            for c, off in s.get('traps', ()):
                v = min(v, off + self.dist(p, c))
            return v
        if k == 'plane':
            return s['slope'] * self.delta(s['axis'], p[s['axis']], s['x0'])
        if k == 'circle':
            q = [self.delta(i, a, b) for i, (a, b) in enumerate(zip(p, s['center']))]
            r = math.sqrt(q[0]**2 + (q[1]**2 if len(q) > 1 else 0.))
            rest = sum(x * x for x in q[2:])
            return math.sqrt((r - s['radius'])**2 + rest)
        if k == 'flat':
            return s['value']
        raise ValueError(k)

    def __call__(self, pos):
        p = [float(x) for x in pos]
        for h in self.holes:
            if self.dist(p, h['center']) < h['r']:
                return float(h['val'])
        v = self.base(p)
        if not self.periodic and self.kind in ('plane', 'flat', 'circle'):
            # nodes only in the box: an unbounded set of nodes would never end a search
            out = [max(a - x, x - b, 0.) for x, (a, b) in zip(p, self.limits)]
            v = v + 10. * math.sqrt(sum(o * o for o in out))
        return v
