"""Random numbers, vectors and points of many kinds."""
import math

MODES = ['int1', 'int', 'int3', 'big', 'dy', 'dec', 'f', 'fs', 'off', 'mix', 'tiny', 'huge', 'vast']
WEIGHTS = [4, 8, 4, 2, 4, 4, 10, 4, 4, 2, 2, 2, 1]


class Gen:
    def __init__(self, r, modes=None):
        self.r = r
        self.restrict = modes
        self.crowd = False
        self.new_mode()

    def new_mode(self):
        r = self.r
        if self.restrict:
            self.mode = r.choice(self.restrict)
        else:
            self.mode = r.choices(MODES, WEIGHTS)[0]
        self.scale = 10.0 ** r.randint(-3, 3) if self.mode == 'fs' else 1.0
        # Tiny and huge numbers, some of them out of the range of everyday units.
        self.least = 1e-7 if r.random() < 0.6 else 10.0 ** -r.uniform(5, 14)
        self.most = 1e7 if r.random() < 0.6 else 10.0 ** r.uniform(5, 14)
        self.offset = r.choice([-1, 1]) * 10.0 ** r.uniform(1, 4) if self.mode == 'off' else 0.0
        # Directions have their own kind of numbers.
        self.dmode = self.mode if r.random() < 0.5 and self.mode != 'off' else r.choices(MODES, WEIGHTS)[0]
        if self.restrict and self.dmode not in self.restrict:
            self.dmode = self.mode
        if self.dmode == 'off':
            self.dmode = 'f'
        self.dscale = 10.0 ** r.randint(-3, 3) if self.dmode == 'fs' else 1.0
        return self

    def exactly(self):
        """True if positions and directions are small integers or eighths."""
        small = ('int1', 'int', 'int3', 'dy')
        return self.mode in small and self.dmode in small

    def dim(self, choices=(2, 2, 2, 3, 3, 3, 1, 4, 5, 6, 8)):
        if self.r.random() < 0.02 and 8 in choices:
            return self.r.randint(7, 16) if self.r.random() < 0.8 else self.r.randint(17, 40)
        return self.r.choice(choices)

    def _num(self, mode, scale, offset):
        r = self.r
        if mode == 'int1':
            return r.randint(-2, 2)
        if mode == 'int':
            return r.randint(-9, 9)
        if mode == 'int3':
            return r.randint(-1000, 1000)
        if mode == 'big':
            return r.randint(-10**6, 10**6)
        if mode == 'vast':
            return r.randint(-10**9, 10**9)
        if mode == 'dy':
            return r.randint(-80, 80) / 8
        if mode == 'dec':
            return round(r.uniform(-10, 10), r.randint(0, 3))
        if mode == 'f':
            return r.gauss(0, 3)
        if mode == 'fs':
            return r.gauss(0, 1) * scale
        if mode == 'off':
            return offset + r.gauss(0, 1)
        if mode == 'mix':
            return r.gauss(0, 1) * 10.0 ** r.uniform(-3, 3)
        if mode == 'tiny':
            return r.gauss(0, 1) * self.least
        return r.gauss(0, 1) * self.most

    def num(self):
        return self._num(self.mode, self.scale, self.offset)

    def point(self, n):
        r = self.r
        p = [self.num() for _ in range(n)]
        u = r.random()
        if u < 0.08 and self.mode != 'off':
            p = [x if r.random() < 0.4 else 0 for x in p]
        elif u < 0.11:
            p = [p[0]] * n
        elif u < 0.12:  # negative zeros
            p = [-0.0 if r.random() < 0.5 or x == 0 else float(x) for x in p]
        elif u < 0.16:  # numbers of another type
            if all(isinstance(x, int) for x in p):
                p = [x + r.choice((0.5, 0.125, 0.0)) for x in p]
            elif self.mode in ('dy', 'dec', 'f', 'huge'):
                p = [round(x) for x in p]
        return p

    def points(self, n, dim):
        pts = [self.point(dim) for _ in range(n)]
        return self.arranged(pts) if n > 3 and self.r.random() < 0.08 else pts

    def arranged(self, pts):
        """The points with some regularity: in equal steps, on a grid, in clusters, or with outliers; exactly or almost."""
        r = self.r
        n, dim = len(pts), len(pts[0])
        kind = r.choice(('steps', 'grid', 'clusters', 'outliers', 'sorted'))
        e = r.choice((0, 10.0 ** r.uniform(-13, -2)))
        if kind == 'steps':
            v = self.vec(dim)
            pts = [[a + i * d for a, d in zip(pts[0], v)] for i in range(n)]
        elif kind == 'grid':
            h, k = abs(self.num()) or 1, r.randint(2, 6)
            pts = [[a + i // k**j % k * h for j, a in enumerate(pts[0])] for i in range(n)]
        elif kind == 'clusters':
            c, s = r.randint(1, 3), 10.0 ** r.uniform(-6, -1)
            pts = [p if i < c else [a + s * (b - a) for a, b in zip(pts[i % c], p)] for i, p in enumerate(pts)]
        elif kind == 'outliers':
            s = 10 ** r.randint(1, 4)
            pts = [[x * s for x in p] if i < 1 + n // 20 else p for i, p in enumerate(pts)]
        else:
            k = r.randrange(dim)
            pts.sort(key=lambda p: p[k], reverse=r.random() < 0.5)
        if e:
            size = max(1e-300, max(abs(b - a) for p in pts for a, b in zip(p, pts[0])))
            pts = [[x + e * size * r.gauss(0, 1) for x in p] for p in pts]
        if all(math.isfinite(x) and abs(x) < 2e9 for p in pts for x in p):
            return pts
        return [[0] * dim, *([1] * dim for _ in range(n - 1))]

    def count(self):
        return self.many((1, 2, 2, 3, 3, 4, 5, 7, 12, 30) * 5 + (100,))

    def many(self, usual, top=2100, p=0.004):
        """One of the usual numbers of points, rarely many more."""
        if self.crowd:
            return self.r.choice((2500, 4096, 4097, 5000, 8191, 8193, 10001, 12000, 16385, 20000))
        if self.r.random() < p:
            if self.r.random() < 0.06:
                return int(math.exp(self.r.uniform(math.log(top), math.log(20000))))
            return int(math.exp(self.r.uniform(math.log(60), math.log(top))))
        return self.r.choice(usual)

    def vec(self, n):
        """A direction: non-zero, sometimes along an axis or sparse."""
        r = self.r
        while True:
            v = [self._num(self.dmode, self.dscale, 0) for _ in range(n)]
            u = r.random()
            if u < 0.12:
                k = r.randrange(n)
                v = [x if i == k else 0 for i, x in enumerate(v)]
            elif u < 0.25:
                v = [x if r.random() < 0.5 else 0 for x in v]
            elif u < 0.28:
                v = [v[0]] * n
            elif u < 0.285:
                v = [-0.0 if r.random() < 0.5 or x == 0 else float(x) for x in v]
            elif u < 0.31 and any(v):  # (almost) of length one
                m = math.hypot(*v)
                e = r.choice((0, 0, 10.0 ** r.uniform(-12, -2), -(10.0 ** r.uniform(-12, -2))))
                v = [x / m * (1 + e) for x in v]
            elif u < 0.33 and n > 1:  # almost along an axis
                k = r.randrange(n)
                e = 10.0 ** r.uniform(-12, -2)
                v = [x if i == k else e * v[k] * r.choice((0, 1, r.gauss(0, 1))) for i, x in enumerate(v)]
            if any(v):
                return v

    def radius(self):
        r = self.r
        while True:
            x = abs(self._num(self.mode if self.mode != 'off' else 'f', self.scale, 0))
            if x > 0:
                return x

    def style(self, p=0.5):
        return self.r.randrange(1, 10**6) if self.r.random() < p else 0

    def unit_scale(self):
        """Typical magnitude of a coordinate difference."""
        return {'int1': 2, 'int': 9, 'int3': 1000, 'big': 1e6, 'dy': 10, 'dec': 10, 'f': 3, 'fs': self.scale, 'off': 1,
                'mix': 100, 'tiny': self.least, 'huge': self.most, 'vast': 1e9}[self.mode]

    def pyth(self):
        """An integer vector with an integer norm."""
        a, b, c = self.r.choice([(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (0, 1, 1), (1, 0, 1)])
        s, t = self.r.choice((-1, 1)), self.r.choice((-1, 1))
        if self.r.random() < 0.5:
            a, b = b, a
        return [s * a, t * b], c

    def pyth3(self):
        a = self.r.choice([(1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (4, 4, 7, 9), (2, 6, 9, 11), (0, 3, 4, 5), (0, 0, 1, 1), (2, 4, 4, 6)])
        v = [self.r.choice((-1, 1)) * x for x in a[:3]]
        self.r.shuffle(v)
        return v, a[3]


def near_overflow(r, n, rows):
    """Rows of integers whose products are near the greatest integer."""
    top = int(2 ** r.uniform(29.5, 33))
    same = r.random() < 0.5
    return [[r.randint(top // 2, top) * (1 if same else r.choice((-1, 1))) for _ in range(n)] for _ in range(rows)]


def isfinite(xs):
    return all(math.isfinite(x) for x in xs)
