"""Every computing operation of the library with the kinds of its operands and how its result moves with the frame.

Kinds of operands: p point, v vector (may be zero), w non-zero vector, P points, C non-collinear or arbitrary triple given as three points, names of classes.
Kinds of results: see mon/props/c13.py. The dimension is a choice of numbers of coordinates.
"""
ANY = (1, 2, 2, 3, 3, 3, 4, 5)

OPS = {
    # fn: (receiver class or None, argument kinds, dimensions, result kind)
    'Point.distance_point': ('Point', 'p', ANY, 'length'),
    'Points.centroid': ('Points', '', ANY, 'point'),
    'Points.mean_center': ('Points', '', ANY, 'vectors'),
    'Points.unique': ('Points', '', ANY, None),
    'Points.normalize_distance': ('Points', '', ANY, None),
    'Points.affine_rank': ('Points', '', ANY, 'same'),
    'Points.are_concurrent': ('Points', '', ANY, 'same'),
    'Points.are_collinear': ('Points', '', ANY, 'same'),
    'Points.are_coplanar': ('Points', '', ANY, 'same'),
    'Vector.from_points': (None, 'pp', ANY, 'vector'),
    'Vector.dot': ('Vector', 'v', ANY, 'area'),
    'Vector.norm': ('Vector', '', ANY, 'length'),
    'Vector.unit': ('Vector', '', ANY, 'unit'),
    'Vector.is_zero': ('Vector', '', ANY, 'same'),
    'Vector.cross': ('Vector', 'v', (2, 3, 3, 3), 'pseudo'),
    'Vector.cosine_similarity': ('Vector', 'v', ANY, 'number'),
    'Vector.angle_between': ('Vector', 'v', ANY, 'angle'),
    'Vector.angle_signed': ('Vector', 'v', (2,), 'signed angle'),
    'Vector.angle_signed_3d': ('Vector', 'vn', (3,), 'signed angle'),
    'Vector.is_perpendicular': ('Vector', 'v', ANY, 'same'),
    'Vector.is_parallel': ('Vector', 'v', ANY, 'same'),
    'Vector.side_vector': ('Vector', 'v', (2,), 'flip'),
    'Vector.scalar_projection': ('Vector', 'v', ANY, 'length'),
    'Vector.project_vector': ('Vector', 'v', ANY, 'vector'),
    'Vector.different_direction': ('Vector', '', ANY, None),
    'Line.from_points': (None, 'pp', ANY, 'Line'),
    'Line.from_slope': (None, 'xx', (2,), None),
    'Line.to_point': ('Line', 'x', ANY, 'point'),
    'Line.is_coplanar': ('Line', 'L', ANY, 'same'),
    'Line.is_close': ('Line', 'L', ANY, 'same'),
    'Line.contains_point': ('Line', 'p', ANY, 'same'),
    'Line.project_point': ('Line', 'p', ANY, 'point'),
    'Line.project_points': ('Line', 'P', ANY, 'points'),
    'Line.project_vector': ('Line', 'v', ANY, 'vector'),
    'Line.side_point': ('Line', 'p', (2,), 'flip'),
    'Line.distance_point': ('Line', 'p', ANY, 'length'),
    'Line.distance_points': ('Line', 'P', ANY, 'lengths'),
    'Line.distance_line': ('Line', 'L', (2, 3, 3), 'length'),
    'Line.intersect_line': ('Line', 'L', (2, 2, 3), 'point'),
    'Line.best_fit': (None, 'P', ANY, 'Line'),
    'Line.transform_points': ('Line', 'P', ANY, 'lengths'),
    'Line.sum_squares': ('Line', 'P', ANY, 'area'),
    'LineSegment.contains_point': ('LineSegment', 'p', ANY, 'same'),
    'LineSegment.intersect_line_segment': ('LineSegment', 'S', (2, 2, 3), 'point'),
    'Plane.from_vectors': (None, 'pvv', (2, 3, 3, 3), 'Plane'),
    'Plane.from_points': (None, 'ppp', (2, 3, 3, 3), 'Plane'),
    'Plane.cartesian': ('Plane', '', (1, 2, 3, 3), None),
    'Plane.project_point': ('Plane', 'p', ANY, 'point'),
    'Plane.project_points': ('Plane', 'P', ANY, 'points'),
    'Plane.project_vector': ('Plane', 'v', ANY, 'vector'),
    'Plane.project_line': ('Plane', 'L', (3, 3, 2, 4), 'Line'),
    'Plane.distance_point_signed': ('Plane', 'p', ANY, 'length'),
    'Plane.distance_points_signed': ('Plane', 'P', ANY, 'lengths'),
    'Plane.distance_point': ('Plane', 'p', ANY, 'length'),
    'Plane.distance_points': ('Plane', 'P', ANY, 'lengths'),
    'Plane.side_point': ('Plane', 'p', ANY, 'same'),
    'Plane.contains_point': ('Plane', 'p', ANY, 'same'),
    'Plane.is_close': ('Plane', 'F', ANY, 'same'),
    'Plane.sum_squares': ('Plane', 'P', ANY, 'area'),
    'Plane.intersect_line': ('Plane', 'L', (2, 3, 3, 3, 4), 'point'),
    'Plane.intersect_plane': ('Plane', 'F', (3,), 'Line'),
    'Plane.best_fit': (None, 'P', (3,), 'Plane'),
    'Plane.to_mesh': ('Plane', '', (1, 2, 3, 3), None),
    'Plane.to_points': ('Plane', '', (1, 2, 3, 3), None),
    'Circle.from_points': (None, 'ppp', (2,), 'Circle'),
    'Circle.circumference': ('Circle', '', (2,), 'length'),
    'Circle.area': ('Circle', '', (2,), 'area'),
    'Circle.contains_point': ('Circle', 'p', (2,), 'same'),
    'Circle.distance_point': ('Circle', 'p', (2,), 'length'),
    'Circle.project_point': ('Circle', 'p', (2,), 'point'),
    'Circle.intersect_circle': ('Circle', 'O', (2,), 'pair'),
    'Circle.intersect_line': ('Circle', 'L', (2,), 'pair'),
    'Circle.best_fit': (None, 'P', (2,), 'Circle'),
    'Sphere.surface_area': ('Sphere', '', (3,), 'area'),
    'Sphere.volume': ('Sphere', '', (3,), 'volume'),
    'Sphere.contains_point': ('Sphere', 'p', (3,), 'same'),
    'Sphere.distance_point': ('Sphere', 'p', (3,), 'length'),
    'Sphere.project_point': ('Sphere', 'p', (3,), 'point'),
    'Sphere.intersect_line': ('Sphere', 'L', (3,), 'pair'),
    'Sphere.best_fit': (None, 'P', (3,), 'Sphere'),
    'Sphere.to_mesh': ('Sphere', 'm', (3,), None),
    'Sphere.to_points': ('Sphere', 'm', (3,), None),
    'Triangle.normal': ('Triangle', '', (2, 3, 3), 'pseudo'),
    'Triangle.area': ('Triangle', '', ANY[1:], 'area'),
    'Triangle.perimeter': ('Triangle', '', ANY[1:], 'length'),
    'Triangle.centroid': ('Triangle', '', ANY[1:], 'point'),
    'Triangle.orthocenter': ('Triangle', '', (2, 3), 'point'),
    'Triangle.classify': ('Triangle', '', ANY[1:], 'same'),
    'Triangle.is_right': ('Triangle', '', ANY[1:], 'same'),
    'Triangle.point': ('Triangle', 'V', ANY[1:], 'point'),
    'Triangle.line': ('Triangle', 'E', ANY[1:], 'Line'),
    'Triangle.length': ('Triangle', 'E', ANY[1:], 'length'),
    'Triangle.angle': ('Triangle', 'V', ANY[1:], 'angle'),
    'Triangle.altitude': ('Triangle', 'V', ANY[1:], 'Line'),
    'Cylinder.from_points': (None, 'ppr', (3,), 'Cylinder'),
    'Cylinder.length': ('Cylinder', '', (3,), 'length'),
    'Cylinder.lateral_surface_area': ('Cylinder', '', (3,), 'area'),
    'Cylinder.surface_area': ('Cylinder', '', (3,), 'area'),
    'Cylinder.volume': ('Cylinder', '', (3,), 'volume'),
    'Cylinder.is_point_within': ('Cylinder', 'p', (3,), 'same'),
    'Cylinder.intersect_line': ('Cylinder', 'Li', (3,), 'pair'),
    'Cylinder.to_mesh': ('Cylinder', 'm', (3,), None),
    'Cylinder.to_points': ('Cylinder', 'm', (3,), None),
    'Point.is_close': ('Point', 'p', ANY, 'same'),
    'Point.is_equal': ('Point', 'p', ANY, 'same'),
    'Vector.is_close': ('Vector', 'v', ANY, 'same'),
    'Vector.is_equal': ('Vector', 'v', ANY, 'same'),
    'Points.is_equal': ('Points', 'P', ANY, 'same'),
    'Point.set_dimension': ('Point', 'd', ANY, None),
    'Vector.set_dimension': ('Vector', 'd', ANY, None),
    'Points.set_dimension': ('Points', 'd', ANY, None),
    'Point.round': ('Point', '', ANY, None),
    'Points.round': ('Points', '', ANY, None),
    'Vector.round': ('Vector', '', ANY, None),
    'Point.to_array': ('Point', '', ANY, None),
    'measurement.area_triangle': (None, 'ppp', ANY[1:], 'area'),
    'measurement.volume_tetrahedron': (None, 'pppp', (3,), 'volume'),
    'measurement.area_signed': (None, 'Q', (2,), 'flip area'),
    'transformation.transform_coordinates': (None, 'PpB', ANY, 'areas'),
}


class Pool:
    """A small stock of points and vectors, so that equal, collinear, parallel and perpendicular operands are common."""

    def __init__(self, G, r, n, nasty=False):
        self.G, self.r, self.n, self.nasty = G, r, n, nasty
        self.points = [self.raw_point() for _ in range(3)]
        self.vectors = [self.raw_vector() for _ in range(2)]
        if r.random() < 0.5:
            self.points[1] = self.step(self.points[0], self.vectors[0])
        if r.random() < 0.3:
            self.points[2] = self.step(self.points[0], self.vectors[0])

    def number(self):
        r = self.r
        if self.nasty and r.random() < 0.6:
            return r.choice((0, 0, 0.0, -0.0, 1, -1, 1e-9, -1e-9, 1e9, -1e9, 1e-5, 1e5, 0.1, 1 / 3, 2, -7, 1e-7, 1 + 1e-9, 1 - 1e-12, 10**9))
        return self.G.num()

    def raw_point(self):
        return [self.number() for _ in range(self.n)]

    def raw_vector(self):
        for _ in range(20):
            v = [self.number() for _ in range(self.n)]
            if any(v):
                return v
        return [1] * self.n

    def step(self, p, v):
        k = self.r.choice((0, 1, -1, 2, 3, 0.5, -0.25))
        return [x + k * y for x, y in zip(p, v)]

    def point(self):
        u = self.r.random()
        p = list(self.r.choice(self.points))
        if u < 0.3:
            return p
        if u < 0.5:
            return self.step(p, self.r.choice(self.vectors))
        return self.raw_point()

    def vector(self, zero=0.0):
        u, r = self.r.random(), self.r
        v = list(r.choice(self.vectors))
        if u < zero:
            return [r.choice((0, 0.0))] * self.n
        if u < 0.3:
            return v
        if u < 0.45:
            k = r.choice((-1, 2, 0.5, -3))
            return [k * x for x in v]
        if u < 0.55 and self.n == 2:
            return [-v[1], v[0]]
        if u < 0.55 and self.n == 3 and any(v[:2]):
            return [-v[1], v[0], 0]
        return self.raw_vector()

    def radius(self):
        if self.nasty and self.r.random() < 0.5:
            return self.r.choice((1, 1e-9, 1e9, 0.1, 2, 1e-5))
        if self.r.random() < 0.3:
            # The distance between two points of the stock.
            d = sum((x - y) ** 2 for x, y in zip(self.points[0], self.points[1])) ** 0.5
            if d > 0:
                return d * self.r.choice((1, 1, 0.5))
        return self.G.radius()

    def triangle(self):
        from . import exact as ex

        for _ in range(20):
            pts = [self.point() for _ in range(3)]
            a, b, c = map(ex.qv, pts)
            u, v = ex.sub(b, a), ex.sub(c, a)
            n2u, n2v, d = ex.n2(u), ex.n2(v), ex.dot(u, v)
            if n2u * n2v - d * d > 0 and float((n2u * n2v - d * d) / (n2u * n2v)) > (1e-12 if self.nasty else 1e-7):
                return pts
        return [[0] * self.n, [1] + [0] * (self.n - 1), [0, 1] + [0] * (self.n - 2)]

    def recv(self, name):
        if name == 'Point':
            return (name, self.point())
        if name == 'Vector':
            return (name, self.vector(0.05))
        if name == 'Points':
            return (name, self.many())
        if name in ('Line', 'Plane'):
            return (name, self.point(), self.vector())
        if name in ('Circle', 'Sphere'):
            return (name, self.point(), self.radius())
        if name == 'LineSegment':
            a = self.point()
            for _ in range(20):
                b = self.point()
                if any(abs(x - y) > 1e-6 * max(abs(x), abs(y), 1e-300) for x, y in zip(a, b)):
                    return (name, a, b)
            return (name, a, [x + 1 + abs(x) for x in a])
        if name == 'Triangle':
            return (name, *self.triangle())
        return (name, self.point(), self.vector(), self.radius())

    def many(self):
        return [self.point() for _ in range(self.r.choice((1, 2, 3, 3, 4, 4, 5, 8, 15)))]

    def arg(self, kind):
        r = self.r
        return {'p': self.point, 'v': lambda: self.vector(0.04), 'n': self.normal_direction, 'P': self.many, 'L': lambda: self.recv('Line'),
                'S': lambda: self.recv('LineSegment'), 'F': lambda: self.recv('Plane'), 'O': lambda: self.recv('Circle'),
                'x': lambda: r.choice((0, 1, -2, 0.5, r.gauss(0, 3))), 'r': self.radius, 'm': lambda: r.choice((2, 3, 5)),
                'V': lambda: r.choice('ABC'), 'E': lambda: r.choice('abc'), 'd': lambda: self.n + r.choice((0, 1, 3)), 'i': lambda: None,
                'B': lambda: [self.vector() for _ in range(r.choice((1, self.n, self.n, 2)))],
                'Q': lambda: [self.point() for _ in range(r.choice((3, 3, 4, 5, 8)))]}[kind]()

    def normal_direction(self):
        """A vector perpendicular to the receiver and the first argument is chosen by the caller; otherwise any vector."""
        return self.vector(0.03)


def make(fn, G, r, nasty=False, style=0, pool=None, spec=None):
    """A random call of an operation, on a random object or on the one given (with the pool of its dimension)."""
    from .core import Op
    from . import exact as ex

    recv, kinds, dims, _ = OPS[fn]
    if pool is None:
        pool = Pool(G, r, r.choice(dims), nasty)
    args, kw = [], {}
    if spec is None and recv:
        spec = pool.recv(recv)
    for k in kinds:
        if k == 'm':
            kw['n_angles'] = pool.arg('m')
            if fn.startswith('Cylinder'):
                kw['n_along_axis'] = pool.arg('m')
        elif k == 'i':
            if r.random() < 0.3:
                kw['infinite'] = True
        else:
            args.append(pool.arg(k))
    if fn == 'Vector.angle_signed_3d' and r.random() < 0.8:
        c = [float(x) for x in ex.cross(ex.qv(spec[1]), ex.qv(args[0]))]
        m = max(map(abs, c))
        if m > 0 and min((abs(x) for x in c if x), default=0) > 0:
            args[1] = [x / m if m > 1e6 or m < 1e-6 else x for x in c]
    return Op(fn, spec, args, kw, style=style)
