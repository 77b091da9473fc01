"""C16 triangle quantities, C17 measures."""
import math

from .. import exact as ex
from ..core import Op, Skip, Violation
from ..exact import F
from ..registry import crowds, gen, oracle, prop
from .c01_02 import K
from .c06_08 import isclose_exact
from .c09 import decide_triangle

VERTICES, SIDES = 'ABC', 'abc'


def triangle_points(G, r, n):
    u = r.random()
    if u < 0.1:  # right, with an exact right angle
        k = r.choice((1, 2, 3, 0.5))
        c = [r.randint(-9, 9) for _ in range(n)]
        if n == 2:
            a, norm = G.pyth()
            b = [-a[1] * k, a[0] * k]
        else:
            a = r.choice(([1, 2, 2], [2, 1, -2], [3, 4, 0], [1, 0, 0]))
            b = r.choice(([2, 1, -2], [-2, 2, -1], [0, 0, 5])) if a != [2, 1, -2] else [1, 2, 2]
            if sum(x * y for x, y in zip(a, b)):
                b = [a[1], -a[0], 0]
        pts = [c, [x + y for x, y in zip(c, a)], [x + y for x, y in zip(c, b)]]
    elif u < 0.2:  # isosceles
        c = G.point(n)
        a, norm = (G.pyth() if n == 2 else G.pyth3())
        b = list(a)
        r.shuffle(b)
        b = [r.choice((-1, 1)) * x for x in b]
        pts = [c, [x + y for x, y in zip(c, a)], [x + y for x, y in zip(c, b)]]
    elif u < 0.25:  # equilateral
        if n == 3:
            k = r.choice((1, 2, -3))
            c = [r.randint(-9, 9) for _ in range(3)]
            pts = [[x + k * (i == j) for j, x in enumerate(c)] for i in range(3)]
        else:
            k, t = r.choice((1, 2, 0.5, 7)), r.uniform(0, 6)
            c = G.point(2)
            pts = [[c[0] + k * math.cos(t + i * 2 * math.pi / 3), c[1] + k * math.sin(t + i * 2 * math.pi / 3)] for i in range(3)]
        if r.random() < 0.4:  # nearly equilateral
            p = r.choice(pts)
            p[0] += 10.0 ** r.uniform(-9, -3) * r.choice((-1, 1)) * k
    elif u < 0.35:  # thin
        p, d = G.point(n), G.vec(n)
        e = 10.0 ** r.choice((r.uniform(-5, -1), r.uniform(-12, -5))) * max(map(abs, d))
        pts = [p, [x + y for x, y in zip(p, d)], [x + r.choice((0.5, 2, -1, 0.01)) * y + e * r.gauss(0, 1) for x, y in zip(p, d)]]
    elif u < 0.45:  # nearly isosceles or right
        a, norm = (G.pyth() if n == 2 else G.pyth3())
        e = 10.0 ** r.uniform(-12, -2)
        c = [0] * n
        b = [-a[1], a[0]] + [0] * (n - 2)
        pts = [c, a, [x * (1 + e) for x in b]]
        if n == 3 and not any(b):
            pts = G.points(3, n)
    else:
        pts = G.points(3, n)
    r.shuffle(pts)
    return pts


def is_valid(pts):
    try:
        return decide_triangle(pts)
    except Skip:
        return False


@gen('triangle')
def g_triangle(G, r):
    s = G.style()
    n = r.choice((2, 2, 3, 3))
    pts = triangle_points(G, r, n)
    if r.random() < 0.2:  # in a higher dimension
        n = r.randint(4, 7)
        if r.random() < 0.5:
            pts = G.points(3, n)
        else:
            where = r.sample(range(n), len(pts[0]))
            fixed = G.point(n)
            pts = [[p[where.index(i)] if i in where else c for i, c in enumerate(fixed)] for p in pts]
    if not is_valid(pts):
        return []
    perm = r.sample(range(3), 3)
    ops = []
    for order in ((0, 1, 2), perm):
        T = ('Triangle', *[pts[i] for i in order])
        ops += [Op('Triangle.' + f, T, style=s) for f in (('normal', 'area', 'perimeter', 'centroid', 'orthocenter') if n < 4 else ('perimeter', 'centroid'))]
        for v in VERTICES:
            ops.append(Op('Triangle.' + r.choice(('point', 'angle', 'altitude')), T, [v], style=s))
            ops.append(Op('Triangle.' + r.choice(('angle', 'altitude')), T, [v], style=s))
        for v in SIDES:
            ops += [Op('Triangle.line', T, [v], style=s), Op('Triangle.length', T, [v], style=s)]
        u = r.random()
        kw = {}
        if u < 0.3:
            kw = {'rel_tol': 10.0 ** r.uniform(-9, -0.7)}
        elif u < 0.45:
            kw = {'abs_tol': 10.0 ** r.uniform(-9, 1)}
        ops += [Op('Triangle.classify', T, kw=kw, style=s), Op('Triangle.is_right', T, kw=kw, style=s)]
        u = r.random()
        if u < 0.15:
            ops.append(Op('Triangle.multiple', T, ['angle', 'ABC'], style=s))
        elif u < 0.25:
            f = r.choice(('point', 'angle'))
            ops.append(Op('Triangle.multiple', T, [f, r.choice(('CAB', 'BA', 'C', 'AAB'))], style=s))
        elif u < 0.35:
            ops.append(Op('Triangle.multiple', T, ['length', r.choice(('abc', 'cab', 'b', 'aa'))], style=s))
        if r.random() < 0.1:
            f = r.choice(('point', 'angle', 'altitude'))
            ops.append(Op('Triangle.' + f, T, [r.choice(('a', 'b', 'c', 'D', '', 'AB', 'ABC', 'd', ' A'))], style=s))
            f = r.choice(('line', 'length'))
            ops.append(Op('Triangle.' + f, T, [r.choice(('A', 'B', 'C', 'd', '', 'ab', 'abc', 'x'))], style=s))
    return ops


class T:
    """Exact quantities of a triangle."""

    def __init__(self, spec):
        self.p = [ex.qv(x) for x in spec[1:]]
        self.n = len(self.p[0])
        # Side i is opposite vertex i and runs from vertex i + 1 to vertex i + 2.
        self.sides = [ex.sub(self.p[(i + 2) % 3], self.p[(i + 1) % 3]) for i in range(3)]
        self.l2 = [ex.n2(x) for x in self.sides]
        self.len = [ex.fs(x) for x in self.l2]
        self.size = ex.amax(*self.p)
        self.longest, self.shortest = max(self.len), min(self.len)
        if self.n < 4:
            self.normal = ex.cross(self.sides[2], ex.mul(-1, self.sides[1]))

    def angle(self, i):
        u, v = self.sides[(i + 2) % 3], ex.mul(-1, self.sides[(i + 1) % 3])
        return math.atan2(ex.fs(ex.sin2_num(u, v)), float(ex.dot(u, v)))


def vertex(name):
    return VERTICES.index(name) if len(name) == 1 and name in VERTICES else None


def side_index(name):
    return SIDES.index(name) if len(name) == 1 and name in SIDES else None


@oracle('C16', 'Triangle.point')
def o_point(op, out, ck):
    i = vertex(op.args[0])
    if i is None:
        return ck.raised(out, why='the vertex name is unknown')
    t = T(op.recv)
    ck.vector(ck.returned(out), t.p[i], 0, 'vertex')
    return 'value'


@oracle('C16', 'Triangle.line')
def o_line(op, out, ck):
    i = side_index(op.args[0])
    if i is None:
        return ck.raised(out, why='the side name is unknown')
    t = T(op.recv)
    ln = ck.returned(out)
    ck.vector(ln.point, t.p[(i + 1) % 3], 0, 'point of the side')
    ck.vector(ln.direction, t.sides[i], K * t.longest, 'direction of the side')
    return 'value'


@oracle('C16', 'Triangle.length')
def o_length(op, out, ck):
    i = side_index(op.args[0])
    if i is None:
        return ck.raised(out, why='the side name is unknown')
    t = T(op.recv)
    ck.scalar(ck.returned(out), t.len[i], K * t.len[i], 'length')
    return 'value'


def check_angle(ck, t, i, got):
    want = t.angle(i)
    j, k = (i + 1) % 3, (i + 2) % 3
    # The law of cosines loses digits if the opposite side is relatively short or the angle is close to 0 or pi.
    dcos = K * float(sum(t.l2)) / (t.len[j] * t.len[k])
    tol = dcos / max(math.sin(want), math.sqrt(dcos))
    g = ck.scalar(got, want, tol, f'angle {VERTICES[i]}')
    ck.true(0 <= g <= math.pi, f'the angle {g!r} is outside [0, pi]')
    return tol


@oracle('C16', 'Triangle.angle')
def o_angle(op, out, ck):
    i = vertex(op.args[0])
    if i is None:
        return ck.raised(out, why='the vertex name is unknown')
    check_angle(ck, T(op.recv), i, ck.returned(out))
    return 'value'


@oracle('C16', 'Triangle.multiple')
def o_multiple(op, out, ck):
    t = T(op.recv)
    f, names = op.args
    got = ck.returned(out)
    ck.true(isinstance(got, tuple) and len(got) == len(names), f'multiple returned {got!r}, not a tuple of {len(names)} values')
    tol = 0
    for name, x in zip(names, got):
        if f == 'length':
            i = side_index(name)
            ck.scalar(x, t.len[i], K * t.len[i], f'length {name}')
        elif f == 'point':
            ck.vector(x, t.p[vertex(name)], 0, f'vertex {name}')
        else:
            tol += check_angle(ck, t, vertex(name), x)
    if f == 'angle' and names == 'ABC':
        ck.scalar(sum(map(float, got)), math.pi, tol + 1e-14, 'sum of the angles')
    return f


@oracle('C16', 'Triangle.altitude')
def o_altitude(op, out, ck):
    i = vertex(op.args[0])
    if i is None:
        return ck.raised(out, why='the vertex name is unknown')
    t = T(op.recv)
    base = t.p[(i + 1) % 3]
    foot = ex.foot_line(base, t.sides[i], t.p[i])
    want = ex.sub(foot, t.p[i])
    height = ex.fnorm(want)
    tol = K * 4 * (t.size + t.longest)
    if height < 100 * tol:
        raise Skip('height lost in rounding')
    ln = ck.returned(out)
    ck.vector(ln.point, t.p[i], 0, 'vertex of the altitude')
    ck.vector(ln.direction, want, tol, 'altitude')
    return 'value'


@oracle('C16', 'Triangle.normal')
def o_normal(op, out, ck):
    t = T(op.recv)
    got = ck.numbers(ck.returned(out), 3, 'normal')
    ck.vector(got, t.normal, K * t.len[1] * t.len[2], 'normal')
    return 'value'


@oracle('C16', 'Triangle.area')
def o_area(op, out, ck):
    t = T(op.recv)
    ck.scalar(ck.returned(out), ex.fnorm(t.normal) / 2, K * t.len[1] * t.len[2], 'area')
    return 'value'


@oracle('C16', 'Triangle.perimeter')
def o_perimeter(op, out, ck):
    t = T(op.recv)
    ck.scalar(ck.returned(out), sum(t.len), K * sum(t.len), 'perimeter')
    return 'value'


@oracle('C16', 'Triangle.centroid')
def o_centroid(op, out, ck):
    t = T(op.recv)
    ck.vector(ck.returned(out), [sum(c) / 3 for c in zip(*t.p)], K * t.size, 'centroid')
    return 'value'


@oracle('C16', 'Triangle.orthocenter')
def o_orthocenter(op, out, ck):
    t = T(op.recv)
    a, b, c = t.p
    s2 = float(ex.n2(t.normal)) / (t.longest ** 2 * t.shortest ** 2) if t.shortest else 0
    # Altitudes are intersected as lines, which are taken as parallel below an angle of 4.5e-5.
    sin2 = min(float(ex.n2(t.normal) / (t.l2[i] * t.l2[i - 1])) for i in range(3))
    if s2 < 1e-5 or sin2 < 1e-8:
        raise Skip('thin triangle')
    # H = A + k (foot of A - A), with (H - B) perpendicular to side b.
    fa = ex.sub(ex.foot_line(b, t.sides[0], a), a)
    fb = ex.sub(ex.foot_line(c, t.sides[1], b), b)
    k = ex.dot(ex.sub(b, a), t.sides[1]) / ex.dot(fa, t.sides[1]) if any(fa) and ex.dot(fa, t.sides[1]) else None
    if k is None:
        raise Skip('degenerate')
    want = ex.add(a, ex.mul(k, fa))
    rel = (t.size + t.longest) / min(ex.fnorm(fa), ex.fnorm(fb)) if any(fb) else 1e9
    tol = K * 20 * (t.size + t.longest) * rel / s2
    if K * rel > 1e-6:
        raise Skip('heights lost in rounding')
    ck.vector(ck.returned(out), want, tol, 'orthocentre')
    return 'value'


@oracle('C16', 'Triangle.classify')
def o_classify(op, out, ck):
    t = T(op.recv)
    kw = op.kw
    n = 0
    for i, j in ((0, 1), (0, 2), (1, 2)):
        if t.l2[i] == t.l2[j]:
            n += 1
            continue
        d = abs(t.len[i] - t.len[j])
        thr = max(kw.get('rel_tol', 1e-9) * max(t.len[i], t.len[j]), kw.get('abs_tol', 0.0))
        if abs(d - thr) <= 1e-9 * thr + K * t.longest:
            raise Skip('at the tolerance')
        n += d <= thr
    want = 'equilateral' if n == 3 else 'isosceles' if n else 'scalene'
    got = ck.returned(out)
    ck.true(got == want, f'classified as {got!r}, but it is {want}')
    return want


@oracle('C16', 'Triangle.is_right')
def o_is_right(op, out, ck):
    t = T(op.recv)
    a, b, c = sorted(t.l2)
    d = abs(float(a + b - c))
    thr = max(op.kw.get('rel_tol', 1e-9) * float(max(a + b, c)), op.kw.get('abs_tol', 0.0))
    if d and abs(d - thr) <= 1e-6 * thr + K * float(c):
        raise Skip('at the tolerance')
    return ck.boolean(ck.returned(out), d <= thr, 'is_right')


prop('C16', {'triangle': 1}, 12000, 200000,
     'A case is a triangle in 2D to 7D (right, isosceles, equilateral, thin, nearly so, or random), and the same one with its vertices in another '
     'order, asked for its vertices, sides, lengths, angles, altitudes, normal, area, perimeter, centroid, orthocentre and class, with valid and '
     'unknown names; each is compared with exact geometry. Non-trivial: the event got a verdict; distinct: by vertices, arguments and representation.',
     required=['Triangle.' + f for f in ('point', 'line', 'length', 'angle', 'multiple', 'altitude', 'normal', 'area', 'perimeter', 'centroid',
                                         'orthocenter', 'classify', 'is_right')])


# C17


@gen('measures')
def g_measures(G, r):
    s = G.style()
    ops = []
    n = r.choice((1, 2, 2, 3, 3))
    pts = G.points(4, n)
    ops.append(Op('measurement.area_triangle', None, pts[:3], style=s))
    ops.append(Op('measurement.volume_tetrahedron', None, pts, style=s))
    if r.random() < 0.05:
        bad = G.points(4, 4)
        ops += [Op('measurement.area_triangle', None, bad[:3], style=s), Op('measurement.volume_tetrahedron', None, bad, style=s)]
    u = r.random()
    if u < 0.06:
        poly = G.points(r.choice((1, 2)), 2) if r.random() < 0.5 else G.points(r.choice((3, 4)), r.choice((1, 3, 4)))
    elif u < 0.5:  # a simple polygon around a centre, in either sense
        m = G.many((3, 4, 5, 8, 20))
        c = G.point(2)
        k = G.unit_scale()
        angles = sorted(r.uniform(0, 2 * math.pi) for _ in range(m))
        if r.random() < 0.5:
            angles.reverse()
        poly = [[c[0] + k * r.uniform(0.5, 1) * math.cos(a), c[1] + k * r.uniform(0.5, 1) * math.sin(a)] for a in angles]
    elif u < 0.8:
        a, b, c, d = (r.randint(-9, 9) for _ in range(4))
        poly = [[a, b], [c, b], [c, d], [a, d]]
        k = r.randrange(4)
        poly = poly[k:] + poly[:k]
    else:
        poly = G.points(G.many((3, 4, 5, 8, 20)), 2)
    k = r.randrange(len(poly))
    for p in (poly, poly[k:] + poly[:k], poly[::-1]):
        ops.append(Op('measurement.area_signed', None, [p], style=s))
    rad = G.radius() if r.random() < 0.85 else int(10.0 ** r.uniform(3, 12))
    ops += [Op('Circle.' + f, ('Circle', G.point(2), rad), style=s) for f in ('circumference', 'area')]
    ops += [Op('Sphere.' + f, ('Sphere', G.point(3), rad), style=s) for f in ('surface_area', 'volume')]
    cyl = ('Cylinder', G.point(3), G.vec(3), rad if r.random() < 0.5 else G.radius())
    ops += [Op('Cylinder.' + f, cyl, style=s) for f in ('length', 'lateral_surface_area', 'surface_area', 'volume')]
    return ops


PI = F(3141592653589793238462643383279502884197, 10**39)


@oracle('C17', 'measurement.area_triangle')
def o_area_triangle(op, out, ck):
    a, b, c = map(ex.qv, op.args)
    if len(a) > 3:
        return ck.raised(out, why='the dimension is greater than 3')
    u, v = ex.sub(b, a), ex.sub(c, a)
    ck.scalar(ck.returned(out), ex.fs(ex.sin2_num(u, v)) / 2, K * ex.fnorm(u) * ex.fnorm(v), 'area')
    ck.true(float(out.value) >= 0, 'the area is negative')
    return 'value'


@oracle('C17', 'measurement.volume_tetrahedron')
def o_volume_tetrahedron(op, out, ck):
    a, b, c, d = map(ex.qv, op.args)
    if len(a) > 3:
        return ck.raised(out, why='the dimension is greater than 3')
    u, v, w = (ex.pad3(ex.sub(x, a)) for x in (b, c, d))
    want = abs(ex.det([u, v, w])) / 6
    ck.scalar(ck.returned(out), want, K * ex.fnorm(u) * ex.fnorm(v) * ex.fnorm(w), 'volume')
    ck.true(float(out.value) >= 0, 'the volume is negative')
    return 'value'


@oracle('C17', 'measurement.area_signed')
def o_area_signed(op, out, ck):
    pts = ex.qm(op.args[0])
    if len(pts) < 3 or len(pts[0]) != 2:
        return ck.raised(out, why='the polygon has fewer than three points or is not 2D')
    want = F(0)
    size = F(0)
    for i, q in enumerate(pts):
        p = pts[i - 1]
        want += p[0] * q[1] - q[0] * p[1]
        size += abs(p[0] * q[1]) + abs(q[0] * p[1])
    ck.scalar(ck.returned(out), want / 2, K * float(size), 'signed area')
    return 'ccw' if want > 0 else 'cw' if want < 0 else 'zero'


def formula(f):
    def judge(op, out, ck):
        want = float(f(op))
        ck.scalar(ck.returned(out), want, K * want, op.fn)
        return 'value'

    return judge


def rad(op):
    return ex.q(op.recv[-1])


def length(op):
    return F(ex.fnorm(ex.qv(op.recv[2])))


for fn, f in {
    'Circle.circumference': lambda op: 2 * PI * rad(op),
    'Circle.area': lambda op: PI * rad(op) ** 2,
    'Sphere.surface_area': lambda op: 4 * PI * rad(op) ** 2,
    'Sphere.volume': lambda op: F(4, 3) * PI * rad(op) ** 3,
    'Cylinder.length': length,
    'Cylinder.lateral_surface_area': lambda op: 2 * PI * rad(op) * length(op),
    'Cylinder.surface_area': lambda op: 2 * PI * rad(op) * (length(op) + rad(op)),
    'Cylinder.volume': lambda op: PI * rad(op) ** 2 * length(op),
}.items():
    oracle('C17', fn)(formula(f))


crowds('crowds_measured', 'measures')

prop('C17', {'measures': 1, 'crowds_measured': 0.0012}, 20000, 400000,
     'A case measures random triangles, tetrahedra, polygons (both senses, every first vertex, self-intersecting too), circles, spheres and cylinders; '
     'each value is compared with the exact one. Non-trivial: the event got a verdict; distinct: by operation, operands and representation.',
     required=['measurement.area_triangle', 'measurement.volume_tetrahedron', 'measurement.area_signed', 'Circle.circumference', 'Circle.area',
               'Sphere.surface_area', 'Sphere.volume', 'Cylinder.length', 'Cylinder.lateral_surface_area', 'Cylinder.surface_area', 'Cylinder.volume'])
