"""C03, C04, C05: intersections."""
import math

import numpy as np

from .. import exact as ex
from ..core import Op, Skip, Violation
from ..exact import F
from ..registry import gen, oracle, prop
from .c01_02 import K, line, on_line, parts, plane


def par_threshold(kw, default=1e-9):
    """Vectors are parallel if 1 - |cos| is at most this."""
    return max(kw.get('rel_tol', default), kw.get('abs_tol', 0.0))


def one_minus_cos(d, e):
    """1 - |cos| of the angle between two non-zero vectors, accurate also if it is tiny."""
    s2 = float(ex.sin2_num(d, e) / (ex.n2(d) * ex.n2(e)))
    return s2 / (1 + math.sqrt(max(0.0, 1 - s2))), s2


def decide_parallel(d, e, kw):
    """True, False, or Skip close to the tolerance."""
    om, s2 = one_minus_cos(d, e)
    t = par_threshold(kw)
    a = kw.get('abs_tol', 0.0)
    for v in (d, e):
        n = float(ex.n2(v))
        if 0.5 * a < n < 2 * a:
            raise Skip('squared length at the absolute tolerance')
        if a and n <= a:
            return True
    if om == 0 and t < 1e-14:
        raise Skip('zero tolerance')
    if om < 0.9 * t - 1e-14 or (om == 0):
        return True
    if om > 1.1 * t + 1e-14:
        return False
    raise Skip('at the parallel tolerance')


PAR_KW = [{}] * 6 + [{'rel_tol': 1e-12}, {'rel_tol': 1e-5}, {'rel_tol': 1e-2}, {'abs_tol': 1e-6}, {'abs_tol': 1e-2}, {'rel_tol': 0.1}]


def nearly(r, d, n):
    """A direction at a small angle to d."""
    m = max(map(abs, d))
    e = 10.0 ** r.uniform(-7, -0.5)
    return [x + e * m * r.gauss(0, 1) for x in d]


def crossing(G, r, n):
    """Two lines meeting in a point, exactly if G makes exact numbers."""
    x = G.point(n)
    d, e = G.vec(n), G.vec(n)
    ka, kb = r.randint(-4, 4), r.randint(-4, 4)
    a = [p - ka * u for p, u in zip(x, d)]
    b = [p - kb * u for p, u in zip(x, e)]
    return ('Line', a, d), ('Line', b, e)


@gen('intersect_lines')
def g_intersect_lines(G, r):
    n = r.choice((2, 2, 2, 3, 3, 3, 3, 3))
    u = r.random()
    if n == 3 and u < 0.55:
        G.restrict = ['int1', 'int', 'int3', 'dy', 'big']
        G.new_mode()
        if r.random() < 0.25:  # far from the origin
            off = [r.choice((-1, 1)) * 10 ** r.randint(2, 6) for _ in range(3)]
        else:
            off = [0, 0, 0]
        a, b = crossing(G, r, 3)
        a = ('Line', [x + o for x, o in zip(a[1], off)], a[2])
        b = ('Line', [x + o for x, o in zip(b[1], off)], b[2])
    elif u < 0.7:
        a, b = line(G, n), line(G, n)
    elif u < 0.8:
        a = line(G, n)
        k = r.choice((-3, -1, 0.5, 2))
        b = ('Line', G.point(n), [k * x for x in a[2]])
    elif u < 0.93:
        a = line(G, n)
        e = nearly(r, a[2], n)
        x = on_line(a, r.randint(-2, 2))
        b = ('Line', x if n == 3 and r.random() < .5 else G.point(n), e)
    elif u < 0.96:
        m = r.choice((2, 3, 4))
        a, b = line(G, n), line(G, m)
    else:
        m = r.choice((1, 4, 5))
        a, b = line(G, m), line(G, m)
    kw = dict(r.choice(PAR_KW))
    if r.random() < 0.15:
        kw['check_coplanar'] = r.random() < 0.5
    s = G.style()
    return [Op('Line.intersect_line', a, [b], kw, style=s), Op('Line.intersect_line', b, [a], kw, style=s)]


def coplanarity(a, d, b, e):
    """'yes', 'no' or Skip: coplanarity of two lines as decided by the rank of the matrix of their points."""
    if len(a) < 3:
        return 'yes'
    det = ex.dot(ex.sub(b, a), ex.cross(d, e))
    spread = ex.fnorm(ex.sub(b, a)) + ex.fnorm(d) + ex.fnorm(e)
    if ex.amax(a, b) > 1e4 * min(ex.fnorm(d), ex.fnorm(e)) and not ex.simple(a + d + b + e, 24):
        raise Skip('points of the lines rounded')
    if det == 0:
        if ex.simple(a + d + b + e, 24):
            return 'yes'
        raise Skip('coplanar up to rounding of the points')
    if abs(float(det)) > 1e-9 * spread**3:
        return 'no'
    raise Skip('almost coplanar')


@oracle('C03', 'Line.intersect_line')
def o_intersect_lines(op, out, ck):
    a, d = parts(op.recv)
    b, e = parts(op.args[0])
    if len(a) != len(b):
        return ck.raised(out, why='the lines have different dimensions')
    if len(a) > 3:
        return ck.raised(out, why='the dimension is greater than 3')
    kw = dict(op.kw)
    check = kw.pop('check_coplanar', True)
    if decide_parallel(d, e, kw):
        return ck.raised(out, why='the lines are parallel')
    cop = coplanarity(a, d, b, e)
    if cop == 'no':
        if check:
            return ck.raised(out, why='the lines are skew')
        raise Skip('skew lines without the check')
    om, s2 = one_minus_cos(d, e)
    if s2 < 1e-8:
        raise Skip('ill-conditioned')
    c = ex.cross(d, e)
    t = ex.dot(ex.cross(ex.sub(b, a), e), c) / ex.n2(c)
    want = ex.add(a, ex.mul(t, d))
    tol = K * 4 * (ex.amax(a, b, want) + ex.amax(ex.sub(b, a)) / s2)
    ck.vector(ck.returned(out), want, tol, 'intersection point')
    return 'value'


@gen('intersect_plane_line')
def g_plane_line(G, r):
    n = r.choice((1, 2, 3, 3, 3, 3, 4, 5, 6))
    pl = plane(G, n)
    d = G.vec(n)
    kw = {}
    u = r.random()
    if n > 1 and u < 0.25:  # parallel
        i, j = r.sample(range(n), 2)
        d = [0] * n
        d[i], d[j] = pl[2][j], -pl[2][i]
        if not any(d):
            d[i] = 1
    if u > 0.8:
        kw['abs_tol'] = 10.0 ** r.uniform(-6, 2)
    s = G.style()
    return [Op('Plane.intersect_line', pl, [('Line', G.point(n), d)], kw, style=s),
            Op('Plane.intersect_line', pl, [('Line', G.point(n), G.vec(n))], style=s)]


@oracle('C03', 'Plane.intersect_line')
def o_plane_line(op, out, ck):
    a, n = parts(op.recv)
    p, d = parts(op.args[0])
    den = ex.dot(n, d)
    size = ex.fnorm(n) * ex.fnorm(d)
    tol = op.kw.get('abs_tol', 0.0)
    rounding = 1e-14 * size * len(n)
    if den == 0 and (ex.simple(n + d, 22) or tol > rounding or sum(1 for x, y in zip(n, d) if x * y) <= 2):
        return ck.raised(out, why='the line is parallel to the plane')
    if abs(float(den)) < tol - rounding:
        return ck.raised(out, why='the line is parallel to the plane within the tolerance')
    if abs(float(den)) <= tol * (1 + 1e-12) + rounding:
        raise Skip('at the parallel tolerance')
    t = ex.dot(ex.sub(a, p), n) / den
    want = ex.add(p, ex.mul(t, d))
    cond = size / abs(float(den))
    if cond > 1e9:
        raise Skip('ill-conditioned')
    reach = ex.fnorm(ex.sub(a, p)) * cond
    ck.vector(ck.returned(out), want, K * (ex.amax(p, want) + reach * (1 + cond)), 'intersection point')
    return 'value'


@gen('intersect_planes')
def g_planes(G, r):
    a = plane(G, 3)
    u = r.random()
    if u < 0.2:
        k = r.choice((-3, -1, 0.5, 1, 2))
        b = ('Plane', G.point(3), [k * x for x in a[2]])
    elif u < 0.35:
        b = ('Plane', G.point(3), nearly(r, a[2], 3))
    else:
        b = plane(G, 3)
    kw = dict(r.choice(PAR_KW))
    s = G.style()
    return [Op('Plane.intersect_plane', a, [b], kw, style=s), Op('Plane.intersect_plane', b, [a], kw, style=s)]


@oracle('C03', 'Plane.intersect_plane')
def o_planes(op, out, ck):
    a, n = parts(op.recv)
    b, m = parts(op.args[0])
    if decide_parallel(n, m, op.kw):
        return ck.raised(out, why='the planes are parallel')
    om, s2 = one_minus_cos(n, m)
    if s2 < 1e-8:
        raise Skip('ill-conditioned')
    ln = ck.returned(out)
    g = ex.qv(ck.numbers(ln.point, 3, 'point of the line'))
    v = ex.qv(ck.numbers(ln.direction, 3, 'direction of the line'))
    want = ex.cross(n, m)
    sin = ex.fs(ex.sin2_num(v, want) / (ex.n2(v) * ex.n2(want)))
    ck.scalar(sin, 0, 10 * K / math.sqrt(s2), 'sine of the angle between the direction and the planes')
    nn, nm = ex.fnorm(n), ex.fnorm(m)
    ratio = max(nn, nm, 1) / min(nn, nm, 1)
    if ratio > 1e4:
        ratio = ratio**2
    size = ex.amax(a, b, g) + (ex.fnorm(a) + ex.fnorm(b)) / math.sqrt(s2)
    if ratio > 1e9:
        raise Skip('normals of very different lengths')
    for c, k, what in ((a, n, 'first'), (b, m, 'second')):
        h = float(ex.dot(ex.sub(g, c), k)) / ex.fnorm(k)
        ck.scalar(h, 0, 10 * K * size * ratio / math.sqrt(s2), f'distance of the point of the line from the {what} plane')
    return 'value'


@gen('intersect_segments')
def g_segments(G, r):
    n = r.choice((2, 2, 3))
    if n == 3 or r.random() < 0.5:
        G.restrict = ['int1', 'int', 'int3', 'dy']
        G.new_mode()
    u = r.random()
    if n == 2 and u < 0.35:
        pts = G.points(4, 2)
    elif u < 0.55:  # an endpoint in common
        p, q, s = G.points(3, n)
        pts = [p, q, q, s]
    elif u < 0.75:  # through a common point, exact for integers
        x = G.point(n)
        d, e = G.vec(n), G.vec(n)
        k = [r.choice((0, 1, 2, 3, -1, -4)) for _ in range(4)]
        pts = [[a + k[0] * b for a, b in zip(x, d)], [a - k[1] * b for a, b in zip(x, d)],
               [a + k[2] * b for a, b in zip(x, e)], [a - k[3] * b for a, b in zip(x, e)]]
    elif u < 0.85:  # an endpoint of one inside the other
        p, q, s = G.points(3, n)
        w = r.choice((0.25, 0.5, 0.75))
        x = [a + w * (b - a) for a, b in zip(p, q)]
        pts = [p, q, x, s]
    else:  # parallel or overlapping
        p = G.point(n)
        d = G.vec(n)
        o = G.point(n) if r.random() < 0.5 else p
        i, j, k, m = (r.randint(-4, 4) for _ in range(4))
        pts = [[a + t * b for a, b in zip(base, d)] for base, t in ((p, i), (p, j), (o, k), (o, m))]
    if r.random() < 0.5:
        pts[0], pts[1] = pts[1], pts[0]
    if r.random() < 0.5:
        pts[2], pts[3] = pts[3], pts[2]
    if same(pts[0], pts[1]) or same(pts[2], pts[3]):
        return []
    a, b = ('LineSegment', pts[0], pts[1]), ('LineSegment', pts[2], pts[3])
    s = G.style()
    return [Op('LineSegment.intersect_line_segment', a, [b], style=s), Op('LineSegment.intersect_line_segment', b, [a], style=s)]


def same(p, q):
    return all(math.isclose(x, y, rel_tol=1e-8) for x, y in zip(p, q))


@oracle('C03', 'LineSegment.intersect_line_segment')
def o_segments(op, out, ck):
    a, a2 = parts(op.recv)
    b, b2 = parts(op.args[0])
    d, e = ex.sub(a2, a), ex.sub(b2, b)
    if decide_parallel(d, e, op.kw):
        return ck.raised(out, why='the segments are parallel')
    if coplanarity(a, d, b, e) == 'no':
        return ck.raised(out, why='the segments are skew')
    om, s2 = one_minus_cos(d, e)
    c = ex.cross(d, e)
    ab = ex.sub(b, a)
    t = ex.dot(ex.cross(ab, e), c) / ex.n2(c)
    u = ex.dot(ex.cross(ab, d), c) / ex.n2(c)
    size = ex.amax(a, b, a2, b2)
    shortest = min(ex.fnorm(d), ex.fnorm(e))
    if s2 < 1e-4 or size / shortest > 1e5:
        raise Skip('ill-conditioned')
    inside = min(t, 1 - t, u, 1 - u)
    # An intersection just outside a segment, within rounding, may be accepted; touching exactly is an intersection.
    if inside < -1e-6:
        return ck.raised(out, why='the intersection of the lines is not on both segments')
    if inside < 0:
        raise Skip('just outside')
    want = ex.add(a, ex.mul(t, d))
    ck.vector(ck.returned(out), want, 10 * K * size / s2, 'intersection point')
    return 'touch' if inside == 0 else 'value'


prop('C03', {'intersect_lines': 5, 'intersect_plane_line': 3, 'intersect_planes': 3, 'intersect_segments': 5}, 120000, 2000000,
     'A case is a random pair of lines, planes or segments (crossing, touching, parallel, nearly parallel, skew, mismatched dimensions) '
     'intersected in both orders with default or given tolerances; the decision and the point are compared with exact rational geometry. '
     'Non-trivial: the event got a verdict (not skipped close to a tolerance); distinct: by operation, operands and representation.',
     required=['Line.intersect_line', 'Plane.intersect_line', 'Plane.intersect_plane', 'LineSegment.intersect_line_segment'])


# C04


@gen('round_line')
def g_round_line(G, r):
    n = r.choice((2, 3))
    name = {2: 'Circle', 3: 'Sphere'}[n]
    u = r.random()
    s = G.style()
    if u < 0.15:  # exactly tangent or crossing, along an axis
        G.restrict = ['int1', 'int', 'dy']
        G.new_mode()
        c = G.point(n)
        k = r.randrange(n)
        rad = r.choice((1, 2, 3, 5, 0.5, 7, 13))
        if n == 2:
            off = [0, 0]
            off[1 - k] = r.choice((-1, 1)) * rad
        else:
            w, norm = G.pyth()
            rad = norm * r.choice((1, 2, 0.5))
            w = [x * rad / norm for x in w]
            off = w[:k] + [0] + w[k:]
        if n == 2 and r.random() < 0.5:
            off[k] = r.randint(-5, 5)
        p = [x + y for x, y in zip(c, off)]
        d = [0] * n
        d[k] = r.choice((-3, -1, 1, 2, 0.25))
        return [Op(name + '.intersect_line', (name, c, rad), [('Line', p, d)], style=s)]
    obj = (name, G.point(n), G.radius())
    ops = []
    for _ in range(3):
        d = G.vec(n)
        v = r.random()
        if v < 0.2:  # almost tangent
            m = sum(float(x) ** 2 for x in d)
            h = [r.gauss(0, 1) for _ in range(n)]
            k = sum(x * y for x, y in zip(h, d)) / m
            h = [x - k * y for x, y in zip(h, d)]
            k = obj[2] * (1 + r.choice((-1, 1)) * 10.0 ** r.uniform(-10, -1)) / math.hypot(*h)
            k2 = r.choice((0, 0, 1, -2))
            p = [c + k * x + y * k2 for c, x, y in zip(obj[1], h, d)]
        elif v < 0.75:  # pass near the circle
            h = [obj[2] * r.uniform(-1, 1) for _ in range(n)]
            p = [c + x + y * r.choice((0, 0, 1, -2)) for c, x, y in zip(obj[1], h, d)]
        else:
            p = G.point(n)
        ops.append(Op(name + '.intersect_line', obj, [('Line', p, d)], style=s))
    return ops


def residual_pair(ck, out, mid, half2, tol_mid, tol2, what):
    """The outcome is two points, in any order, with the given midpoint and squared half distance."""
    got = ck.returned(out)
    if len(got) != 2:
        raise Violation(f'{what}: {len(got)} points')
    n = len(mid)
    p = ex.qv(ck.numbers(got[0], n, what))
    q = ex.qv(ck.numbers(got[1], n, what))
    ck.vector([float((x + y) / 2) for x, y in zip(p, q)], mid, tol_mid, what + ' (midpoint)')
    w = ex.mul(F(1, 2), ex.sub(p, q))
    ck.scalar(float(ex.n2(w)), half2, tol2, what + ' (squared half distance)')
    return p, q, w


@oracle('C04', 'Circle.intersect_line', 'Sphere.intersect_line')
def o_round_line(op, out, ck):
    c, rad = ex.qv(op.recv[1]), ex.q(op.recv[2])
    p, d = parts(op.args[0])
    v = ex.sub(p, c)
    foot = ex.foot_line(p, d, c)
    h2 = ex.n2(ex.sub(foot, c))
    half2 = rad * rad - h2
    size2 = float(rad * rad + ex.n2(v))
    exact_axis = (sum(1 for x in d if x) == 1 and ex.simple(c + p + d + [rad]) and ex.is_square(ex.n2(v))
                  and ex.is_square(h2)) and (len(c) == 2 or ex.simple([ex.rsqrt(ex.n2(v))]))
    if abs(float(half2)) <= 1e-11 * size2 and not exact_axis:
        raise Skip('almost tangent')
    if half2 < 0:
        return ck.raised(out, why='the line misses the circle or sphere')
    size = float(ex.fs(F(size2)))
    # The error of the squared half chord is relative to the squares of the distances involved.
    p2, q2, w = residual_pair(ck, out, foot, half2, K * 4 * (size + ex.amax(c, p)), 8 * K * size2 + K * ex.amax(c) * size, 'intersection points')
    u = ex.fs(ex.sin2_num(w, d) / ex.n2(d))
    ck.scalar(u, 0, K * 8 * (size + ex.amax(c, p)), 'deviation of the chord from the line')
    return 'tangent' if half2 == 0 else 'value'


@gen('circle_circle')
def g_circle_circle(G, r):
    u = r.random()
    s = G.style()
    if u < 0.2:  # exactly tangent, inside or outside
        G.restrict = ['int1', 'int', 'dy']
        G.new_mode()
        c = G.point(2)
        w, norm = G.pyth()
        r1 = r.randint(1, 4 * norm) / 4
        if r.random() < 0.5:  # radii with many digits, whose sum or difference is the distance exactly
            r1 = r.randint(1, norm << 40) / 2 ** 40
        if r.random() < 0.5 and r1 < norm:
            r2 = norm - r1
        else:
            r2 = norm + r1
        b = [x + y for x, y in zip(c, w)]
    else:
        c = G.point(2)
        r1 = G.radius()
        v = r.random()
        if v < 0.1:
            b, r2 = list(c), r.choice((r1, G.radius()))
        elif v < 0.7:
            r2 = r1 * r.choice((1, 0.5, r.uniform(0.1, 3)))
            ang = r.uniform(0, 7)
            dist = r.uniform(abs(r1 - r2) * 0.8, (r1 + r2) * 1.1)
            b = [c[0] + dist * math.cos(ang), c[1] + dist * math.sin(ang)]
            if r.random() < 0.3:
                b = [c[0] + dist, c[1]] if r.random() < 0.5 else [c[0], c[1] - dist]
        elif v < 0.85:  # almost tangent, inside or outside
            r2 = r1 * r.choice((1, 0.5, r.uniform(0.1, 3)))
            ang = r.uniform(0, 7)
            dist = (r1 + r2 if r.random() < 0.5 or r1 == r2 else abs(r1 - r2)) * (1 + r.choice((-1, 1)) * 10.0 ** r.uniform(-11, -1))
            b = [c[0] + dist * math.cos(ang), c[1] + dist * math.sin(ang)]
        else:
            b, r2 = G.point(2), G.radius()
    a, b = ('Circle', c, r1), ('Circle', b, r2)
    return [Op('Circle.intersect_circle', a, [b], style=s), Op('Circle.intersect_circle', b, [a], style=s)]


@oracle('C04', 'Circle.intersect_circle')
def o_circle_circle(op, out, ck):
    c, r1 = ex.qv(op.recv[1]), ex.q(op.recv[2])
    b, r2 = ex.qv(op.args[0][1]), ex.q(op.args[0][2])
    v = ex.sub(b, c)
    d2 = ex.n2(v)
    if d2 == 0:
        return ck.raised(out, why='the circles are concentric')
    exact = ex.simple(c + b) and ex.is_square(d2) and ex.simple([ex.rsqrt(d2)]) and all(F(float(x)) == x for x in (r1 + r2, r1 - r2))
    outer, inner = (r1 + r2) ** 2, (r1 - r2) ** 2
    scale = float(d2 + outer)
    margin = F(1e-12) * (d2 + outer)
    if not exact and (abs(d2 - outer) <= margin or abs(d2 - inner) <= margin):
        raise Skip('almost tangent')
    if d2 > outer:
        return ck.raised(out, why='the circles are separate')
    if d2 < inner:
        return ck.raised(out, why='one circle contains the other')
    f = (r1 * r1 - r2 * r2 + d2) / (2 * d2)
    mid = ex.add(c, ex.mul(f, v))
    half2 = r1 * r1 - f * f * d2
    d = ex.fs(d2)
    # Error of the distance from the first centre to the radical axis; rounding of the difference of the centres is exact enough.
    da = 8 * K * (float(r1 * r1 + r2 * r2 + d2) / d + ex.amax(c, b))
    a = abs(float(f)) * d
    p, q, w = residual_pair(ck, out, mid, half2, da, 2 * (a + da) * da + K * scale, 'intersection points')
    # The chord is perpendicular to the line of centres.
    ck.scalar(float(ex.dot(w, v)) / d, 0, da, 'deviation of the chord from the perpendicular')
    return 'tangent' if half2 == 0 else 'value'


prop('C04', {'round_line': 5, 'circle_circle': 4}, 90000, 1500000,
     'A case is a random circle or sphere with lines through and around it, or a pair of circles (crossing, exactly tangent, separate, '
     'nested, concentric, both orders); decision and points are compared with exact rational geometry. Non-trivial: the event got a verdict '
     '(not skipped as almost tangent); distinct: by operation, operands and representation.',
     required=['Circle.intersect_line', 'Sphere.intersect_line', 'Circle.intersect_circle'])


# C05


def perp_basis(r, v):
    """A direction perpendicular to v (float)."""
    while True:
        u = [r.gauss(0, 1) for _ in range(3)]
        n = sum(x * x for x in v)
        k = sum(x * y for x, y in zip(u, v)) / n
        w = [x - k * y for x, y in zip(u, v)]
        m = math.sqrt(sum(x * x for x in w))
        if m > 0.1:
            return [x / m for x in w]


def cylinder(G, r):
    v = G.vec(3)
    ln = math.sqrt(sum(float(x) ** 2 for x in v))
    u = r.random()
    if u < 0.4:
        rad = r.choice((1, 2, 3, 5, 0.5, 10))
        if not 1e-3 < rad / ln < 1e3:
            rad = ln * r.uniform(0.1, 2)
    else:
        rad = ln * 10.0 ** r.uniform(-1, 1)
    c = G.point(3)
    return ('Cylinder', c, v, rad)


@gen('cylinder_line')
def g_cylinder_line(G, r):
    s = G.style()
    cyl = cylinder(G, r)
    _, c, v, rad = cyl
    ln = math.sqrt(sum(float(x) ** 2 for x in v))
    ops = []
    for _ in range(3):
        u = r.random()
        # A point in or around the cylinder, and a direction.
        t = r.uniform(-0.5, 1.5)
        w = perp_basis(r, v)
        h = rad * r.choice((r.uniform(0, 1), r.uniform(0, 1), r.uniform(0, 2)))
        p = [a + t * b + h * x for a, b, x in zip(c, v, w)]
        if u < 0.15:  # parallel to the axis
            d = [r.choice((-2, -1, 1, 0.5, 3)) * x for x in v]
            k = r.choice((-2, -1, 1, 0.5, 3))
            d = [k * x for x in v]
            if r.random() < 0.4:  # almost parallel
                e = ln * 10.0 ** r.uniform(-10, -3)
                d = [k * x + e * y for x, y in zip(v, perp_basis(r, v))]
        elif u < 0.3:  # perpendicular to the axis
            d = perp_basis(r, v)
        elif u < 0.65:  # towards another point in or around the cylinder, e.g. from cap to side
            t2 = r.uniform(-0.5, 1.5)
            w2 = perp_basis(r, v)
            h2 = rad * r.uniform(0, 1.3)
            d = [a + t2 * b + h2 * x - y for a, b, x, y in zip(c, v, w2, p)]
            if not any(d):
                d = [1, 0, 0]
        else:
            d = G.vec(3)
        kw = {'infinite': False} if r.random() < 0.6 else {}
        if r.random() < 0.1:
            kw['infinite'] = True
        if r.random() < 0.1:
            kw['n_digits'] = r.choice((8, 10, 12))
        ops.append(Op('Cylinder.intersect_line', cyl, [('Line', p, d)], kw, style=s))
    if r.random() < 0.05:
        ops.append(Op('Cylinder.intersect_line', cyl, [('Line', [0, 1], [1, 2])], style=s))
    return ops


@gen('cylinder_axis_exact')
def g_cylinder_axis(G, r):
    """Cylinders along an axis and lines with exact answers: tangent, along caps, through rims' interiors."""
    s = G.style()
    k = r.randrange(3)
    c = [r.randint(-5, 5) for _ in range(3)]
    length = r.choice((-4, -1, 1, 2, 3, 8))
    v = [0, 0, 0]
    v[k] = length
    w, norm = G.pyth()
    m = r.choice((1, 2, 0.5))
    rad = norm * m
    off = [x * m for x in w]
    off = off[:k] + [0] + off[k:]
    cyl = ('Cylinder', c, v, rad)
    ops = []
    axes = [i for i in range(3) if i != k]
    u = r.random()
    if u < 0.3:  # boundary and interior points
        f = r.choice((0, 1, 0.5, 0.25, -0.5, 1.25))
        g = r.choice((0, 1, 0.5, -1, 1.5))
        p = [a + f * b + g * o for a, b, o in zip(c, v, off)]
        ops.append(Op('Cylinder.is_point_within', cyl, [p], style=s))
    elif u < 0.5:  # line in a cap plane or between, along an axis
        f = r.choice((0, 1, 0.5, -0.25, 1.5))
        j = r.choice(axes)
        o = [x for i, x in enumerate(axes) if x != j][0]
        p = [a + f * b for a, b in zip(c, v)]
        p[o] += r.choice((0, 0.25, -0.5)) * rad
        p[j] += r.randint(-9, 9)
        d = [0, 0, 0]
        d[j] = r.choice((-2, 1, 3))
        ops.append(Op('Cylinder.intersect_line', cyl, [('Line', p, d)], {'infinite': r.random() < 0.3}, style=s))
    elif u < 0.7:  # parallel to the axis, inside and outside
        g = r.choice((0, 0.5, -0.75, 1.5, 1, -1))
        p = [a + g * o for a, o in zip(c, off)]
        p[k] += r.randint(-9, 9)
        d = [0, 0, 0]
        d[k] = r.choice((-2, 1, 3))
        ops.append(Op('Cylinder.intersect_line', cyl, [('Line', p, d)], {'infinite': r.random() < 0.3}, style=s))
    else:
        p = [a + r.choice((-1, 1)) * x for a, x in zip(c, off)]
        p[k] += r.randint(-3, 3)
        d = [r.randint(-3, 3) for _ in range(3)]
        if not any(d):
            d[0] = 1
        ops.append(Op('Cylinder.intersect_line', cyl, [('Line', p, d)], {'infinite': r.random() < 0.5}, style=s))
    return ops


@gen('cylinder_within')
def g_within(G, r):
    s = G.style()
    cyl = cylinder(G, r)
    _, c, v, rad = cyl
    ops = []
    for _ in range(4):
        t = r.choice((r.uniform(-0.3, 1.3), r.uniform(0, 1), 1 + r.gauss(0, 1e-3), r.gauss(0, 1e-3)))
        w = perp_basis(r, v)
        h = rad * r.choice((r.uniform(0, 1), r.uniform(0, 1.5), 1 + r.gauss(0, 1e-3)))
        ops.append(Op('Cylinder.is_point_within', cyl, [[a + t * b + h * x for a, b, x in zip(c, v, w)]], style=s))
    return ops


@oracle('C05', 'Cylinder.is_point_within')
def o_within(op, out, ck):
    c, v, rad = ex.qv(op.recv[1]), ex.qv(op.recv[2]), ex.q(op.recv[3])
    p = ex.sub(ex.qv(op.args[0]), c)
    s = ex.dot(p, v) / ex.n2(v)
    rad2 = ex.n2(ex.sub(p, ex.mul(s, v)))
    ln = ex.fnorm(v)
    size = ln + float(rad) + ex.amax(c, ex.qv(op.args[0]))
    h = ex.fs(rad2)
    exact = sum(1 for x in v if x) == 1 and ex.simple(c + v + p + [rad])
    m = 1e-11 * size
    if not (exact and ex.is_square(rad2)):
        if abs(h - float(rad)) <= m or min(abs(float(s)) * ln, abs(float(s - 1)) * ln) <= m:
            raise Skip('at the surface')
    want = rad2 <= rad * rad and 0 <= s <= 1
    return ck.boolean(ck.returned(out), want, 'is_point_within')


def unordered(ck, out, lo, hi, tol, what):
    got = ck.returned(out)
    if len(got) != 2:
        raise Violation(f'{what}: {len(got)} points')
    g = [ck.numbers(x, 3, what) for x in got]

    def err(x, y):
        return max(abs(a - float(b)) for a, b in zip(x, y))

    e = min(max(err(g[0], lo), err(g[1], hi)), max(err(g[0], hi), err(g[1], lo)))
    ck.note(e, tol)
    if not e <= tol:
        raise Violation(f'{what} are {g}, exact {[float(x) for x in lo]} and {[float(x) for x in hi]} (difference {e:.3g}, allowed {tol:.3g})')


@oracle('C05', 'Cylinder.intersect_line')
def o_cylinder_line(op, out, ck):
    c, v, rad = ex.qv(op.recv[1]), ex.qv(op.recv[2]), ex.q(op.recv[3])
    p, d = parts(op.args[0])
    if len(p) != 3:
        return ck.raised(out, why='the line is not 3D')
    infinite = op.kw.get('infinite', True)
    digits = op.kw.get('n_digits')
    v2 = ex.n2(v)
    dp = ex.sub(p, c)
    w = ex.sub(d, ex.mul(ex.dot(d, v) / v2, v))
    o = ex.sub(dp, ex.mul(ex.dot(dp, v) / v2, v))
    A, B, C = ex.n2(w), ex.dot(w, o), ex.n2(o) - rad * rad
    d2 = ex.n2(d)
    s2 = float(A / d2)  # squared sine of the angle between line and axis
    ln, dn = ex.fnorm(v), ex.fnorm(d)
    reach = ex.fnorm(dp) + float(rad) + ln
    size = reach + ex.amax(c, p)
    axis = sum(1 for x in v if x) == 1 and ex.simple(c + v + p + d + [rad])
    if s2 == 0:
        if infinite:
            # Only if the parallel vectors are normalised with the same result up to rounding.
            return ck.raised(out, why='the line is parallel to the axis of the infinite cylinder')
        h = ex.fs(ex.n2(o))
        if abs(h - float(rad)) <= 1e-10 * size and not (axis and ex.is_square(ex.n2(o))):
            raise Skip('line on the surface')
        if ex.n2(o) > rad * rad:
            return ck.raised(out, why='the line misses the cylinder')
        k = ex.dot(dp, v) / v2
        lo = ex.sub(p, ex.mul(k, v))
        hi = ex.add(lo, v)
        unordered(ck, out, lo, hi, K * 20 * size, 'intersection points')
        return 'caps'
    if s2 < 1e-6:
        # A line through the inside meets both caps, or the surface far away: there is a result, unless the angle is lost in rounding.
        f = float(ex.dot(dp, v) / v2)
        if digits or s2 < 1e-20 or float(C) > -0.05 * float(rad) ** 2 or size > 100 * float(rad) or size > 100 * ln or not (infinite or 0.01 < f < 0.99):
            raise Skip('almost parallel to the axis')
        got = [ex.qv(ck.numbers(x, 3, 'intersection points')) for x in ck.returned(out)]
        ck.true(len(got) == 2, f'{len(got)} intersection points')
        if infinite:
            return 'almost parallel'
        for x in got:
            t = ex.sub(x, c)
            k = ex.dot(t, v) / v2
            ck.true(-1e-6 <= k <= 1 + 1e-6, 'an intersection point is beyond the caps')
            ck.true(ex.fnorm(ex.sub(t, ex.mul(k, v))) <= float(rad) * (1 + 1e-6), 'an intersection point is outside the cylinder')
        ck.true(ex.fnorm(ex.sub(*got)) >= 1e-4 * min(ln, float(rad)), 'the intersection points are one point')
        return 'almost parallel'
    disc = B * B - A * C
    dmargin = 1e-10 * float(A) * float(ex.n2(o) + rad * rad) + 1e-10 * float(A) * size * float(rad)
    dexact = axis and sum(1 for x in d if x) == 1 and ex.is_square(ex.n2(o))
    near = abs(float(disc)) <= dmargin
    if near and not (dexact and infinite and not digits):
        raise Skip('almost tangent')
    if digits and (10.0 ** -digits > 1e-3 * min(s2, abs(float(disc / d2))) or 10.0 ** -digits * (1 + reach * reach) > 1e-3 * abs(float(disc / d2))):
        raise Skip('rounded coefficients')
    if disc < 0:
        return ck.raised(out, why='the line misses the cylinder')
    tm = -B / A
    th = F(ex.fs(disc / (A * A)))
    t1, t2 = tm - th, tm + th
    # Error of a parameter on the line, in units of length.
    perr = K * 20 * (size / s2 + reach * reach / max(float(th) * dn, 1e-300) / s2)
    if digits:
        a, b, cc = s2, 2 * abs(float(B)) / dn, abs(float(C))
        dn_ = 10.0 ** -digits
        perr += dn_ * (1 + reach * reach + reach) / (a * min(1, max(float(th) * dn, 1e-300)) * min(a, 1)) * 10
        if perr > 1e-3 * reach:
            raise Skip('rounded coefficients')
    if infinite:
        if disc == 0:
            perr = K * 20 * size
        if perr > 1e-2 * reach:
            raise Skip('ill-conditioned')
        unordered(ck, out, ex.add(p, ex.mul(t1, d)), ex.add(p, ex.mul(t2, d)), perr, 'intersection points')
        return 'infinite' if disc else 'tangent'
    # Clip with the planes of the caps.
    g, h = ex.dot(d, v), ex.dot(dp, v)
    margin = max(1e-8 * size, perr)
    if margin > 1e-2 * (ln + float(rad)):
        raise Skip('ill-conditioned')
    if g == 0:
        if not out.ok and not ex.simple(v + d):
            raise Skip('perpendicular to the axis up to rounding')
        f = h / v2
        if not (axis and dexact) and min(abs(float(f)), abs(float(f - 1))) * ln <= 1e-10 * size:
            raise Skip('line in a cap plane up to rounding')
        if not 0 <= f <= 1:
            return ck.raised(out, why='the line misses the cylinder')
        unordered(ck, out, ex.add(p, ex.mul(t1, d)), ex.add(p, ex.mul(t2, d)), perr, 'intersection points')
        return 'side-side'
    cosine = abs(float(g)) / (ln * dn)
    if cosine < 1e-6:
        raise Skip('almost perpendicular to the axis')
    u1, u2 = -h / g, (v2 - h) / g
    if u1 > u2:
        u1, u2 = u2, u1
    perr += K * 20 * size / cosine / cosine
    margin = max(margin, perr)
    for t in (t1, t2):
        for u in (u1, u2):
            if abs(float(t - u)) * dn <= margin * max(1, 1 / cosine):
                raise Skip('line through a rim')
    lo, hi = max(t1, u1), min(t2, u2)
    if lo > hi:
        return ck.raised(out, why='the line misses the cylinder')
    unordered(ck, out, ex.add(p, ex.mul(lo, d)), ex.add(p, ex.mul(hi, d)), perr, 'intersection points')
    return ('side' if lo == t1 else 'cap') + '-' + ('side' if hi == t2 else 'cap')


prop('C05', {'cylinder_line': 6, 'cylinder_axis_exact': 3, 'cylinder_within': 3}, 90000, 1500000,
     'A case is a random cylinder with lines aimed in and around it (side to side, cap to side, cap to cap, parallel, perpendicular, missing; infinite '
     'and finite) and points around its surface; decision and points are compared with an exact clip of the line. Non-trivial: the event '
     'got a verdict (not skipped at a surface, rim or tangent); distinct: by operation, operands and representation.',
     required=['Cylinder.intersect_line', 'Cylinder.is_point_within'])
