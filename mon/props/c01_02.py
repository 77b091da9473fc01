"""C01 projections and C02 distances and sides."""
import numpy as np

from .. import exact as ex
from ..core import Op, Skip, Violation
from ..exact import F
from ..registry import crowds, gen, oracle, prop

K = 2e-13  # Allowed rounding error relative to the magnitudes entering the computation.


def line(G, n):
    return ('Line', G.point(n), G.vec(n))


def plane(G, n):
    return ('Plane', G.point(n), G.vec(n))


def on_line(spec, t):
    return [a + t * d for a, d in zip(spec[1], spec[2])]


def near(G, spec_point, n):
    """A point near or at an existing one, or anywhere."""
    r = G.r
    u = r.random()
    if u < 0.15:
        return list(spec_point)
    if u < 0.25:
        return [x + r.choice((-1, 0, 0, 1)) for x in spec_point]
    return G.point(n)


# Workloads.


@gen('project_line')
def g_project_line(G, r):
    n = G.dim()
    ln = line(G, n)
    s = G.style()
    ops = []
    for _ in range(2):
        p = on_line(ln, r.randint(-3, 3)) if r.random() < 0.1 else near(G, ln[1], n)
        ops.append(Op('Line.project_point', ln, [p], style=s))
    ops.append(Op('Line.project_points', ln, [G.points(G.count(), n)], style=s))
    ops.append(Op('Line.project_vector', ln, [G.vec(n) if r.random() < 0.8 else [0] * n], style=s))
    ops.append(Op('Vector.project_vector', ('Vector', G.vec(n)), [G.vec(n)], style=s))
    if r.random() < 0.05:
        ops.append(Op('Vector.project_vector', ('Vector', [0] * n), [G.vec(n)], style=s))
    return ops


@gen('project_plane')
def g_project_plane(G, r):
    n = G.dim()
    pl = plane(G, n)
    s = G.style()
    ops = [Op('Plane.project_point', pl, [near(G, pl[1], n)], style=s) for _ in range(2)]
    ops.append(Op('Plane.project_points', pl, [G.points(G.count(), n)], style=s))
    ops.append(Op('Plane.project_vector', pl, [G.vec(n)], style=s))
    if n > 1:
        d = G.vec(n)
        u = r.random()
        if u < 0.15:  # perpendicular to the plane
            d = [r.choice((-2, -1, 1, 3)) * x for x in [1]] * 1
            k = r.choice((-4, -1, 0.5, 1, 2))
            d = [k * x for x in pl[2]]
        elif u < 0.3:  # parallel to the plane
            i, j = r.sample(range(n), 2)
            d = [0] * n
            d[i], d[j] = pl[2][j], -pl[2][i]
            if not any(d):
                d[i] = 1
        ops.append(Op('Plane.project_line', pl, [('Line', near(G, pl[1], n), d)], style=s))
    return ops


@gen('project_round')
def g_project_round(G, r):
    n = r.choice((2, 3))
    name = {2: 'Circle', 3: 'Sphere'}[n]
    obj = (name, G.point(n), G.radius())
    s = G.style()
    ops = []
    for _ in range(3):
        u = r.random()
        if u < 0.1:
            p = list(obj[1])
        elif u < 0.2:  # inside, close to the centre
            p = [c + r.choice((-1, 0, 1)) * obj[2] * 0.0625 for c in obj[1]]
        elif u < 0.35:  # so close to the centre that it almost equals it
            e = 10.0 ** r.uniform(-13, -2)
            p = [c + r.choice((-1, 0, 1)) * (abs(c) or obj[2]) * e for c in obj[1]]
        else:
            p = G.point(n)
        ops.append(Op(name + '.project_point', obj, [p], style=s))
    return ops


# C01


def parts(spec):
    return ex.qv(spec[1]), ex.qv(spec[2])


@oracle('C01', 'Line.project_point')
def o_line_project_point(op, out, ck):
    a, d = parts(op.recv)
    p = ex.qv(op.args[0])
    want = ex.foot_line(a, d, p)
    ck.vector(ck.returned(out), want, K * ex.amax(a, p, ex.sub(p, a)) * len(a), 'projected point')
    return 'value'


@oracle('C01', 'Line.project_points')
def o_line_project_points(op, out, ck):
    a, d = parts(op.recv)
    ps = ex.qm(op.args[0])
    want = [ex.foot_line(a, d, p) for p in ps]
    ck.matrix(ck.returned(out), want, [K * ex.amax(a, p, ex.sub(p, a)) * len(a) for p in ps], 'projected points')
    return 'value'


@oracle('C01', 'Vector.project_vector', 'Line.project_vector')
def o_project_vector(op, out, ck):
    d = ex.qv(op.recv[-1])
    v = ex.qv(op.args[0])
    if not any(d):
        return ck.raised(out, why='the vector projected onto is zero')
    want = ex.mul(ex.dot(v, d) / ex.n2(d), d)
    ck.vector(ck.returned(out), want, K * ex.amax(v) * len(d), 'projected vector')
    return 'value'


@oracle('C01', 'Plane.project_point')
def o_plane_project_point(op, out, ck):
    a, n = parts(op.recv)
    p = ex.qv(op.args[0])
    ck.vector(ck.returned(out), ex.foot_plane(a, n, p), K * ex.amax(a, p, ex.sub(p, a)) * len(a), 'projected point')
    return 'value'


@oracle('C01', 'Plane.project_points')
def o_plane_project_points(op, out, ck):
    a, n = parts(op.recv)
    ps = ex.qm(op.args[0])
    want = [ex.foot_plane(a, n, p) for p in ps]
    ck.matrix(ck.returned(out), want, [K * ex.amax(a, p, ex.sub(p, a)) * len(a) for p in ps], 'projected points')
    return 'value'


@oracle('C01', 'Plane.project_vector')
def o_plane_project_vector(op, out, ck):
    a, n = parts(op.recv)
    v = ex.qv(op.args[0])
    want = ex.sub(v, ex.mul(ex.dot(v, n) / ex.n2(n), n))
    # The projection may be computed from a point of the plane, so its error is relative to that point as well.
    ck.vector(ck.returned(out), want, K * ex.amax(v, a, ex.add(a, v)) * len(a), 'projected vector')
    return 'value'


@oracle('C01', 'Plane.project_line')
def o_plane_project_line(op, out, ck):
    a, n = parts(op.recv)
    p, d = parts(op.args[0])
    s2 = ex.sin2_num(n, d) / (ex.n2(n) * ex.n2(d))  # squared sine of the angle between normal and direction
    if s2 < F(1, 10**13):
        return ck.raised(out, why='the line is perpendicular to the plane')
    if s2 < F(1, 10**6):
        raise Skip('almost perpendicular')
    dproj = ex.sub(d, ex.mul(ex.dot(d, n) / ex.n2(n), n))
    if K * 10 * ex.amax(a) > ex.fnorm(dproj):
        raise Skip('the direction is within rounding of the coordinates of the plane')
    got = ck.returned(out)
    foot = ex.foot_plane(a, n, p)
    size = ex.amax(a, p, ex.sub(p, a)) * len(a)
    # The point of the result is on the projected line.
    gp = ex.qv(ck.numbers(got.point, len(a), 'point of the projected line'))
    dist = ex.fnorm(ex.sub(gp, ex.foot_line(foot, dproj, gp)))
    size += ex.amax(gp)
    ck.scalar(dist, 0, K * size, 'distance of the point of the result from the projected line')
    # The direction of the result is parallel to the projected direction.
    gd = ex.qv(ck.numbers(got.direction, len(a), 'direction of the projected line'))
    gv = ex.qv(ck.numbers(got.vector, len(a), 'vector of the projected line'))
    ck.true(gd == gv, 'direction and vector of the projected line differ')
    if not any(gd):
        raise Violation('the direction of the projected line is zero')
    sin = ex.fs(ex.sin2_num(gd, dproj) / (ex.n2(gd) * ex.n2(dproj)))
    cond = ex.fnorm(d) / ex.fnorm(dproj) + ex.amax(a) / ex.fnorm(dproj)
    ck.scalar(sin, 0, K * 10 * cond, 'sine of the angle between the result and the projected direction')
    return 'value'


@oracle('C01', 'Circle.project_point', 'Sphere.project_point')
def o_round_project_point(op, out, ck):
    c, rad = ex.qv(op.recv[1]), ex.q(op.recv[2])
    p = ex.qv(op.args[0])
    v = ex.sub(p, c)
    if not any(v):
        return ck.raised(out, why='the point is the centre')
    norm = F(ex.fs(ex.n2(v)))
    want = ex.add(c, ex.mul(rad / norm, v))
    ck.vector(ck.returned(out), want, K * (ex.amax(c) + float(rad)) * len(c), 'projected point')
    return 'value'


crowds('crowds_project', 'project_line', 'project_plane')

prop('C01', {'project_line': 4, 'project_plane': 4, 'project_round': 3, 'crowds_project': 0.0044}, 60000, 900000,
     'A case is a random line, plane, circle, sphere or vector with several points, batches, vectors or lines projected on it; every '
     'event is compared with exact rational geometry. Non-trivial: the event got a value or raise verdict (not skipped as '
     'undecidable), distinct: by operation, operands and representation.',
     required=['Line.project_point', 'Line.project_points', 'Line.project_vector', 'Vector.project_vector', 'Plane.project_point',
               'Plane.project_points', 'Plane.project_vector', 'Plane.project_line', 'Circle.project_point', 'Sphere.project_point'])


# C02


@gen('distance_point')
def g_distance_point(G, r):
    n = G.dim()
    s = G.style()
    p = G.point(n)
    ops = [Op('Point.distance_point', ('Point', p), [near(G, p, n)], style=s) for _ in range(2)]
    ln = line(G, n)
    for _ in range(2):
        q = on_line(ln, r.randint(-3, 3)) if r.random() < 0.1 else near(G, ln[1], n)
        ops.append(Op('Line.distance_point', ln, [q], style=s))
    pts = G.points(G.count(), n)
    ops.append(Op('Line.distance_points', ln, [pts], style=s))
    ops.append(Op('Line.sum_squares', ln, [pts], style=s))
    pl = plane(G, n)
    q = near(G, pl[1], n)
    ops.append(Op('Plane.distance_point', pl, [q], style=s))
    ops.append(Op('Plane.distance_point_signed', pl, [q], style=s))
    ops.append(Op('Plane.side_point', pl, [q], style=s))
    ops.append(Op('Plane.distance_points', pl, [pts], style=s))
    ops.append(Op('Plane.distance_points_signed', pl, [pts], style=s))
    ops.append(Op('Plane.sum_squares', pl, [pts], style=s))
    return ops


@gen('distance_round')
def g_distance_round(G, r):
    n = r.choice((2, 3))
    name = {2: 'Circle', 3: 'Sphere'}[n]
    obj = (name, G.point(n), G.radius())
    s = G.style()
    ops = []
    for _ in range(3):
        u = r.random()
        if u < 0.1:
            p = list(obj[1])
        elif u < 0.4:
            p = [c + r.uniform(-1, 1) * obj[2] for c in obj[1]]
        else:
            p = G.point(n)
        ops.append(Op(name + '.distance_point', obj, [p], style=s))
    return ops


@gen('side_2d')
def g_side_2d(G, r):
    ln = line(G, 2)
    s = G.style()
    ops = []
    for _ in range(3):
        u = r.random()
        if u < 0.3 and G.exactly():
            p = on_line(ln, r.randint(-3, 3))
        elif u < 0.5:  # just beside the line
            k = 10.0 ** r.uniform(-12, -2) * r.choice((-1, 1))
            p = [x + k * y for x, y in zip(on_line(ln, r.choice((0, 1, -2, r.uniform(-2, 2)))), (-ln[2][1], ln[2][0]))]
        else:
            p = near(G, ln[1], 2)
        ops.append(Op('Line.side_point', ln, [p], style=s))
    if r.random() < 0.05:
        l3 = line(G, 3)
        ops.append(Op('Line.side_point', l3, [G.point(3)], style=s))
    pl = ('Plane', G.point(3), [r.choice((-2, 1, 3)) if i == r.randrange(3) else 0 for i in range(3)])
    if any(pl[2]):
        p = G.point(3)
        i = next(i for i in range(3) if pl[2][i])
        u = r.random()
        if u < 0.4:
            p[i] = pl[1][i]
        elif u < 0.7:  # just beside the plane
            p[i] = pl[1][i] + r.choice((-1, 1)) * 10.0 ** r.uniform(-15, -3) * (abs(pl[1][i]) or 1)
        ops.append(Op('Plane.side_point', pl, [p], style=s))
    return ops


@gen('distance_lines')
def g_distance_lines(G, r):
    n = r.choice((2, 3, 3, 3))
    a = line(G, n)
    u = r.random()
    if u < 0.25:  # parallel
        k = r.choice((-4, -2, -1, -0.5, 0.25, 1, 2, 8))
        b = ('Line', G.point(n), [k * x for x in a[2]])
    elif u < 0.35 and G.exactly():  # intersecting
        b = ('Line', on_line(a, r.randint(-3, 3)), G.vec(n))
    else:
        b = ('Line', G.point(n), G.vec(n))
        if r.random() < 0.3:
            b = ('Line', b[1], [x * max(1, abs(round(ex.amax(a[2])))) for x in b[2]])
    s = G.style()
    return [Op('Line.distance_line', a, [b], style=s), Op('Line.distance_line', b, [a], style=s)]


@oracle('C02', 'Point.distance_point')
def o_point_distance(op, out, ck):
    d = ex.sub(ex.qv(op.args[0]), ex.qv(op.recv[1]))
    want = ex.fnorm(d)
    ck.scalar(ck.returned(out), want, K * want, 'distance')
    return 'value' if want else 'zero'


def nonneg(x):
    if float(x) < 0:
        raise Violation(f'the distance {float(x)!r} is negative')


def line_dist(a, d, p):
    return ex.fs(ex.n2(ex.sub(p, ex.foot_line(a, d, p))))


def line_tol(a, p, K=K):
    return K * ex.amax(a, p, ex.sub(p, a)) * len(a)


@oracle('C02', 'Line.distance_point')
def o_line_distance(op, out, ck):
    a, d = parts(op.recv)
    p = ex.qv(op.args[0])
    got = ck.returned(out)
    ck.scalar(got, line_dist(a, d, p), line_tol(a, p), 'distance')
    nonneg(got)
    return 'value'


@oracle('C02', 'Line.distance_points')
def o_line_distances(op, out, ck):
    a, d = parts(op.recv)
    ps = ex.qm(op.args[0])
    got = ck.returned(out)
    ck.array(got, [line_dist(a, d, p) for p in ps], [line_tol(a, p) for p in ps], 'distances')
    for x in np.asarray(got):
        nonneg(x)
    return 'value'


@oracle('C02', 'Line.sum_squares', 'Plane.sum_squares')
def o_sum_squares(op, out, ck):
    a, d = parts(op.recv)
    ps = ex.qm(op.args[0])
    if op.recv[0] == 'Line':
        d2 = [ex.n2(ex.sub(p, ex.foot_line(a, d, p))) for p in ps]
    else:
        d2 = [ex.dot(ex.sub(p, a), d) ** 2 / ex.n2(d) for p in ps]
    tol = sum((2 * ex.fs(x) + line_tol(a, p)) * line_tol(a, p) for x, p in zip(d2, ps))
    want = sum(d2)
    ck.scalar(ck.returned(out), want, tol + K * float(want), 'sum of squares')
    nonneg(out.value)
    return 'value'


def plane_signed(spec, p):
    a, n = parts(spec)
    num = ex.dot(ex.sub(p, a), n)
    d = ex.fs(num * num / ex.n2(n))
    return -d if num < 0 else d


def plane_tol(spec, p):
    # Only the difference of the points enters, so the error is relative to it (plus its own rounding).
    a = ex.qv(spec[1])
    return K * ex.amax(ex.sub(p, a)) * len(a)


@oracle('C02', 'Plane.distance_point_signed')
def o_plane_signed(op, out, ck):
    p = ex.qv(op.args[0])
    ck.scalar(ck.returned(out), plane_signed(op.recv, p), plane_tol(op.recv, p), 'signed distance')
    return 'value'


@oracle('C02', 'Plane.distance_point')
def o_plane_distance(op, out, ck):
    p = ex.qv(op.args[0])
    ck.scalar(ck.returned(out), abs(plane_signed(op.recv, p)), plane_tol(op.recv, p), 'distance')
    nonneg(out.value)
    return 'value'


@oracle('C02', 'Plane.distance_points_signed')
def o_plane_signeds(op, out, ck):
    ps = ex.qm(op.args[0])
    ck.array(ck.returned(out), [plane_signed(op.recv, p) for p in ps], [plane_tol(op.recv, p) for p in ps], 'signed distances')
    return 'value'


@oracle('C02', 'Plane.distance_points')
def o_plane_distances(op, out, ck):
    ps = ex.qm(op.args[0])
    ck.array(ck.returned(out), [abs(plane_signed(op.recv, p)) for p in ps], [plane_tol(op.recv, p) for p in ps], 'distances')
    for x in np.asarray(out.value):
        nonneg(x)
    return 'value'


def side(got, want, what):
    if isinstance(got, bool) or got not in (-1, 0, 1):
        raise Violation(f'{what} is {got!r}, not -1, 0 or 1')
    if got != want:
        raise Violation(f'{what} is {got}, expected {want}')


@oracle('C02', 'Plane.side_point')
def o_plane_side(op, out, ck):
    p = ex.qv(op.args[0])
    want = plane_signed(op.recv, p)
    exact_axis = sum(1 for x in op.recv[2] if x) == 1
    got = ck.returned(out)
    if abs(want) <= plane_tol(op.recv, p) and not (exact_axis or not any(ex.sub(p, ex.qv(op.recv[1])))):
        raise Skip('on the plane up to rounding')
    side(got, (want > 0) - (want < 0), 'side')
    return f'side{got}'


@oracle('C02', 'Line.side_point')
def o_line_side(op, out, ck):
    a, d = parts(op.recv)
    if len(a) != 2:
        return ck.raised(out, why='the line is not 2D')
    p = ex.qv(op.args[0])
    v = ex.sub(p, a)
    cr = d[0] * v[1] - d[1] * v[0]  # positive: the point is to the left of the line
    got = ck.returned(out)
    size = abs(d[0] * v[1]) + abs(d[1] * v[0])
    # A point to the right of the line has side 1.
    want = (cr < 0) - (cr > 0)
    if abs(cr) <= F(K) * size and not ex.simple(a + d + p):
        raise Skip('on the line up to rounding')
    side(got, want, 'side')
    return f'side{got}'


@oracle('C02', 'Circle.distance_point', 'Sphere.distance_point')
def o_round_distance(op, out, ck):
    c, rad = ex.qv(op.recv[1]), ex.q(op.recv[2])
    d = ex.fnorm(ex.sub(ex.qv(op.args[0]), c))
    ck.scalar(ck.returned(out), abs(d - float(rad)), K * (d + float(rad)), 'distance')
    nonneg(out.value)
    return 'inside' if d < rad else 'outside'


@oracle('C02', 'Line.distance_line')
def o_distance_line(op, out, ck):
    a, d = parts(op.recv)
    b, e = parts(op.args[0])
    ab = ex.sub(b, a)
    c2 = ex.sin2_num(d, e)
    s2 = c2 / (ex.n2(d) * ex.n2(e))
    size = ex.amax(a, b, ab)
    if s2 < F(1, 10**20):
        want = line_dist(a, d, b)
        ck.scalar(ck.returned(out), want, line_tol(a, b) + float(ex.fs(s2)) * ex.fnorm(ab), 'distance of parallel lines')
        nonneg(out.value)
        return 'parallel'
    if s2 < F(1, 10**7):
        raise Skip('almost parallel')
    got = ck.returned(out)
    sin = ex.fs(s2)
    # Lines are taken as coplanar up to the rank tolerance of the matrix of their points.
    length = min(ex.fnorm(d), ex.fnorm(e))
    spread = ex.fnorm(ab) + ex.fnorm(d) + ex.fnorm(e)
    tol = 10 * K * (ex.fnorm(ab) + spread * spread / length) / sin
    tol += K * size
    if tol > 1e-3 * (ex.fnorm(ab) + 1e-300):
        if len(a) == 3 and ex.dot(ab, ex.cross(d, e)) != 0:
            raise Skip('ill-conditioned')
    cr = ex.cross(d, e)
    h = abs(ex.dot(ex.pad3(ab), cr))
    want = ex.fs(h * h / ex.n2(cr))
    ck.scalar(got, want, tol, 'distance of lines')
    nonneg(got)
    return 'skew' if h else 'intersecting'


crowds('crowds_distance', 'distance_point')

prop('C02', {'distance_point': 4, 'distance_round': 2, 'side_2d': 2, 'distance_lines': 4, 'crowds_distance': 0.0072}, 40000, 700000,
     'A case is a random object with several points, batches of points or other lines whose distances or sides are queried; every event '
     'is compared with exact rational geometry. Non-trivial: the event got a verdict (not skipped as undecidable); distinct: by operation, operands and representation.',
     required=['Point.distance_point', 'Line.distance_point', 'Line.distance_points', 'Line.distance_line', 'Line.side_point', 'Line.sum_squares',
               'Plane.distance_point', 'Plane.distance_points', 'Plane.distance_point_signed', 'Plane.distance_points_signed',
               'Plane.side_point', 'Plane.sum_squares', 'Circle.distance_point', 'Sphere.distance_point'])
