"""C14 line and plane fits, C15 circle, sphere and cylinder fits."""
import math

import numpy as np

from .. import exact as ex
from ..core import Op, Skip, Violation
from ..exact import F
from ..registry import crowds, gen, oracle, prop
from .c01_02 import K
from .c03_05 import perp_basis
from .c06_08 import decide_rank, exact_rank, graded_points, singular_values


@gen('fit_line')
def g_fit_line(G, r):
    s = G.style()
    n = r.choice((1, 2, 2, 3, 3, 3, 4, 5, 7))
    if r.random() < 0.03:
        pts, kw = graded_points(r, max(n, 2))
        return [Op('Line.best_fit', None, [pts], kw, style=s)]
    pts = flat_points(G, r, n, 1)
    ops = []
    kw = {}
    if r.random() < 0.3:
        kw['return_error'] = True
    if r.random() < 0.25:
        kw['tol'] = G.unit_scale() * 10.0 ** r.uniform(-6, 1)
    if r.random() < 0.1:
        kw['full_matrices'] = False
    ops.append(Op('Line.best_fit', None, [pts], kw, style=s))
    return ops


@gen('fit_plane')
def g_fit_plane(G, r):
    s = G.style()
    n = 3 if r.random() < 0.95 else r.choice((1, 2, 4))
    if r.random() < 0.03:
        pts, kw = graded_points(r, 3)
        return [Op('Plane.best_fit', None, [pts], kw, style=s)]
    pts = flat_points(G, r, n, 2)
    kw = {}
    if r.random() < 0.3:
        kw['return_error'] = True
    if r.random() < 0.25:
        kw['tol'] = G.unit_scale() * 10.0 ** r.uniform(-6, 1)
    if r.random() < 0.1:
        kw['full_matrices'] = False
    return [Op('Plane.best_fit', None, [pts], kw, style=s)]


def flat_points(G, r, n, k):
    """Points on, near or off a flat of dimension k, sometimes of a smaller one or duplicated."""
    m = G.many((1, 2, 2, 3, 3, 4, 5, 8, 15, 40), 600, 0.015)
    u = r.random()
    base = G.point(n)
    dims = k if u < 0.6 else r.randint(0, n)
    if u > 0.85:
        pts = G.points(m, n)
    else:
        dirs = [G.vec(n) for _ in range(dims)]
        pts = []
        for _ in range(m):
            c = [r.choice((r.randint(-4, 4), r.randint(-4, 4) if G.exactly() else r.gauss(0, 2))) for _ in dirs]
            pts.append([b + sum(x * d[i] for x, d in zip(c, dirs)) for i, b in enumerate(base)])
        if r.random() < 0.5:
            e = 10.0 ** r.uniform(-8, 0) * G.unit_scale()
            pts = [[x + e * r.gauss(0, 1) for x in p] for p in pts]
    if r.random() < 0.15:
        pts += [list(r.choice(pts)) for _ in range(r.randint(1, 4))]
    if r.random() < 0.12:
        off = [r.choice((-1, 1)) * 10.0 ** r.randint(1, 5) for _ in range(n)]
        pts = [[x + o for x, o in zip(p, off)] for p in pts]
    return pts


def centred(rows):
    n = len(rows)
    c = [sum(col) / n for col in zip(*rows)]
    return c, [ex.sub(p, c) for p in rows]


def spectrum(x):
    """Singular values of exact rows."""
    return np.linalg.svd(np.array([[float(v) for v in row] for row in x]), compute_uv=False)


def eigen_check(ck, x, d, want, s0, slack, what):
    """d is an eigenvector of the scatter of the rows x, with the wanted eigenvalue."""
    n2 = ex.n2(d)
    if not n2:
        raise Violation(f'the {what} is zero')
    g = [F(0)] * len(d)
    for row in x:
        k = ex.dot(row, d)
        g = [a + k * b for a, b in zip(g, row)]
    lam = ex.dot(g, d) / n2
    res = ex.fs(ex.n2(ex.sub(g, ex.mul(lam, d))) / n2)
    tol = (s0 + slack) ** 2 * 1e-11
    ck.scalar(res, 0, tol, f'deviation of the {what} from a principal direction')
    ck.scalar(math.sqrt(max(float(lam), 0)), want, 1e-11 * (s0 + slack), f'spread of the points along the {what}')


@oracle('C14', 'Line.best_fit', 'Plane.best_fit')
def o_fit_flat(op, out, ck):
    is_line = op.fn == 'Line.best_fit'
    rows = ex.qm(op.args[0])
    if not is_line and len(rows[0]) != 3:
        return ck.raised(out, why='the points are not 3D')
    rank = decide_rank(rows, {'tol': op.kw.get('tol')})
    if rank <= (0 if is_line else 1):
        return ck.raised(out, why='the points are concurrent' if is_line else 'the points are collinear')
    got = ck.returned(out)
    error = None
    if op.kw.get('return_error'):
        ck.true(isinstance(got, tuple) and len(got) == 2, f'returned {got!r}, not an object and its error')
        got, error = got
    c, x = centred(rows)
    size = ex.amax(*rows)
    ck.vector(got.point, c, K * size, 'point of the fit (centroid)')
    s = spectrum(x)
    if len(s) < len(c):
        s = np.append(s, [0.0] * (len(c) - len(s)))
    d = ex.qv(ck.numbers(got.vector, len(c), 'direction or normal'))
    slack = size * math.sqrt(len(rows)) * 1e-3  # Rounding of the centroid.
    if is_line:
        eigen_check(ck, x, d, s[0], s[0], slack, 'direction')
        least = math.sqrt(float(np.sum(s[1:] ** 2)))
    else:
        eigen_check(ck, x, d, s[2], s[0], slack, 'normal')
        least = float(s[2])
    if error is not None:
        e = float(error)
        ck.true(e >= 0, f'the error {e!r} is negative')
        ck.scalar(math.sqrt(e), least, 1e-11 * (s[0] + slack), 'root of the error')
    return f'rank{rank}' if error is None else f'rank{rank}-error'


crowds('crowds_fit', 'fit_line', 'fit_plane')

prop('C14', {'fit_line': 1, 'fit_plane': 1, 'crowds_fit': 0.002}, 24000, 500000,
     'A case is a set of points on, near or off a flat of random dimension (duplicates, offsets, noise, few points) fitted with a line or plane; the '
     'fit must pass through the exact centroid along an exact principal direction of the exact scatter, with the least spread. Non-trivial: the event '
     'got a verdict; distinct: by points, keywords and representation.', required=['Line.best_fit', 'Plane.best_fit'])


# C15


@gen('fit_round')
def g_fit_round(G, r):
    s = G.style()
    n = r.choice((2, 3))
    name = {2: 'Circle', 3: 'Sphere'}[n]
    u = r.random()
    m = G.many((n, n + 1, n + 1, n + 2, n + 3, 8, 15, 40), 600, 0.015)
    meta = {}
    if u < 0.55:  # on a circle or sphere, maybe far away, maybe with noise or on an arc
        c = G.point(n)
        rad = G.radius()
        if r.random() < 0.4:
            # The accuracy is limited by the rounding of the coordinates.
            rad = max(rad, 1e-3 * max(abs(x) for x in c), 1e-3)
        arc = r.choice((1, 1, 1, 0.5, 0.2, 0.03))
        noise = r.choice((0, 0, 1e-8, 1e-3, 0.1))
        pts = []
        for _ in range(m):
            if n == 2:
                t = r.uniform(-math.pi, math.pi) * arc
                w = [math.cos(t), math.sin(t)]
            else:
                w = [r.gauss(0, 1) for _ in range(3)]
                if arc < 1:
                    w[0] = abs(w[0]) + 1 / arc / 2
                k = math.sqrt(sum(y * y for y in w))
                w = [y / k for y in w]
            k = rad * (1 + noise * r.gauss(0, 1))
            pts.append([a + k * b for a, b in zip(c, w)])
        if r.random() < 0.15:  # a few of the points far from the rest
            for p in r.sample(pts, min(len(pts), r.choice((1, 1, 2)))):
                far = 10.0 ** r.uniform(0.3, 2.5)
                p[:] = [a + far * (x - a) for a, x in zip(c, p)]
        elif noise == 0:
            meta = {'circle': [c, rad]}
    elif u < 0.65:  # exactly on a circle or sphere with integer points
        w = []
        c = [r.randint(-9, 9) for _ in range(n)]
        k = r.choice((5, 13, 25, 65) if n == 2 else (3, 7, 9, 11))
        pts = [[a + b for a, b in zip(c, v)] for v in lattice(n, k)]
        pts = r.sample(pts, min(len(pts), m))
        meta = {'circle': [c, k]}
    elif u < 0.8:  # degenerate: a line or plane
        G.restrict = ['int1', 'int', 'int3', 'dy']
        G.new_mode()
        k = r.randint(0, n - 1)
        base, dirs = G.point(n), [G.vec(n) for _ in range(k)]
        pts = []
        for _ in range(m):
            cs = [r.randint(-4, 4) for _ in dirs]
            pts.append([b + sum(x * d[i] for x, d in zip(cs, dirs)) for i, b in enumerate(base)])
    elif u < 0.9:
        pts = G.points(m, n)
    else:
        pts = G.points(r.randint(1, 5), r.choice((1, 2, 3, 4)))
    return [Op(name + '.best_fit', None, [pts], style=s, meta=meta)]


def lattice(n, k):
    out = []
    rng = range(-k, k + 1)
    for x in rng:
        for y in rng:
            if n == 2:
                if x * x + y * y == k * k:
                    out.append([x, y])
            else:
                z2 = k * k - x * x - y * y
                if z2 >= 0 and math.isqrt(z2) ** 2 == z2:
                    out += [[x, y, z] for z in {math.isqrt(z2), -math.isqrt(z2)}]
    return out


@oracle('C15', 'Circle.best_fit', 'Sphere.best_fit')
def o_fit_round(op, out, ck):
    n = 2 if op.fn == 'Circle.best_fit' else 3
    pts = op.args[0]
    if len(pts[0]) != n:
        return ck.raised(out, why=f'the points are not {n}D')
    if len(pts) < n + 1:
        return ck.raised(out, why='there are too few points')
    rows = ex.qm(pts)
    if decide_rank(rows, {}) < n:
        return ck.raised(out, why='the points are collinear or coplanar')
    c0, x = centred(rows)
    s = spectrum(x)
    # Conditioning of the linear least squares problem, and of the points themselves.
    scale = s[0] / math.sqrt(len(rows))
    a = np.array([[2 * float(v) / scale for v in row] + [1.0] for row in x])
    sv = np.linalg.svd(a, compute_uv=False)
    cond = sv[0] / sv[-1]
    if cond > 1e4:
        raise Skip('ill-conditioned')
    # Normal equations in exact arithmetic.
    design = [[2 * v for v in row] + [F(1)] for row in x]
    b = [ex.n2(row) for row in x]
    A = [[sum(row[i] * row[j] for row in design) for j in range(n + 1)] for i in range(n + 1)]
    rhs = [sum(row[i] * y for row, y in zip(design, b)) for i in range(n + 1)]
    sol = ex.solve(A, rhs)
    if sol is None:
        raise Skip('singular')
    center = ex.add(c0, sol[:n])
    rad = ex.fs(sol[n] + ex.n2(sol[:n]))
    got = ck.returned(out)
    size = ex.amax(*rows)
    reach = scale * cond + rad
    # The equations are solved without scaling the coordinates to the column of ones.
    unscaled = cond * max(scale, 1 / scale)
    tol = K * 4 * (cond * cond + unscaled) * (reach + 2 * size)
    ck.vector(got.point, center, tol, 'centre')
    ck.scalar(got.radius, rad, tol, 'radius')
    if 'circle' in op.meta:
        c, k = op.meta['circle']
        # The points are on the circle up to the rounding of their coordinates.
        tol += K * 10 * (cond * cond + unscaled) * (max(map(abs, c)) + k)
        ck.vector(got.point, c, tol, 'centre of the circle or sphere of the points')
        ck.scalar(got.radius, k, tol, 'radius of the circle or sphere of the points')
        return 'recovered'
    return 'optimal'


@gen('fit_cylinder')
def g_fit_cylinder(G, r):
    s = G.style(0.3)
    u = r.random()
    if u < 0.12:  # too few, flat, or of the wrong dimension
        v = r.random()
        if v < 0.3:
            pts = G.points(r.randint(1, 5), 3)
        elif v < 0.6:
            G.restrict = ['int1', 'int', 'int3']
            G.new_mode()
            base, d, e = G.point(3), G.vec(3), G.vec(3)
            pts = []
            for _ in range(r.randint(6, 10)):
                i, j = r.randint(-4, 4), r.randint(-4, 4)
                pts.append([b + i * x + j * y for b, x, y in zip(base, d, e)])
        else:
            pts = G.points(r.randint(6, 10), r.choice((1, 2, 4)))
        return [Op('Cylinder.best_fit', None, [pts], style=s)]
    rad = r.choice((1, 2, 0.5, r.uniform(0.2, 5), 10.0 ** r.uniform(-3, 3)))
    length = rad * r.uniform(4, 15)
    k = r.random()
    if k < 0.35:
        v = [0, 0, 0]
        v[r.randrange(3)] = r.choice((-1, 1))
    else:
        v = [r.gauss(0, 1) for _ in range(3)]
    norm = math.sqrt(sum(x * x for x in v))
    v = [x / norm * length for x in v]
    c = [r.choice((0, r.randint(-9, 9), r.uniform(-10, 10), r.uniform(-100, 100))) for _ in range(3)]
    w1 = perp_basis(r, v)
    w2 = [float(x) / length for x in ex.cross(ex.qv(v), ex.qv(w1))]
    pts = []
    rings = r.choice((2, 3, 4, 6))
    around = r.choice((5, 6, 8, 12))
    ragged = r.random() < 0.5
    ts = []
    for i in range(rings):
        t = i / (rings - 1)
        p0 = r.uniform(0, 2 * math.pi)
        for j in range(around):
            a = p0 + 2 * math.pi * (j + r.uniform(-0.15, 0.15)) / around
            t2 = t + r.uniform(-0.3, 0.3) / (rings - 1)
            if i in (0, rings - 1):  # an even end, or one with points at different positions
                t2 = abs(t - r.uniform(0, 0.1)) if ragged else t
            ts.append(t2)
            pts.append([x + t2 * y + rad * (math.cos(a) * p + math.sin(a) * q) for x, y, p, q in zip(c, v, w1, w2)])
    r.shuffle(pts)
    if r.random() < 0.5:
        # Points near a cylinder.
        noise = rad * r.choice((1e-6, 1e-3, 0.01, 0.05))
        pts = [[x + r.gauss(0, noise) for x in row] for row in pts]
        return [Op('Cylinder.best_fit', None, [pts], style=s, meta={'near': [c, v, rad]})]
    c = [x + min(ts) * y for x, y in zip(c, v)]
    v = [(max(ts) - min(ts)) * y for y in v]
    return [Op('Cylinder.best_fit', None, [pts], style=s, meta={'cylinder': [c, v, rad]})]


def circle_across(x, w):
    """The algebraic least squares circle of points (an array) seen along w: the centre in space, the squared radius and the objective."""
    w = w / np.linalg.norm(w)
    e = np.eye(3)[np.argmin(abs(w))]
    e = e - e.dot(w) * w
    e /= np.linalg.norm(e)
    f = np.cross(w, e)
    y = np.stack([x @ e, x @ f], axis=1)
    a = np.hstack([2 * y, np.ones((len(y), 1))])
    b = (y * y).sum(axis=1)
    sol = np.linalg.lstsq(a, b, rcond=None)[0]
    return sol[0] * e + sol[1] * f, sol[2] + sol[0] ** 2 + sol[1] ** 2, float(((a @ sol - b) ** 2).sum())


def near_cylinder(op, got, ck):
    """Points near a cylinder: the axis is a minimum of the objective of the documented method, and the rest follows from the axis."""
    pts = np.array(op.args[0], dtype=float)
    c, v, rad = op.meta['near']
    mid = pts.mean(axis=0)
    x = (pts - mid) / rad
    p, w = np.array(ck.numbers(got.point, 3, 'point')), np.array(ck.numbers(got.vector, 3, 'axis'))
    ck.true(np.linalg.norm(w) > 0, 'the axis is zero')
    w1 = w / np.linalg.norm(w)
    center, r2, objective = circle_across(x, w1)
    far = max(map(abs, mid)) / rad
    tol = 1e-9 * (1 + far)
    ck.scalar(got.radius / rad, math.sqrt(r2), tol, 'radius, of the points seen along the fitted axis,')
    off = (p - mid) / rad - center
    off = off - off.dot(w1) * w1
    ck.scalar(float(np.linalg.norm(off)), 0, tol, 'distance of the axis from the centre of the points seen along the axis,')
    ts = (pts - p) @ w1
    size = np.linalg.norm(w)
    ck.scalar(ts.min() / rad, 0, tol, 'least position of the points along the axis')
    ck.scalar((ts.max() - size) / rad, 0, tol, 'greatest position of the points beyond the end')
    e = np.eye(3)[np.argmin(abs(w1))]
    e = np.cross(w1, e)
    e /= np.linalg.norm(e)
    f = np.cross(w1, e)
    floor = 1e-12 * len(pts)
    for delta in (1e-3, 1e-2):
        for k in range(8):
            t = math.pi * k / 4
            other = circle_across(x, w1 + delta * (math.cos(t) * e + math.sin(t) * f))[2]
            ck.true(objective <= other * (1 + 1e-6) + floor, f'the objective is {objective} for the fitted axis and {other} for an axis {delta} beside it')
    best = circle_across(x, np.array(v))[2]
    ck.true(objective <= best * (1 + 1e-6) + floor, f'the objective is {objective} for the fitted axis and {best} for the axis of the cylinder near which the points are')
    return 'least squares'


@oracle('C15', 'Cylinder.best_fit')
def o_fit_cylinder(op, out, ck):
    pts = op.args[0]
    if len(pts[0]) != 3:
        return ck.raised(out, why='the points are not 3D')
    if len(pts) < 6:
        return ck.raised(out, why='there are fewer than six points')
    rows = ex.qm(pts)
    if decide_rank(rows, {}) < 3:
        return ck.raised(out, why='the points are coplanar')
    if 'near' in op.meta:
        return near_cylinder(op, ck.returned(out), ck)
    if 'cylinder' not in op.meta:
        raise Skip('random points')
    c, v, rad = op.meta['cylinder']
    got = ck.returned(out)
    length = math.sqrt(sum(x * x for x in v))
    p = ck.numbers(got.point, 3, 'point')
    w = ck.numbers(got.vector, 3, 'axis')
    tol = FIT_TOL * (rad + length)
    ck.scalar(got.radius, rad, FIT_TOL * rad, 'radius')
    top = [x + y for x, y in zip(c, v)]
    gtop = [x + y for x, y in zip(p, w)]

    def d(x, y):
        return math.dist(x, y)

    e = min(max(d(p, c), d(gtop, top)), max(d(p, top), d(gtop, c)))
    ck.note(e, tol)
    ck.true(e <= tol, f'the ends of the axis are {p} and {gtop}, of the cylinder of the points {c} and {top} (difference {e:.3g}, allowed {tol:.3g})')
    # The ends span the points along the fitted axis: no point is beyond an end, and a point is at each.
    wq, pq = ex.qv(w), ex.qv(p)
    n2 = ex.n2(wq)
    ts = [float(ex.dot(ex.sub(x, pq), wq) / n2) for x in rows]
    ck.scalar(min(ts), 0, 1e-9 * (1 + max(map(abs, c)) / length), 'least position of the points along the axis')
    ck.scalar(max(ts), 1, 1e-9 * (1 + max(map(abs, c)) / length), 'greatest position of the points along the axis')
    return 'recovered'


FIT_TOL = 1e-6

# Points of a squat cylinder (length 3, radius 2, to three decimals) whose fit ends in a local minimum (see known_findings.txt).
SQUAT = [[-0.147, -1.707, -1.031], [0.413, 1.431, -1.334], [0.019, 1.314, 1.508], [-0.404, -1.209, 1.541],
         [3.222, 1.471, 0.675], [2.592, -1.056, 2.273], [2.653, -2.441, 0.066], [3.288, 0.169, -1.469]]


def known_squat():
    """The listed findings that still fail: (key, description)."""
    from ..core import api

    got = api('Cylinder').best_fit(SQUAT)
    if abs(got.radius - 2) > 0.01 or abs(got.length() - 3) > 0.01:
        return [('squat-cylinder', f'Cylinder.best_fit of eight points of a squat cylinder (length 3, radius 2) stops at a local minimum: '
                                   f'radius {got.radius:.3f}, length {got.length():.3f}')]
    return []


crowds('crowds_round', 'fit_round')

prop('C15', {'fit_round': 6, 'fit_cylinder': 1, 'crowds_round': 0.014}, 12000, 250000,
     'A case is a set of points on, near or off a circle, sphere or cylinder, or degenerate, that is fitted; circles and spheres are compared with '
     'the exact least squares solution (and the true one where it exists), cylinders with the one the points were taken from. Non-trivial: the event '
     'got a verdict; distinct: by points and representation.',
     required=['Circle.best_fit', 'Sphere.best_fit', 'Cylinder.best_fit'], known=known_squat)
