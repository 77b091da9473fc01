"""C18 meshes, C20 transformations, C21 points and arrays, C22 objects built from points, vectors and coefficients."""
import math

import numpy as np

from .. import exact as ex
from ..core import Op, Skip, Violation
from ..exact import F
from ..gen import near_overflow
from ..registry import crowds, gen, oracle, prop
from .c01_02 import K, line, near, plane
from .c03_05 import cylinder, decide_parallel, nearly, par_threshold, PAR_KW
from .c06_08 import decide_rank, unique_rows
from .c09 import rad1


# C18


def limits(G, r):
    u = r.random()
    if u < 0.2:
        return [-1, 1]
    a, b = r.choice((r.randint(-9, 9), r.uniform(-5, 5))), r.choice((r.randint(-9, 9), r.uniform(-5, 5)))
    return sorted([a, b]) if u < 0.9 else [b, a]


@gen('mesh')
def g_mesh(G, r):
    s = G.style()
    ops = []
    n = r.choice((3, 3, 3, 3, 2, 1))
    pl = plane(G, n)
    if n == 3 and r.random() < 0.5:
        # Vertical planes and planes along an axis.
        v = pl[2]
        k = r.choice(([0, 1, 1], [1, 0, 1], [1, 1, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]))
        v = [x if y else 0 for x, y in zip(v, k)]
        pl = ('Plane', pl[1], v if any(v) else k)
    kw = {}
    if r.random() < 0.8:
        kw['lims_x'] = limits(G, r)
    if r.random() < 0.8:
        kw['lims_y'] = limits(G, r)
    ops.append(Op('Plane.to_mesh', pl, kw=kw, style=s))
    if r.random() < 0.4:
        ops.append(Op('Plane.to_points', pl, kw=kw, style=s))
    if r.random() < 0.04:
        ops.append(Op('Plane.to_mesh', plane(G, r.choice((4, 5))), style=s))
    sp = ('Sphere', G.point(3), G.radius())
    kw = {'n_angles': r.choice((2, 3, 4, 5, 8, 13)) if r.random() < 0.95 else r.randint(14, 130)} if r.random() < 0.9 else {}
    ops.append(Op('Sphere.' + r.choice(('to_mesh', 'to_mesh', 'to_points')), sp, kw=kw, style=s))
    cyl = cylinder(G, r)
    kw = {}
    if r.random() < 0.95:
        kw['n_along_axis'] = r.choice((2, 3, 4, 7)) if r.random() < 0.96 else r.randint(8, 130)
    if r.random() < 0.95:
        kw['n_angles'] = r.choice((2, 3, 4, 5, 9)) if r.random() < 0.94 else r.randint(10, 130)
    ops.append(Op('Cylinder.' + r.choice(('to_mesh', 'to_mesh', 'to_points')), cyl, kw=kw, style=s))
    return ops


def grid(ck, got, rows, cols):
    ck.true(isinstance(got, tuple) and len(got) == 3, f'the mesh is {type(got).__name__}, not three matrices')
    for m, name in zip(got, 'XYZ'):
        a = np.asarray(m)
        ck.true(a.shape == (rows, cols), f'{name} has shape {a.shape}, expected {(rows, cols)}')
        ck.true(bool(np.isfinite(a).all()), f'{name} is not finite')
    return np.stack([np.asarray(m, dtype=float) for m in got], axis=-1)


def from_points(ck, got, rows, cols):
    a = np.asarray(got)
    ck.true(type(got).__name__ == 'Points' and a.shape == (rows * cols, 3),
            f'the points of the object are {type(got).__name__} of shape {a.shape}, expected Points of shape {(rows * cols, 3)}')
    return a.astype(float).reshape(rows, cols, 3)


def plane_axes(n):
    """Coordinates along which a mesh of a plane is laid out, and the one that is computed."""
    if n[2] != 0:
        return 0, 1, 2
    if n[1] != 0:
        return 0, 2, 1
    return 1, 2, 0


@oracle('C18', 'Plane.to_mesh', 'Plane.to_points')
def o_plane_mesh(op, out, ck):
    a, n = ex.qv(op.recv[1]), ex.qv(op.recv[2])
    if len(a) > 3:
        return ck.raised(out, why='the dimension is greater than 3')
    a, n = ex.pad3(a), ex.pad3(n)
    lx, ly = op.kw.get('lims_x', [-1, 1]), op.kw.get('lims_y', [-1, 1])
    got = ck.returned(out)
    m = grid(ck, got, 2, 2) if op.fn == 'Plane.to_mesh' else from_points(ck, got, 2, 2)
    i, j, k = plane_axes(n)
    if abs(float(n[k])) < 1e-9 * ex.fnorm(n):
        raise Skip('almost vertical plane')
    size = ex.amax(a, lx, ly)
    for p in range(2):
        for q in range(2):
            x, y = a[i] + ex.q(lx[q]), a[j] + ex.q(ly[p])
            ck.scalar(m[p, q, i], x, K * size, f'limit of coordinate {i}')
            ck.scalar(m[p, q, j], y, K * size, f'limit of coordinate {j}')
            g = ex.qv(m[p, q].tolist())
            h = float(ex.dot(ex.sub(g, a), n)) / ex.fnorm(n)
            ck.scalar(h, 0, K * (ex.amax(a, g)) * 2, 'distance of a mesh point from the plane')
    return f'axes{i}{j}'


@oracle('C18', 'Sphere.to_mesh', 'Sphere.to_points')
def o_sphere_mesh(op, out, ck):
    c, rad = [float(x) for x in op.recv[1]], float(op.recv[2])
    n = op.kw.get('n_angles', 30)
    got = ck.returned(out)
    m = grid(ck, got, n, n) if op.fn == 'Sphere.to_mesh' else from_points(ck, got, n, n)
    a = np.linspace(0, math.pi, n)
    b = np.linspace(0, 2 * math.pi, n)
    want = np.stack([c[0] + rad * np.outer(np.sin(a), np.sin(b)), c[1] + rad * np.outer(np.sin(a), np.cos(b)),
                     c[2] + rad * np.outer(np.cos(a), np.ones(n))], axis=-1)
    tol = K * (max(map(abs, c)) + rad)
    err = float(np.abs(m - want).max())
    ck.note(err, tol)
    if not err <= tol:
        at = np.unravel_index(np.abs(m - want).argmax(), m.shape)
        d = float(np.linalg.norm(m[at[0], at[1]] - c))
        raise Violation(f'mesh point {at[:2]} is {m[at[0], at[1]].tolist()} (distance {d!r} from the centre, radius {rad!r}), expected {want[at[0], at[1]].tolist()}')
    return 'value'


@oracle('C18', 'Cylinder.to_mesh', 'Cylinder.to_points')
def o_cylinder_mesh(op, out, ck):
    c, v, rad = [float(x) for x in op.recv[1]], [float(x) for x in op.recv[2]], float(op.recv[3])
    na, nt = op.kw.get('n_along_axis', 100), op.kw.get('n_angles', 30)
    got = ck.returned(out)
    m = grid(ck, got, nt, na) if op.fn == 'Cylinder.to_mesh' else from_points(ck, got, nt, na)
    c, v = np.array(c), np.array(v)
    ln = math.sqrt(float(v @ v))
    u = v / ln
    rel = m - c
    t = rel @ u
    tol = K * 4 * (float(np.abs(c).max()) + rad + ln)

    def close(x, y, t, what):
        err = float(np.abs(x - y).max())
        ck.note(err, t)
        ck.true(err <= t, f'{what}: {np.asarray(x).ravel()[:4].tolist()}.. differ from {np.asarray(y).ravel()[:4].tolist()}.. by {err:.3g} (allowed {t:.3g})')

    close(t, np.broadcast_to(np.linspace(0, ln, na), t.shape), tol, 'positions along the axis')
    w = rel - t[..., None] * u
    close(np.linalg.norm(w, axis=-1), np.full(t.shape, rad), tol, 'distances from the axis')
    # All the way round: the angle grows evenly from the first row to the last, in one sense.
    if nt > 1:
        first = w[0, 0]
        theta = np.linspace(0, 2 * math.pi, nt)
        cos = (w @ first) / rad**2
        sin = (np.cross(np.broadcast_to(first, w.shape), w) @ u) / rad**2
        ta = 10 * tol / rad
        close(cos, np.broadcast_to(np.cos(theta)[:, None], cos.shape), ta, 'cosines of the angles around the axis')
        sense = 1 if nt < 3 or sin[1, 0] * math.sin(theta[1]) >= 0 else -1
        close(sense * sin, np.broadcast_to(np.sin(theta)[:, None], sin.shape), ta, 'sines of the angles around the axis')
    return 'value'


prop('C18', {'mesh': 1}, 24000, 400000,
     'A case makes the mesh or points of a random plane (also vertical and along axes, in 1D to 3D), sphere and cylinder with random limits and counts; '
     'shape, position on the surface and coverage of every mesh point are compared with the exact surface. Non-trivial: the event got a verdict; '
     'distinct: by object, arguments and representation.',
     required=['Plane.to_mesh', 'Plane.to_points', 'Sphere.to_mesh', 'Sphere.to_points', 'Cylinder.to_mesh', 'Cylinder.to_points'])


# C20


def orthonormal(r, n):
    """An orthonormal basis: signed permutation or a product of rotations (rounded)."""
    idx = r.sample(range(n), n)
    rows = [[r.choice((-1, 1)) if j == i else 0 for j in range(n)] for i in idx]
    if r.random() < 0.6 and n > 1:
        for _ in range(r.randint(1, 3)):
            i, j = r.sample(range(n), 2)
            t = r.uniform(0, 6.28)
            c, s = math.cos(t), math.sin(t)
            rows[i], rows[j] = [c * x + s * y for x, y in zip(rows[i], rows[j])], [-s * x + c * y for x, y in zip(rows[i], rows[j])]
    return rows


@gen('transform')
def g_transform(G, r):
    s = G.style()
    n = G.dim()
    pts = G.points(G.count(), n)
    if r.random() < 0.05:
        pts = G.arranged(G.points(r.randint(4, 120), n))
    origin = G.point(n)
    if r.random() < 0.04:
        m = r.randint(1, n + 1)
        rows = near_overflow(r, n, r.randint(1, 5) + m)
        return [Op('transformation.transform_coordinates', None, [rows[m:], r.choice(([0] * n, [r.randint(-9, 9) for _ in range(n)])), rows[:m]], style=s)]
    ops = []
    if r.random() < 0.5:
        ops.append(Op('transformation.transform_coordinates', None, [pts, origin, orthonormal(r, n)], style=s, meta={'orthonormal': True}))
    m = r.choice((1, n, n, r.randint(1, 6)))
    ops.append(Op('transformation.transform_coordinates', None, [pts, origin, [G.vec(n) for _ in range(m)]], style=s))
    ops.append(Op('Line.transform_points', ('Line', origin, G.vec(n)), [pts], style=s))
    return ops


@oracle('C20', 'transformation.transform_coordinates')
def o_transform(op, out, ck):
    pts, o, basis = ex.qm(op.args[0]), ex.qv(op.args[1]), ex.qm(op.args[2])
    got = np.asarray(ck.returned(out))
    ck.true(got.shape == (len(pts), len(basis)), f'the coordinates have shape {got.shape}, expected {(len(pts), len(basis))}')
    for i, p in enumerate(pts):
        v = ex.sub(p, o)
        for j, b in enumerate(basis):
            size = float(sum(abs(x * y) for x, y in zip(v, b)))
            ck.scalar(got[i, j], ex.dot(v, b), K * size, f'coordinate {j} of point {i}')
    if op.meta.get('orthonormal'):
        for i, p in enumerate(pts):
            back = list(o)
            for j, b in enumerate(basis):
                back = ex.add(back, ex.mul(F(float(got[i, j])), b))
            size = ex.amax(o, p, ex.sub(p, o)) * len(o)
            ck.vector([float(x) for x in back], p, 20 * K * size, f'point {i} recovered from its coordinates')
        return 'orthonormal'
    return 'value'


@oracle('C20', 'Line.transform_points')
def o_line_transform(op, out, ck):
    a, d = ex.qv(op.recv[1]), ex.qv(op.recv[2])
    pts = ex.qm(op.args[0])
    n = F(ex.fnorm(d))
    got = np.asarray(ck.returned(out))
    ck.true(got.shape == (len(pts),), f'the coordinates have shape {got.shape}, expected {(len(pts),)}')
    for i, p in enumerate(pts):
        v = ex.sub(p, a)
        ck.scalar(got[i], ex.dot(v, d) / n, K * ex.fnorm(v), f'coordinate of point {i}')
    return 'value'


crowds('crowds_transform', 'transform')

prop('C20', {'transform': 1, 'crowds_transform': 0.001}, 24000, 500000,
     'A case transforms up to 100 random points with an orthonormal or arbitrary basis (fewer, as many or more vectors than dimensions) or along a line; '
     'every coordinate is compared with the exact dot product, and points are recovered from orthonormal coordinates. Non-trivial: the event got a '
     'verdict; distinct: by operands and representation.', required=['transformation.transform_coordinates', 'Line.transform_points'])


# C21


@gen('points_ops')
def g_points_ops(G, r):
    s = G.style()
    n = G.dim()
    pts = G.points(G.count(), n)
    if r.random() < 0.3:
        pts += [list(r.choice(pts)) for _ in range(r.randint(1, 5))]
        r.shuffle(pts)
    if r.random() < 0.1:  # almost equal points
        for _ in range(r.randint(1, 4)):
            p = [float(x) for x in r.choice(pts)]
            k = r.randrange(n)
            p[k] = math.nextafter(p[k], r.choice((-math.inf, math.inf))) if p[k] and r.random() < 0.5 else p[k] + 10.0 ** r.uniform(-16, -5) * (abs(p[k]) or 1)
            pts.insert(r.randrange(len(pts) + 1), p)
    if r.random() < 0.04:
        pts = [[0] * n for _ in pts]
    if r.random() < 0.05:  # integers whose products do not fit
        top = 2 ** r.choice((r.randint(28, 50), 62))
        s = s if top < 2**53 else 0
        pts = [[r.randint(-top, top) for _ in range(n)] for _ in pts]
    P = ('Points', pts)
    ops = [Op('Points.centroid', P, style=s), Op('Points.unique', P, style=s), Op('Points.normalize_distance', P, style=s),
           Op('Points.mean_center', P, kw={'return_centroid': r.random() < 0.7} if r.random() < 0.6 else {}, style=s)]
    arrays = [P, ('Point', G.point(n)), ('Vector', G.point(n))]
    for a in arrays:
        ops.append(Op(a[0] + '.set_dimension', a, [r.choice((n, n + 1, n + 2, n + 5, 3, 1, max(1, n - 1)))], style=s))
        kw = {'decimals': r.choice((-2, -1, 0, 1, 2, 3, 6))} if r.random() < 0.8 else {}
        if r.random() < 0.1:  # ties
            e = 10 ** -kw['decimals'] if kw.get('decimals', 0) < 0 else 1
            t = [e * (r.randint(-9, 9) + 0.5) if kw.get('decimals', 0) < 1 else r.randint(-99, 99) / 2 ** (kw['decimals'] + 1) for _ in range(n)]
            a = (a[0], [t, t] if a[0] == 'Points' else t)
        ops.append(Op(a[0] + '.round', a, list(kw.values()), style=s))
        if kw and r.random() < 0.5:
            ops.append(Op(a[0] + '.round', a, kw=kw, style=s))
        ops.append(Op(a[0] + '.to_array', a, style=s))
    return ops


@oracle('C21', 'Points.centroid')
def o_points_centroid(op, out, ck):
    rows = ex.qm(op.recv[1])
    ck.vector(ck.returned(out), [sum(c) / len(rows) for c in zip(*rows)], K * ex.amax(*rows), 'centroid')
    return 'value'


@oracle('C21', 'Points.mean_center')
def o_mean_center(op, out, ck):
    rows = ex.qm(op.recv[1])
    c = [sum(col) / len(rows) for col in zip(*rows)]
    size = ex.amax(*rows)
    got = ck.returned(out)
    if op.kw.get('return_centroid'):
        ck.true(isinstance(got, tuple) and len(got) == 2, f'returned {got!r}, not the points and their centroid')
        got, g = got
        ck.vector(g, c, K * size, 'centroid')
    ck.matrix(got, [ex.sub(p, c) for p in rows], K * size, 'centred points')
    return 'value'


@oracle('C21', 'Points.normalize_distance')
def o_normalize(op, out, ck):
    rows = ex.qm(op.recv[1])
    top = max(ex.n2(p) for p in rows)
    if not top:
        return ck.raised(out, why='all points are at the origin')
    m = F(ex.fs(top))
    ck.matrix(ck.returned(out), [ex.mul(1 / m, p) for p in rows], [K * ex.amax(p) / float(m) for p in rows], 'normalised points')
    return 'value'


@oracle('C21', 'Points.unique')
def o_unique(op, out, ck):
    want = unique_rows(ex.qm(op.recv[1]))
    ck.matrix(ck.returned(out), want, 0, 'unique points')
    return 'value' if len(want) == len(op.recv[1]) else 'duplicates'


@oracle('C21', 'Points.set_dimension', 'Point.set_dimension', 'Vector.set_dimension')
def o_set_dimension(op, out, ck):
    name = op.recv[0]
    a = op.recv[1]
    n = len(a[0]) if name == 'Points' else len(a)
    dim = op.args[0]
    if dim < n:
        return ck.raised(out, why='the dimension is smaller')
    got = ck.returned(out)
    ck.true(type(got).__name__ == name and got.dimension == dim, f'returned a {type(got).__name__} of dimension {getattr(got, "dimension", None)!r}, expected {name} of dimension {dim}')

    def pad(x):
        return list(x) + [0] * (dim - n)

    if name == 'Points':
        ck.matrix(got, [pad(x) for x in a], 0, 'padded points')
    else:
        ck.vector(got, pad(a), 0, 'padded array')
    return 'same' if dim == n else 'value'


@oracle('C21', 'Points.round', 'Point.round', 'Vector.round')
def o_round_array(op, out, ck):
    name = op.recv[0]
    d = op.args[0] if op.args else op.kw.get('decimals', 0)
    got = ck.returned(out)
    ck.true(type(got).__name__ == name, f'returned a {type(got).__name__}, expected {name}')
    x = ex.qm(op.recv[1]) if name == 'Points' else [ex.qv(op.recv[1])]
    a = np.asarray(got)
    a = a if name == 'Points' else a.reshape(1, -1)
    ck.true(a.shape == (len(x), len(x[0])), f'the rounded array has shape {a.shape}')
    step = F(10) ** -d
    for i, row in enumerate(x):
        for j, v in enumerate(row):
            g = F(a[i, j].item())
            slack = F(1e-15) * (abs(v) + abs(g)) * 4 + F(1e-300)
            multiple = round(g / step) * step
            ck.true(abs(g - multiple) <= slack, f'{float(v)!r} is rounded to {float(g)!r}, not a multiple of {float(step)}')
            ck.true(abs(g - v) <= step / 2 + slack, f'{float(v)!r} is rounded to {float(g)!r} with {d} decimals')
            if abs(v / step) < 2**50 and (v / step - F(1, 2)).denominator == 1:  # a tie, exact also after scaling: half to even, as NumPy documents
                ck.true(round(g / step) % 2 == 0, f'the tie {float(v)!r} is rounded to {float(g)!r} with {d} decimals, not to even')
    return f'decimals{d}'


@oracle('C21', 'Points.to_array', 'Point.to_array', 'Vector.to_array')
def o_to_array(op, out, ck):
    got = ck.returned(out)
    ck.true(type(got) is np.ndarray, f'returned a {type(got).__name__}, not a plain array')
    ck.true(got.tolist() == op.recv[1], f'the array is {got.tolist()}')
    ck.true(not np.shares_memory(got, out.recv) and got.flags.writeable, 'the array is not an independent writable copy')
    return 'value'


crowds('crowds_points', 'points_ops')

prop('C21', {'points_ops': 1, 'crowds_points': 0.001}, 24000, 500000,
     'A case applies centroid, centring, normalisation, unique, padding, rounding and conversion to random arrays with duplicates and zero points; '
     'every coordinate is compared with exact arithmetic. Non-trivial: the event got a verdict; distinct: by values, arguments and representation.',
     required=['Points.centroid', 'Points.mean_center', 'Points.normalize_distance', 'Points.unique', 'Points.set_dimension', 'Point.set_dimension',
               'Vector.set_dimension', 'Points.round', 'Point.round', 'Vector.round', 'Points.to_array', 'Point.to_array', 'Vector.to_array'])


# C22


@gen('derived')
def g_derived(G, r):
    s = G.style()
    n = G.dim()
    ops = []
    a = G.point(n)
    b = near(G, a, n)
    ops.append(Op('Line.from_points', None, [a, b], style=s))
    if r.random() < 0.05 and n > 1:
        ops.append(Op('Line.from_points', None, [a, G.point(n + 1)], style=s))
    ops.append(Op('Line.from_slope', None, [G.num(), G.num() if r.random() < 0.6 else r.choice((r.randint(-9, 9), r.gauss(0, 3), 0.5))], style=s))
    ln = line(G, n)
    ops.append(Op('Line.to_point', ln, [] if r.random() < 0.1 else [r.choice((0, 1, -1, 2, 0.5, r.gauss(0, 5)))], {}, style=s))
    if r.random() < 0.2:
        ops.append(Op('Line.to_point', ln, kw={'t': r.choice((0, 3, -2.5))}, style=s))
    ops.append(Op('Plane.cartesian', plane(G, r.choice((1, 2, 3, 3, 3, 3)) if r.random() < 0.95 else 4), style=s))
    m = 3 if r.random() < 0.9 else r.choice((1, 2, 4))
    p = G.point(m)
    q = near(G, p, m)
    ops.append(Op('Cylinder.from_points', None, [p, q, rad1(G, r, 0.1)], style=s))
    return ops


@gen('derived_three')
def g_derived_three(G, r):
    s = G.style()
    n = r.choice((1, 2, 3, 3, 3, 3, 3, 4))
    ops = []
    va, vb = G.vec(n), G.vec(n)
    u = r.random()
    if u < 0.1:
        k = r.choice((-2, -1, 1, 0.5))
        vb = [k * x for x in va]
    elif u < 0.25:
        vb = nearly(r, va, n)
    elif u < 0.3:
        vb = [0] * n
    if r.random() < 0.5:
        va, vb = vb, va
    ops.append(Op('Plane.from_vectors', None, [G.point(r.choice((n, n, n, 3, 2))), va, vb], dict(r.choice(PAR_KW)), style=s))
    kw = {'tol': G.unit_scale() * 10.0 ** r.uniform(-4, 1)} if r.random() < 0.2 else {}
    pts = three(G, r, n)
    ops.append(Op('Plane.from_points', None, pts, kw, style=s))
    m = 2 if r.random() < 0.95 else r.choice((1, 3))
    pts = three(G, r, m)
    if m == 2 and r.random() < 0.15:
        off = [r.choice((-1, 1)) * 10.0 ** r.randint(1, 5) for _ in range(2)]
        pts = [[x + o for x, o in zip(p, off)] for p in pts]
    kw = {'tol': G.unit_scale() * 10.0 ** r.uniform(-4, 1)} if r.random() < 0.2 else {}
    ops.append(Op('Circle.from_points', None, pts, kw, style=s))
    return ops


def three(G, r, n):
    u = r.random()
    if u < 0.2 and G.exactly():  # collinear
        p, d = G.point(n), G.vec(n)
        return [[x + k * y for x, y in zip(p, d)] for k in (r.randint(-4, 4), r.randint(-4, 4), r.randint(-4, 4))]
    pts = G.points(3, n)
    if u < 0.3:
        pts[1] = list(pts[0])
        r.shuffle(pts)
    return pts


@oracle('C22', 'Line.from_points')
def o_line_from_points(op, out, ck):
    a, b = ex.qv(op.args[0]), ex.qv(op.args[1])
    if len(a) != len(b):
        return ck.raised(out, why='the dimensions differ')
    if a == b:
        return ck.raised(out, why='the points are equal')
    ln = ck.returned(out)
    ck.vector(ln.point, a, 0, 'point of the line')
    d = ex.sub(b, a)
    ck.vector(ln.direction, d, 1e-15 * ex.amax(d), 'direction of the line')
    return 'value'


@oracle('C22', 'Line.from_slope')
def o_from_slope(op, out, ck):
    m, c = map(ex.q, op.args)
    ln = ck.returned(out)
    p = ex.qv(ck.numbers(ln.point, 2, 'point'))
    d = ex.qv(ck.numbers(ln.direction, 2, 'direction'))
    ck.true(d[0] > 0, f'the direction {[float(x) for x in d]} does not point to positive x')
    tol = K * (abs(float(m)) + abs(float(c)) + 1)
    ck.scalar(d[1] / d[0], m, tol, 'slope')
    ck.scalar(p[1] - d[1] / d[0] * p[0], c, tol * (1 + abs(float(p[0]))), 'y-intercept')
    return 'value'


@oracle('C22', 'Line.to_point')
def o_to_point(op, out, ck):
    a, d = ex.qv(op.recv[1]), ex.qv(op.recv[2])
    t = ex.q(op.args[0] if op.args else op.kw.get('t', 1))
    ck.vector(ck.returned(out), ex.add(a, ex.mul(t, d)), K * (ex.amax(a) + abs(float(t)) * ex.amax(d)), 'point on the line')
    return 'value'


@oracle('C22', 'Plane.cartesian')
def o_cartesian(op, out, ck):
    a, n = ex.qv(op.recv[1]), ex.qv(op.recv[2])
    if len(a) > 3:
        return ck.raised(out, why='the dimension is greater than 3')
    got = ck.returned(out)
    ck.true(len(got) == 4, f'{len(got)} coefficients')
    ck.vector(np.array([got[0], got[1], got[2]], dtype=float), ex.pad3(n), 0, 'coefficients a, b, c')
    size = float(sum(abs(x * y) for x, y in zip(a, n)))
    ck.scalar(got[3], -ex.dot(a, n), K * size, 'coefficient d')
    return 'value'


@oracle('C22', 'Cylinder.from_points')
def o_cylinder_from_points(op, out, ck):
    a, b = ex.qv(op.args[0]), ex.qv(op.args[1])
    rad = op.args[2]
    if len(a) != 3:
        return ck.raised(out, why='the points are not 3D')
    if a == b:
        return ck.raised(out, why='the points are equal')
    if not rad > 0:
        return ck.raised(out, why='the radius is not positive')
    cyl = ck.returned(out)
    ck.vector(cyl.point, a, 0, 'base')
    d = ex.sub(b, a)
    ck.vector(cyl.vector, d, 1e-15 * ex.amax(d), 'axis')
    ck.true(cyl.radius == rad, f'radius is {cyl.radius!r}')
    return 'value'


@oracle('C22', 'Plane.from_vectors')
def o_plane_from_vectors(op, out, ck):
    p, v, w = map(ex.qv, op.args)
    if not any(v) or not any(w):
        return ck.raised(out, why='a vector is zero')
    if len(v) != len(w):
        raise Skip('mixed dimensions')
    if decide_parallel(v, w, op.kw):
        return ck.raised(out, why='the vectors are parallel')
    if max(len(v), len(p)) > 3:
        return ck.raised(out, why='the dimension is greater than 3')
    check_plane(ck, ck.returned(out), ex.pad3(p), ex.cross(v, w), ex.fnorm(v) * ex.fnorm(w))
    return 'value'


def check_plane(ck, pl, p, n, size):
    ck.vector(pl.point, p, 0, 'point of the plane')
    ck.vector(pl.normal, n, K * size, 'normal of the plane')
    ck.true(pl.dimension == 3, f'dimension {pl.dimension!r}')


@oracle('C22', 'Plane.from_points')
def o_plane_from_points(op, out, ck):
    a, b, c = map(ex.qv, op.args)
    if decide_rank([a, b, c], op.kw) < 2:
        return ck.raised(out, why='the points are collinear')
    v, w = ex.sub(b, a), ex.sub(c, a)
    if not any(v) or not any(w) or decide_parallel(v, w, {}):
        return ck.raised(out, why='the points are collinear up to the tolerance of parallel vectors')
    if len(a) > 3:
        return ck.raised(out, why='the dimension is greater than 3')
    check_plane(ck, ck.returned(out), ex.pad3(a), ex.cross(v, w), ex.fnorm(v) * ex.fnorm(w))
    return 'value'


@oracle('C22', 'Circle.from_points')
def o_circle_from_points(op, out, ck):
    a, b, c = map(ex.qv, op.args)
    if len(a) != 2:
        return ck.raised(out, why='the points are not 2D')
    if decide_rank([a, b, c], op.kw) < 2:
        return ck.raised(out, why='the points are collinear')
    u, v = ex.sub(b, a), ex.sub(c, a)
    det = 2 * (u[0] * v[1] - u[1] * v[0])
    n2u, n2v = ex.n2(u), ex.n2(v)
    x = [(v[1] * n2u - u[1] * n2v) / det, (u[0] * n2v - v[0] * n2u) / det]
    rad = ex.fnorm(x)
    center = ex.add(a, x)
    lens = [ex.fnorm(u), ex.fnorm(v), ex.fnorm(ex.sub(c, b))]
    long, short = max(lens), min(lens)
    # Conditioning: the ratio of the size of the triangle to its thickness, and of its size to its shortest side.
    thick = abs(float(det)) / 2 / long
    cond = (long / thick) * (long / short)
    size = ex.amax(a, b, c)
    if cond > 1e5:
        raise Skip('ill-conditioned')
    got = ck.returned(out)
    tol = K * 4 * (cond * cond * long + cond * size + cond * rad)
    ck.vector(got.point, center, tol, 'centre')
    ck.scalar(got.radius, rad, tol, 'radius')
    return 'value'


prop('C22', {'derived': 1, 'derived_three': 1}, 50000, 900000,
     'A case builds lines, planes, circles and cylinders from random points, vectors, slopes and parameters (equal, collinear, parallel, nearly so, wrong '
     'dimension, with and without tolerances); the object is compared with the exact one. Non-trivial: the event got a verdict; distinct: by arguments '
     'and representation.',
     required=['Line.from_points', 'Line.from_slope', 'Line.to_point', 'Plane.cartesian', 'Cylinder.from_points', 'Plane.from_vectors', 'Plane.from_points',
               'Circle.from_points'])
