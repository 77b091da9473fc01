"""C06 vector algebra, C07 predicates and tolerances, C08 affine rank."""
import math

import numpy as np

from .. import exact as ex
from ..core import Op, Skip, Violation
from ..exact import F
from ..gen import near_overflow
from ..registry import crowds, gen, oracle, prop
from .c01_02 import K, line, near, on_line, parts, plane, side
from .c03_05 import coplanarity, decide_parallel, nearly, one_minus_cos


def other_vec(G, r, v):
    """A vector related to v: parallel, opposite, nearly parallel, perpendicular, equal or independent."""
    n = len(v)
    u = r.random()
    if u < 0.1:
        k = r.choice((-4, -2, -1, 1, 0.5, 3, 10))
        return [k * x for x in v]
    if u < 0.2 and n > 1:
        i, j = r.sample(range(n), 2)
        w = [0] * n
        w[i], w[j] = v[j], -v[i]
        if any(w):
            return w
    if u < 0.3:
        k = r.choice((-1, 1))
        return [k * x for x in nearly(r, v, n)] if any(v) else G.vec(n)
    return G.vec(n)


def bigint(r, n):
    m = 10 ** r.randint(6, 12)
    return [r.randint(-m, m) for _ in range(n)]


@gen('vectors')
def g_vectors(G, r):
    n = G.dim()
    s = G.style()
    if r.random() < 0.12:
        v, w = near_overflow(r, n, 2) if r.random() < 0.3 else (bigint(r, n), bigint(r, n))
        if not any(v) or not any(w):
            v, w = [7] * n, [11] * n
    else:
        v = G.vec(n)
        w = other_vec(G, r, v)
    V = ('Vector', v)
    ops = [Op('Vector.dot', V, [w], style=s), Op('Vector.norm', V, style=s), Op('Vector.unit', V, style=s),
           Op('Vector.cosine_similarity', V, [w], style=s), Op('Vector.angle_between', V, [w], style=s),
           Op('Vector.scalar_projection', V, [w], style=s), Op('Vector.different_direction', V, style=s),
           Op('Vector.cross', V, [w], style=s)]
    if r.random() < 0.2:
        ops.append(Op('Vector.norm', V, kw={'ord': r.choice((1, 2, math.inf, 3))}, style=s))
    if n == 2 or r.random() < 0.03:
        ops.append(Op('Vector.angle_signed', V, [w], style=s))
    p = G.point(n)
    ops.append(Op('Vector.from_points', None, [p, near(G, p, n)], style=s))
    if r.random() < 0.08:
        z = ('Vector', [r.choice((0, 0.0))] * n)
        ops += [Op('Vector.unit', z, style=s), Op('Vector.cosine_similarity', z, [w], style=s), Op('Vector.norm', z, style=s),
                Op('Vector.angle_between', V, [[0] * n], style=s), Op('Vector.scalar_projection', z, [w], style=s),
                Op('Vector.different_direction', z, style=s), Op('Vector.dot', z, [w], style=s)]
    if r.random() < 0.08:
        m = r.choice([k for k in (1, 2, 3, 4, 5) if k != n])
        u = G.vec(m)
        ops += [Op('Vector.dot', V, [u], style=s), Op('Vector.cross', V, [u], style=s), Op('Vector.cosine_similarity', V, [u], style=s)]
        if 1 not in (m, n):
            ops.append(Op('Vector.from_points', None, [G.point(n), G.point(m)], style=s))
    return ops


@gen('vectors_3d')
def g_vectors_3d(G, r):
    s = G.style()
    v = G.vec(3)
    w = other_vec(G, r, v)
    c = ex.cross(ex.qv(v), ex.qv(w))
    u = r.random()
    if u < 0.75 and any(c):
        k = r.choice((-3, -1, 1, 2, 0.5))
        m = max(abs(float(x)) for x in c)
        d = [k * float(x / F(m)) for x in c]
    elif u < 0.85:
        d = nearly(r, [float(x) for x in c], 3) if any(c) else G.vec(3)
    elif u < 0.9:
        d = [0, 0, 0]
    else:
        d = G.vec(3)
    if not any(d) and u < 0.85:
        d = [1, 0, 0]
    ops = [Op('Vector.angle_signed_3d', ('Vector', v), [w, d], style=s), Op('Vector.angle_signed_3d', ('Vector', w), [v, d], style=s)]
    if r.random() < 0.05:
        ops.append(Op('Vector.angle_signed_3d', ('Vector', v), [w, d[:2]], style=s))
        ops.append(Op('Vector.angle_signed_3d', ('Vector', v[:2]), [w, d], style=s))
    return ops


def same_dims(op, ck, out):
    if len(op.recv[1]) != len(op.args[0]):
        ck.raised(out, why='the vectors have different dimensions')
        return False
    return True


def abssum(v, w):
    return float(sum(abs(x * y) for x, y in zip(v, w)))


@oracle('C06', 'Vector.dot')
def o_dot(op, out, ck):
    if not same_dims(op, ck, out):
        return 'raise'
    v, w = ex.qv(op.recv[1]), ex.qv(op.args[0])
    ck.scalar(ck.returned(out), ex.dot(v, w), K * abssum(v, w), 'dot product')
    return 'value'


@oracle('C06', 'Vector.norm')
def o_norm(op, out, ck):
    v = ex.qv(op.recv[1])
    o = op.kw.get('ord', 2)
    if o == 1:
        want = float(sum(abs(x) for x in v))
    elif o == math.inf:
        want = ex.amax(v)
    elif o == 3:
        m = ex.amax(v)
        want = m * sum(abs(float(x) / m) ** 3 for x in v) ** (1 / 3)
    else:
        want = ex.fnorm(v)
    ck.scalar(ck.returned(out), want, K * want, 'norm')
    return 'value' if any(v) else 'zero'


@oracle('C06', 'Vector.unit')
def o_unit(op, out, ck):
    v = ex.qv(op.recv[1])
    if not any(v):
        return ck.raised(out, why='the vector is zero')
    n = F(ex.fnorm(v))
    ck.vector(ck.returned(out), ex.mul(1 / n, v), K, 'unit vector')
    return 'value'


def exact_cos(v, w):
    c = ex.dot(v, w)
    x = ex.fs(c * c / (ex.n2(v) * ex.n2(w)))
    return -x if c < 0 else x


@oracle('C06', 'Vector.cosine_similarity')
def o_cos(op, out, ck):
    if not any(op.recv[1]) or not any(op.args[0]):
        return ck.raised(out, why='a vector is zero')
    if not same_dims(op, ck, out):
        return 'raise'
    v, w = ex.qv(op.recv[1]), ex.qv(op.args[0])
    got = ck.scalar(ck.returned(out), exact_cos(v, w), K, 'cosine similarity')
    ck.true(-1 <= got <= 1, f'the cosine similarity {got!r} is outside [-1, 1]')
    return 'value'


@oracle('C06', 'Vector.angle_between')
def o_angle(op, out, ck):
    if not any(op.recv[1]) or not any(op.args[0]):
        return ck.raised(out, why='a vector is zero')
    v, w = ex.qv(op.recv[1]), ex.qv(op.args[0])
    cos = exact_cos(v, w)
    sin = ex.fs(ex.sin2_num(v, w) / (ex.n2(v) * ex.n2(w)))
    want = math.atan2(sin, cos)
    got = ck.scalar(ck.returned(out), want, K / max(sin, 1e-6) + 1e-15, 'angle')
    ck.true(0 <= got <= math.pi, f'the angle {got!r} is outside [0, pi]')
    return 'value'


@oracle('C06', 'Vector.angle_signed')
def o_angle_signed(op, out, ck):
    if len(op.recv[1]) != 2 or len(op.args[0]) != 2:
        return ck.raised(out, why='the vectors are not 2D')
    v, w = ex.qv(op.recv[1]), ex.qv(op.args[0])
    cos = exact_cos(v, w)
    det = v[0] * w[1] - v[1] * w[0]
    sin = ex.fs(ex.sin2_num(v, w) / (ex.n2(v) * ex.n2(w)))
    sin = -sin if det < 0 else sin
    got = float(ck.returned(out))
    ck.true(-math.pi <= got <= math.pi, f'the signed angle {got!r} is outside [-pi, pi]')
    ck.scalar(math.sin(got), sin, K, 'sine of the signed angle')
    ck.scalar(math.cos(got), cos, K, 'cosine of the signed angle')
    return 'left' if det > 0 else 'right' if det < 0 else 'along'


@oracle('C06', 'Vector.angle_signed_3d')
def o_angle_signed_3d(op, out, ck):
    vs = [op.recv[1]] + op.args
    if any(len(x) != 3 for x in vs):
        return ck.raised(out, why='a vector is not 3D')
    v, w, d = map(ex.qv, vs)
    if not any(d):
        return ck.raised(out, why='the positive direction is zero')
    if not any(v) or not any(w):
        raise Skip('zero vector')
    c = ex.cross(v, w)
    cos = exact_cos(v, w)
    sin = ex.fs(ex.n2(c) / (ex.n2(v) * ex.n2(w)))
    if not any(c):
        if not ex.simple(v + w, 24):
            raise Skip('cross product of rounding errors')
        sin = 0.0
    else:
        if sin < 1e-6:
            raise Skip('almost parallel vectors')
        om, _ = one_minus_cos(c, d)
        err = K / sin
        if om > 1e-9 * 1.1 + err:
            return ck.raised(out, why='the positive direction is not perpendicular to the vectors')
        if om > 1e-9 * 0.9 - err:
            raise Skip('at the tolerance')
        if ex.dot(c, d) < 0:
            sin = -sin
    got = float(ck.returned(out))
    ck.true(-math.pi <= got <= math.pi, f'the signed angle {got!r} is outside [-pi, pi]')
    # The direction may deviate by its tolerance.
    slack = 2e-9 * abs(sin) + K
    ck.scalar(math.sin(got), sin, slack, 'sine of the signed angle')
    ck.scalar(math.cos(got), cos, slack, 'cosine of the signed angle')
    return 'positive' if sin > 0 else 'negative' if sin < 0 else 'along'


@oracle('C06', 'Vector.scalar_projection')
def o_scalar_projection(op, out, ck):
    if not any(op.recv[1]):
        return ck.raised(out, why='the vector projected onto is zero')
    if not same_dims(op, ck, out):
        return 'raise'
    v, w = ex.qv(op.recv[1]), ex.qv(op.args[0])
    want = float(ex.dot(v, w)) / ex.fnorm(v)
    ck.scalar(ck.returned(out), want, K * ex.fnorm(w), 'scalar projection')
    return 'value'


@oracle('C06', 'Vector.cross')
def o_cross(op, out, ck):
    a, b = op.recv[1], op.args[0]
    if max(len(a), len(b)) > 3:
        return ck.raised(out, why='the dimension is greater than 3')
    v, w = ex.pad3(ex.qv(a)), ex.pad3(ex.qv(b))
    got = ck.numbers(ck.returned(out), 3, 'cross product')
    want = ex.cross(v, w)
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        ck.scalar(got[i], want[i], K * float(abs(v[j] * w[k]) + abs(v[k] * w[j])), f'component {i} of the cross product')
    return 'value'


@oracle('C06', 'Vector.from_points')
def o_vector_from_points(op, out, ck):
    p, q = ex.qv(op.args[0]), ex.qv(op.args[1])
    if len(p) != len(q):
        return ck.raised(out, why='the points have different dimensions')
    got = ck.numbers(ck.returned(out), len(p), 'vector')
    for g, x, y in zip(got, p, q):
        ck.scalar(g, y - x, 1e-15 * abs(float(y - x)), 'component of the vector')
    return 'value'


@oracle('C06', 'Vector.different_direction')
def o_different(op, out, ck):
    v = ex.qv(op.recv[1])
    if not any(v):
        return ck.raised(out, why='the vector is zero')
    got = ex.qv(ck.numbers(ck.returned(out), len(v), 'vector in a different direction'))
    if not any(got):
        raise Violation('the vector in a different direction is zero')
    if len(v) == 1:
        ck.true(got[0] * v[0] < 0, f'{got[0]} is not opposite to {v[0]}')
        return 'opposite'
    sin = ex.fs(ex.sin2_num(v, got) / (ex.n2(v) * ex.n2(got)))
    ck.true(sin > 1e-5, f'the vector {[float(x) for x in got]} has the same direction')
    return 'value'


prop('C06', {'vectors': 6, 'vectors_3d': 3}, 50000, 900000,
     'A case is a pair or triple of random vectors (independent, parallel, opposite, nearly parallel, perpendicular, zero, integers up to '
     '1e12, mismatched dimensions) given to every operation of the vector algebra; each value and each error is compared with exact '
     'rational arithmetic. Non-trivial: the event got a verdict; distinct: by operation, operands and representation.',
     required=['Vector.dot', 'Vector.norm', 'Vector.unit', 'Vector.cosine_similarity', 'Vector.angle_between', 'Vector.angle_signed',
               'Vector.angle_signed_3d', 'Vector.scalar_projection', 'Vector.cross', 'Vector.from_points', 'Vector.different_direction'])


# C07


def log_tol(r, lo=-9, hi=1):
    return 10.0 ** r.uniform(lo, hi)


def edge_tolerances(r, ops):
    """Give some operations explicit tolerances of zero, or larger than one."""
    for op in ops:
        name = op.fn.split('.')[1]
        u = r.random()
        if name not in ('is_perpendicular', 'is_parallel', 'is_zero', 'is_close', 'contains_point') or u > 0.08:
            continue
        if u < 0.03:
            op.kw['rel_tol'] = 0.0
        elif u < 0.05:
            op.kw['abs_tol'] = 0.0
        elif u < 0.06:
            op.kw.update(rel_tol=0, abs_tol=0)
        elif name != 'is_zero':
            op.kw.update(r.choice(({'rel_tol': 0.5}, {'rel_tol': 0.9}, {'abs_tol': 1}, {'abs_tol': 1.5}, {'abs_tol': 10.0}, {'abs_tol': 1e6})))
    return ops


@gen('predicate_vectors')
def g_predicate_vectors(G, r):
    n = G.dim()
    s = G.style()
    v = G.vec(n)
    if r.random() < 0.1:
        v = [0] * n
    w = other_vec(G, r, v) if any(v) else G.vec(n)
    if r.random() < 0.05:
        w = [0] * n
    V, W = ('Vector', v), ('Vector', w)
    size = float(ex.fnorm(ex.qv(v)) * ex.fnorm(ex.qv(w)))
    ops = []
    for a, b in ((V, w), (W, v)):
        kw = {'abs_tol': size * log_tol(r, -12, 1)} if r.random() < 0.4 and size else {}
        ops.append(Op('Vector.is_perpendicular', a, [b], kw, style=s))
        kw = {}
        u = r.random()
        if u < 0.25:
            kw = {'rel_tol': 10.0 ** r.uniform(-12, -0.5)}
        elif u < 0.4:
            kw = {'abs_tol': 10.0 ** r.uniform(-12, -0.5)}
        elif u < 0.45:
            kw = {'abs_tol': 10.0 ** r.uniform(-12, -0.5), 'rel_tol': 10.0 ** r.uniform(-12, -0.5)}
        ops.append(Op('Vector.is_parallel', a, [b], kw, style=s))
        ops.append(Op('Vector.is_zero', a, kw={'abs_tol': float(ex.n2(ex.qv(a[1]))) * log_tol(r, -2, 2)} if r.random() < 0.6 else {}, style=s))
    if n == 2:
        ops += [Op('Vector.side_vector', V, [w], style=s), Op('Vector.side_vector', W, [v], style=s)]
    elif r.random() < 0.1:
        ops.append(Op('Vector.side_vector', V, [w], style=s))
    return edge_tolerances(r, ops)


@gen('predicate_arrays')
def g_predicate_arrays(G, r):
    n = G.dim()
    s = G.style()
    name = r.choice(('Point', 'Vector', 'Points'))
    a = G.points(r.randint(1, 5), n) if name == 'Points' else G.point(n)

    def change(x):
        u = r.random()
        if u < 0.55:
            return x
        if u < 0.9:
            return x * (1 + r.choice((-1, 1)) * 10.0 ** r.uniform(-13, -1)) + r.choice((0, 1e-9, -1e-4)) * r.random()
        return G.num()

    def vary(a):
        return [vary(x) for x in a] if isinstance(a, list) else change(a)

    ops = []
    for _ in range(2):
        b = vary(a) if r.random() < 0.8 else [list(x) for x in a] if name == 'Points' else list(a)
        if r.random() < 0.1:  # one number differs in the last place, or a little more
            row = b[r.randrange(len(b))] if name == 'Points' else b
            k = r.randrange(len(row))
            for _ in range(r.choice((1, 1, 3, 100))):
                row[k] = math.nextafter(row[k], math.inf)
        kw = {}
        u = r.random()
        if u < 0.3:
            kw = {'rel_tol': 10.0 ** r.uniform(-12, -1)}
        elif u < 0.6:
            kw = {'abs_tol': 10.0 ** r.uniform(-12, 0)}
        elif u < 0.7:
            kw = {'rel_tol': 10.0 ** r.uniform(-12, -1), 'abs_tol': 10.0 ** r.uniform(-12, 0)}
        for x, y in ((a, b), (b, a)):
            ops.append(Op(name + '.is_close', (name, x), [y], kw, style=s))
            ops.append(Op(name + '.is_equal', (name, x), [y], style=s))
    if r.random() < 0.1:
        other = G.point(n + 1) if name != 'Points' else G.points(len(a) + 1, n)
        ops.append(Op(name + '.is_equal', (name, a), [other], style=s))
    return edge_tolerances(r, ops)


@gen('predicate_contains')
def g_predicate_contains(G, r):
    s = G.style()
    n = G.dim()
    ops = []
    ln = line(G, n)
    pl = plane(G, n)
    if r.random() < 0.3:
        k = r.randrange(n)
        pl = ('Plane', pl[1], [x if i == k else 0 for i, x in enumerate(pl[2])])
        if not any(pl[2]):
            pl[2][k] = 1
    for _ in range(2):
        u = r.random()
        if u < 0.4:
            p = on_line(ln, r.choice((-3, -2, -1, 0, 1, 2, 5, 0.5)))
        else:
            p = near(G, ln[1], n)
        ops.append(contains_op(G, r, ln, p, s))
        q = near(G, pl[1], n)
        if r.random() < 0.5:
            for i, x in enumerate(pl[2]):
                if x:
                    q[i] = pl[1][i]
                    if r.random() < 0.7:
                        break
        ops.append(contains_op(G, r, pl, q, s))
    m = r.choice((2, 3))
    name = {2: 'Circle', 3: 'Sphere'}[m]
    if r.random() < 0.4:
        w, norm = G.pyth() if m == 2 else G.pyth3()
        c = [r.randint(-9, 9) for _ in range(m)]
        obj = (name, c, norm)
        p = [x + y for x, y in zip(c, w)]
    else:
        obj = (name, G.point(m), G.radius())
        d = G.vec(m)
        nd = math.sqrt(sum(float(x) ** 2 for x in d))
        k = 1 if r.random() < 0.5 else 1 + r.gauss(0, 1) * 10.0 ** r.uniform(-6, 0)
        p = [x + k * obj[2] * y / nd for x, y in zip(obj[1], d)]
    ops.append(contains_op(G, r, obj, p, s))
    for op in list(ops):
        if r.random() < 0.3:  # almost on the object
            p = list(op.args[0])
            size = obj[2] if op.recv is obj else max(map(abs, p)) or 1
            i = r.randrange(len(p))
            p[i] += r.choice((-1, 1)) * size * 10.0 ** r.uniform(-14, -6)
            ops.append(op.copy(args=[p], kw={}))
    return edge_tolerances(r, ops)


def contains_op(G, r, obj, p, s):
    kw = {}
    u = r.random()
    if u < 0.5:
        kw = {'abs_tol': G.unit_scale() * 10.0 ** r.uniform(-8, 1)}
    elif u < 0.6:
        kw = {'rel_tol': 10.0 ** r.uniform(-9, -0.1)}
    return Op(obj[0] + '.contains_point', obj, [p], kw, style=s)


@gen('predicate_segment')
def g_predicate_segment(G, r):
    s = G.style()
    n = r.choice((1, 2, 2, 3, 3, 4))
    a, b = G.point(n), G.point(n)
    if all(math.isclose(x, y, rel_tol=1e-6) for x, y in zip(a, b)):
        return []
    ops = []
    for _ in range(3):
        u = r.random()
        t = r.choice((0, 1, 0.5, 0.25, 0.75, -1, 2, -0.5, 1.5, r.uniform(-1, 2)))
        p = [x + t * (y - x) for x, y in zip(a, b)]
        if u < 0.3:
            e = 10.0 ** r.uniform(-7, 0)
            p = [x + e * G.unit_scale() * r.gauss(0, 1) for x in p]
        elif u < 0.4:
            p = G.point(n)
        elif u < 0.5:
            p = list(r.choice((a, b)))
        kw = {}
        u = r.random()
        if u < 0.2:
            kw = {'rel_tol': 10.0 ** r.uniform(-12, -0.5)}
        elif u < 0.4:
            kw = {'abs_tol': 10.0 ** r.uniform(-12, -0.5)}
        for x, y in ((a, b), (b, a)):
            ops.append(Op('LineSegment.contains_point', ('LineSegment', x, y), [p], kw, style=s))
    return edge_tolerances(r, ops)


@gen('predicate_lines')
def g_predicate_lines(G, r):
    s = G.style()
    n = r.choice((1, 2, 3, 3, 3, 4))
    name = r.choice(('Line', 'Plane'))
    a = (name, G.point(n), G.vec(n))
    ops = []
    u = r.random()
    e = 10.0 ** r.uniform(-9, -1)
    d = [r.choice((-2, -1, 1, 3)) * x for x in a[2]] if u < 0.15 else a[2]
    k = r.choice((-2, -1, 1, 3, 0.5))
    d = [k * x for x in a[2]]
    if u < 0.4:
        d = nearly(r, d, n)
    p = on_line(a, r.choice((0, 1, -2))) if name == 'Line' else list(a[1])
    if name == 'Plane' and n == 2:
        t = r.randint(-2, 2)
        p = [a[1][0] + t * a[2][1], a[1][1] - t * a[2][0]]
    if r.random() < 0.4:
        p = [x + e * G.unit_scale() * r.gauss(0, 1) for x in p]
    if r.random() < 0.1:
        d = G.vec(n)
    b = (name, p, d)
    kw = {}
    u = r.random()
    if u < 0.3:
        kw = {'abs_tol': 10.0 ** r.uniform(-9, 0)}
    elif u < 0.5:
        kw = {'abs_tol': G.unit_scale() * 10.0 ** r.uniform(-6, -1), 'rel_tol': 10.0 ** r.uniform(-9, -1)}
    ops += [Op(name + '.is_close', a, [b], kw, style=s), Op(name + '.is_close', b, [a], kw, style=s)]
    if r.random() < 0.15:
        other = {'Line': 'Plane', 'Plane': 'Line'}[name]
        ops.append(Op(name + '.is_close', a, [r.choice([(other, a[1], a[2]), ('Vector', a[2]), a[1], 1, None, 'x', ('Circle', [0, 0], 1)])], style=s))
    return edge_tolerances(r, ops)


@gen('predicate_coplanar')
def g_predicate_coplanar(G, r):
    s = G.style()
    n = r.choice((2, 3, 3, 3, 4))
    if r.random() < 0.6:
        G.restrict = ['int1', 'int', 'int3', 'dy']
        G.new_mode()
    a = line(G, n)
    u = r.random()
    if u < 0.3:
        x = on_line(a, r.randint(-2, 2))
        d = G.vec(n)
        k = r.randint(-2, 2)
        b = ('Line', [p + k * y for p, y in zip(x, d)], d)
    elif u < 0.4:
        k = r.choice((-2, -1, 1, 0.5))
        b = ('Line', G.point(n), [k * x for x in a[2]])
    else:
        b = line(G, n)
    kw = {'tol': G.unit_scale() * 10.0 ** r.uniform(-6, 1)} if r.random() < 0.4 else {}
    ops = [Op('Line.is_coplanar', a, [b], kw, style=s), Op('Line.is_coplanar', b, [a], kw, style=s)]
    if r.random() < 0.1:
        ops.append(Op('Line.is_coplanar', a, [r.choice([('Plane', a[1], a[2]), ('Vector', a[2]), a[1], 1, None])], style=s))
    return ops


@oracle('C07', 'Vector.is_zero')
def o_is_zero(op, out, ck):
    n2 = ex.n2(ex.qv(op.recv[1]))
    t = F(op.kw.get('abs_tol', 0))
    if n2 and abs(n2 - t) <= n2 * F(1, 10**12):
        raise Skip('at the tolerance')
    return ck.boolean(ck.returned(out), n2 <= t, 'is_zero')


@oracle('C07', 'Vector.is_perpendicular')
def o_is_perpendicular(op, out, ck):
    v, w = ex.qv(op.recv[1]), ex.qv(op.args[0])
    d = abs(ex.dot(v, w))
    t = F(op.kw.get('abs_tol', 0))
    m = F(K * abssum(v, w))
    if abs(d - t) <= m and not ex.simple(v + w, 22) and m:
        raise Skip('at the tolerance')
    return ck.boolean(ck.returned(out), d <= t, 'is_perpendicular')


@oracle('C07', 'Vector.is_parallel')
def o_is_parallel(op, out, ck):
    v, w = ex.qv(op.recv[1]), ex.qv(op.args[0])
    if not any(v) or not any(w):
        return ck.boolean(ck.returned(out), True, 'is_parallel of the zero vector')
    return ck.boolean(ck.returned(out), decide_parallel(v, w, op.kw), 'is_parallel')


@oracle('C07', 'Vector.side_vector')
def o_side_vector(op, out, ck):
    v, w = ex.qv(op.recv[1]), ex.qv(op.args[0])
    if len(v) != 2 or len(w) != 2:
        return ck.raised(out, why='the vectors are not 2D')
    c = w[0] * v[1] - w[1] * v[0]
    size = abs(w[0] * v[1]) + abs(w[1] * v[0])
    if abs(c) <= F(K) * size and not ex.simple(v + w, 22):
        raise Skip('parallel up to rounding')
    side(ck.returned(out), (c > 0) - (c < 0), 'side')
    return 'side'


def isclose_exact(x, y, kw):
    """math.isclose in exact arithmetic; None at the tolerance."""
    d = abs(x - y)
    t = max(F(kw.get('rel_tol', 1e-9)) * max(abs(x), abs(y)), F(kw.get('abs_tol', 0)))
    if d != 0 and abs(d - t) <= F(1, 10**12) * (d + t) + F(1e-16) * max(abs(x), abs(y)):
        return None
    return d <= t


def flat(x):
    return ex.qv([z for y in x for z in y] if isinstance(x[0], list) else x)


@oracle('C07', 'Point.is_close', 'Vector.is_close', 'Points.is_close')
def o_array_close(op, out, ck):
    cs = [isclose_exact(x, y, op.kw) for x, y in zip(flat(op.recv[1]), flat(op.args[0]))]
    if any(c is False for c in cs):
        want = False
    elif any(c is None for c in cs):
        raise Skip('at the tolerance')
    else:
        want = True
    return ck.boolean(ck.returned(out), want, 'is_close')


@oracle('C07', 'Point.is_equal', 'Vector.is_equal', 'Points.is_equal')
def o_array_equal(op, out, ck):
    a, b = op.recv[1], op.args[0]
    want = len(a) == len(b) and flat(a) == flat(b)
    return ck.boolean(ck.returned(out), want, 'is_equal')


def distance_verdict(ck, out, d, exact, tol, margin, what):
    """Verdict of a containment: the distance is at most the absolute tolerance."""
    if tol == 0:
        if exact and d == 0:
            return ck.boolean(ck.returned(out), True, what)
        if d <= 10 * margin:
            raise Skip('zero up to rounding')
        return ck.boolean(ck.returned(out), False, what)
    if abs(d - tol) <= margin + 1e-12 * tol:
        raise Skip('at the tolerance')
    return ck.boolean(ck.returned(out), d <= tol, what)


@oracle('C07', 'Line.contains_point')
def o_line_contains(op, out, ck):
    a, d = parts(op.recv)
    p = ex.qv(op.args[0])
    dist = ex.fs(ex.n2(ex.sub(p, ex.foot_line(a, d, p))))
    margin = K * (ex.amax(a, p) + ex.amax(ex.sub(p, a))) * len(a)
    return distance_verdict(ck, out, dist, exactly_on_line(a, d, p), op.kw.get('abs_tol', 0.0), margin, 'contains_point')


def exactly_on_line(a, d, p):
    """True if no rounding enters: small dyadic numbers and a small dyadic parameter."""
    t = ex.dot(ex.sub(p, a), d) / ex.n2(d)
    return ex.simple(a + d + p, 16) and ex.simple([t], 6)


@oracle('C07', 'Plane.contains_point')
def o_plane_contains(op, out, ck):
    a, n = parts(op.recv)
    p = ex.qv(op.args[0])
    h = ex.dot(ex.sub(p, a), n)
    dist = abs(float(h)) / ex.fnorm(n)
    margin = K * ex.amax(ex.sub(p, a)) * len(a)
    # Exact zero is only decided for planes along an axis, where rounding cannot enter.
    exact = sum(1 for x in n if x) == 1
    return distance_verdict(ck, out, dist, exact, op.kw.get('abs_tol', 0.0), margin, 'contains_point')


@oracle('C07', 'Circle.contains_point', 'Sphere.contains_point')
def o_round_contains(op, out, ck):
    c, rad = ex.qv(op.recv[1]), ex.q(op.recv[2])
    v2 = ex.n2(ex.sub(ex.qv(op.args[0]), c))
    if ex.is_square(v2):
        dist = float(abs(ex.rsqrt(v2) - rad))
    else:
        dist = abs(ex.fs(v2) - float(rad))
    exact = ex.simple(c + [rad] + ex.qv(op.args[0]), 16)
    return distance_verdict(ck, out, dist, exact, op.kw.get('abs_tol', 0.0), K * (ex.fs(v2) + float(rad)), 'contains_point')


@oracle('C07', 'LineSegment.contains_point')
def o_segment_contains(op, out, ck):
    a, b = parts(op.recv)
    p = ex.qv(op.args[0])
    u, v = ex.sub(a, p), ex.sub(b, p)
    t = F(op.kw.get('abs_tol', 0))
    for w in (u, v):
        n2 = ex.n2(w)
        if n2 and t and abs(n2 - t) <= F(1, 10**9) * t:
            raise Skip('at the tolerance of an end')
        if n2 <= t:
            return ck.boolean(ck.returned(out), True, 'contains_point of an end')
    c = exact_cos(u, v)
    if c < 0:
        om, s2 = one_minus_cos(u, v)
    else:
        om = 1 + c
    thr = max(op.kw.get('rel_tol', 1e-9), op.kw.get('abs_tol', 0.0))
    err = K
    # Rounding of the differences of the points.
    err += 0.0
    if abs(om - thr) <= 1e-3 * thr + err:
        raise Skip('at the tolerance')
    return ck.boolean(ck.returned(out), om <= thr, 'contains_point')


@oracle('C07', 'Line.is_close', 'Plane.is_close')
def o_line_close(op, out, ck):
    other = op.args[0]
    name = op.recv[0]
    if not isinstance(other, tuple) or other[0] != name:
        return ck.raised(out, TypeError, why='the types differ')
    kw = op.kw
    a, d = parts(op.recv)
    b, e = parts(other)
    tol = kw.get('abs_tol', 0.0)
    if name == 'Line':
        dist = ex.fs(ex.n2(ex.sub(b, ex.foot_line(a, d, b))))
        margin = K * (ex.amax(a, b) + ex.amax(ex.sub(b, a))) * len(a)
        exact = exactly_on_line(a, d, b)
    else:
        dist = abs(float(ex.dot(ex.sub(b, a), d))) / ex.fnorm(d)
        margin = K * ex.amax(ex.sub(b, a)) * len(a)
        exact = sum(1 for x in d if x) == 1 or not any(ex.sub(b, a))
    contains = None
    if tol == 0:
        if exact and dist == 0:
            contains = True
        elif dist > 10 * margin:
            contains = False
    elif abs(dist - tol) > margin + 1e-12 * tol:
        contains = dist <= tol
    try:
        par = decide_parallel(d, e, kw)
    except Skip:
        par = None
    if contains is False or par is False:
        want = False
    elif contains is None or par is None:
        raise Skip('at the tolerance')
    else:
        want = True
    return ck.boolean(ck.returned(out), want, 'is_close')


def unique_rows(rows):
    return [list(t) for t in sorted({tuple(r) for r in rows})]


def singular_values(rows):
    """Singular values of the centred distinct points, from exact differences."""
    rows = unique_rows(rows)
    n = len(rows)
    mean = [sum(c) / n for c in zip(*rows)]
    m = np.array([[float(x - y) for x, y in zip(row, mean)] for row in rows])
    return np.linalg.svd(m, compute_uv=False)


def exact_rank(rows):
    rows = unique_rows(rows)
    return ex.rank([ex.sub(x, rows[0]) for x in rows[1:]])


def graded(rows):
    """Singular values of points spread over two coordinates by very different amounts (the other, later ones constant), if so.

    They are accurate in floating point relative to themselves, not just to the greatest of them.
    """
    rows = unique_rows(rows)
    n = len(rows)
    cols = [[x - sum(c) / n for x in c] for c in zip(*rows)]
    while cols and not any(cols[-1]):
        cols.pop()
    if len(cols) != 2 or n < 3 or n < len(rows[0]):
        return None
    a, b, c = ex.n2(cols[0]), ex.n2(cols[1]), ex.dot(*cols)
    if not a or not b or 1e-16 < a / b < 1e16 or c * c > F(1, 2) * a * b or max(a, b) > 1e60 or min(a, b) < 1e-100:
        return None
    s0 = max(a, b) + c * c / max(a, b)
    return [ex.fs(s0), ex.fs((a * b - c * c) / s0)]


def decide_rank(rows, kw):
    if kw.get('tol') is not None and len(rows) < 100:
        s = graded(rows)
        if s:
            t = kw['tol']
            if any(abs(x - t) <= 1e-3 * t for x in s):
                raise Skip('singular value at the tolerance')
            return sum(x > t for x in s)
    s = singular_values(rows)
    if 'tol' in kw and kw['tol'] is not None:
        t = kw['tol']
        if any(abs(x - t) <= 1e-6 * t + 1e-11 * s[0] for x in s):
            raise Skip('singular value at the tolerance')
        return int((s > t).sum())
    k = exact_rank(rows)
    # A rank is decided in floating point if the smallest singular value that counts is well above rounding.
    if k and s[k - 1] < 1e-11 * s[0]:
        raise Skip('singular value at rounding')
    return k


@oracle('C07', 'Line.is_coplanar')
def o_is_coplanar(op, out, ck):
    other = op.args[0]
    if not isinstance(other, tuple) or other[0] != 'Line':
        return ck.raised(out, TypeError, why='the input is not a line')
    a, d = parts(op.recv)
    b, e = parts(other)
    if 'tol' in op.kw:
        if max(ex.amax(a), ex.amax(b)) > 1e4 * min(ex.amax(d), ex.amax(e)):
            raise Skip('points of the lines rounded')
        want = decide_rank([a, ex.add(a, d), b, ex.add(b, e)], op.kw) <= 2
    elif len(a) <= 2:
        want = True
    elif len(a) == 3:
        want = coplanarity(a, d, b, e) == 'yes'
    else:
        rows = [a, ex.add(a, d), b, ex.add(b, e)]
        if not ex.simple(a + b + d + e, 20):
            raise Skip('rounded')
        want = decide_rank(rows, {}) <= 2
    return ck.boolean(ck.returned(out), want, 'is_coplanar')


prop('C07', {'predicate_vectors': 4, 'predicate_arrays': 2, 'predicate_contains': 4, 'predicate_segment': 3, 'predicate_lines': 3,
             'predicate_coplanar': 2}, 60000, 1000000,
     'A case is a random object or pair on, near or off the relation asked for, with default and passed tolerances chosen around the actual '
     'deviation, asked in both orders; every answer is compared with the relation decided in exact arithmetic. Non-trivial: the event got a '
     'verdict (the deviation is not at the tolerance); distinct: by operation, operands and representation.',
     required=['Vector.is_zero', 'Vector.is_perpendicular', 'Vector.is_parallel', 'Vector.side_vector', 'Point.is_close', 'Points.is_close',
               'Vector.is_close', 'Point.is_equal', 'Vector.is_equal', 'Points.is_equal', 'Line.contains_point', 'Plane.contains_point',
               'Circle.contains_point', 'Sphere.contains_point', 'LineSegment.contains_point', 'Line.is_close', 'Plane.is_close', 'Line.is_coplanar'])


# C08


def graded_points(r, n):
    """Points spread over two coordinates by very different amounts, and a tolerance."""
    e = 10.0 ** -r.uniform(9, 24)
    pts = [[r.gauss(0, 1), e * r.gauss(0, 1)] for _ in range(r.randint(3, 6))]
    if r.random() < 0.3:
        pts = [[r.randint(-5, 5), e * r.randint(-5, 5)] for _ in pts]
    if r.random() < 0.5:
        pts = [p[::-1] for p in pts]
    rest = [r.choice((0, r.randint(-3, 3))) for _ in range(n - 2)]
    tol = r.choice((0, 0, 0.0, e * 1e-3, e * 30, 1e-3, e * 10.0 ** r.uniform(-3, 3)))
    return [p + rest for p in pts], {'tol': tol}


@gen('affine_rank')
def g_affine_rank(G, r):
    s = G.style()
    if r.random() < 0.04:
        pts, kw = graded_points(r, r.choice((2, 2, 3, 4)))
        return [Op('Points.' + f, ('Points', pts), kw=kw, style=s) for f in ('affine_rank', 'are_concurrent', 'are_collinear', 'are_coplanar')]
    n = r.choice((1, 2, 2, 3, 3, 3, 4, 5, 6))
    if r.random() < 0.8:
        G.restrict = ['int1', 'int', 'int3', 'dy']
        G.new_mode()
    k = G.many((1, 1, 2, 3, 3, 4, 4, 5, 6, 8, 12), 600)
    target = r.randint(0, min(n, k))
    base = G.point(n)
    dirs = [G.vec(n) for _ in range(target)]
    pts = []
    for _ in range(k):
        c = [r.randint(-4, 4) for _ in dirs]
        pts.append([b + sum(x * d[i] for x, d in zip(c, dirs)) for i, b in enumerate(base)])
    if r.random() < 0.25:
        off = [r.choice((-1, 1)) * 10 ** r.randint(2, 8) for _ in range(n)]
        pts = [[x + o for x, o in zip(p, off)] for p in pts]
    if r.random() < 0.3:
        for _ in range(r.randint(1, 4)):
            pts.append(list(r.choice(pts)))
    if r.random() < 0.2:
        e = 10.0 ** r.uniform(-6, -1)
        i = r.randrange(len(pts))
        pts[i] = [x + e * r.gauss(0, 1) for x in pts[i]]
    r.shuffle(pts)
    other = pts[::-1] if r.random() < 0.5 else r.sample(pts, len(pts))
    ops = []
    for p in (pts, other):
        obj = ('Points', p)
        ops.append(Op('Points.affine_rank', obj, style=s))
        ops += [Op('Points.' + f, obj, style=s) for f in ('are_concurrent', 'are_collinear', 'are_coplanar')]
        if r.random() < 0.4:
            kw = {'tol': G.unit_scale() * 10.0 ** r.uniform(-5, 2)}
            ops.append(Op('Points.' + r.choice(('affine_rank', 'are_concurrent', 'are_collinear', 'are_coplanar')), obj, kw=kw, style=s))
            ops.append(Op('Points.affine_rank', obj, kw=kw, style=s))
    return ops


@oracle('C08', 'Points.affine_rank')
def o_affine_rank(op, out, ck):
    want = decide_rank(ex.qm(op.recv[1]), op.kw)
    got = ck.returned(out)
    ck.true(int(got) == got and int(got) == want, f'affine rank is {got!r}, exact {want}')
    return f'rank{want}'


@oracle('C08', 'Points.are_concurrent', 'Points.are_collinear', 'Points.are_coplanar')
def o_rank_predicates(op, out, ck):
    want = decide_rank(ex.qm(op.recv[1]), op.kw)
    limit = {'are_concurrent': 0, 'are_collinear': 1, 'are_coplanar': 2}[op.fn.split('.')[1]]
    return ck.boolean(ck.returned(out), want <= limit, op.fn)


crowds('crowds_rank', 'affine_rank')

prop('C08', {'affine_rank': 1, 'crowds_rank': 0.001}, 24000, 400000,
     'A case is a set of points spanning a random affine subspace (with duplicates, offsets up to 1e8 and small perturbations), in two orders; '
     'the rank and the three predicates are compared with the exact rational rank, or with the singular values if a tolerance is passed. '
     'Non-trivial: the event got a verdict (no singular value at the tolerance or at rounding); distinct: by operation, operands and representation.',
     required=['Points.affine_rank', 'Points.are_concurrent', 'Points.are_collinear', 'Points.are_coplanar'])
