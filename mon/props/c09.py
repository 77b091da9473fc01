"""C09: construction accepts exactly valid input and keeps it unchanged."""
import math

import numpy as np

from .. import exact as ex
from ..core import CLASSES, Op, Skip, Violation
from ..registry import gen, oracle, prop
from .c06_08 import decide_rank, exact_rank, singular_values

BAD = (math.nan, math.inf, -math.inf)


def nested(r, n):
    """Values that are not a valid 1D array."""
    u = r.randrange(7)
    if u == 0:
        return []
    if u == 1:
        return [[1] * n]
    if u == 2:
        return [[1, 2], [3, 4]]
    if u == 3:
        return r.choice((0, 5, -1.5))
    if u == 4:
        return [[]]
    if u == 5:
        return [[[1, 2]]]
    return [[1], [2]]


def not_2d(r, n):
    u = r.randrange(6)
    return [[], [1] * n, r.choice((0, 2.5)), [[[1, 2], [3, 4]]], [[]], [[], []]][u]


def poison(r, x):
    """Replace one number by NaN or infinity."""
    if isinstance(x[0], list):
        x = [list(row) for row in x]
        i = r.randrange(len(x))
        x[i][r.randrange(len(x[i]))] = r.choice(BAD)
        return x
    x = list(x)
    x[r.randrange(len(x))] = r.choice(BAD)
    return x


def arg1(G, r, n, p=0.12):
    """A point: usually valid, sometimes invalid in one of many ways."""
    u = r.random()
    if u < p / 3:
        return nested(r, n)
    if u < 2 * p / 3:
        return poison(r, G.point(n))
    if u < p:
        return G.point(r.choice([k for k in range(1, 6) if k != n]))
    return G.point(n)


def vec1(G, r, n, p=0.15):
    u = r.random()
    if u < p / 4:
        return nested(r, n)
    if u < p / 2:
        return poison(r, G.vec(n))
    if u < 3 * p / 4:
        return G.vec(r.choice([k for k in range(1, 6) if k != n]))
    if u < p:
        return [r.choice((0, 0.0, -0.0))] * n
    return G.vec(n)


def rad1(G, r, p=0.2):
    if r.random() < p:
        return r.choice((0, 0.0, -0.0, -1, -2.5, math.nan, -math.inf, -1e-300, -5))
    if r.random() < 0.1:
        return r.choice((1e-300, 5e-324, 1e300, 1e-9, 1))
    return G.radius()


@gen('construct_arrays')
def g_construct_arrays(G, r):
    n = G.dim()
    ops = []
    for name in ('Point', 'Vector'):
        s = G.style()
        x = arg1(G, r, n)
        if r.random() < 0.05:  # any finite value is valid
            x = [r.choice((-1, 1)) * r.choice((1e308, 1.7e308, 5e-324, 2.2e-308, 1e-200, 1e200, 0.0)) for _ in range(n)]
        ops.append(Op(name, None, [x], style=s))
    u = r.random()
    if u < 0.1:
        x = not_2d(r, n)
    elif u < 0.2:
        x = poison(r, G.points(G.count(), n))
    elif u < 0.23:
        x = [[1, 2], [3]]
    else:
        x = G.points(G.count(), n)
    ops.append(Op('Points', None, [x], style=G.style()))
    return ops


@gen('construct_objects')
def g_construct_objects(G, r):
    n = G.dim()
    ops = []
    for name in ('Line', 'Plane'):
        ops.append(Op(name, None, [arg1(G, r, n), vec1(G, r, n)], style=G.style()))
    a = G.point(n)
    u = r.random()
    if u < 0.1:
        b = list(a)
    elif u < 0.25:
        e = 10.0 ** r.uniform(-13, -5)
        b = [x * (1 + e * r.choice((-1, 0, 1))) for x in a]
    elif u < 0.3:
        b = [x if i else G.num() for i, x in enumerate(a)]
    else:
        b = arg1(G, r, n)
    if r.random() < 0.5:
        a, b = b, a
    ops.append(Op('LineSegment', None, [a, b], style=G.style()))
    m = r.choice((2, 2, 2, 2, 2, 1, 3, 4))
    ops.append(Op('Circle', None, [arg1(G, r, m), rad1(G, r)], style=G.style()))
    m = r.choice((3, 3, 3, 3, 3, 1, 2, 4))
    ops.append(Op('Sphere', None, [arg1(G, r, m), rad1(G, r)], style=G.style()))
    m = r.choice((3, 3, 3, 3, 3, 3, 1, 2, 4))
    ops.append(Op('Cylinder', None, [arg1(G, r, m), vec1(G, r, m), rad1(G, r)], style=G.style()))
    if r.random() < 0.3:
        ops.append(Op('Cylinder.from_points', None, [arg1(G, r, m), arg1(G, r, m), rad1(G, r)], style=G.style()))
    u = r.random()
    if u < 0.3:  # collinear or nearly
        G.restrict = ['int1', 'int', 'int3', 'dy']
        G.new_mode()
        p, d = G.point(n), G.vec(n)
        pts = [[x + k * y for x, y in zip(p, d)] for k in (r.randint(-5, 5), r.randint(-5, 5), r.randint(-5, 5))]
        if r.random() < 0.4:
            i = r.randrange(3)
            pts[i] = [x + 10.0 ** r.uniform(-6, 0) * r.gauss(0, 1) for x in pts[i]]
    else:
        pts = [G.point(n), G.point(n), arg1(G, r, n)]
        r.shuffle(pts)
    ops.append(Op('Triangle', None, pts, style=G.style()))
    return ops


def is_number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def valid1(x):
    return isinstance(x, list) and len(x) > 0 and all(is_number(v) and math.isfinite(v) for v in x)


def valid2(x):
    return isinstance(x, list) and len(x) > 0 and all(valid1(row) for row in x) and len({len(row) for row in x}) == 1


def reports(ck, obj, name, dim):
    ck.true(type(obj).__name__ == name, f'the object is a {type(obj).__name__}, not a {name}')
    ck.true(obj.dimension == dim and not isinstance(obj.dimension, bool), f'dimension is {obj.dimension!r}, expected {dim}')


def keeps(ck, got, want, what, name):
    ck.true(type(got).__name__ == name, f'{what} is a {type(got).__name__}, not a {name}')
    g = np.asarray(got).tolist()
    ck.true(g == want, f'{what} is {g}, given {want}')
    dim = len(want[0]) if isinstance(want[0], list) else len(want)
    ck.true(got.dimension == dim, f'{what} has dimension {got.dimension!r}, expected {dim}')


@oracle('C09', 'Point', 'Vector')
def o_array1(op, out, ck):
    x = op.args[0]
    if not valid1(x):
        return ck.raised(out, why='the values are not a finite non-empty 1D array')
    keeps(ck, ck.returned(out), x, op.fn, op.fn)
    return 'value'


@oracle('C09', 'Points')
def o_array2(op, out, ck):
    x = op.args[0]
    if not valid2(x):
        return ck.raised(out, why='the values are not a finite non-empty 2D array')
    keeps(ck, ck.returned(out), x, 'Points', 'Points')
    return 'value'


@oracle('C09', 'Line', 'Plane')
def o_line_plane(op, out, ck):
    p, v = op.args
    if not (valid1(p) and valid1(v)):
        return ck.raised(out, why='an argument is invalid')
    if len(p) != len(v):
        return ck.raised(out, why='the dimensions differ')
    if not any(v):
        return ck.raised(out, why='the direction is zero')
    obj = ck.returned(out)
    reports(ck, obj, op.fn, len(p))
    keeps(ck, obj.point, p, 'point', 'Point')
    keeps(ck, obj.vector, v, 'vector', 'Vector')
    keeps(ck, obj.direction if op.fn == 'Line' else obj.normal, v, 'direction or normal', 'Vector')
    return 'value'


@oracle('C09', 'LineSegment')
def o_segment(op, out, ck):
    a, b = op.args
    if not (valid1(a) and valid1(b)):
        return ck.raised(out, why='an argument is invalid')
    if len(a) != len(b):
        return ck.raised(out, why='the dimensions differ')
    if a == b:
        return ck.raised(out, why='the endpoints are equal')
    rel = [abs(x - y) / max(abs(x), abs(y)) if x != y else 0.0 for x, y in zip(map(float, a), map(float, b))]
    if max(rel) < 0.999e-9:
        return ck.raised(out, why='the endpoints are equal up to 1e-9')
    if max(rel) < 1.001e-9:
        raise Skip('at the tolerance')
    obj = ck.returned(out)
    reports(ck, obj, op.fn, len(a))
    keeps(ck, obj.point_a, a, 'point_a', 'Point')
    keeps(ck, obj.point_b, b, 'point_b', 'Point')
    return 'value'


@oracle('C09', 'Circle', 'Sphere')
def o_round(op, out, ck):
    c, rad = op.args
    dim = 2 if op.fn == 'Circle' else 3
    if not valid1(c) or len(c) != dim:
        return ck.raised(out, why='the centre is invalid')
    if not rad > 0:
        return ck.raised(out, why='the radius is not positive')
    obj = ck.returned(out)
    reports(ck, obj, op.fn, dim)
    keeps(ck, obj.point, c, 'point', 'Point')
    ck.true(obj.radius == rad, f'radius is {obj.radius!r}, given {rad!r}')
    return 'value'


@oracle('C09', 'Cylinder')
def o_cylinder(op, out, ck):
    c, v, rad = op.args
    if not valid1(c) or len(c) != 3 or not valid1(v) or len(v) != 3:
        return ck.raised(out, why='the point or axis is invalid')
    if not any(v):
        return ck.raised(out, why='the axis is zero')
    if not rad > 0:
        return ck.raised(out, why='the radius is not positive')
    obj = ck.returned(out)
    reports(ck, obj, op.fn, 3)
    keeps(ck, obj.point, c, 'point', 'Point')
    keeps(ck, obj.vector, v, 'vector', 'Vector')
    ck.true(obj.radius == rad, f'radius is {obj.radius!r}, given {rad!r}')
    return 'value'


@oracle('C09', 'Cylinder.from_points')
def o_cylinder_from_points(op, out, ck):
    a, b, rad = op.args
    if not (valid1(a) and valid1(b)):
        if np.size(b) == 1 or np.size(a) == 1 or np.ndim(a) > 1 or np.ndim(b) > 1:
            raise Skip('broadcast')
        return ck.raised(out, why='a point is invalid')
    if len(a) != 3 or len(b) != 3:
        if len(a) != len(b) and 1 in (len(a), len(b)):
            raise Skip('broadcast')
        return ck.raised(out, why='the points are not 3D')
    if a == b:
        return ck.raised(out, why='the points are equal')
    if not rad > 0:
        return ck.raised(out, why='the radius is not positive')
    obj = ck.returned(out)
    reports(ck, obj, 'Cylinder', 3)
    keeps(ck, obj.point, a, 'point', 'Point')
    ck.true(obj.radius == rad, f'radius is {obj.radius!r}, given {rad!r}')
    return 'value'


def decide_triangle(pts):
    """True if three finite points of equal dimension span a plane, or Skip if that is lost in rounding."""
    rows = ex.qm(pts)
    k = exact_rank(rows)
    if k < 2:
        if len({tuple(p) for p in rows}) == 3 and not ex.simple([x for p in rows for x in p], 20):
            raise Skip('collinear up to rounding')
        return False
    s = singular_values(rows)
    if s[1] < 1e-11 * s[0]:
        raise Skip('almost collinear')
    return True


@oracle('C09', 'Triangle')
def o_triangle(op, out, ck):
    if not all(map(valid1, op.args)):
        return ck.raised(out, why='an argument is invalid')
    if len({len(p) for p in op.args}) != 1:
        return ck.raised(out, why='the dimensions differ')
    if not decide_triangle(op.args):
        return ck.raised(out, why='the vertices are collinear')
    obj = ck.returned(out)
    reports(ck, obj, op.fn, len(op.args[0]))
    for name, p in zip('abc', op.args):
        keeps(ck, getattr(obj, 'point_' + name), p, 'point_' + name, 'Point')
    return 'value'


prop('C09', {'construct_arrays': 1, 'construct_objects': 2}, 60000, 1000000,
     'A case constructs every class from random definitions, each argument valid or invalid in one of many ways (empty, nested, scalar, NaN or '
     'infinite in any position, mismatched dimension, zero vector, non-positive or NaN radius, equal endpoints, collinear vertices); acceptance '
     'and the values the object reports are compared with the definition. Non-trivial: the event got a verdict; distinct: by operation, arguments and representation.',
     required=list(CLASSES))
