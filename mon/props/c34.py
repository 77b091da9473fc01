"""C34: the message of an error tells the truth about the operands."""
import numbers

import numpy as np

from .. import exact as ex
from ..core import CLASSES, Executor, Skip
from ..exact import F
from ..registry import gen, prop
from ..core import Op
from .c03_05 import decide_parallel
from .c06_08 import decide_rank, isclose_exact
from .c10 import all_workloads
from . import c11, c12, c13, c23, c25, c26, c27, c28, c29, c30  # noqa: F401

ARRAYS = ('Point', 'Vector', 'Points')


class Unjudged(Exception):
    pass


def array(x):
    """An operand as an array of numbers."""
    while isinstance(x, tuple) and x and isinstance(x[0], str):
        if x[0] not in ARRAYS:
            raise Unjudged('not an array')
        x = x[1]
    try:
        a = np.array(x)
    except ValueError:
        raise Unjudged('ragged') from None
    if a.dtype.kind not in 'iufb':
        raise Unjudged('not numbers')
    return a


def exactly(x):
    a = array(x)
    if not np.isfinite(a).all() or a.size and np.abs(a.astype(float)).max() > 1e100:
        raise Unjudged('not finite or vast')
    return ex.qv(a.tolist()) if a.ndim == 1 else ex.qm(a.tolist())


def parts(spec):
    """The arrays that define an operand."""
    if isinstance(spec, tuple) and spec and isinstance(spec[0], str):
        if spec[0] in ARRAYS:
            yield array(spec)
        elif spec[0] in CLASSES:
            for s in spec[1:]:
                if not isinstance(s, numbers.Number):
                    yield array(s)
    elif isinstance(spec, (list, tuple)):
        yield array(spec)


def every(op):
    out = []
    for s in (op.recv, *op.args, *(v for k, v in op.kw.items() if k.startswith(('p', 'v', 'o', 'd', 'n')))):
        out += parts(s)
    return out


def dims(op):
    return [a.shape[-1] for a in every(op) if a.ndim]


def given(op, i, *names):
    """An argument by position or by name."""
    if len(op.args) > i:
        return op.args[i]
    for n in names:
        if n in op.kw:
            return op.kw[n]
    raise Unjudged('argument left out')


def zero(v, kw=None):
    """True if a vector is zero to the tolerance of the caller, as documented by the squared norm."""
    kw = kw or {}
    s = ex.n2(v)
    if s == 0:
        return True
    if s < F(1, 10**280):
        raise Unjudged('underflow')
    if kw.get('rel_tol', 0) >= 1:
        return True
    t = kw.get('abs_tol', 0)
    if abs(s - F(t)) <= F(1, 10**9) * F(t):
        raise Unjudged('at the tolerance')
    return s <= t


def tolerances(op):
    return {k: v for k, v in op.kw.items() if k in ('rel_tol', 'abs_tol')}


def vec(spec):
    """The direction or normal of a line or plane."""
    if not (isinstance(spec, tuple) and spec[0] in ('Line', 'Plane', 'Cylinder')):
        raise Unjudged('not a line or plane')
    return exactly(spec[2])


def parallel(a, b, kw):
    if len(a) != len(b):
        raise Unjudged('dimensions')
    if zero(a, kw) or zero(b, kw):
        return True
    return decide_parallel(a, b, kw)


def zero_vector(op):
    kw = tolerances(op)
    if op.fn in ('Line', 'Plane'):
        return zero(exactly(given(op, 1, 'direction', 'normal')), kw)
    if op.fn == 'Cylinder':
        return zero(exactly(given(op, 1, 'vector')))
    if op.fn in ('Line.from_points', 'Cylinder.from_points'):
        return zero(ex.sub(exactly(given(op, 1, 'point_b')), exactly(given(op, 0, 'point_a'))))
    if op.fn in ('Vector.different_direction', 'Vector.project_vector'):
        return zero(exactly(op.recv), kw)
    raise Unjudged('indirect')


def point_set(op):
    if op.fn.endswith('.best_fit'):
        return exactly(given(op, 0, 'points'))
    if op.fn in ('Triangle', 'Plane.from_points', 'Circle.from_points'):
        return [exactly(given(op, i, n)) for i, n in enumerate(('point_a', 'point_b', 'point_c'))]
    raise Unjudged('indirect')


def rank(op):
    return decide_rank(point_set(op), {k: v for k, v in op.kw.items() if k == 'tol'})


def normal_dot(op):
    """The product of the normal of a plane and the direction of a line is zero up to the tolerance and rounding."""
    n, d = vec(op.recv), vec(given(op, 0, 'line'))
    kw = tolerances(op)
    if len(n) != len(d):
        raise Unjudged('dimensions')
    if kw.get('rel_tol', 0) >= 1:
        return True
    return abs(ex.dot(n, d)) <= F(kw.get('abs_tol', 0)) * F(1000001, 1000000) + F(1, 10**13) * sum(abs(x * y) for x, y in zip(n, d))


def lines_parallel(op):
    if op.fn == 'Line.intersect_line':
        return parallel(vec(op.recv), vec(given(op, 0, 'other')), tolerances(op))
    if op.fn == 'LineSegment.intersect_line_segment':
        s, o = op.recv, given(op, 0, 'other')
        return parallel(ex.sub(exactly(s[2]), exactly(s[1])), ex.sub(exactly(o[2]), exactly(o[1])), tolerances(op))
    raise Unjudged('indirect')


def lines_skew(op):
    if op.fn != 'Line.intersect_line':
        raise Unjudged('indirect')
    o = given(op, 0, 'other')
    a, d, b, e = (exactly(x) for x in (op.recv[1], op.recv[2], o[1], o[2]))
    if not ex.simple([*a, *d, *b, *e], 10):
        raise Unjudged('rounding')
    return ex.rank([d, e, ex.sub(b, a)]) == 3


def circles(op):
    o = given(op, 0, 'other')
    a, b = exactly(op.recv[1]), exactly(o[1])
    r, s = ex.q(op.recv[2]), ex.q(o[2])
    return ex.n2(ex.sub(a, b)), r, s


SLACK = F(1, 10**11)


def separate(op):
    d2, r, s = circles(op)
    return d2 >= (r + s) ** 2 * (1 - SLACK)


def contained(op):
    d2, r, s = circles(op)
    return d2 <= (r - s) ** 2 + SLACK * (r + s) ** 2


def coincident(op):
    d2, r, s = circles(op)
    if 0 < d2 < F(1, 10**280):
        raise Unjudged('underflow')
    return d2 == 0


def misses(op):
    line = given(op, 0, 'line')
    a, d, c = exactly(line[1]), vec(line), exactly(op.recv[1])
    if not len(a) == len(d) == len(c):
        raise Unjudged('dimensions')
    r2 = ex.q(op.recv[2]) ** 2
    gap = ex.n2(ex.sub(ex.foot_line(a, d, c), c))
    return gap >= r2 - SLACK * (r2 + ex.n2(ex.sub(a, c)))


def radius(op):
    r = given(op, 2 if op.fn.startswith('Cylinder') else 1, 'radius')
    if not isinstance(r, (int, float)):
        raise Unjudged('not a number')
    return not r > 0


def few(n):
    def claim(op):
        if op.fn == 'measurement.area_signed' or op.fn.endswith('.best_fit'):
            return len(array(given(op, 0, 'points'))) < n
        raise Unjudged('indirect')
    return claim


def not_dim(n):
    return lambda op: any(d != n for d in dims(op))


AXES = {'Point': 1, 'Vector': 1, 'Points': 1, 'Circle': 1, 'Sphere': 1, 'Triangle': 3}


def not_axes(n):
    def claim(op):
        if any(isinstance(a, numbers.Number) for a in op.args[:AXES.get(op.fn, 2)]) and op.fn in (*CLASSES, *ARRAYS):
            return True
        if op.fn in ARRAYS[:2] or n == 1 and op.fn in CLASSES:
            return any(a.ndim != n for a in every(op))
        if n == 2 and (op.fn == 'Points' or op.fn.endswith('.best_fit') or op.fn == 'measurement.area_signed'):
            return any(a.ndim != n for a in every(op))
        raise Unjudged('indirect')
    return claim


def positive_direction(op):
    a, b, d = exactly(op.recv), exactly(given(op, 0, 'other')), exactly(given(op, 1, 'direction_positive'))
    c = ex.cross(a, b)
    if ex.n2(c) <= F(1, 10**18) * ex.n2(a) * ex.n2(b) or ex.n2(d) == 0:
        raise Unjudged('nearly parallel vectors')
    return ex.sin2_num(c, d) > 0


def not_in(letters):
    return lambda op: given(op, 0, 'vertex', 'side') not in letters


def same_object(cls):
    def claim(op):
        o = given(op, 0, 'other')
        return not (isinstance(o, tuple) and o and o[0] == (cls or op.recv[0]))
    return claim


def dimension_of(spec):
    d = {a.shape[-1] for a in parts(spec) if a.ndim}
    if len(d) != 1:
        raise Unjudged('dimensions')
    return d.pop()


def plotted(op):
    if op.fn != 'act.plotter':
        raise Unjudged('indirect')
    return op.args[0]


def endpoints(op):
    if op.fn != 'LineSegment':
        raise Unjudged('indirect')
    a, b = exactly(given(op, 0, 'point_a')), exactly(given(op, 1, 'point_b'))
    if len(a) != len(b):
        raise Unjudged('dimensions')
    return all(isclose_exact(x, y, {}) for x, y in zip(a, b))


def finite(op):
    arrays = every(op)
    if any(a.size and np.isfinite(a).any() and np.abs(a[np.isfinite(a)].astype(float)).max() > 1e100 for a in arrays):
        raise Unjudged('vast')
    values = [v for v in (*op.args, *op.kw.values()) if isinstance(v, (int, float))]
    return not all(np.isfinite(a).all() for a in arrays) or not all(np.isfinite(float(v)) for v in values)


def all_zero(v):
    s = ex.n2(v)
    if 0 < s < F(1, 10**280):
        raise Unjudged('underflow')
    return s == 0


VERTEX, SIDE = ('A', 'B', 'C'), ('a', 'b', 'c')
CLAIMS = {
    'The array must not be empty.': lambda op: any(a.size == 0 for a in every(op)),
    'The values must all be finite.': finite,
    'The array must be 1D.': not_axes(1),
    'The array must be 2D.': not_axes(2),
    'The desired dimension cannot be less than the current dimension.': lambda op: dimension_of(op.recv) > given(op, 0, 'dim') if op.fn.endswith('.set_dimension') else max(dims(op)) > 3,
    'The point and vector must have the same dimension.': lambda op: len(set(dims(op))) > 1,
    'The points must have the same dimension.': lambda op: len(set(dims(op))) > 1,
    'The endpoints must have the same dimension.': lambda op: len(set(dims(op))) > 1,
    'The lines must have the same dimension.': lambda op: len(set(dims(op))) > 1,
    'The line dimension cannot be greater than 3.': lambda op: max(dims(op)) > 3,
    'The plane dimension must be <= 3.': lambda op: max(dims(op)) > 3,
    'The vectors must be 2D.': not_dim(2), 'The vectors must be 3D.': not_dim(3), 'The point must be 2D.': not_dim(2), 'The point must be 3D.': not_dim(3),
    'The points must be 2D.': not_dim(2), 'The points must be 3D.': not_dim(3), 'The vector must be 3D.': not_dim(3), 'The line must be 3D.': not_dim(3),
    'The vector must not be the zero vector.': zero_vector,
    'The magnitude must not be zero.': lambda op: all_zero(exactly(op.recv)) if op.fn in ('Vector.unit', 'Vector.scalar_projection') else unjudged(),
    'The vectors must have non-zero magnitudes.': lambda op: any(all_zero(exactly(v)) for v in (op.recv, given(op, 0, 'other'))) if op.fn.startswith('Vector.') else unjudged(),
    'The positive direction vector must be perpendicular to the plane formed by the two main input vectors.': positive_direction,
    'The points must not all be at the origin.': lambda op: all(all_zero(row) for row in exactly(op.recv)),
    'The points must not be concurrent.': lambda op: rank(op) == 0,
    'The points must not be collinear.': lambda op: rank(op) <= 1,
    'The points must not be coplanar.': lambda op: rank(op) <= 2,
    'The points must not be in a plane.': lambda op: rank(op) <= 2,
    'There must be at least 3 points.': few(3), 'There must be at least 4 points.': few(4), 'There must be at least 6 points.': few(6),
    'The vectors must not be parallel.': lambda op: parallel(exactly(given(op, 1, 'vector_a')), exactly(given(op, 2, 'vector_b')), tolerances(op)) if op.fn == 'Plane.from_vectors' else unjudged(),
    'The lines must not be parallel.': lines_parallel,
    'The lines must be coplanar.': lines_skew,
    'The planes must not be parallel.': lambda op: parallel(vec(op.recv), vec(given(op, 0, 'other')), tolerances(op)),
    'The line and plane must not be parallel.': normal_dot,
    'The line and plane must not be perpendicular.': lambda op: parallel(vec(op.recv), vec(given(op, 0, 'line')), tolerances(op)),
    'The line does not intersect the circle.': misses,
    'The line does not intersect the sphere.': misses,
    'The centres of the circles are coincident.': coincident,
    'The circles do not intersect. These circles are separate.': separate,
    'The circles do not intersect. One circle is contained within the other.': contained,
    'The point must not be the center of the circle or sphere.': lambda op: exactly(op.recv[1]) == exactly(given(op, 0, 'point')),
    'The radius must be positive.': radius,
    'The endpoints must not be equal.': endpoints,
    "The vertex must be 'A', 'B', or 'C'.": not_in(VERTEX),
    "The side must be 'a', 'b', or 'c'.": not_in(SIDE),
    'The input must also be a line.': same_object('Line'),
    'The input must have the same type as the object.': same_object(None),
    'The dimension must be 2 or 3.': lambda op: dimension_of(plotted(op)) not in (2, 3),
    'The object cannot be plotted in 2D.': lambda op: dimension_of(plotted(op)) == 2 and plotted(op)[0] in ('Plane', 'Sphere', 'Cylinder'),
    'The object cannot be plotted in 3D.': lambda op: dimension_of(plotted(op)) == 3 and plotted(op)[0] == 'Circle',
    'Axis must be instance of class Axes3D.': lambda op: any(isinstance(a, tuple) and a[0] == 'Axes2D' for a in op.args),
}
TYPE_ERRORS = ('The input must also be a line.', 'The input must have the same type as the object.')


def unjudged():
    raise Unjudged('indirect')


class TruthMonitor:
    """Decides the claim of each error message from the operands, exactly."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            if op.fn in ('act.raised', 'plotting.plot_2d', 'plotting.plot_3d'):
                continue
            try:
                out = self.executor.run(op)
            except Exception as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            if out.ok:
                continue
            text = str(out.exc)
            claim = CLAIMS.get(text)
            if claim is None:
                st.count('errors with other messages')
                continue
            try:
                true = claim(op)
            except (Unjudged, Skip) as why:
                st.event(text, 'skipped')
                st.skip(text, str(why))
                continue
            if not true:
                yield op, f'raised {type(out.exc).__name__} ({text}), which is not so'
                continue
            if not isinstance(out.exc, TypeError if text in TYPE_ERRORS else ValueError):
                yield op, f'raised {type(out.exc).__name__} with the message {text!r}'
                continue
            st.event(text, 'true')
            st.distinct(op)
            st.signature(op.fn, text)
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {text}'[:600])

    def finish(self):
        pass


@gen('refused')
def g_refused(G, r):
    """Operations with exactly one reason to be refused."""
    n = r.choice((2, 3, 4, 5))
    p, v = G.point(n), G.vec(n)
    other = r.choice([k for k in (1, 2, 3, 4, 5, 6) if k != n])
    q, w = G.point(other), G.vec(other)
    p2, v2, p3, v3, x3 = G.point(2), G.vec(2), G.point(3), G.vec(3), G.vec(3)
    rad = G.radius()
    far = [a + b * (3 * rad + 1) for a, b in zip(p2, r.choice(([1, 0], [0, 1], [-1, 0], [1, -1])))]
    row3 = [[a + k * b for a, b in zip(p3, v3)] for k in range(r.choice((6, 7, 9)))]
    row2 = [[a + k * b for a, b in zip(p2, v2)] for k in range(r.choice((4, 5, 9)))]
    flat = [[*G.point(2), 1] for _ in range(r.choice((6, 8)))]
    tri = [G.point(n) for _ in range(3)]
    ops = [Op('Line', None, [p, w]), Op('Plane', None, [p, w]), Op('LineSegment', None, [p, q]), Op('Triangle', None, [p, q, tri[0]]), Op('Line', None, [p, [0] * n]), Op('Line.from_points', None, [p, p]),
           Op('LineSegment', None, [p, list(p)]), Op('Circle', None, [p2, r.choice((0, -rad))]), Op('Circle', None, [p3, rad]), Op('Sphere', None, [p2, rad]), Op('Sphere', None, [p3, -rad]),
           Op('Cylinder', None, [p3, v3, 0]), Op('Cylinder', None, [p3, [0, 0, 0], rad]), Op('Cylinder', None, [p2, v3, rad]), Op('Cylinder', None, [p3, v2, rad]),
           Op('Circle.best_fit', None, [row2]), Op('Circle.best_fit', None, [row3]), Op('Circle.best_fit', None, [row2[:2]]), Op('Sphere.best_fit', None, [flat]), Op('Sphere.best_fit', None, [row2]),
           Op('Sphere.best_fit', None, [flat[:3]]), Op('Cylinder.best_fit', None, [flat]), Op('Cylinder.best_fit', None, [flat[:5]]), Op('Plane.best_fit', None, [row3]), Op('Plane.best_fit', None, [row2]),
           Op('Line.best_fit', None, [[p, p, p]]), Op('measurement.area_signed', None, [row2[:2]]), Op('measurement.area_signed', None, [row3]),
           Op('Circle.intersect_circle', ('Circle', p2, rad), [('Circle', far, rad)]), Op('Circle.intersect_circle', ('Circle', p2, rad), [('Circle', p2, 2 * rad)]),
           Op('Circle.intersect_circle', ('Circle', p2, rad * 8), [('Circle', [p2[0] + rad, p2[1]], rad)]), Op('Circle.intersect_circle', ('Circle', p2, rad), [('Circle', [p2[0] + rad, p2[1]], rad * 8)]),
           Op('Circle.intersect_line', ('Circle', p2, rad), [('Line', [p2[0] + 2 * rad, p2[1]], [0, 1])]), Op('Sphere.intersect_line', ('Sphere', p3, rad), [('Line', [p3[0] - 3 * rad, p3[1], p3[2]], [0, 1, 1])]),
           Op('Circle.project_point', ('Circle', p2, rad), [p2]), Op('Sphere.project_point', ('Sphere', p3, rad), [p3]), Op('Cylinder.intersect_line', ('Cylinder', p3, v3, rad), [('Line', p2, v2)]),
           Op('Line.intersect_line', ('Line', p2, v2), [('Line', far, [-2 * x for x in v2])]), Op('Line.intersect_line', ('Line', p2, v2), [('Line', p3, v3)]),
           Op('Line.intersect_line', ('Line', [*p3, 0], [*v3, 1]), [('Line', [*p3, 1], [*v3, 2])]), Op('Line.intersect_line', ('Line', [0, 0, r.randint(1, 9)], [1, 0, 0]), [('Line', [0, 0, 0], [r.randint(-5, 5), 1, 0])]),
           Op('Plane.intersect_plane', ('Plane', p3, v3), [('Plane', G.point(3), [-x for x in v3])]), Op('Plane.intersect_line', ('Plane', p3, [1, 0, 0]), [('Line', G.point(3), [0, *v2])]),
           Op('Plane.project_line', ('Plane', p3, v3), [('Line', G.point(3), [2 * x for x in v3])]), Op('Plane.from_vectors', None, [p3, v3, [-x for x in v3]]), Op('Plane.from_points', None, row3[:3]),
           Op('Plane.cartesian', ('Plane', [*p3, 0], [*v3, 0])), Op('Triangle', None, row3[:3]), Op('Circle.from_points', None, row2[:3]), Op('Circle.from_points', None, row3[:3]),
           Op('Vector.unit', ('Vector', [0] * n)), Op('Vector.cosine_similarity', ('Vector', v), [[0] * n]), Op('Vector.angle_between', ('Vector', [0.0] * n), [v]), Op('Vector.scalar_projection', ('Vector', [0] * n), [v]),
           Op('Vector.project_vector', ('Vector', [0] * n), [v]), Op('Vector.different_direction', ('Vector', [0] * n)), Op('Vector.angle_signed', ('Vector', v3), [x3]), Op('Vector.side_vector', ('Vector', v2), [v3]),
           Op('Vector.angle_signed_3d', ('Vector', v2), [v2, v2]), Op('Vector.angle_signed_3d', ('Vector', [1, 0, 0]), [[r.randint(-4, 4), r.choice((-2, 1, 3)), 0], [r.choice((-1, 2)), 0, 1]]),
           Op('Vector.cross', ('Vector', [*v3, 1]), [v3]), Op('Vector.cross', ('Vector', v3), [[*v3, 1]]), Op('Points.normalize_distance', ('Points', [[0] * n, [0.0] * n])),
           Op('Point.set_dimension', ('Point', p), [r.randint(0, n - 1)]), Op('Points.set_dimension', ('Points', [p, p]), [r.randint(0, n - 1)]), Op('Triangle.angle', ('Triangle', [0, 0], [1, 0], [0, 1]), [r.choice(('a', 'D', ''))]),
           Op('Triangle.line', ('Triangle', [0, 0], [1, 0], [0, 1]), [r.choice(('A', 'd'))]), Op('Triangle.point', ('Triangle', [0, 0], [1, 0], [0, 1]), ['b']), Op('Triangle.altitude', ('Triangle', [0, 0], [1, 0], [0, 1]), ['c']),
           Op('Line.is_coplanar', ('Line', p3, v3), [('Plane', p3, v3)]), Op('Line.is_close', ('Line', p3, v3), [('Plane', p3, v3)]), Op('Plane.is_close', ('Plane', p3, v3), [('Line', p3, v3)]),
           Op('Point', None, [[]]), Op('Points', None, [[p, [float('nan')] * n]]), Op('Vector', None, [[float('inf'), 0]]), Op('Point', None, [[p, p]]), Op('Points', None, [p]), Op('Points', None, [[[p]]]),
           Op('act.plotter', None, [('Point', [1, 2, 3, 4]), {}]), Op('act.plotter', None, [('Vector', [1]), {}]), Op('act.plotter', None, [('Plane', p2, v2), {}])]
    return [op.copy(style=G.style(0.3) if op.fn not in CLASSES else 0) for op in r.sample(ops, 10)]


prop('C34', all_workloads(refused=16, every_operation=10, every_operation_nasty=10, histories=0, frames=0, frames_geometry=0, threads=0, mutations=0, imports=0, computations=0, plots_blocked=0, plots=0, growth=0, sized=0,
                          wide=0, default_calls=0, fit_cylinder=0.1), 60000, 1500000,
     'A case is a case of any workload or operations with one reason to be refused. Of each error whose message is documented, the statement the message makes about the operands is decided from the operands in exact '
     'arithmetic, and so is the class of the error. Non-trivial: the statement was decided; distinct: by operation, operands and representation.',
     monitor=TruthMonitor, technique='runtime monitoring: the statement of every error message decided in exact arithmetic',
     required=sorted(set(CLAIMS) - {'The object cannot be plotted in 3D.', 'The vectors must not be parallel.', 'Axis must be instance of class Axes3D.'}), minimum=20,
     assumptions=['Messages about intersections of segments and cylinders are decided by C03 and C05; messages that are not documented are not judged.'])
