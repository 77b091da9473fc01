"""C11: results have the documented type, arrays keep their class under arithmetic, copies equal their originals."""
import operator

import numpy as np

from ..core import Executor, Violation, api
from ..registry import prop
from ..values import attributes, difference, equal_objects, public, snapshot
from .c10 import all_workloads


def real(x):
    return isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, (bool, np.bool_))


def floating(x):
    """The documentation says numpy.float64; it only says float for the signed area and the errors of fits."""
    return isinstance(x, np.float64)


def any_float(x):
    return isinstance(x, (float, np.floating))


def integer(x):
    return type(x) is int


def rank(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


def boolean(x):
    return type(x) is bool


def string(x):
    return isinstance(x, str)


def plain_1d(x):
    return isinstance(x, np.ndarray) and x.ndim == 1


def plain_2d(x):
    return isinstance(x, np.ndarray) and x.ndim == 2


def mesh(x):
    return isinstance(x, tuple) and len(x) == 3 and all(isinstance(m, np.ndarray) and m.ndim == 2 for m in x)


def four(x):
    return isinstance(x, tuple) and len(x) == 4 and all(map(real, x))


NAMES = {real: 'a number', floating: 'a numpy.float64', any_float: 'a float', integer: 'an int', rank: 'an integer', boolean: 'a bool', string: 'a string', plain_1d: 'a 1D array',
         plain_2d: 'a 2D array', mesh: 'three 2D arrays', four: 'a tuple of four numbers'}

PAIR = ('Point', 'Point')
TYPES = {
    'Point.distance_point': floating, 'Points.centroid': 'Point', 'Points.unique': 'Points', 'Points.normalize_distance': 'Points',
    'Points.affine_rank': rank, 'Points.are_concurrent': boolean, 'Points.are_collinear': boolean, 'Points.are_coplanar': boolean,
    'Vector.from_points': 'Vector', 'Vector.dot': real, 'Vector.norm': floating, 'Vector.unit': 'Vector', 'Vector.is_zero': boolean,
    'Vector.cross': 'Vector', 'Vector.cosine_similarity': floating, 'Vector.angle_between': floating, 'Vector.angle_signed': floating,
    'Vector.angle_signed_3d': floating, 'Vector.is_perpendicular': boolean, 'Vector.is_parallel': boolean, 'Vector.side_vector': integer,
    'Vector.scalar_projection': floating, 'Vector.project_vector': 'Vector', 'Vector.different_direction': 'Vector',
    'Line.from_points': 'Line', 'Line.from_slope': 'Line', 'Line.is_coplanar': boolean, 'Line.to_point': 'Point', 'Line.project_point': 'Point',
    'Line.project_points': 'Points', 'Line.project_vector': 'Vector', 'Line.side_point': integer, 'Line.distance_point': floating,
    'Line.distance_points': plain_1d, 'Line.distance_line': floating, 'Line.intersect_line': 'Point', 'Line.best_fit': 'Line',
    'Line.transform_points': plain_1d, 'Line.contains_point': boolean, 'Line.is_close': boolean, 'Line.sum_squares': floating,
    'LineSegment.contains_point': boolean, 'LineSegment.intersect_line_segment': 'Point',
    'Plane.from_vectors': 'Plane', 'Plane.from_points': 'Plane', 'Plane.cartesian': four, 'Plane.project_point': 'Point', 'Plane.project_points': 'Points',
    'Plane.project_vector': 'Vector', 'Plane.project_line': 'Line', 'Plane.distance_point_signed': floating, 'Plane.distance_points_signed': plain_1d,
    'Plane.distance_point': floating, 'Plane.distance_points': plain_1d, 'Plane.side_point': integer, 'Plane.intersect_line': 'Point',
    'Plane.intersect_plane': 'Line', 'Plane.best_fit': 'Plane', 'Plane.to_mesh': mesh, 'Plane.to_points': 'Points', 'Plane.contains_point': boolean,
    'Plane.is_close': boolean, 'Plane.sum_squares': floating,
    'Circle.from_points': 'Circle', 'Circle.circumference': floating, 'Circle.area': floating, 'Circle.intersect_circle': PAIR,
    'Circle.intersect_line': PAIR, 'Circle.best_fit': 'Circle', 'Circle.distance_point': floating, 'Circle.contains_point': boolean,
    'Circle.project_point': 'Point',
    'Sphere.surface_area': floating, 'Sphere.volume': floating, 'Sphere.intersect_line': PAIR, 'Sphere.best_fit': 'Sphere', 'Sphere.to_mesh': mesh,
    'Sphere.to_points': 'Points', 'Sphere.distance_point': floating, 'Sphere.contains_point': boolean, 'Sphere.project_point': 'Point',
    'Triangle.normal': 'Vector', 'Triangle.area': floating, 'Triangle.perimeter': floating, 'Triangle.point': 'Point', 'Triangle.line': 'Line',
    'Triangle.length': floating, 'Triangle.angle': floating, 'Triangle.centroid': 'Point', 'Triangle.altitude': 'Line', 'Triangle.orthocenter': 'Point',
    'Triangle.classify': string, 'Triangle.is_right': boolean,
    'Cylinder.from_points': 'Cylinder', 'Cylinder.length': floating, 'Cylinder.lateral_surface_area': floating, 'Cylinder.surface_area': floating,
    'Cylinder.volume': floating, 'Cylinder.is_point_within': boolean, 'Cylinder.intersect_line': PAIR, 'Cylinder.to_mesh': mesh,
    'Cylinder.to_points': 'Points', 'Cylinder.best_fit': 'Cylinder',
    'measurement.area_triangle': floating, 'measurement.volume_tetrahedron': floating, 'measurement.area_signed': any_float,
    'transformation.transform_coordinates': plain_2d,
    'Point.is_close': boolean, 'Point.is_equal': boolean, 'Vector.is_close': boolean, 'Vector.is_equal': boolean, 'Points.is_close': boolean,
    'Points.is_equal': boolean, 'Point.round': 'Point', 'Vector.round': 'Vector', 'Points.round': 'Points', 'Point.set_dimension': 'Point',
    'Vector.set_dimension': 'Vector', 'Points.set_dimension': 'Points', 'Point.to_array': plain_1d, 'Vector.to_array': plain_1d, 'Points.to_array': plain_2d,
    'act.text': string, 'act.plotter': boolean, 'act.string': string,
}
for c in ('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Plane', 'Circle', 'Sphere', 'Triangle', 'Cylinder'):
    TYPES[c] = c
ALWAYS_3D = ('Vector.cross', 'Plane.from_vectors', 'Plane.from_points', 'Plane.intersect_plane', 'Plane.best_fit', 'Triangle.normal', 'Plane.to_points',
             'Sphere.to_points', 'Cylinder.to_points', 'Line.from_slope')


def dim_of(spec):
    """Number of coordinates of the first array in a definition."""
    while isinstance(spec, (tuple, list)):
        if isinstance(spec, tuple):
            spec = spec[1]
        elif spec and isinstance(spec[0], (list, tuple)):
            spec = spec[0]
        else:
            return len(spec)
    return None


def expected_dim(op):
    if op.fn in ALWAYS_3D:
        return 2 if op.fn == 'Line.from_slope' else 3
    if op.fn.endswith('.set_dimension'):
        return op.args[0] if op.args else op.kw.get('dim')
    if op.fn in ('Plane.intersect_line', 'Plane.project_line'):
        return dim_of(op.args[0])
    return dim_of(op.recv if op.recv is not None else op.args[0] if op.args else None)


def check_object(x, name, dim, path='the result'):
    """An object of the library with consistent parts."""
    if type(x).__name__ != name or not type(x).__module__.startswith('skspatial'):
        raise Violation(f'{path} is {x!r} of type {type(x).__name__}, expected {name}')
    got = getattr(x, 'dimension', None)
    if isinstance(x, np.ndarray):
        shape = x.shape[-1] if x.ndim else None
        if x.ndim != (2 if name == 'Points' else 1):
            raise Violation(f'{path} has {x.ndim} dimensions of the array')
        if got != shape:
            raise Violation(f'{path}: dimension is {got!r}, the shape is {x.shape}')
        if not np.issubdtype(x.dtype, np.number):
            raise Violation(f'{path} has values of type {x.dtype}')
    if dim is not None and got != dim:
        raise Violation(f'{path}: dimension is {got!r}, expected {dim}')
    for k, v in public(x).items():
        if k in ('point', 'point_a', 'point_b', 'point_c'):
            check_object(v, 'Point', got, f'{path}.{k}')
        elif k in ('vector', 'direction', 'normal'):
            check_object(v, 'Vector', got, f'{path}.{k}')
        elif k == 'radius' and not (real(v) and v > 0):
            raise Violation(f'{path}.radius is {v!r}')


def check_type(x, want, dim):
    if isinstance(want, str):
        check_object(x, want, dim)
    elif isinstance(want, tuple):
        if not isinstance(x, tuple) or len(x) != len(want):
            raise Violation(f'the result is {x!r}, expected a tuple of {len(want)} {want[0]}s')
        for i, (v, w) in enumerate(zip(x, want)):
            check_object(v, w, dim, f'element {i} of the result')
    elif not want(x):
        raise Violation(f'the result is {x!r} of type {type(x).__name__}, expected {NAMES[want]}')


BINARY = ('act.add', 'act.sub', 'act.mul', 'act.truediv', 'act.floordiv', 'act.mod', 'act.pow')
UNARY = ('act.neg', 'act.abs', 'act.pos')
PLAIN = {'add': np.add, 'sub': np.subtract, 'mul': np.multiply, 'truediv': np.true_divide, 'floordiv': np.floor_divide, 'mod': np.mod, 'pow': operator.pow,
         'neg': np.negative, 'abs': np.abs, 'pos': np.positive}


def check_arithmetic(op, out):
    """Values as NumPy computes them on plain arrays; class of the first library operand if the result has as many axes."""
    name = op.fn[4:]
    operands = out.args
    if op.fn == 'act.ufunc':
        f, operands = getattr(np, operands[1]), operands[:1]
    else:
        f = PLAIN[name]
    plain = [np.array(x) if isinstance(x, (np.ndarray, list, tuple)) else x for x in operands]
    with np.errstate(all='ignore'):
        try:
            want = f(*plain)
        except Exception as error:
            if out.ok:
                raise Violation(f'returned {out.value!r} where NumPy raises {type(error).__name__}') from None
            return 'error'
    if not out.ok:
        raise Violation(f'raised {type(out.exc).__name__} ({out.exc}), NumPy gives {want!r}')
    got = out.value
    # NumPy may round powers and transcendental functions differently for another memory layout.
    rtol = 1e-14 if np.asarray(want).dtype.kind == 'f' else 0
    if np.asarray(got).shape != np.asarray(want).shape or not np.allclose(np.asarray(got), np.asarray(want), rtol=rtol, atol=0, equal_nan=True):
        raise Violation(f'returned {got!r}, NumPy gives {want!r}')
    if np.asarray(want).dtype.kind not in 'if' or not np.isfinite(want).all():
        return 'values only'
    ours = [x for x in operands if type(x).__module__.startswith('skspatial')]
    first = ours[0]
    if np.asarray(want).ndim != first.ndim or (len({type(x) for x in ours}) > 1 and any(isinstance(x, api('Points')) for x in ours)
                                                 and not isinstance(first, api('Points'))):
        return 'other shape'
    check_object(got, type(first).__name__, None)
    return 'same class'


PLAINLY = ('act.reduce', 'act.compare', 'act.element', 'act.iterate', 'act.numpy_call')


def check_plain(op, out):
    """Values, shape and type of numbers as NumPy gives them for plain arrays; the class is left open."""
    func = api(op.fn)
    plain = [np.asarray(x).view(np.ndarray) if isinstance(x, (np.ndarray, list, tuple)) else x for x in out.args]
    with np.errstate(all='ignore'):
        try:
            want = func(*plain)
        except Exception as error:
            if out.ok:
                raise Violation(f'returned {out.value!r} where NumPy raises {type(error).__name__}') from None
            return 'error'
    if not out.ok:
        raise Violation(f'raised {type(out.exc).__name__} ({out.exc}), NumPy gives {want!r}')
    a, b = np.asarray(out.value), np.asarray(want)
    rtol = 1e-14 if b.dtype.kind == 'f' else 0
    if a.shape != b.shape or a.dtype != b.dtype or not np.allclose(a, b, rtol=rtol, atol=0, equal_nan=True):
        raise Violation(f'returned {out.value!r}, NumPy gives {want!r}')
    if isinstance(want, list) and type(out.value) is not list:
        raise Violation(f'returned {out.value!r}, NumPy gives a list')
    return 'values'


def check_copy(op, out):
    if not out.ok:
        raise Violation(f'raised {type(out.exc).__name__}: {out.exc}')
    a, b = out.args[0], out.value
    if not equal_objects(a, b):
        d = difference(public_snapshot(a), public_snapshot(b), 'the copy compared with the original')
        raise Violation(d or f'the copy is {b!r}, the original {a!r}')
    check_object(b, op.args[0][0], getattr(a, 'dimension', None), 'the copy')
    if op.fn in ('act.deepcopy', 'act.pickle', 'act.copy_method'):
        from ..values import shares

        if shares(a, b):
            raise Violation('the copy shares memory with the original')
    return op.args[0][0]


def public_snapshot(x):
    return snapshot(x)[:7] + (attributes(x),) if isinstance(x, np.ndarray) else snapshot(x)


def check_mean_center(op, out):
    x = out.value
    if op.kw.get('return_centroid') or (op.args and op.args[0]):
        if not isinstance(x, tuple) or len(x) != 2:
            raise Violation(f'the result is {x!r}, expected the points and their centroid')
        check_object(x[0], 'Points', dim_of(op.recv), 'the points')
        check_object(x[1], 'Point', dim_of(op.recv), 'the centroid')
    else:
        check_object(x, 'Points', dim_of(op.recv))
    return 'type'


class TypeMonitor:
    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()

    def judge(self, op):
        out = self.executor.run(op)
        if op.fn in BINARY or op.fn in UNARY or op.fn == 'act.ufunc':
            return check_arithmetic(op, out)
        if op.fn in ('act.copy', 'act.deepcopy', 'act.pickle', 'act.view', 'act.copy_method'):
            return check_copy(op, out)
        if op.fn in PLAINLY:
            return check_plain(op, out)
        if not out.ok:
            return None
        if op.fn == 'Points.mean_center':
            return check_mean_center(op, out)
        if op.fn == 'Triangle.multiple':
            want = TYPES['Triangle.' + op.args[0]]
            if not isinstance(out.value, tuple) or len(out.value) != len(op.args[1]):
                raise Violation(f'the result is {out.value!r}, expected a tuple of {len(op.args[1])} values')
            for v in out.value:
                check_type(v, want, dim_of(op.recv) if isinstance(want, str) else None)
            return 'type'
        if op.fn not in TYPES:
            return None
        want = TYPES[op.fn]
        if op.fn.endswith('.best_fit') and op.kw.get('return_error'):
            if not isinstance(out.value, tuple) or len(out.value) != 2 or not any_float(out.value[1]):
                raise Violation(f'the result is {out.value!r}, expected an object and its error')
            out.value = out.value[0]
        check_type(out.value, want, expected_dim(op) if isinstance(want, (str, tuple)) else None)
        return 'type'

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            try:
                verdict = self.judge(op)
            except Violation as v:
                yield op, str(v)
                continue
            except Exception as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            if verdict is None:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, 'raised an error or has no documented type')
                continue
            st.event(op.fn, verdict)
            st.distinct(op)
            st.signature(op.fn, verdict, bool(op.style))
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {verdict}'[:600])

    def finish(self):
        pass


prop('C11', all_workloads(crowds=0.006, arithmetic=8, copies=6, plots_recorded=0, numpy_calls=1), 60000, 1500000,
     'A case is a case of any workload; the type, the dimension and the parts of every returned value are compared with the documented ones, arithmetic with '
     'plain NumPy arrays, copies and pickles with their originals. Non-trivial: the operation returned and has a documented type; distinct: by operation, operands and representation.',
     monitor=TypeMonitor, technique='runtime monitoring: type and protocol assertions on the result of every event',
     required=sorted(k for k in TYPES if k not in ('act.string',)) + ['act.add', 'act.sub', 'act.mul', 'act.truediv', 'act.neg', 'act.ufunc', 'act.copy',
                                                                      'act.deepcopy', 'act.pickle', 'act.view', 'act.reduce', 'act.compare', 'act.element', 'act.iterate', 'act.numpy_call', 'Triangle.multiple', 'Points.mean_center'],
     minimum=20, assumptions=['Mixed arithmetic of a Point and a Vector gives the class of the first of them, as NumPy defines.'])
