"""C30: computed results are independent of their operands."""
import numpy as np

from ..core import CLASSES, Executor, Op
from ..registry import gen, prop
from ..values import ours, public, structure
from .c10 import all_workloads
from . import c11, c12, c13, c23, c25, c26, c27, c28, c29  # noqa: F401

# Parts of the object itself and objects defined by given points and vectors; these may share memory with what they are made from.
PARTS = {'Triangle.point', 'act.view', 'act.element', 'act.iterate', 'act.reshape', 'act.attributes', 'act.reduce', 'act.numpy_call', 'act.copy'}
MADE_OF = {*CLASSES, 'Line.from_points', 'Plane.from_points', 'Plane.from_vectors', 'Cylinder.from_points', 'Triangle.line', 'Triangle.altitude', 'Triangle.multiple', 'Plane.project_line'}
OTHER = 73


def scramble(x, seen):
    """Change every number that a caller can change in a value; returns how many containers were changed."""
    if id(x) in seen:
        return 0
    seen[id(x)] = x
    if isinstance(x, np.ndarray):
        if not x.flags.writeable or not x.size:
            return 0
        try:
            np.ndarray.fill(x, OTHER)
        except (TypeError, ValueError):
            return 0
        return 1
    if isinstance(x, list):
        n = sum(scramble(v, seen) for v in x)
        if x and all(isinstance(v, (int, float, np.number)) for v in x):
            x[:] = [OTHER] * len(x)
            return 1
        return n
    if isinstance(x, (tuple, dict)):
        return sum(scramble(v, seen) for v in (x.values() if isinstance(x, dict) else x))
    if ours(x):
        n = sum(scramble(v, seen) for v in public(x).values())
        if isinstance(getattr(x, 'radius', None), (int, float, np.number)):
            x.radius = OTHER
            n += 1
        return n
    return 0


def entangled(value):
    """Write a different number into every element of the arrays of a result and read them all back; a message if one is not the one written."""
    # One point may be returned twice, as the two points of a line that touches a cylinder.
    arrays = {id(a): a for a in (value if isinstance(value, tuple) else (value,)) if isinstance(a, np.ndarray) and a.flags.writeable and a.size > 1}
    arrays = list(arrays.values())
    wanted, k = [], 0
    for a in arrays:
        own = []
        for i in np.ndindex(a.shape):
            k += 1
            np.ndarray.__setitem__(a, i, k)
            own.append(k)
        wanted.append(own)
    for n, (a, own) in enumerate(zip(arrays, wanted)):
        if np.asarray(a).ravel().tolist() != own:
            return f'elements of the result share memory: array {n} of shape {a.shape} reads {np.asarray(a).ravel().tolist()[:12]}... after {own[:12]}... were written'
    return None


class OwnershipMonitor:
    """Changes the operands after each call and looks at the result, and the other way round."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()

    def judge(self, op):
        out = self.executor.run(op, share=False)
        if not out.ok:
            return None, 'raised'
        operands = [out.recv, out.args, out.kw]
        before = repr(structure(out.value))
        n = scramble(operands, {})
        after = repr(structure(out.value))
        if before != after:
            return f'the result changed when the operands were changed: from {before[:500]} to {after[:500]}', None
        out = self.executor.run(op, share=False)
        operands = [out.recv, out.args, out.kw]
        before = repr(structure(operands))
        m = scramble(out.value, {})
        after = repr(structure(operands))
        if before != after:
            return f'the operands changed when the result was changed: from {before[:500]} to {after[:500]}', None
        if not op.fn.startswith('act.'):
            message = entangled(self.executor.run(op, share=False).value)
            if message:
                return message, None
        self.stats.count('operands changed', n)
        self.stats.count('results changed', m)
        return None, 'independent' if n and m else 'nothing to change'

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            if op.fn in PARTS or op.fn in MADE_OF or 'plot' in op.fn:
                continue
            try:
                message, verdict = self.judge(op)
            except (ValueError, TypeError) as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            if message:
                yield op, message
                continue
            st.event(op.fn, verdict)
            if verdict == 'independent':
                st.distinct(op)
            st.signature(op.fn, verdict)
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {verdict}'[:600])

    def finish(self):
        pass


@gen('trivial_results')
def g_trivial(G, r):
    """Computations whose result has the values of an operand."""
    n = G.dim()
    unit = [0] * n
    unit[r.randrange(n)] = r.choice((1, -1, 1.0))
    v, p = G.point(n), G.point(n)
    pts = sorted(G.points(r.choice((1, 2, 4)), n))
    pts = [x for i, x in enumerate(pts) if not i or x != pts[i - 1]]
    v = v if any(v) else unit
    whole = [float(round(x)) for x in p]
    zero = [0] * n
    centred = pts + [[-x for x in row] for row in pts]
    ops = [Op('Vector.unit', ('Vector', unit)), Op('Vector.project_vector', ('Vector', v), [v]), Op('Vector.project_vector', ('Vector', unit), [v]), Op('Line.project_vector', ('Line', p, v), [v]),
           Op('Line.project_vector', ('Line', p, unit), [unit]), Op('Line.project_point', ('Line', p, v), [p]), Op('Line.project_points', ('Line', p, v), [[p, p]]),
           Op('Plane.project_point', ('Plane', p, v), [p]), Op('Plane.project_points', ('Plane', p, v), [[p, p]]), Op('Plane.project_vector', ('Plane', p, v), [zero]),
           Op('Line.to_point', ('Line', p, v), [0]), Op('Point.set_dimension', ('Point', p), [n]), Op('Vector.set_dimension', ('Vector', v), [n]), Op('Points.set_dimension', ('Points', pts), [n]),
           Op('Point.round', ('Point', whole), []), Op('Points.round', ('Points', [whole, whole]), []), Op('Vector.round', ('Vector', v), [r.choice((0, 3, 15))]), Op('Points.unique', ('Points', pts)),
           Op('Points.mean_center', ('Points', centred)), Op('Points.normalize_distance', ('Points', [unit, zero])), Op('Points.centroid', ('Points', [p])), Op('Point.to_array', ('Point', p)),
           Op('Points.to_array', ('Points', pts)), Op('Vector.to_array', ('Vector', v)), Op('Vector.from_points', None, [zero, v]), Op('act.pos', None, [('Point', p)]),
           Op('act.mul', None, [('Vector', v), 1]), Op('act.add', None, [('Point', p), zero]), Op('act.copy_method', None, [('Points', pts)]), Op('act.deepcopy', None, [('Points', pts)]),
           Op('act.deepcopy', None, [('Line', p, v)]), Op('act.pickle', None, [('Plane', p, v), r.choice((2, 4, 5))]), Op('Vector.different_direction', ('Vector', v)),
           Op('transformation.transform_coordinates', None, [pts, zero, [[int(i == j) for j in range(n)] for i in range(n)]]), Op('Line.intersect_line', ('Line', p, v), [('Line', p, unit)])]
    if n == 2:
        ops += [Op('Circle.project_point', ('Circle', zero, 1), [unit]), Op('Vector.cross', ('Vector', v), [unit]), Op('Circle.intersect_line', ('Circle', zero, 1), [('Line', zero, unit)])]
    if n == 3:
        ops += [Op('Sphere.project_point', ('Sphere', zero, 1), [unit]), Op('Plane.intersect_line', ('Plane', p, v), [('Line', p, v)]), Op('Plane.cartesian', ('Plane', p, v)),
                Op('Plane.intersect_plane', ('Plane', p, [1, 0, 0]), [('Plane', p, [0, 1, 0])]), Op('Plane.to_mesh', ('Plane', p, v)), Op('Sphere.intersect_line', ('Sphere', zero, 1), [('Line', zero, unit)])]
    return [op.copy(style=G.style(0.5)) for op in r.sample(ops, 8)]


prop('C30', all_workloads(crowds=0.006, every_operation=10, trivial_results=20, histories=0, frames_geometry=0, frames=0, threads=0, mutations=0, imports=0, computations=0,
                          plots_blocked=0, plots=0, plots_recorded=0, growth=0, sized=0, wide=0, default_calls=0, fit_cylinder=0.03), 40000, 1000000,
     'A case is a case of any workload or computations whose result has the values of an operand. After each call every number of the operands is overwritten and the result compared with what it was; then the '
     'call is made again, every number of the result is overwritten and the operands are compared; and different numbers are written into all elements of the result and read back. Non-trivial: both the operands and the result had numbers to change; distinct: by operation, operands and representation.',
     monitor=OwnershipMonitor, technique='runtime monitoring: operands overwritten after each event, then results, and the other side compared',
     required=['Vector.unit', 'Line.project_point', 'Line.project_vector', 'Plane.project_point', 'Plane.project_points', 'Line.to_point', 'Point.set_dimension', 'Points.unique', 'Points.mean_center',
               'Points.normalize_distance', 'Point.round', 'Point.to_array', 'Vector.different_direction', 'Circle.project_point', 'Sphere.project_point', 'Plane.to_mesh', 'Plane.cartesian', 'act.deepcopy',
               'Triangle.centroid', 'Line.best_fit', 'Circle.best_fit', 'Line.intersect_line', 'transformation.transform_coordinates'])
