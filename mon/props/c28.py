"""C28: arguments can be given by position or by their documented name, and omitted ones have their documented defaults."""
from ..core import CLASSES, Executor, Op, Out
from ..registry import gen, prop
from ..values import recorded_outcome
from .actions_gen import any_object, plot_call
from .c10 import all_workloads
from . import c11, c12, c13, c23, c25, c26, c27  # noqa: F401

REQUIRED = object()
# The parameters of every public callable, in order, as the documentation states them.
TEXT = '''
Point.distance_point other
Point.is_equal other
Point.is_close other
Point.round decimals=0
Point.set_dimension dim
Point.plot_2d ax_2d
Point.plot_3d ax_3d
Points.is_equal other
Points.is_close other
Points.round decimals=0
Points.set_dimension dim
Points.mean_center return_centroid=False
Points.affine_rank
Points.are_collinear
Points.are_concurrent
Points.are_coplanar
Points.plot_2d ax_2d
Points.plot_3d ax_3d
Vector.from_points point_a point_b
Vector.is_equal other
Vector.is_close other
Vector.round decimals=0
Vector.set_dimension dim
Vector.norm
Vector.is_zero
Vector.angle_between other
Vector.angle_signed other
Vector.angle_signed_3d other direction_positive
Vector.cosine_similarity other
Vector.cross other
Vector.different_direction
Vector.is_parallel other
Vector.is_perpendicular other
Vector.project_vector other
Vector.scalar_projection other
Vector.side_vector other
Vector.plot_2d ax_2d point=[0,0] scalar=1
Vector.plot_3d ax_3d point=[0,0,0] scalar=1
Line point direction
Line.best_fit points tol=None return_error=False
Line.contains_point point
Line.distance_line other
Line.distance_point point
Line.distance_points points
Line.from_points point_a point_b
Line.from_slope slope y_intercept
Line.intersect_line other check_coplanar=True
Line.is_close other
Line.is_coplanar other
Line.plot_2d ax_2d t_1=0 t_2=1
Line.plot_3d ax_3d t_1=0 t_2=1
Line.project_point point
Line.project_points points
Line.project_vector vector
Line.side_point point
Line.sum_squares points
Line.to_point t=1
Line.transform_points points
LineSegment point_a point_b
LineSegment.contains_point point
LineSegment.intersect_line_segment other
LineSegment.plot_2d ax_2d
LineSegment.plot_3d ax_3d
Plane point normal
Plane.best_fit points tol=None return_error=False
Plane.contains_point point
Plane.distance_point point
Plane.distance_point_signed point
Plane.distance_points points
Plane.distance_points_signed points
Plane.from_points point_a point_b point_c
Plane.from_vectors point vector_a vector_b
Plane.intersect_line line
Plane.intersect_plane other
Plane.is_close other
Plane.plot_3d ax_3d lims_x=[-1,1] lims_y=[-1,1]
Plane.project_line line
Plane.project_point point
Plane.project_points points
Plane.project_vector vector
Plane.side_point point
Plane.sum_squares points
Plane.to_mesh lims_x=[-1,1] lims_y=[-1,1]
Circle point radius
Circle.best_fit points
Circle.contains_point point
Circle.distance_point point
Circle.from_points point_a point_b point_c
Circle.intersect_circle other
Circle.intersect_line line
Circle.project_point point
Circle.plot_2d ax_2d
Sphere point radius
Sphere.best_fit points
Sphere.contains_point point
Sphere.distance_point point
Sphere.intersect_line line
Sphere.project_point point
Sphere.to_mesh n_angles=30
Sphere.plot_3d ax_3d n_angles=30
Triangle point_a point_b point_c
Triangle.altitude vertex
Triangle.angle vertex
Triangle.classify
Triangle.is_right
Triangle.length side
Triangle.line side
Triangle.orthocenter
Triangle.point vertex
Triangle.plot_2d ax_2d part='points'
Triangle.plot_3d ax_3d part='points'
Cylinder point vector radius
Cylinder.best_fit points
Cylinder.from_points point_a point_b radius
Cylinder.intersect_line line n_digits=None infinite=True
Cylinder.is_point_within point
Cylinder.to_mesh n_along_axis=100 n_angles=30
Cylinder.plot_3d ax_3d n_along_axis=100 n_angles=30
measurement.area_signed points
measurement.area_triangle point_a point_b point_c
measurement.volume_tetrahedron point_a point_b point_c point_d
transformation.transform_coordinates points point_origin vectors_basis
'''
SIG = {}
for text in TEXT.strip().splitlines():
    fn, *words = text.split()
    SIG[fn] = [(w.split('=')[0], eval(w.split('=', 1)[1]) if '=' in w else REQUIRED) for w in words]
# Keywords that are passed on, with the defaults of the function they are passed to.
ISCLOSE = {'rel_tol': 1e-9, 'abs_tol': 0.0}
PASSED = {f: ISCLOSE for f in (
    'Vector.is_zero', 'Vector.is_parallel', 'Vector.is_perpendicular', 'Vector.different_direction', 'Line.contains_point', 'Plane.contains_point', 'Line.is_close', 'Plane.is_close',
    'Circle.contains_point', 'Sphere.contains_point', 'LineSegment.contains_point', 'Line.intersect_line', 'LineSegment.intersect_line_segment', 'Plane.intersect_line', 'Plane.intersect_plane',
    'Plane.project_line', 'Plane.from_vectors', 'Triangle.classify', 'Triangle.is_right', 'Line', 'Plane')}
RANK = {'tol': None, 'hermitian': False}
PASSED.update({f: RANK for f in ('Points.affine_rank', 'Points.are_collinear', 'Points.are_concurrent', 'Points.are_coplanar', 'Line.is_coplanar')})
PASSED.update({f: {'tol': None} for f in ('Circle.from_points', 'Plane.from_points')})
PASSED['Vector.norm'] = {'ord': None, 'axis': None, 'keepdims': False}
PASSED['Sphere.to_points'] = {'n_angles': 30}
PASSED['Cylinder.to_points'] = {'n_along_axis': 100, 'n_angles': 30}
PASSED['Plane.to_points'] = {'lims_x': [-1, 1], 'lims_y': [-1, 1]}
for fn in PASSED:
    SIG.setdefault(fn, [])


def brief(text):
    return text.split(':')[0] if text.startswith('raise ') else text


class CallMonitor:
    """Makes each call in every form the documented signature allows and compares the outcomes bit for bit."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()

    def call(self, op, arrange):
        """The outcome of a call on fresh operands with its arguments arranged anew; None if they do not fit."""
        out = self.executor.run(op.copy(meta={}), share=False) if arrange is None else None
        if out is None:
            func, recv, args, kw = self.executor.prepare(op, share=False)
            arranged = arrange(args, kw)
            if arranged is None:
                return None
            out = Out()
            out.recv, out.args, out.kw, out.warns, out.exc, out.value = recv, args, kw, (), None, None
            self.executor._call(out, func, *arranged)
        return brief(recorded_outcome(op, out))

    def judge(self, op):
        params = SIG[op.fn]
        names = [n for n, _ in params]
        if len(op.args) > len(names) or len(set(names[:len(op.args)]) & set(op.kw)):
            return None, 'not in the documented form'
        want = self.call(op, None)

        def by_name(args, kw):
            return [], {**dict(zip(names, args)), **kw}

        def by_position(args, kw):
            kw, args = dict(kw), list(args)
            for n, default in params[len(args):]:
                if n in kw:
                    args.append(kw.pop(n))
                elif default is not REQUIRED:
                    args.append(tuple(default) if isinstance(default, list) else default)
                else:
                    return None
            return args, kw

        def with_defaults(args, kw):
            kw = dict(kw)
            for n, default in params[len(args):]:
                if default is not REQUIRED:
                    kw.setdefault(n, default)
            for n, default in PASSED.get(op.fn, {}).items():
                kw.setdefault(n, default)
            return args, kw

        def without_defaults(args, kw):
            defaults = {**{n: d for n, d in params if d is not REQUIRED}, **PASSED.get(op.fn, {})}
            kept = {k: v for k, v in kw.items() if not (k in defaults and repr(v) == repr(defaults[k]))}
            return (args, kept) if len(kept) < len(kw) else None

        def reordered(args, kw):
            args, kw = by_name(args, kw)
            return args, dict(reversed(kw.items()))

        forms = {'by name': by_name, 'by position': by_position, 'with the documented defaults': with_defaults, 'without the documented defaults': without_defaults,
                 'by name in another order': reordered}
        seen = []
        for form, arrange in forms.items():
            got = self.call(op, arrange)
            if got is None:
                continue
            if got != want:
                return f'called {form}: {got[:800]}; as written: {want[:800]}', None
            seen.append(form)
        return None, ('raised' if want.startswith('raise ') else 'returned') + f' the same in {len(seen)} forms'

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            if op.fn not in SIG:
                continue
            try:
                message, verdict = self.judge(op)
            except (ValueError, TypeError) as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            if message:
                yield op, message
                continue
            st.event(op.fn, verdict)
            st.distinct(op)
            st.signature(op.fn, verdict, len(op.args), *sorted(op.kw))
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {verdict}'[:600])

    def finish(self):
        pass


@gen('default_calls')
def g_default_calls(G, r):
    """Calls that rely on defaults, plots included."""
    ops = []
    for _ in range(3):
        G.new_mode()
        n = r.choice((2, 3))
        name = r.choice([c for c in CLASSES if (c, n) not in (('Plane', 2), ('Sphere', 2), ('Cylinder', 2), ('Circle', 3))])
        a, kw = plot_call(G, r, name, n)
        keep = {k: v for k, v in kw.items() if k not in ('t_1', 't_2', 'point', 'scalar', 'part', 'lims_x', 'lims_y', 'n_angles', 'n_along_axis') or r.random() < 0.4}
        if name in ('Sphere', 'Cylinder') and r.random() < 0.9:
            keep['n_angles'] = r.choice((2, 3, 5))
        ops.append(Op(f'{name}.plot_{n}d', a, [(f'Axes{n}D',)], keep, style=G.style(0.3)))
    s = any_object(G, r, r.choice(('Sphere', 'Cylinder', 'Plane')), 3)
    for f in ('to_mesh', 'to_points'):
        if r.random() < 0.5:
            kw = {}
            if s[0] != 'Plane' and r.random() < 0.5:
                kw['n_angles'] = r.choice((2, 30, 4))
            if s[0] == 'Cylinder' and r.random() < 0.5:
                kw['n_along_axis'] = r.choice((2, 100))
            ops.append(Op(f'{s[0]}.{f}', s, [], kw))
    for name in ('Point', 'Points', 'Vector'):
        ops.append(Op(f'{name}.round', any_object(G, r, name), [] if r.random() < 0.5 else [r.choice((0, 2, -1))], style=G.style(0.3)))
    line = any_object(G, r, 'Line')
    ops += [Op('Line.to_point', line, []), Op('Line.to_point', line, [r.choice((1, 1.0, 0, -2.5))]), Op('Points.mean_center', any_object(G, r, 'Points'), [])]
    ops += [Op('Line', None, [line[1], line[2]], style=G.style(0.3)), Op('Plane', None, [line[1], line[2]], style=G.style(0.3)),
            Op('Line', None, [line[1], line[2]], {'abs_tol': r.choice((0.0, 1e-3, 1e3))}), Op('Plane', None, [line[1], line[2]], {'rel_tol': 1e-9})]
    for name in ('Circle', 'Sphere', 'Triangle', 'Cylinder', 'LineSegment'):
        if r.random() < 0.5:
            a = any_object(G, r, name)
            ops.append(Op(name, None, list(a[1:]), style=G.style(0.3)))
    c = any_object(G, r, 'Cylinder', 3)
    ops.append(Op('Cylinder.intersect_line', c, [any_object(G, r, 'Line', 3)], r.choice(({}, {'infinite': False}, {'n_digits': 3}, {'n_digits': None, 'infinite': True}))))
    return ops


prop('C28', all_workloads(default_calls=10, every_operation=8, every_operation_nasty=3, histories=0, frames_geometry=0, frames=0, threads=0, mutations=0, imports=0, computations=0,
                          plots_blocked=0, growth=0, sized=0, wide=0, fit_cylinder=0.03), 12000, 300000,
     'A case is a case of any workload or calls that rely on defaults. Each call is made again, on fresh equal operands, with its arguments by name, by name in another order, by position, with every documented '
     'default given and with arguments equal to their default left out; outcomes, recorded drawings included, are compared bit for bit. Non-trivial: the call has the documented form and was made in all forms; '
     'distinct: by operation, operands and representation.',
     monitor=CallMonitor, technique='runtime monitoring: every event repeated in each form its documented signature allows, outcomes compared bit for bit',
     required=sorted(f for f in SIG if f not in ('Cylinder.best_fit',)), minimum=5)
