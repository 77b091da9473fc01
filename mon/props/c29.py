"""C29: subclasses of the public classes behave as the classes do."""
from .. import core
from ..core import CLASSES, Executor, Out
from ..registry import prop
from ..subclasses import make, renamed
from ..values import recorded_outcome
from .c10 import all_workloads
from . import c11, c12, c13, c23, c25, c26, c27, c28  # noqa: F401

FORMS = ('both', 'the object', 'the operands')
# Documented: these compare objects of the same type.
SAME_TYPE = ('Line.is_close', 'Plane.is_close')
MAKES = {'Vector.from_points', 'Line.from_points', 'Line.from_slope', 'Line.best_fit', 'Plane.from_points', 'Plane.from_vectors', 'Plane.best_fit', 'Circle.from_points', 'Circle.best_fit',
         'Sphere.best_fit', 'Cylinder.from_points', 'Cylinder.best_fit'}
KEEPS = {'act.copy', 'act.deepcopy', 'act.pickle', 'act.copy_method', 'act.view', 'act.neg', 'act.pos', 'act.abs', 'act.ufunc', 'act.add', 'act.sub', 'act.mul', 'act.truediv', 'act.floordiv',
         'act.mod', 'act.pow', 'act.ufunc2', 'act.numpy_call', 'Point.round', 'Vector.round', 'Points.round', 'Point.set_dimension', 'Vector.set_dimension', 'Points.set_dimension'}


class SubclassMonitor:
    """Runs each event with the classes and with subclasses of them and compares the outcomes."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()
        self.base = {n: core.api(n) for n in CLASSES}
        self.sub = make()

    def run(self, op, recv, args):
        """The outcome with the given classes for the object and for the operands."""
        core._plotters.clear()
        try:
            core._api.update(recv)
            r = core.representation(op.style)
            func, obj, _, _ = self.executor.prepare(op.copy(args=[], kw={}), share=False)
            core._api.update(args)
            r = core.representation(op.style, 7)
            out = Out()
            out.args = [core.build(a, r) for a in op.args]
            out.kw = {k: core.build(v, r) for k, v in op.kw.items()}
            out.recv, out.warns, out.exc, out.value = obj, (), None, None
        finally:
            core._api.update(self.base)
        self.executor._call(out, func, out.args, out.kw)
        return out

    def classes(self, op, form, value, want):
        """Check the classes of a result against those of the result without subclasses."""
        if isinstance(want, (list, tuple)):
            for v, w in zip(value, want):
                text = self.classes(op, form, v, w)
                if text:
                    return text
            return None
        name = type(want).__name__
        if type(want) is not self.base.get(name):
            return None
        if not isinstance(value, type(want)):
            return f'the result is a {type(value)}'
        if form == 'both' and type(value) is not self.sub[name]:
            if op.fn in KEEPS or op.fn in MAKES and name == op.fn.split('.')[0]:
                return f'the result is a {type(value).__module__}.{name} instead of the subclass'
        return None

    def judge(self, op):
        want = self.run(op, self.base, self.base)
        text = recorded_outcome(op, want)
        done = []
        for form in FORMS:
            if form != 'both' and (op.fn in SAME_TYPE or op.fn in CLASSES or op.recv is None and not op.fn.split('.')[0] in CLASSES):
                continue
            got = self.run(op, self.base if form == 'the operands' else self.sub, self.base if form == 'the object' else self.sub)
            now = renamed(recorded_outcome(op, got))
            if now != text:
                return f'with subclasses for {form}: {now[:700]}; with the classes: {text[:700]}', None
            if got.ok:
                message = self.classes(op, form, got.value, want.value)
                if message:
                    return f'with subclasses for {form}: {message}', None
            done.append(form)
        return None, 'same, returned' if want.ok else 'same, raised'

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            if op.fn.startswith('plotting.') or any(isinstance(a, tuple) and a[0] == 'Plotter' for a in op.args):
                continue
            try:
                message, verdict = self.judge(op)
            except (ValueError, TypeError) as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            if message:
                yield op, message
                continue
            st.event(op.fn, verdict)
            st.distinct(op)
            st.signature(op.fn, verdict)
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {verdict}'[:600])

    def finish(self):
        pass


prop('C29', all_workloads(every_operation=10, every_operation_nasty=3, histories=0, frames_geometry=0, frames=0, threads=0, mutations=0, imports=0, computations=0,
                          plots_blocked=0, plots=0, growth=0, sized=0, wide=0, fit_cylinder=0.03), 12000, 300000,
     'A case is a case of any workload or calls on plain data. Each operation is executed with the classes of the library and with subclasses of them for the object, for the operands and for both; outcomes (values, errors, '
     'texts, recorded drawings) are compared bit for bit, and so are the classes of results: instances of the documented class always, of the subclass for class methods, arithmetic, copies, rounding and setting the dimension. '
     'Non-trivial: the outcomes were compared; distinct: by operation, operands and representation.',
     monitor=SubclassMonitor, technique='runtime monitoring: every event repeated with subclasses of the classes, outcomes and classes of results compared',
     required=sorted(MAKES - {'Cylinder.best_fit'}) + ['act.add', 'act.copy', 'act.pickle', 'act.deepcopy', 'act.text', 'Line.is_coplanar', 'Line.intersect_line', 'Line.is_close', 'Plane.intersect_plane',
                                                      'Plane.intersect_line', 'Circle.intersect_line', 'Triangle.altitude', 'LineSegment.intersect_line_segment', 'Points.round', 'Point.set_dimension'])
