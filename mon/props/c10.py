"""C10: no operation modifies its operands."""
from ..core import AXES, Executor, Op
from ..registry import GENS, gen, prop
from ..values import difference, snapshot
from .actions_gen import CLASSES, any_object  # noqa: F401  (loads the shared workloads)
from . import c01_02, c03_05, c06_08, c09, c14_15, c16_17, c18_20_21_22, c19, c24  # noqa: F401

SLOW = {'fit_cylinder': 0.15, 'fit_round': 0.3, 'plots': 0, 'plots_many': 0, 'texts_back': 0, 'affine_rank': 0.5, 'fit_plane': 0.5}


def all_workloads(crowds=0, **changes):
    """Every workload with a weight; crowds is that of thousands of points."""
    w = {g: SLOW.get(g, 1) for g in GENS if g != 'frames_geometry' and not g.startswith('crowds')}
    w.update({g: crowds for g in GENS if g.startswith('crowds')})
    w.update(changes)
    return {g: x for g, x in w.items() if x}


class OperandMonitor:
    """Compares snapshots of the receiver and of every argument before and after each call."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor(before=self.before, after=self.after)
        self.found = []

    def before(self, op, recv, args, kw):
        return [snapshot(recv), [None if is_axes(s) else snapshot(a) for s, a in zip(op.args, args)], snapshot(kw)]

    def after(self, op, out, token):
        now = [snapshot(out.recv), [None if is_axes(s) else snapshot(a) for s, a in zip(op.args, out.args)], snapshot(out.kw)]
        for what, x, y in zip(('the object', 'argument', 'keyword'), token, now):
            d = difference(x, y, what)
            if d:
                self.found.append(f'{d} during a call that {out.describe()}'[:1500])

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            del self.found[:]
            try:
                out = self.executor.run(op)
            except Exception as error:
                # Operands that cannot be built are the business of other properties.
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            if self.found:
                yield op, '; '.join(self.found)
                continue
            st.event(op.fn, 'unchanged, returned' if out.ok else 'unchanged, raised')
            st.distinct(op)
            st.signature(op.fn, out.ok, bool(op.style))
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {len(op.args)} arguments unchanged'[:600])

    def finish(self):
        pass


def is_axes(spec):
    return isinstance(spec, tuple) and (spec[0] in AXES or spec[0] == 'Plotter')


@gen('numpy_calls')
def g_numpy(G, r):
    """Functions of NumPy that treat the objects as arrays."""
    ops = []
    for name in ('Point', 'Vector', 'Points'):
        a = any_object(G, r, name)
        for f in ('round', 'cumsum', 'sort', 'clip'):
            if r.random() < 0.3:
                ops.append(Op('act.numpy_call', None, [a, f], style=G.style()))
    return ops


prop('C10', all_workloads(crowds=0.004), 60000, 1500000,
     'A case is a case of any workload of this framework (every public operation, constructors, arithmetic, copies, text, plots on recording axes; valid and failing '
     'calls; all representations of operands); snapshots of all operands before and after each call are compared. Non-trivial: the call was made; '
     'distinct: by operation, operands and representation.',
     monitor=OperandMonitor, technique='runtime monitoring: snapshots of every operand before and after each event',
     required=['Line.project_point', 'Points.mean_center', 'Points.normalize_distance', 'Plane.to_mesh', 'Vector.dot', 'Vector.cross', 'Triangle.angle',
               'Cylinder.best_fit', 'Points.round', 'Points.affine_rank', 'Line.plot_3d', 'act.text', 'act.add', 'Circle', 'transformation.transform_coordinates'],
     assumptions=['Attributes that start with an underscore are private and may change (caches).'])
