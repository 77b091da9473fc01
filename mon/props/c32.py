"""C32: results do not depend on the settings of the interpreter or the process."""
from ..core import Executor
from ..peer import Peer, execute
from ..registry import prop
from .c10 import all_workloads
from . import c11, c12, c13, c23, c25, c26, c27, c28, c29, c30, c31  # noqa: F401


class SettingsMonitor:
    """Compares outcomes with those of processes that run with unusual settings."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()
        self.peers = {}

    def session(self, ops, source):
        st = self.stats
        ops = [op for op in ops if not op.fn.startswith('plotting.') and not any(isinstance(a, tuple) and a[0] == 'Plotter' for a in op.args)]
        first = []
        for op in ops:
            text = execute(op, self.executor)
            if text.startswith('not built'):
                st.event(op.fn, 'skipped')
                st.skip(op.fn, 'operand not built')
            else:
                first.append((op, text))
        for mode, flags in (('quiet', ('-OO', '-W', 'error')), ('strict', ('-O', '-b', '-X', 'dev'))):
            if mode not in self.peers:
                self.peers[mode] = Peer(mode, 31337, flags)
            # NumPy raises the errors of arithmetic by zero and of overflow as the program asked for.
            asked = [(op, text) for op, text in first if mode == 'quiet' or not op.fn.startswith('act.')]
            if not asked:
                continue
            try:
                reply = self.peers[mode].outcomes([op for op, _ in asked])
            except RuntimeError as error:
                del self.peers[mode]
                yield None, f'with {mode} settings: {error}'
                return
            for (op, want), (got, _) in zip(asked, reply['outcomes']):
                st.count(f'outcomes compared: {mode} settings')
                if got != want:
                    yield op, f'with {mode} settings: {got[:800]}; with the usual ones: {want[:800]}'
                    return
        for op, want in first:
            st.event(op.fn, 'raised the same' if want.startswith('raise ') else 'returned the same')
            st.distinct(op)
            st.signature(op.fn, want[:12])
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {want[:200]}')

    def finish(self):
        for peer in self.peers.values():
            peer.close()


prop('C32', all_workloads(every_operation=10, every_operation_nasty=5, histories=0, frames_geometry=0, frames=0, threads=0, mutations=0, imports=0, computations=0,
                          plots_blocked=0, plots=0, growth=0, sized=0.2, wide=0, default_calls=0, trivial_results=1, fit_cylinder=0.1), 12000, 300000,
     'A case is a case of any workload, run here and in two other processes: one without assertions and docstrings, with warnings as errors, other hash and random seeds, unusual print options, decimal precision, '
     'recursion limit and working directory, and no garbage collection; the other also in development mode with floating-point errors raised. Outcomes, recorded drawings included, are compared bit for bit '
     '(texts under the usual print options). Non-trivial: the outcomes were compared; distinct: by operation, operands and representation.',
     monitor=SettingsMonitor, technique='runtime monitoring: outcomes logged in processes with different settings and compared bit for bit',
     required=['Vector.unit', 'Line.project_point', 'Line.intersect_line', 'Plane.intersect_plane', 'Points.unique', 'Points.are_collinear', 'Circle.best_fit', 'Circle.intersect_circle',
               'Sphere.to_mesh', 'Cylinder.intersect_line', 'Triangle.classify', 'Line.best_fit', 'Plane.best_fit', 'LineSegment.intersect_line_segment', 'measurement.area_signed',
               'transformation.transform_coordinates', 'Line.plot_2d', 'Line', 'Triangle', 'act.add', 'act.text', 'Cylinder.best_fit'], minimum=10)
