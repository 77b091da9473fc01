"""C31: an interrupted operation leaves everything as it was."""
import ast
import os
import sys
import threading

from ..core import AXES, CLASSES, Executor
from ..registry import prop
from ..values import difference, recorded_outcome, snapshot
from .c10 import all_workloads, is_axes
from .c25 import settings
from . import c11, c12, c13, c23, c26, c27, c28, c29, c30  # noqa: F401


class Interrupt(KeyboardInterrupt):
    """The user pressed Ctrl+C."""


def uninterruptible(path):
    """Lines of finally blocks and with statements: Python itself cannot clean up after an interruption there."""
    lines = set()
    for node in ast.walk(ast.parse(open(path).read())):
        if isinstance(node, ast.Try):
            for x in node.finalbody:
                lines.update(range(x.lineno, x.end_lineno + 1))
            if node.finalbody:  # What comes right before may have to be undone there.
                lines.update(range(node.lineno, node.body[0].lineno))
        if isinstance(node, (ast.With, ast.AsyncWith)):
            lines.update(range(node.lineno, node.body[0].lineno))
        if isinstance(node, ast.FunctionDef) and node.name in ('__exit__', '__del__'):
            lines.update(range(node.lineno, node.end_lineno + 1))
    return lines


def finalizing(frame):
    """NumPy 1.26 corrupts its memory when __array_finalize__ raises; nothing is interrupted there."""
    while frame is not None:
        if frame.f_code.co_name == '__array_finalize__':
            return True
        frame = frame.f_back
    return False


def elsewhere(func, patience=20):
    """Call a function in another thread; returns whether it ended and its result."""
    results = []
    thread = threading.Thread(target=lambda: results.append(func()), daemon=True)
    thread.start()
    thread.join(patience)
    return bool(results), results[0] if results else None


class InterruptMonitor:
    """Interrupts each operation at lines of the library chosen from all those it executes, and looks at what is left."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()
        import skspatial
        import skspatial.plotting

        AXES['Axes3D']()
        self.prefix = os.path.dirname(os.path.abspath(skspatial.__file__)) + os.sep
        self.skip = {}
        self.places = set()

    def interruptible(self, path, line):
        if path not in self.skip:
            self.skip[path] = uninterruptible(path)
        return line not in self.skip[path]

    def traced(self, func, args, kw, at):
        """Call a function; raise at its at-th line in the library. Returns the number of lines, the error and the place."""
        state = [0, None]
        interrupt = Interrupt('interrupted')

        def local(frame, event, arg):
            if event == 'line' and self.interruptible(frame.f_code.co_filename, frame.f_lineno) and not finalizing(frame):
                state[0] += 1
                if state[0] == at:
                    state[1] = (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                    raise interrupt
            return local

        def enter(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.prefix) else None

        error = None
        sys.settrace(enter)
        try:
            func(*args, **kw)
        except BaseException as e:
            error = e
        finally:
            sys.settrace(None)
        if at and error is not interrupt:
            return state[0], error, state[1], False
        return state[0], error, state[1], True

    def state(self, op, recv, args, kw):
        return [snapshot(recv), [None if is_axes(s) else snapshot(a) for s, a in zip(op.args, args)], snapshot(kw)]

    def judge(self, op, source):
        st = self.stats
        out = self.executor.run(op, share=False)
        want = recorded_outcome(op, out)
        func, recv, args, kw = self.executor.prepare(op, share=False)
        total = self.traced(func, args, kw, 0)[0]
        if not total:
            return None, 'no line of the library'
        if op.fn in CLASSES:
            recv = None
        points = range(1, total + 1) if total <= 6 else sorted(source.sample(range(1, min(total, 3000) + 1), 6))
        for at in points:
            func, recv, args, kw = self.executor.prepare(op, share=False)
            before, around = self.state(op, recv, args, kw), settings()
            _, error, place, passed = self.traced(func, args, kw, at)
            if place is None:
                st.count('interruptions not reached')
                continue
            where = f'interrupted at {place[0]}:{place[1]}'
            st.count('interruptions')
            self.places.add(place)
            if not passed:
                return f'{where}: the interruption was lost, the operation ' + (f'raised {error!r}' if error is not None else 'returned'), None
            after, now = self.state(op, recv, args, kw), settings()
            for what, x, y in zip(('the object', 'argument', 'keyword'), before, after):
                d = difference(x, y, what)
                if d:
                    return f'{where}: {d}', None
            changed = [k for k in around if around[k] != now[k]]
            if changed:
                return f'{where}: changed the {", ".join(changed)} of the process', None
            for s, a in zip(op.args, args):
                if is_axes(s):
                    del a.calls[:]
            ended, again = elsewhere(lambda: self.executor.run(op, share=False))
            if not ended:
                self.stuck = True
                return f'{where}, then called on fresh equal operands in another thread: it does not end', None
            got = recorded_outcome(op, again)
            if got != want:
                return f'{where}, then called on fresh equal operands in another thread: {got[:600]}; before: {want[:600]}', None
            again.args, again.recv, again.kw, again.exc, again.value = args, recv, kw, None, None
            self.executor._call(again, func, args, kw)
            got = recorded_outcome(op, again)
            if got != want:
                return f'{where}, then called again on the same operands: {got[:600]}; before: {want[:600]}', None
        return None, 'intact'

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            if op.fn.startswith('plotting.') or any(isinstance(a, tuple) and a[0] == 'Plotter' for a in op.args):
                continue
            try:
                message, verdict = self.judge(op, source)
            except (ValueError, TypeError) as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            if message:
                yield op, message
                continue
            st.event(op.fn, verdict)
            if verdict == 'intact':
                st.distinct(op)
                st.signature(op.fn, verdict)
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {verdict}'[:600])

    def finish(self):
        for file, line in self.places:
            self.stats.signature(file, line)


prop('C31', all_workloads(every_operation=15, every_operation_nasty=3, histories=0, frames_geometry=0, frames=0, threads=0, mutations=0, imports=0, computations=0,
                          plots_blocked=0, plots=0, growth=0, sized=0, wide=0, default_calls=0, trivial_results=2, fit_cylinder=0.05), 4000, 120000,
     'A case is a case of any workload. Each operation is interrupted by an exception raised from a trace function at up to six of the lines of the library it executes (all of them if there are no more); '
     'the exception must arrive, operands and settings of the process must be as before, and the operation must then give the outcome it gave before, on the same and on fresh operands. '
     'Non-trivial: at least one interruption happened; distinct: by operation, operands and representation; signatures: operations and interrupted lines.',
     monitor=InterruptMonitor, technique='runtime monitoring with fault injection: interruptions at lines of the library, operands, settings and later outcomes compared',
     required=['Vector.unit', 'Line.project_point', 'Line.intersect_line', 'Plane.intersect_plane', 'Points.unique', 'Points.mean_center', 'Points.are_collinear', 'Circle.best_fit', 'Circle.intersect_circle',
               'Sphere.to_mesh', 'Cylinder.intersect_line', 'Triangle.classify', 'Line.best_fit', 'Plane.best_fit', 'LineSegment.intersect_line_segment', 'measurement.area_signed',
               'transformation.transform_coordinates', 'Line.plot_2d', 'Vector.plot_3d', 'Line', 'Triangle', 'act.add', 'act.deepcopy'], minimum=10)
