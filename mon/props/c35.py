"""C35: copies and pickles of objects behave exactly as the originals."""
import base64
import copy
import pickle

import numpy as np

from ..core import AXES, Executor
from ..peer import Peer
from ..registry import prop
from ..values import ours, public, recorded_outcome, shares, structure
from .c10 import all_workloads
from . import c11, c12, c13, c23, c25, c26, c27, c28, c29, c30, c34  # noqa: F401


def out_of_band(x):
    """Pickled with protocol 5 and the data of arrays given separately."""
    buffers = []
    data = pickle.dumps(x, 5, buffer_callback=buffers.append)
    return pickle.loads(data, buffers=[bytearray(b) for b in buffers])


def by_state(x):
    """Pickled by the pickler written in Python."""
    import io

    f = io.BytesIO()
    pickle._Pickler(f, 4).dump(x)
    return pickle._Unpickler(io.BytesIO(f.getvalue())).load()


WAYS = {'copy.copy': copy.copy, 'copy.deepcopy': copy.deepcopy, 'a copy of a copy': lambda x: copy.copy(copy.copy(x)), 'a deep copy of a pickle': lambda x: copy.deepcopy(pickle.loads(pickle.dumps(x, 2))),
        'buffers out of band': out_of_band, 'the Python pickler': by_state, 'a deep copy within a list': lambda x: copy.deepcopy({'a': [x, x]})['a'][1], 'a pickle within a tuple': lambda x: pickle.loads(pickle.dumps((x, [x])))[1][0]}
WAYS.update({f'pickle protocol {n}': lambda x, n=n: pickle.loads(pickle.dumps(x, n)) for n in range(6)})
SHALLOW = ('copy.copy', 'a copy of a copy')


def replaced(x, way, done):
    """The operand with each object of the library in it replaced by a copy."""
    if isinstance(x, (list, tuple)):
        return type(x)(replaced(v, way, done) for v in x)
    if not ours(x) or callable(x):
        return x
    c = way(x)
    done.append((x, c))
    return c


def touch(x):
    """Use an object in ways that could leave something behind."""
    for v in (x, *public(x).values()):
        repr(v)
        for name in ('norm', 'is_zero', 'unit', 'centroid', 'affine_rank', 'area', 'volume', 'classify', 'to_points', 'dimension'):
            try:
                getattr(v, name)()
            except (AttributeError, TypeError, ValueError):
                pass


class CopyMonitor:
    """Runs each event on originals and on copies and compares the outcomes."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()
        self.names = sorted(WAYS)
        self.waiting = []
        self.peer = None

    def judge(self, op, source):
        want = self.executor.run(op, share=False)
        text = recorded_outcome(op, want)
        for name in source.sample(self.names, 3):
            way = WAYS[name]
            func, recv, args, kw = self.executor.prepare(op, share=False)
            used = source.random() < 0.4
            if used:
                for x in (recv, *args):
                    if ours(x):
                        touch(x)
            done = []
            try:
                recv2 = replaced(recv, way, done)
                args2 = [replaced(a, way, done) for a in args]
                kw2 = {k: replaced(v, way, done) for k, v in kw.items()}
            except Exception as error:
                return f'{name} failed: {type(error).__name__}: {error}', None
            if not done:
                return None, 'no object'
            for a, b in done:
                if type(a) is not type(b) or repr(structure(a)) != repr(structure(b)):
                    return f'{name}: the copy is {structure(b)!r}, the original {structure(a)!r}'[:1200], None
                if b is a:
                    return f'{name}: the copy is the original itself', None
                if name not in SHALLOW and shares(a, b):
                    return f'{name}: the copy shares memory with the original', None
            before = [repr(structure(a)) for a, _ in done]
            out = type(want)()
            out.recv, out.args, out.kw, out.warns, out.exc, out.value = recv2, args2, kw2, (), None, None
            self.executor._call(out, getattr(recv2, op.fn.split('.')[1]) if recv2 is not None else func, args2, kw2)
            now = recorded_outcome(op, out)
            if now != text:
                return f'with {name}{" after use" if used else ""}: {now[:600]}; with the original: {text[:600]}', None
            if not op.fn.startswith('act.') and [repr(structure(a)) for a, _ in done] != before:
                return f'{name}: the original changed when its copy was used', None
            if out.ok and (ours(out.value) or isinstance(out.value, (list, tuple))):
                try:
                    c = way(out.value)
                except Exception as error:
                    return f'{name} of the result failed: {type(error).__name__}: {error}', None
                if repr(structure(c)) != repr(structure(out.value)):
                    return f'{name} of the result is {structure(c)!r}, the result {structure(out.value)!r}'[:1200], None
            self.stats.count(f'copies by {name}', len(done))
        func, recv, args, kw = self.executor.prepare(op, share=False)
        if not any(isinstance(a, tuple) and a[0] in (*AXES, 'Plotter') for a in op.args):
            protocol = source.randrange(6)
            try:
                data = pickle.dumps((recv, args, kw), protocol)
            except Exception as error:
                return f'pickle protocol {protocol} failed: {type(error).__name__}: {error}', None
            self.waiting.append((op, text, [op.fn, base64.b64encode(data).decode(), protocol]))
        return None, 'same, returned' if want.ok else 'same, raised'

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            if op.fn.startswith('plotting.') or any(isinstance(a, tuple) and a[0] == 'Plotter' for a in op.args):
                continue
            op = op.copy(style=0)
            try:
                message, verdict = self.judge(op, source)
            except (ValueError, TypeError) as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            if message:
                yield op, message
                continue
            st.event(op.fn, verdict)
            if verdict != 'no object':
                st.distinct(op)
            st.signature(op.fn, verdict)
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {verdict}'[:600])
        if self.waiting:
            yield from self.elsewhere()

    def elsewhere(self):
        """The recorded events with operands unpickled in another process."""
        if self.peer is None:
            self.peer = Peer('pickles', 4321)
        batch, self.waiting = self.waiting, []
        answers = self.peer.raw([b for _, _, b in batch])
        for (op, text, (_, _, protocol)), now in zip(batch, answers):
            if now != text:
                yield op, f'with operands pickled (protocol {protocol}) and loaded in another process: {now[:600]}; here: {text[:600]}'
            else:
                self.stats.count('operations on operands pickled here and loaded in another process')

    def finish(self):
        if self.peer:
            self.peer.close()


prop('C35', all_workloads(every_operation=14, every_operation_nasty=3, histories=0, frames_geometry=0, frames=0, threads=0, mutations=0, imports=0, computations=0,
                          plots_blocked=0, plots=0, growth=0, sized=0.2, wide=0, default_calls=0, trivial_results=1, refused=1, fit_cylinder=0.03), 12000, 300000,
     'A case is a case of any workload. Each operation is executed on its operands and on copies of the objects among them, made in three of fourteen ways (shallow, deep, every pickle protocol, out-of-band buffers, the pickler '
     'written in Python, within containers), some after the objects were used, and on pickles loaded in another process. Outcomes are compared bit for bit, copies and copied results with their originals, and deep copies must share no memory. '
     'Non-trivial: the outcomes were compared for at least one object; distinct: by operation and operands.',
     monitor=CopyMonitor, technique='runtime monitoring: every event repeated on copies and on pickles loaded elsewhere, outcomes compared bit for bit',
     required=['Vector.unit', 'Line.project_point', 'Line.intersect_line', 'Plane.intersect_plane', 'Points.unique', 'Points.are_collinear', 'Circle.intersect_circle', 'Circle.intersect_line', 'Sphere.to_mesh',
               'Cylinder.intersect_line', 'Cylinder.is_point_within', 'Triangle.classify', 'Triangle.orthocenter', 'LineSegment.intersect_line_segment', 'Line.plot_2d', 'act.add', 'act.text'],
     minimum=10)
