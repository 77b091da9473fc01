"""C25: results depend only on current values, not on history, threads or process."""
import copy
import decimal
import gc
import json
import math
import os
import random
import sys
import threading
import warnings

import numpy as np

from .. import table
from ..core import CLASSES, Executor, Op, Out, api, build, enc, representation
from ..registry import GENS, gen, prop
from ..gen import Gen
from ..peer import Peer
from ..sched import Scheduler
from ..values import arrays, outcome, recorded_outcome, shares
from .actions_gen import ATTRS
from .c10 import all_workloads, is_axes
from . import c11, c12, c13, c23  # noqa: F401

BY_CLASS = {}
for _fn, _row in table.OPS.items():
    BY_CLASS.setdefault(_row[0], []).append(_fn)


def related(G, r, k=4):
    """Calls of operations of one class on a common object and on another of the same class, with different arguments."""
    name = r.choice([c for c in BY_CLASS if c and c != 'Points'] + ['Points'])
    fns = BY_CLASS[name]
    n = r.choice(table.OPS[r.choice(fns)][2])
    fns = [f for f in fns if n in table.OPS[f][2]]
    pool = table.Pool(G, r, n)
    spec = pool.recv(name)
    ops = []
    chosen = [r.choice(fns) for _ in range(k)]
    for f in chosen:
        ops.append(table.make(f, G, r, pool=pool, spec=spec))
        if r.random() < 0.6:
            ops.append(table.make(f, G, r, pool=pool, spec=spec if r.random() < 0.5 else pool.recv(name)))
    return ops


@gen('histories')
def g_histories(G, r):
    ops = related(G, r)
    G.new_mode()
    ops += related(G, r, 2)
    G.new_mode()
    for _ in range(2):
        other = GENS[r.choice(sorted(FAST))](G, r)
        ops += r.sample(other, min(2, len(other)))
    for _ in range(2):
        ops.append(table.make(r.choice(BY_CLASS[None]), G, r))
    r.shuffle(ops)
    return ops


@gen('threads')
def g_threads(G, r):
    ops = related(G, r, 2)
    f = r.choice(sorted(table.OPS))
    n = r.choice(table.OPS[f][2])
    for _ in range(3):
        ops.append(table.make(f, G, r, pool=table.Pool(G, r, n)))
    for op in ops:
        op.meta['threads'] = True
    return ops


@gen('mutations')
def g_mutations(G, r):
    name = r.choice([c for c in BY_CLASS if c])
    n = r.choice(table.OPS[r.choice(BY_CLASS[name])][2])
    fns = [f for f in BY_CLASS[name] if n in table.OPS[f][2]]
    pool = table.Pool(G, r, n)
    old = floating(pool.recv(name))
    new = None
    for _ in range(20):
        new = floating(pool.recv(name))
        if [np.shape(a) for a in new[1:]] == [np.shape(a) for a in old[1:]]:
            break
    else:
        new = (old[0],) + tuple([x * 1.25 for x in a] if isinstance(a, list) and not isinstance(a[0], list) else a for a in old[1:])
    if r.random() < 0.4:
        new = nearly(r, old)
    keep = r.randrange(len(old))
    if keep and len(old) > 2:
        # Only some of the defining values change.
        new = new[:keep] + (old[keep],) + new[keep + 1:]
    how = r.choice(('elements', 'assign')) if name not in table_arrays else 'elements'
    ops = []
    for f in r.sample(fns, min(len(fns), 4)):
        op = table.make(f, G, r, pool=pool, spec=old)
        op.meta.update(new=new, how=how)
        ops.append(op)
    ops.append(Op('act.text', None, [old], meta={'new': new, 'how': how}))
    return ops


def nearly(r, old):
    """The definition with one number changed, or two of them exchanged."""
    new = copy.deepcopy(old)
    rows = [x for a in new[1:] if isinstance(a, list) for x in (a if isinstance(a[0], list) else [a])]
    row, other = r.choice(rows), r.choice(rows)
    i, j = r.randrange(len(row)), r.randrange(len(other))
    u = r.random()
    if u < 0.3:
        row[i] = r.choice((0.0, 1.0, r.gauss(0, 3)))
    elif u < 0.5:
        row[i] = -row[i]
    elif u < 0.7:
        row[i] = math.nextafter(row[i], math.inf)
    else:
        row[i], other[j] = other[j], row[i]
    return new


table_arrays = ('Point', 'Vector', 'Points')


def floating(spec):
    def f(x):
        return [f(v) for v in x] if isinstance(x, list) else float(x)

    return (spec[0],) + tuple(f(a) for a in spec[1:])


def mutate(obj, new, how):
    """Give an object the defining values of another definition, through its public attributes."""
    name = new[0]
    if name in table_arrays:
        obj[...] = new[1]
        return
    names = ATTRS[name]
    for attr, value in zip(names, new[1:]):
        if not isinstance(value, list):
            setattr(obj, attr, value)
        elif how == 'elements' or attr in ('direction', 'normal', 'vector'):
            getattr(obj, attr)[:] = value
        else:
            setattr(obj, attr, api('Point')(value))


def settings():
    """Process-wide state that a computation has no business with."""
    return {
        'NumPy error handling': np.geterr(), 'NumPy print options': repr(np.get_printoptions()), 'NumPy random state': repr(np.random.get_state()),
        'random state': hash(random.getstate()), 'warning filters': repr(warnings.filters), 'recursion limit': sys.getrecursionlimit(),
        'decimal context': repr(decimal.getcontext()), 'working directory': os.getcwd(), 'environment': hash(frozenset(os.environ.items())),
        'garbage collector': (gc.isenabled(), gc.get_threshold()), 'NumPy buffer': (np.getbufsize(), np.geterrcall()), 'threads': threading.active_count(),
        'switch interval': sys.getswitchinterval(), 'import path': tuple(sys.path), 'trace': (sys.gettrace(), sys.getprofile()),
    }


class HistoryMonitor:
    """Logs operations with their outcomes and replays them in other histories; outcomes must be bit-identical."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()
        self.peer = None
        import skspatial

        self.prefix = os.path.dirname(os.path.abspath(skspatial.__file__))

    def fresh(self, op):
        out = self.executor.run(op, share=False)
        return out, recorded_outcome(op, out)

    def session(self, ops, source):
        try:
            if ops and 'new' in ops[0].meta:
                found = self.mutations(ops, source)
            elif ops and ops[0].meta.get('threads'):
                found = self.threads(ops, source)
            else:
                found = self.histories(ops, source)
        except RuntimeError as error:
            if 'peer' not in str(error):
                raise
            self.peer = None
            found = [(None, str(error))]
        yield from found

    def first(self, ops):
        """Operations that can be built, with their first outcomes on fresh operands."""
        st, logged = self.stats, []
        for op in ops:
            before = settings()
            try:
                out, text = self.fresh(op)
            except Exception as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            after = settings()
            changed = [k for k in before if before[k] != after[k]]
            if changed:
                return logged, [(op, f'changed the {", ".join(changed)} of the process')]
            logged.append((op, text))
        return logged, []

    def done(self, logged, how, source):
        st = self.stats
        for op, text in logged:
            st.event(op.fn, 'raised the same' if text.startswith('raise ') else 'returned the same')
            st.distinct(op)
            st.signature(op.fn, how, text.startswith('raise '))
        if logged and len(st.samples) < 4 and source.random() < 0.05:
            st.samples.append(f'{how}: ' + '; '.join(repr(op) for op, _ in logged)[:500])

    def shared(self, logged):
        """Operands built once for all operations; equal definitions become one object."""
        pool, bound = {}, []

        def get(spec, r, style):
            if not isinstance(spec, (list, tuple)):
                return spec
            key = json.dumps([enc(spec), style])
            if key not in pool:
                pool[key] = build(spec, r)
            return pool[key]

        for op, _ in logged:
            # The same choice of representation as the executor makes.
            r = representation(op.style)
            r2 = representation(op.style, 7)
            recv = get(op.recv, r, op.style) if op.recv is not None else None
            if op.style:
                args = [None if is_axes(a) else build(a, r2) for a in op.args]
                kw = {k: build(v, r2) for k, v in op.kw.items()}
            else:
                args = [None if is_axes(a) else get(a, None, 0) for a in op.args]
                kw = {k: get(v, None, 0) for k, v in op.kw.items()}
            bound.append((recv, args, kw))
        return bound

    def call(self, op, operands):
        recv, args, kw = operands
        out = Out()
        args = [build(s) if is_axes(s) else a for s, a in zip(op.args, args)]
        if op.recv is not None:
            func = getattr(recv, op.fn.split('.')[1])
        elif op.fn in CLASSES:
            func = api(op.fn)
        else:
            head, attr = op.fn.split('.')
            func = getattr(api(head), attr) if head in CLASSES else api(op.fn)
        out.recv, out.args, out.kw, out.exc, out.value = recv, args, dict(kw), None, None
        Executor._call(out, func, args, dict(kw))
        return out

    def histories(self, ops, source):
        st = self.stats
        logged, found = self.first(ops)
        if found:
            return found
        bound = self.shared(logged)
        order = list(range(len(logged))) * 3
        source.shuffle(order)
        last = []
        for k, i in enumerate(order):
            op, want = logged[i]
            out = self.call(op, bound[i])
            got = recorded_outcome(op, out)
            st.count('outcomes compared: shared operands in random order')
            if got != want:
                return [(None, f'{op!r} on shared operands after {[logged[j][0].fn for j in order[:k]][-12:]}: {got[:800]}; on fresh operands: {want[:800]}')]
            last.append((i, out))
            if source.random() < 0.3:
                np.random.rand(3)
                random.random()
        # The caller may do anything with the results it got, as long as they are not part of an operand.
        for i, out in last:
            if out.ok and not any(shares(out.value, x) for b in bound for x in ([b[0]] + b[1] + list(b[2].values()))):
                for a in arrays(out.value):
                    if a.dtype != object and a.flags.writeable:
                        a[...] = a + 1 if a.dtype.kind in 'iuf' else a
        for i in source.sample(range(len(logged)), len(logged)):
            op, want = logged[i]
            got = recorded_outcome(op, self.call(op, bound[i]))
            st.count('outcomes compared: after the caller changed earlier results')
            if got != want:
                return [(None, f'{op!r} after the caller changed the arrays of earlier results: {got[:800]}; before: {want[:800]}')]
        if self.peer is None:
            self.peer = Peer('plain', 4242)
        local = [x for x in logged if not x[0].fn.startswith('Axes')]
        for (op, want), (got, _) in zip(local, self.peer.outcomes([op for op, _ in local])['outcomes']):
            st.count('outcomes compared: another process')
            if got != want:
                return [(None, f'{op!r} in another process: {got[:800]}; in this process: {want[:800]}')]
        self.done(logged, 'history', source)
        return []

    def threads(self, ops, source):
        st = self.stats
        logged, found = self.first(ops)
        if found:
            return found
        bound = self.shared(logged)
        n = source.choice((2, 2, 3, 4))
        opcodes = source.random() < 0.4
        sched = Scheduler(source.random(), self.prefix, opcodes, source.choice((0.02, 0.1, 0.5)) if opcodes else source.choice((0.1, 0.3, 0.8)))
        wrong = []

        def body(order):
            def run():
                for i in order:
                    op, want = logged[i]
                    got = recorded_outcome(op, self.call(op, bound[i]))
                    st.count('outcomes compared: threads')
                    if got != want:
                        wrong.append((op, got, want))

            return run

        finished = sched.run([body(source.sample(range(len(logged)), len(logged))) for _ in range(n)])
        st.count('thread switches inside the library', len(sched.trail))
        st.count('waits ended by the time limit', sched.blocked)
        st.signature('interleaving', hash(tuple(sched.trail)))
        st.count('interleavings with a switch', int(bool(sched.trail)))
        if wrong:
            op, got, want = wrong[0]
            return [(None, f'{op!r} in {n} threads interleaved at {"bytecodes" if opcodes else "lines"}: {got[:800]}; alone: {want[:800]}')]
        if not finished:
            self.stuck = True
            return [(None, f'{[op for op, _ in logged]!r} did not finish in {n} threads')]
        self.done(logged, 'threads', source)
        return []

    def mutations(self, ops, source):
        st = self.stats
        new, how = ops[0].meta['new'], ops[0].meta['how']
        old = ops[0].recv
        try:
            obj, fresh = build(old), build(new)
        except ValueError as error:
            for op in ops:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
            return []
        logged, found = self.first(ops)
        if found:
            return found

        def outcomes(x):
            result = []
            for op, _ in logged:
                out = self.call(op, (x, [build(a) for a in op.args], op.kw) if op.recv is not None else (None, [x], {}))
                result.append(outcome(out))
            return result

        warm = outcomes(obj)
        for (op, want), got in zip(logged, warm):
            if got != want:
                return [(None, f'{op!r} on a used object: {got[:800]}; on a fresh one: {want[:800]}')]
        mutate(obj, new, how)
        changed = 0
        for (op, _), before, got, want in zip(logged, warm, outcomes(obj), outcomes(fresh)):
            st.count('outcomes compared: after a change of the object')
            changed += before != want
            if got != want:
                return [(None, f'{op!r} after its values were changed to {new!r} ({how}): {got[:800]}; a new object with these values: {want[:800]}')]
        st.count('outcomes that the change altered', changed)
        self.done(logged, 'change by ' + how, source)
        return []

    def finish(self):
        if self.peer:
            self.peer.close()


FAST = [g for g in all_workloads() if g not in ('fit_cylinder', 'fit_round', 'plots', 'plots_many', 'histories', 'threads', 'mutations', 'frames', 'frames_geometry')]

prop('C25', {'histories': 6, 'threads': 3, 'mutations': 5}, 12000, 300000,
     'A case logs the outcomes of about ten operations on fresh operands and replays them three times in random order on shared operands, after the results were overwritten, '
     'and in another process; or in two to four threads switched by a seeded scheduler at lines or bytecodes of the library; or before and after the values of the object are '
     'changed, against a new object. Every outcome must be bit-identical. Non-trivial: all replays were compared; distinct: by operation and operands.',
     monitor=HistoryMonitor, technique='runtime monitoring: log of outcomes replayed in other orders, seeded thread schedules and processes',
     required=['Line.project_point', 'Vector.dot', 'Triangle.angle', 'Plane.intersect_line', 'Cylinder.to_mesh', 'Circle.best_fit', 'Points.affine_rank', 'act.text'],
     minimum=40)
