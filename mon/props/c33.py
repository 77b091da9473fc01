"""C33: operations keep nothing in memory."""
import gc
import itertools
import random
import sys

from .. import table
from ..core import Executor, Op
from ..gen import Gen
from ..registry import GENS, gen, prop
from . import c11, c12, c13, c23, c25, c26, c27, c28, c29, c30, c31, c32  # noqa: F401

# Calls before the first measurement, calls per measurement, and growth in blocks per call that counts.
WARM, WINDOW, GROWTH = 40, 120, 0.4
# Calls after which every bounded cache is full.
FULL = 6000
KINDS = ('fresh', 'one object')
# Operations with a number of steps or dimensions, here another one in every call.
COUNTED = tuple(f + ' counted' for f in ('Sphere.to_mesh', 'Sphere.to_points', 'Cylinder.to_mesh', 'Cylinder.to_points', 'Point.set_dimension',
                                         'Vector.set_dimension', 'Points.set_dimension'))


def blocks():
    gc.collect()
    return sys.getallocatedblocks()


class RetentionMonitor:
    """Counts the memory blocks of the process around many calls with different operands."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()
        self.worst = {}
        import skspatial.plotting  # noqa: F401

        gc.collect()
        gc.freeze()

    def supply(self, name, kind, seed):
        """An endless source of calls."""
        r = random.Random(seed)
        G = Gen(r)
        if name in COUNTED:
            fn = name[:-len(' counted')]
            recv = {'Sphere': ('Sphere', [1, 2, 3], 4), 'Cylinder': ('Cylinder', [1, 2, 3], [4, 5, 6], 7), 'Points': ('Points', [[1, 2]])}.get(
                fn.split('.')[0], (fn.split('.')[0], [1, 2]))
            for n in itertools.count(3):
                few = {} if recv[0] == 'Sphere' else {'n_along_axis': 2} if seed % 2 else {'n_along_axis': n, 'n_angles': 2}
                yield Op(fn, recv, [n], {}) if fn.endswith('dimension') else Op(fn, recv, (), {'n_angles': n, **few})
        if name in GENS:
            while True:
                G.new_mode()
                yield from GENS[name](G, r)
        pool = spec = None
        while True:
            if kind == 'fresh' or pool is None:
                G.new_mode()
                pool = table.Pool(G, r, r.choice(table.OPS[name][2]))
                spec = pool.recv(table.OPS[name][0]) if table.OPS[name][0] else None
            yield table.make(name, G, r, pool=pool, spec=spec, style=G.style(0.2))

    def calls(self, ops, n, obj):
        """Make calls; their number, of those that returned, and of those whose operands were built."""
        batch = []
        while len(batch) < n:
            op = next(ops)
            if not op.fn.startswith('plotting.') and not any(isinstance(a, tuple) and a[0] == 'Plotter' for a in op.args):
                batch.append(op)
        returned = built = 0
        start = blocks()
        for op in batch:
            try:
                func, recv, args, kw = self.executor.prepare(op, share=False)
            except Exception:
                continue
            built += 1
            if obj is not None:
                func = getattr(obj, op.fn.split('.')[1])
            try:
                func(*args, **kw)
                returned += 1
            except Exception:
                pass
            recv = func = args = kw = None
        return returned, built, blocks() - start

    def judge(self, op):
        name, kind, seed = op.args
        ops = self.supply(name, kind, seed)
        obj = None
        if kind == 'one object':
            obj = self.executor.prepare(next(ops), share=False)[1]
        scale = 0.1 if name == 'fit_cylinder' or name in COUNTED else 1
        window = int(WINDOW * scale)
        self.calls(ops, int(WARM * scale), obj)
        returned, built, grown = self.calls(ops, window, obj)
        made = window + WARM
        while grown >= GROWTH * window:
            # Caches fill up; what is kept for good grows on.
            if made >= FULL * scale:
                return f'{grown} blocks of memory remained of {window} calls with different operands, after {made} calls', None
            window = min(2 * window, int(1500 * scale))
            self.calls(ops, window, obj)
            _, _, grown = self.calls(ops, window, obj)
            made += 2 * window
        self.worst[name] = max(self.worst.get(name, 0), round(grown / window, 4))
        self.stats.count('calls observed', made)
        self.stats.count('calls that returned', returned)
        return None, 'nothing kept' if returned >= 1 else ('nothing kept of failures' if built else 'skipped')

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            message, verdict = self.judge(op)
            if message:
                yield op, message
                continue
            st.event(op.args[0], verdict)
            st.distinct(op)
            st.signature(op.args[0], op.args[1], verdict)
            if len(st.samples) < 4:
                st.samples.append(f'{op!r}: {verdict}')

    def finish(self):
        self.stats.extra['worst_blocks_per_call'] = self.worst


OTHERS = sorted(g for g in c25.FAST if g not in ('fit_cylinder', 'every_operation', 'every_operation_nasty', 'default_calls', 'trivial_results', 'wide', 'sized', 'growth'))


@gen('retention')
def g_retention(G, r):
    """Many calls of one operation, on fresh objects or on one object, or of one workload."""
    k = r.random()
    if k < 0.004:
        return [Op('retained', None, ['fit_cylinder', 'fresh', r.randrange(10**9)])]
    if k < 0.02:
        return [Op('retained', None, [r.choice(COUNTED), 'fresh', r.randrange(10**9)])]
    if k < 0.2:
        return [Op('retained', None, [r.choice(OTHERS), 'fresh', r.randrange(10**9)])]
    kind = r.choice(KINDS)
    name = r.choice(sorted(f for f, row in table.OPS.items() if kind == 'fresh' or row[0]))
    return [Op('retained', None, [name, kind, r.randrange(10**9)])]


prop('C33', {'retention': 1}, 5000, 120000,
     'A case is 160 or more calls of one operation (or one workload of this framework) with different operands, on fresh objects or on one object, after a warm-up. The memory blocks allocated in the process are counted '
     'before and after with all garbage collected; growth is only reported when it continues after thousands of calls. Non-trivial: calls returned; distinct: by operation and seed.',
     monitor=RetentionMonitor, technique='runtime monitoring: allocated memory blocks counted around long sequences of events',
     required=sorted(f for f in table.OPS if f not in ('Cylinder.best_fit',)), minimum=2)
