"""C26: computing never needs Matplotlib and plotting says when it is missing."""
import os
import pkgutil
import subprocess
import sys

from ..core import Executor, Op
from ..peer import Peer, execute
from ..registry import gen, prop
from .c10 import all_workloads
from . import c11, c12, c13, c23, c25  # noqa: F401

SCRIPT = '''
import sys, importlib
from mon import peer
blocker = peer.block() if {blocked} else None
before = set(sys.modules)
error = None
try:
    for name in {names}:
        importlib.import_module(name)
except BaseException as e:
    error = e
loaded = sorted(m for m in set(sys.modules) - before if m.split('.')[0] in ('matplotlib', 'mpl_toolkits', 'pylab'))[:3]
print(repr((type(error).__name__ if error is not None else None, [c.__name__ for c in type(error).__mro__], str(error), loaded, sorted(set(blocker.attempts))[:3] if blocker else [])))
'''


def modules():
    import skspatial

    return ['skspatial'] + sorted(m.name for m in pkgutil.walk_packages(skspatial.__path__, 'skspatial.'))


@gen('imports')
def g_imports(G, r):
    names = modules()
    chosen = [r.choice(names)] if r.random() < 0.6 else r.sample(names, r.randint(2, 4))
    return [Op('import', None, [chosen], {'blocked': r.random() < 0.7})]


@gen('computations')
def g_computations(G, r):
    from ..registry import GENS

    ops = []
    for _ in range(3):
        ops += GENS[r.choice(sorted(FAST))](G, r)
        G.new_mode()
    return ops


@gen('plots_blocked')
def g_plots_blocked(G, r):
    from .actions_gen import g_plots_recorded
    from .c19 import g_plots_many

    ops = g_plots_recorded(G, r)
    if r.random() < 0.3:
        # Drawing several objects is only attempted without Matplotlib.
        ops += [op.copy(meta={'blocked only': True}) for op in g_plots_many(G, r)]
    return ops


FAST = [g for g in all_workloads(every_operation=3) if g not in ('fit_cylinder', 'plots', 'plots_many', 'histories', 'threads', 'mutations', 'frames', 'frames_geometry', 'imports',
                                                                 'computations', 'plots_blocked', 'plots_recorded')]


def is_plot(op):
    return '.plot_2d' in op.fn or '.plot_3d' in op.fn


class ImportMonitor:
    """Compares outcomes with those of a process in which Matplotlib is not installed, and watches its import attempts."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()
        self.peer = None

    def imports(self, op):
        names, blocked = op.args[0], op.kw['blocked']
        p = subprocess.run([sys.executable, '-B', '-c', SCRIPT.format(names=names, blocked=blocked)], capture_output=True, text=True, timeout=120,
                           env=dict(os.environ, MON_ENV='1'))
        if p.returncode:
            return f'importing {names} ended with {p.returncode}: {p.stderr[-1500:]}'
        kind, mro, text, loaded, attempts = eval(p.stdout.strip().splitlines()[-1])
        plotting = 'skspatial.plotting' in names
        if not blocked:
            if kind:
                return f'importing {names} with Matplotlib installed raised {kind}: {text}'
            if loaded and not plotting:
                return f'importing {names} imported {loaded}'
            return True
        if plotting:
            if 'ImportError' not in mro:
                return f'importing {names} without Matplotlib: {kind or "no error"} instead of ImportError'
            if 'matplotlib' not in text.lower() or 'install' not in text.lower():
                return f'importing {names} without Matplotlib does not say how to install it: {text!r}'
            return True
        if kind:
            return f'importing {names} without Matplotlib raised {kind}: {text}'
        if attempts:
            return f'importing {names} tried to import {attempts}'
        return True

    def session(self, ops, source):
        st = self.stats
        if ops and ops[0].fn == 'import':
            for op in ops:
                verdict = self.imports(op)
                if verdict is not True:
                    yield op, verdict
                    continue
                st.event('import', 'blocked' if op.kw['blocked'] else 'installed')
                st.distinct(op)
                st.signature('import', *sorted(op.args[0]))
            return
        if self.peer is None:
            self.peer = Peer('blocked', 7)
        reply = self.peer.outcomes(ops)
        if reply['imported']:
            yield None, f'importing the objects tried to import {reply["imported"]}'
            return
        for op, (got, attempts) in zip(ops, reply['outcomes']):
            if op.meta.get('blocked only'):
                if not (got.startswith('raise ImportError') or got.startswith('raise ModuleNotFoundError') or got.startswith('not built')):
                    yield op, f'without Matplotlib: {got[:800]}'
                    continue
                st.event(op.fn, 'ImportError')
                continue
            want = execute(op, self.executor)
            if want.startswith('not built'):
                st.event(op.fn, 'skipped')
                st.skip(op.fn, 'operand not built')
                continue
            if is_plot(op) and (got.startswith('raise ImportError') or got.startswith('raise ModuleNotFoundError')):
                if 'matplotlib' not in got.lower():
                    yield op, f'the error does not name Matplotlib: {got[:500]}'
                    continue
                st.event(op.fn, 'ImportError')
            elif got != want:
                yield op, f'without Matplotlib: {got[:800]}; with it: {want[:800]}'
                continue
            elif attempts and not is_plot(op):
                yield op, f'tried to import {attempts}'
                continue
            else:
                st.event(op.fn, 'same drawing' if is_plot(op) else 'same outcome')
            st.distinct(op)
            st.signature(op.fn, got[:12])
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {got[:200]}')

    def finish(self):
        if self.peer:
            self.peer.close()


prop('C26', {'imports': 0.3, 'computations': 10, 'plots_blocked': 2}, 6000, 150000,
     'A case runs operations of every workload here and in a process where an import hook makes Matplotlib look not installed, and compares outcomes bit for bit and import attempts; '
     'or imports a module, or several in some order, in a fresh interpreter with or without Matplotlib. Non-trivial: both outcomes were compared; distinct: by operation and operands.',
     monitor=ImportMonitor, technique='runtime monitoring: import attempts and outcomes in processes with and without Matplotlib',
     required=['import', 'Line.plot_2d', 'Line.plot_3d', 'Circle.plot_2d', 'Vector.plot_2d', 'Points.plot_3d', 'Line.project_point', 'Cylinder.to_mesh', 'Triangle.angle',
               'plotting.plot_2d'], minimum=20)
