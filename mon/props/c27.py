"""C27: every operation takes a bounded number of steps."""
import math
import random
import signal
import sys
import time

from .. import table
from ..core import AXES, CLASSES, Executor, Op, Out
from ..gen import Gen
from ..registry import gen, prop
from .c03_05 import cylinder
from .c10 import all_workloads
from . import c11, c12, c13, c23, c25, c26  # noqa: F401

# Calls of Python and C functions: a constant, some for each row of numbers (a point or vector) and for each number in the operands.
CONSTANT, PER_ROW, PER_NUMBER = 6000, 500, 60
# The constant of the iterative fit.
BUDGET = {'Cylinder.best_fit': 5_000_000}
DEPTH = 60
SECONDS = 60
# Running time for FEW and MANY points: sorting takes 9.4 times as long, comparing all pairs 64 times.
FEW, MANY = 2000, 16000
GROWTH, FLOOR = 24, 0.25


class Stop(BaseException):
    """The operation exceeded its bounds; not an Exception, so that the library does not swallow it."""


def size(x):
    """How many numbers the operands have."""
    if isinstance(x, (list, tuple)):
        return sum(map(size, x))
    return 1


def rows(x):
    """How many points and vectors the operands have."""
    if isinstance(x, (list, tuple)):
        return sum(map(rows, x)) if any(isinstance(v, (list, tuple)) for v in x) else 1
    return 0


class StepMonitor:
    """Counts the calls of each operation and their depth with a profile hook; a timer stops operations that never end."""

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()
        self.most = {}
        self.slowest = 0.0
        signal.signal(signal.SIGALRM, self.alarm)
        # Imports are not steps of the operations.
        import skspatial.plotting

        AXES['Axes3D']()

    def alarm(self, *_):
        raise Stop(f'did not finish in {SECONDS} s')

    def bounds(self, op):
        operands = [op.recv, op.args, list(op.kw.values())]
        n, m = size(operands), rows(operands)
        steps = [op.kw.get(k, 30) for k in ('n_angles', 'n_along_axis')]
        if ('to_points' in op.fn or 'to_mesh' in op.fn or 'plot' in op.fn) and all(isinstance(k, int) for k in steps):
            n += 3 * steps[0] * max(steps)
        return n, BUDGET.get(op.fn, CONSTANT) + PER_ROW * m + PER_NUMBER * n

    def judge(self, op):
        func, recv, args, kw = self.executor.prepare(op, share=False)
        n, limit = self.bounds(op)
        state = [0, 0, 0]

        def profile(frame, event, arg):
            if event == 'call':
                state[0] += 1
                state[1] += 1
                if state[1] > state[2]:
                    state[2] = state[1]
                    if state[1] > DEPTH:
                        sys.setprofile(None)
                        raise Stop(f'more than {DEPTH} nested calls')
            elif event == 'return':
                state[1] -= 1
            elif event == 'c_call':
                state[0] += 1
            if state[0] > limit:
                sys.setprofile(None)
                raise Stop(f'more than {limit} calls for operands of {n} numbers')

        signal.setitimer(signal.ITIMER_REAL, SECONDS)
        sys.setprofile(profile)
        try:
            func(*args, **kw)
            verdict = 'returned'
        except Stop as stop:
            return str(stop)
        except RecursionError as error:
            return f'recursed without end: {error}'
        except Exception:
            verdict = 'raised'
        finally:
            sys.setprofile(None)
            signal.setitimer(signal.ITIMER_REAL, 0)
        most = self.most.setdefault(op.fn, [0, 0, 0.0])
        most[0] = max(most[0], state[0])
        most[1] = max(most[1], state[2])
        most[2] = max(most[2], state[0] / limit)
        self.stats.count('calls observed', state[0])
        return verdict

    def growth(self, op):
        """Compare the time the operation takes for few and for many points."""
        name, seed, repeated = op.args
        for attempt in range(4):
            times = []
            for count in (FEW, MANY):
                r = random.Random(seed)
                G = Gen(r, ['dec'])
                recv, kinds, dims, _ = table.OPS[name]
                pool = table.Pool(G, r, r.choice(dims))
                made = table.make(name, G, r, pool=pool)
                numbers = random.Random(seed + 1)
                points = [[numbers.gauss(0, 9) for _ in range(pool.n)] for _ in range(count // 2 if repeated else count)] * (2 if repeated else 1)
                if recv == 'Points':
                    made.recv = ('Points', points)
                else:
                    made.args = [points if k in 'PQ' else a for k, a in zip([k for k in kinds if k not in 'mi'], made.args)]
                func, _, args, kw = self.executor.prepare(made, share=False)
                signal.setitimer(signal.ITIMER_REAL, SECONDS)
                start = time.thread_time()
                try:
                    func(*args, **kw)
                    verdict = 'grows with the points'
                except Stop as stop:
                    return f'{name} of {count} points {stop}'
                except RecursionError as error:
                    return f'{name} of {count} points recursed without end: {error}'
                except Exception:
                    verdict = 'raised'
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                times.append(time.thread_time() - start)
            ratio = times[1] / (GROWTH * times[0] + FLOOR)
            if ratio <= 1:
                self.slowest = max(self.slowest, ratio)
                return verdict
        return f'{name} takes {times[0]:.3g} s for {FEW} points and {times[1]:.3g} s for {MANY} points'

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            try:
                verdict = self.growth(op) if op.fn == 'growth' else self.judge(op)
            except (ValueError, TypeError) as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            if verdict not in ('returned', 'raised', 'grows with the points'):
                yield op, verdict
                continue
            if op.fn == 'growth':
                st.event('growth', verdict)
                st.event(f'growth of {op.args[0]}', verdict)
                st.distinct(op)
                continue
            st.event(op.fn, verdict)
            st.distinct(op)
            st.signature(op.fn, verdict, int(math.log2(size([op.recv or 0] + op.args))))
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {self.most[op.fn][0]} calls at most, {self.most[op.fn][1]} deep'[-600:])

    def finish(self):
        self.stats.extra['worst_time_over_limit'] = {'growth': round(self.slowest, 4)}
        self.stats.extra['worst_calls'] = {k: v[0] for k, v in self.most.items()}
        self.stats.extra['worst_depth'] = {k: v[1] for k, v in self.most.items()}
        self.stats.extra['worst_calls_over_limit'] = {k: round(v[2], 4) for k, v in self.most.items()}


TAKES_POINTS = sorted(f for f, row in table.OPS.items() if row[0] == 'Points' or 'P' in row[1] or 'Q' in row[1])


@gen('growth')
def g_growth(G, r):
    """An operation on thousands of points, all different or each of them twice."""
    name = r.choice([f for f in TAKES_POINTS if f != 'Cylinder.best_fit'])
    return [Op('growth', None, [name, r.randrange(10**9), r.random() < 0.3])]


@gen('sized')
def g_sized(G, r):
    """Operations on many points: up to 1000, many of them equal or in line."""
    ops = []
    for _ in range(3):
        G.new_mode()
        f = r.choice(TAKES_POINTS)
        recv, kinds, dims, _ = table.OPS[f]
        pool = table.Pool(G, r, r.choice(dims))
        if f in ('Circle.best_fit', 'Sphere.best_fit'):
            pool.points = [pool.raw_point() for _ in range(6)]
        m = r.choice((1, 2, 5, 60, 400, 1000))
        many = pool.many
        pool.many = lambda m=m, pool=pool: [pool.point() for _ in range(m)]
        op = table.make(f, G, r, pool=pool, style=G.style(0.3))
        if 'Q' in kinds:
            op.args[-1] = [pool.point() for _ in range(max(3, m))]
        ops.append(op)
    k = r.random()
    name = r.choice(('Sphere', 'Cylinder', 'Plane'))
    spec = {'Sphere': lambda: ('Sphere', G.point(3), G.radius()), 'Cylinder': lambda: cylinder(G, r), 'Plane': lambda: ('Plane', G.point(3), [1, 2, 3])}[name]()
    kw = {} if name == 'Plane' else {'n_angles': r.choice((2, 30, 100))}
    if name == 'Cylinder':
        kw['n_along_axis'] = r.choice((2, 20, 60))
    ops.append(Op(f'{name}.{"to_mesh" if k < 0.5 else "to_points"}', spec, [], kw))
    return ops


@gen('wide')
def g_wide(G, r):
    """Vectors and points of many dimensions and constructors with non-finite values."""
    n = r.choice((1, 3, 20, 100, 400))
    v, w = [[r.choice((0, 1, -2.5, r.gauss(0, 3))) for _ in range(n)] for _ in range(2)]
    v[0] = w[-1] = 1
    bad = r.choice((math.nan, math.inf, -math.inf))
    ops = [Op('Vector.dot', ('Vector', v), [w]), Op('Vector.angle_between', ('Vector', v), [w]), Op('Vector.project_vector', ('Vector', v), [w]),
           Op('Line.project_point', ('Line', w, v), [w]), Op('Plane.distance_point', ('Plane', v, w), [v]), Op('Point.round', ('Point', v), []),
           Op('Vector.different_direction', ('Vector', v), []), Op('Point.is_close', ('Point', v), [w]), Op('Vector.is_parallel', ('Vector', v), [w]),
           Op('Line', None, [v, w]), Op('Point', None, [v[:-1] + [bad]]), Op('Vector', None, [[bad] * n]), Op('Points', None, [[v, w[:-1] + [bad]]]),
           Op('act.add', None, [('Point', v), ('Vector', w)]), Op('act.truediv', None, [('Point', v), 0]), Op('act.mul', None, [('Vector', v), bad]),
           Op('act.ufunc', None, [('Vector', v), 'log']), Op('act.text', None, [('Points', [v, w])])]
    return [op.copy(style=G.style(0.3)) for op in r.sample(ops, 6)]


prop('C27', all_workloads(sized=12, wide=5, growth=0.8, every_operation_nasty=4, histories=0, frames_geometry=0, threads=0, mutations=0, imports=0, computations=0, plots_blocked=0, fit_cylinder=0.1),
     25000, 500000,
     'A case is a case of any workload, operations on up to 1000 points or dimensions, meshes of up to 6000 points, or constructors with non-finite values. A profile hook counts all calls of Python and C '
     'functions and their depth; operations on points are also timed with 2000 and 16000 points. Non-trivial: the call was made and counted; distinct: by operation, operands and representation.',
     monitor=StepMonitor, technique='runtime monitoring: profile hook counting calls and depth of every event, with a timer',
     required=['growth', 'Line.project_points', 'Points.affine_rank', 'Points.unique', 'Cylinder.to_points', 'Circle.best_fit', 'Point', 'act.truediv', 'Vector.dot'],
     assumptions=['Calls of Python and C functions are the steps; work inside one NumPy or SciPy call is only seen in the running time for many points.'])
