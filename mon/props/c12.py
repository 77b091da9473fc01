"""C12: results do not depend on how equal numbers are represented."""
from .. import table
from ..core import CLASSES, Executor
from ..pairs import close_values, judge_difference, magnitude, same_kind
from ..registry import gen, prop
from .c10 import all_workloads
from . import c11, c23  # noqa: F401

BIG = 1e8


def floats(x):
    """The same numbers as floats; counts and other small parameters of methods are left alone."""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return float(x)
    if isinstance(x, list):
        return [floats(v) for v in x]
    if isinstance(x, tuple):
        return (x[0],) + tuple(floats(v) for v in x[1:])
    return x


def ints(x):
    """The same numbers as integers where they are integers; arrays only if all their numbers are."""
    if isinstance(x, list):
        flat = list(flatten(x))
        if flat and all(isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) <= BIG and v == int(v) and str(v) != '-0.0' for v in flat):
            return as_int(x)
        return [ints(v) if isinstance(v, tuple) else v for v in x]
    if isinstance(x, tuple):
        return (x[0],) + tuple(ints(v) for v in x[1:])
    if isinstance(x, float) and abs(x) <= BIG and x == int(x):
        return int(x)
    return x


def as_int(x):
    return [as_int(v) for v in x] if isinstance(x, list) else int(x)


def flatten(x):
    for v in x:
        if isinstance(v, list):
            yield from flatten(v)
        else:
            yield v


@gen('integers')
def g_integers(G, r):
    """Random operations on operands with integers only, often so large that their products need 64 bits."""
    ops = []
    names = sorted(table.OPS)
    for _ in range(6):
        G.restrict = r.choice((['int3', 'big'], ['big'], ['big', 'int']))
        G.new_mode()
        op = table.make(r.choice(names), G, r)
        op.recv, op.args = integers(op.recv), integers(op.args)
        op.style = 16 * r.randrange(1, 60000) + 3
        ops.append(op)
    return ops


def integers(x):
    """Numbers in lists rounded."""
    if isinstance(x, tuple):
        return tuple(integers(v) if isinstance(v, (list, tuple)) else v for v in x)
    if isinstance(x, list):
        return [integers(v) if isinstance(v, (list, tuple)) else round(v) if isinstance(v, float) and abs(v) < 1e8 else v for v in x]
    return x


class RepresentationMonitor:
    """Executes the same operation with operands in several representations."""

    VARIANTS = 4

    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()

    def judge(self, op, source):
        # Lists of Python floats are the reference.
        fixed = op.fn.endswith('.set_dimension') or op.fn.endswith('.round') or op.fn.startswith('Triangle.')
        base = op.copy(recv=floats(op.recv), args=op.args if fixed else floats(op.args), style=0)
        variants = [op.copy(recv=ints(op.recv), args=op.args if fixed else ints(op.args), style=0)]
        for k in range(self.VARIANTS):
            v = (op, base, variants[0])[k % 3]
            variants.append(v.copy(style=op.style if k == 0 and op.style % 16 == 3 else source.randrange(1, 10**6)))
        if magnitude([base.recv, base.args]) > BIG and any(isinstance(v, int) for v in numbers([op.recv, op.args])):
            return None
        a = self.executor.run(base, share=False)
        size = magnitude([base.recv, base.args])
        for v in variants:
            b = self.executor.run(v, share=False)
            self.stats.count('pairs compared')
            self.stats.count('pairs that both raised', int(not a.ok and not b.ok))
            if not same_kind(a, b):
                text = f'floats: {a.describe()}; other representation (style {v.style}, {v!r}): {b.describe()}'
            elif a.ok:
                d = close_values(a.value, b.value, 1e-12, 0)
                if d is None:
                    continue
                text = f'floats and another representation (style {v.style}, {v!r}) differ: {d}'
            else:
                continue
            if op.fn.startswith('act.') or op.fn in CLASSES:
                d = close_values(a.value, b.value, 1e-12, size) if same_kind(a, b) and a.ok else text
                if d is None:
                    continue
                return text
            problem = judge_difference(base, a, v, b, text)
            if problem:
                return problem
            self.stats.count('differences explained by conditioning or tolerance')
        return 'returned' if a.ok else 'raised'

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            if op.fn.startswith('act.') or '.plot' in op.fn:
                continue
            try:
                verdict = self.judge(op, source)
            except ValueError as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {error}')
                continue
            if verdict is None:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, 'integers above 1e8')
                continue
            if verdict not in ('returned', 'raised'):
                yield op, verdict
                continue
            st.event(op.fn, verdict)
            st.distinct(op)
            st.signature(op.fn, verdict)
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {verdict} in {self.VARIANTS + 2} representations'[:600])

    def finish(self):
        pass


def numbers(x):
    if isinstance(x, (list, tuple)):
        for v in x:
            yield from numbers(v)
    else:
        yield x


prop('C12', all_workloads(crowds=0.006, every_operation=20, integers=12, arithmetic=0, copies=0, texts=0, numpy_calls=0, plots_recorded=0, every_operation_nasty=0, fit_cylinder=0.1), 30000, 600000,
     'A case is a case of any computing workload; each operation runs with lists of floats, with integers where the numbers are integers and in four random mixtures of tuples, '
     'arrays of several layouts, read-only arrays and objects of the library. Outcomes must agree; the exact oracles arbitrate a difference. '
     'Non-trivial: all representations were compared; distinct: by operation and operands.',
     monitor=RepresentationMonitor, technique='runtime monitoring: outcomes of the same event under several representations compared',
     required=['Line.project_point', 'Vector.dot', 'Points.centroid', 'Plane.intersect_line', 'Circle.best_fit', 'Triangle.angle', 'Cylinder.intersect_line', 'Point', 'Triangle'])
