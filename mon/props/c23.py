"""C23: results are finite and failures are clean documented errors."""
import math

import numpy as np

from .. import exact as ex, table
from ..core import CLASSES, Executor
from ..registry import gen, prop
from ..values import non_finite
from .c10 import all_workloads


@gen('every_operation')
def g_every(G, r):
    """Random operations on operands that are often equal, parallel, collinear or perpendicular."""
    ops = []
    names = sorted(table.OPS)
    for _ in range(6):
        G.new_mode()
        ops.append(table.make(r.choice(names), G, r, style=G.style(0.3)))
    return ops


@gen('every_operation_nasty')
def g_nasty(G, r):
    """The same with zeros, tiny, huge and nearly equal numbers."""
    ops = []
    names = sorted(table.OPS)
    for _ in range(6):
        G.new_mode()
        ops.append(table.make(r.choice(names), G, r, nasty=True, style=G.style(0.3)))
    return ops


def ordinary(x):
    """All numbers are zero or of magnitude 1e-9 to 1e9."""
    if isinstance(x, (list, tuple)):
        return all(map(ordinary, x))
    if isinstance(x, dict):
        return all(map(ordinary, x.values()))
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return x == 0 or (math.isfinite(x) and 1e-10 <= abs(x) <= 1e10)
    return True


INTERNAL = ('math domain error', 'math range error', 'division by zero', 'float division', 'cannot convert float NaN', 'SVD did not converge',
            'Singular matrix', 'recursion', 'array must not contain infs or NaNs', 'must not contain infs', 'residuals are not finite',
            'Eigenvalues did not converge')


def nearly_parallel(op):
    """A line is parallel to a plane or to a cap up to rounding, but not exactly: whether its dot product with the normal is zero depends on the order of the sum."""
    if op.fn == 'Plane.intersect_line':
        n, d = op.recv[2], op.args[0][2]
    elif op.fn == 'Cylinder.intersect_line':
        n, d = op.recv[2], op.args[0][2]
    else:
        return False
    n, d = ex.qv(n), ex.qv(d)
    return len(n) == len(d) and 0 < abs(float(ex.dot(n, d))) <= 1e-6 * (1 if op.style else 1e-7) * math.sqrt(ex.n2(n) * ex.n2(d))


class CleanMonitor:
    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor(capture_warnings=True)

    def judge(self, op):
        constructor = op.fn in CLASSES
        if not constructor and not ordinary([op.recv, op.args, op.kw]):
            return None
        out = self.executor.run(op)
        bad = [w for w in out.warns if any(k in w for k in ('invalid value', 'divide by zero', 'overflow', 'underflow', 'encountered', 'Mean of empty', 'Degrees of freedom'))]
        if bad and isinstance(out.exc, ValueError) and nearly_parallel(op):
            return None
        if bad and not constructor:
            return f'emitted the warning {bad[0]!r} and {out.describe()}'
        if out.ok:
            path = non_finite(out.value)
            if path:
                return f'{path} in the result {out.value!r}'
            return True
        error = out.exc
        if not isinstance(error, (ValueError, TypeError)) or isinstance(error, np.linalg.LinAlgError):
            return f'failed with the internal error {type(error).__name__}: {error}'
        text = str(error)
        if not text.strip() or any(k.lower() in text.lower() for k in INTERNAL):
            return f'failed with the internal error {type(error).__name__}: {text!r}'
        return True

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            if op.fn.startswith('act.') and op.fn != 'act.text':
                continue
            try:
                verdict = self.judge(op)
            except ValueError as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {type(error).__name__}')
                continue
            if verdict is None:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, 'numbers outside the ordinary range, or a line parallel up to rounding')
                continue
            if verdict is not True:
                yield op, verdict
                continue
            out = 'clean'
            st.event(op.fn, out)
            st.distinct(op)
            st.signature(op.fn, bool(op.style), op.recv is None)
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: clean'[:600])

    def finish(self):
        pass


prop('C23', all_workloads(crowds=0.006, every_operation=10, every_operation_nasty=14, arithmetic=0, copies=0, texts=0.1, numpy_calls=0, plots_recorded=0.2), 100000, 2000000,
     'A case is a case of any workload, or six random operations on operands that are often equal, parallel, collinear, zero, tiny or huge; every result is searched for '
     'NaN and infinity, every warning and error is classified. Non-trivial: the call was made with numbers of ordinary magnitude; distinct: by operation, operands and representation.',
     monitor=CleanMonitor, technique='runtime monitoring: floating-point warnings, non-finite results and error classes of every event',
     required=sorted(table.OPS), minimum=20)
