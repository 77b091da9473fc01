"""C13: geometry does not depend on the coordinate frame."""
import math
import random

import numpy as np

from .. import table
from ..core import Executor, Op
from ..exact import F
from ..gen import Gen
from ..pairs import judge_difference, magnitude, same_kind
from ..registry import GENS, gen, prop

MOVING = sorted(f for f, row in table.OPS.items() if row[3] is not None)


class Lattice(Gen):
    """Numbers that are multiples of 2**-20, so that translations are exact."""

    def _num(self, mode, scale, offset):
        x = super()._num(mode, scale, offset)
        return x if isinstance(x, int) else round(x * 2**20) / 2**20


class Frame:
    """A signed permutation of the axes, a power-of-two scale and a translation."""

    def __init__(self, r, n):
        self.n = n
        self.perm = list(range(n))
        if r.random() < 0.8:
            r.shuffle(self.perm)
        self.sign = [r.choice((1, 1, -1)) for _ in range(n)] if r.random() < 0.7 else [1] * n
        self.scale = F(2) ** (r.choice((0, 0, 1, -1, 2, 3, -3, 7, -6)))
        if r.random() < 0.5:
            self.shift = [0] * n
        else:
            m = r.choice((1, 10, 1000))
            self.shift = [r.randint(-m, m) if r.random() < 0.8 else 0 for _ in range(n)]
        if r.random() < 0.2:  # far smaller or larger
            self.scale = F(2) ** r.choice((-40, -30, -20, 20, 30))
            self.shift = [0] * n
        inversions = sum(1 for i in range(n) for j in range(i) if self.perm[j] > self.perm[i])
        self.det = (-1) ** inversions
        for s in self.sign:
            self.det *= s

    def extended(self):
        """The same frame with a third axis that stays."""
        if self.n >= 3:
            return self
        f = object.__new__(Frame)
        k = 3 - self.n
        f.n, f.perm, f.sign, f.scale = 3, self.perm + list(range(self.n, 3)), self.sign + [1] * k, self.scale
        f.shift, f.det = self.shift + [0] * k, self.det
        return f

    def linear(self, v, scale=None):
        s = self.scale if scale is None else scale
        return [exactly(s * self.sign[i] * F(v[self.perm[i]]), v[self.perm[i]]) for i in range(self.n)]

    def move(self, p):
        return [exactly(self.scale * self.sign[i] * F(p[self.perm[i]]) + self.shift[i], p[self.perm[i]]) for i in range(self.n)]

    def __repr__(self):
        return f'axes {self.perm}, signs {self.sign}, scale {float(self.scale)}, translation {self.shift}'


class Inexact(Exception):
    pass


def exactly(q, like):
    """A rational as a number, int if it was one, still is, and is small enough to be multiplied as one."""
    if isinstance(like, int) and q.denominator == 1 and abs(q) <= 10**9:
        return int(q)
    try:
        x = float(q)
    except OverflowError:
        raise Inexact from None
    if F(x) != q:
        raise Inexact
    return x


def move_spec(f, spec):
    name = spec[0]
    if name == 'Point':
        return (name, f.move(spec[1]))
    if name == 'Vector':
        return (name, f.linear(spec[1]))
    if name == 'Points':
        return (name, [f.move(p) for p in spec[1]])
    if name in ('Line', 'Plane'):
        return (name, f.move(spec[1]), f.linear(spec[2]))
    if name in ('Circle', 'Sphere'):
        return (name, f.move(spec[1]), exactly(f.scale * F(spec[2]), spec[2]))
    if name in ('LineSegment', 'Triangle'):
        return (name, *[f.move(p) for p in spec[1:]])
    return (name, f.move(spec[1]), f.linear(spec[2]), exactly(f.scale * F(spec[3]), spec[3]))


def move_op(f, op):
    """The same operation in another frame."""
    kinds = [k for k in table.OPS[op.fn][1] if k not in 'mi']
    args = []
    for k, a in zip(kinds, op.args):
        if k == 'p':
            a = f.move(a)
        elif k in 'vn':
            a = f.linear(a)
        elif k in 'PQ':
            a = [f.move(p) for p in a]
        elif k == 'B':
            a = [f.linear(v) for v in a]
        elif k in 'LSFO':
            a = move_spec(f, a)
        elif k == 'r':
            a = exactly(f.scale * F(a), a)
        args.append(a)
    return op.copy(recv=None if op.recv is None else move_spec(f, op.recv), args=args)


# Results.


def floats(x):
    return [float(v) for v in np.asarray(x).ravel()]


def near(x, y, tol):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    return x.shape == y.shape and (x.size == 0 or bool(np.all(np.abs(x - y) <= tol)))


def move_float(f, p):
    return [float(f.scale) * f.sign[i] * float(p[f.perm[i]]) + f.shift[i] for i in range(f.n)]


def turn_float(f, v, scale=1.0):
    return [scale * f.sign[i] * float(v[f.perm[i]]) for i in range(f.n)]


def unit(v):
    v = np.asarray(v, dtype=float)
    return v / np.linalg.norm(v)


def agree(kind, f, a, b, tol):
    """Whether b is what a becomes in frame f."""
    s = float(f.scale)
    if kind in ('point', 'points', 'vector', 'vectors', 'unit', 'pseudo', 'pair', 'Line', 'Plane'):
        dim = np.asarray(a[0] if kind == 'pair' else a.point if kind in ('Line', 'Plane') else a).shape[-1]
        if dim == 3:
            f = f.extended()
        if dim != f.n:
            return False
    if kind == 'point':
        return near(move_float(f, a), b, tol)
    if kind == 'points':
        return near([move_float(f, p) for p in np.asarray(a)], b, tol)
    if kind == 'vector':
        return near(turn_float(f, a, s), b, tol)
    if kind == 'vectors':
        return near([turn_float(f, p, s) for p in np.asarray(a)], b, tol)
    if kind == 'unit':
        return near(turn_float(f, a), b, 1e-9)
    if kind == 'pseudo':
        return near(turn_float(f, a, s * s * f.det), b, tol * tol * 1e9)
    if kind == 'pair':
        x, y = move_float(f, a[0]), move_float(f, a[1])
        return (near(x, b[0], tol) and near(y, b[1], tol)) or (near(x, b[1], tol) and near(y, b[0], tol))
    if kind == 'length':
        return near(s * float(a), float(b), tol)
    if kind == 'lengths':
        return near(s * np.asarray(a), b, tol)
    if kind in ('area', 'areas'):
        return near(s * s * np.asarray(a, dtype=float), b, tol * tol * 1e9)
    if kind == 'flip area':
        return near(f.det * s * s * float(a), float(b), tol * tol * 1e9)
    if kind == 'volume':
        return near(s**3 * float(a), float(b), tol**3 * 1e18)
    if kind in ('number', 'angle'):
        return near(float(a), float(b), 1e-9)
    if kind == 'signed angle':
        d = abs(f.det * float(a) - float(b))
        return min(d, abs(d - 2 * math.pi)) <= 1e-9
    if kind == 'flip':
        return int(b) == f.det * int(a)
    if kind == 'same':
        return a == b
    if kind in ('Line', 'Plane'):
        u, v = unit(turn_float(f, a.vector)), unit(b.vector)
        if not near(u, v, 1e-9) and not near(u, -v, 1e-9):
            return False
        d = np.asarray(b.point, dtype=float) - move_float(f, a.point)
        if kind == 'Line':
            d = d - (d @ u) * u
        else:
            d = d @ u
        return near(d, np.zeros_like(d), tol)
    if kind in ('Circle', 'Sphere'):
        return near(move_float(f, a.point), b.point, tol) and near(s * float(a.radius), float(b.radius), tol)
    assert kind == 'Cylinder', kind
    return near(move_float(f, a.point), b.point, tol) and near(turn_float(f, a.vector, s), b.vector, tol) and near(s * float(a.radius), float(b.radius), tol)


class FrameMonitor:
    def __init__(self, name, conf, stats):
        self.stats = stats
        self.executor = Executor()

    def judge(self, op, source):
        kind = table.OPS[op.fn][3]
        a = self.executor.run(op, share=False)
        seed = source.randrange(10**9)
        verdict = 'raised' if not a.ok else 'returned'
        moved_ops = 0
        for k in range(3):
            f = Frame(random.Random(seed + k), c_dim(op))
            try:
                moved = move_op(f, op)
            except Inexact:
                self.stats.count('frames that are not exact in floating point')
                continue
            b = self.executor.run(moved, share=False)
            self.stats.count('pairs of frames compared')
            moved_ops += 1
            size = max(magnitude([moved.recv, moved.args]), magnitude([op.recv, op.args]) * float(f.scale), 1e-300)
            if same_kind(a, b):
                if not a.ok:
                    continue
                try:
                    if agree(kind, f, a.value, b.value, 1e-9 * size):
                        continue
                except (TypeError, AttributeError, IndexError, ValueError) as error:
                    return f'results cannot be compared ({error}): {a.describe()} and {b.describe()}', 0
            text = f'in the frame ({f}) {moved!r}: {b.describe()}; in the original frame: {a.describe()}'
            problem = judge_difference(op, a, moved, b, text)
            if problem:
                return problem, 0
            self.stats.count('differences explained by conditioning or tolerance')
            self.stats.skip(op.fn, 'difference explained by conditioning or tolerance')
        return verdict, moved_ops

    def session(self, ops, source):
        st = self.stats
        for op in ops:
            try:
                verdict, n = self.judge(op, source)
            except ValueError as error:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, f'operand not built: {error}')
                continue
            if verdict not in ('returned', 'raised'):
                yield op, verdict
                continue
            if not n:
                st.event(op.fn, 'skipped')
                continue
            st.event(op.fn, verdict)
            st.distinct(op)
            st.signature(op.fn, verdict, c_dim(op))
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r}: {verdict} in {n} other frames'[:600])

    def finish(self):
        pass


def c_dim(op):
    from .c11 import dim_of

    return dim_of(op.recv if op.recv is not None else op.args[0])


@gen('frames')
def g_frames(G, r):
    G = Lattice(r, ['int1', 'int', 'int', 'int3', 'dy', 'f', 'f', 'dec'])
    ops = []
    for _ in range(6):
        G.new_mode()
        op = table.make(r.choice(MOVING), G, r)
        ops.append(op)
    return ops


GEOMETRY = ['project_line', 'project_plane', 'project_round', 'distance_point', 'distance_round', 'side_2d', 'distance_lines', 'intersect_lines', 'intersect_plane_line',
            'intersect_planes', 'intersect_segments', 'round_line', 'circle_circle', 'cylinder_line', 'cylinder_within', 'vectors', 'vectors_3d', 'predicate_vectors',
            'predicate_arrays', 'predicate_contains', 'predicate_segment', 'predicate_lines', 'predicate_coplanar', 'affine_rank', 'fit_line', 'fit_plane', 'fit_round',
            'triangle', 'measures', 'transform', 'points_ops', 'derived', 'derived_three']


@gen('frames_geometry')
def g_frames_geometry(G, r):
    """Operations of the geometric workloads that have no tolerances, which would not move with the frame."""
    ops = [op for op in GENS[r.choice(GEOMETRY)](G, r) if op.fn in MOVING and set(op.kw) <= {'infinite', 'check_coplanar'} and well_formed(op)]
    return [op.copy(meta={}) for op in r.sample(ops, min(6, len(ops)))]


def numbers(x):
    return isinstance(x, list) and len(x) > 0 and all(isinstance(v, (int, float)) and not isinstance(v, bool) and math.isfinite(v) for v in x)


def well_formed(op):
    """As many operands as the operation has, all finite and of the dimension of the operation."""
    kinds = [k for k in table.OPS[op.fn][1] if k not in 'mi']
    if len(kinds) != len(op.args):
        return False
    try:
        n = c_dim(op)
    except (TypeError, AttributeError, IndexError):
        return False

    def point(x):
        return numbers(x) and len(x) == n

    def obj(x):
        parts = x[1:]
        if x[0] == 'Points':
            return all(map(point, parts[0]))
        return all(point(v) if isinstance(v, list) else isinstance(v, (int, float)) and math.isfinite(v) for v in parts)

    for k, a in zip(kinds, op.args):
        if k in 'pvn' and not point(a):
            return False
        if k in 'PQB' and not (isinstance(a, list) and a and all(map(point, a))):
            return False
        if k in 'LSFO' and not (isinstance(a, tuple) and a[0] == {'L': 'Line', 'S': 'LineSegment', 'F': 'Plane', 'O': 'Circle'}[k] and obj(a)):
            return False
        if k in 'xr' and not (isinstance(a, (int, float)) and math.isfinite(a)):
            return False
    return op.recv is None or obj(op.recv)


prop('C13', {'frames': 3, 'frames_geometry': 2}, 30000, 600000,
     'A case is six random operations on operands that are often equal, parallel, collinear or perpendicular, or operations of the workloads of the geometric properties; each runs in three other frames (permuted and reflected axes, '
     'power-of-two scale, exact translation) and the results are mapped back and compared; the exact oracles arbitrate a difference. Non-trivial: at least one '
     'exact frame was compared; distinct: by operation and operands.',
     monitor=FrameMonitor, technique='runtime monitoring: outcomes of the same event in several coordinate frames compared', required=MOVING)
