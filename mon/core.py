"""Operations, their execution against the real library, and the verdicts of oracles.

An operation (Op) is plain data: the name of a public function or method, the definition of the object it is
called on, and its arguments. The executor builds the real objects, calls the real code and records the outcome (Out).
Oracles judge (Op, Out) pairs using exact arithmetic on the plain data; they never look into the library.
"""
import array
import collections.abc
import importlib
import json
import math
import random
import warnings

import numpy as np

from . import exact as ex
from .exact import F

_api = {}

CLASSES = ('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Plane', 'Circle', 'Sphere', 'Triangle', 'Cylinder')


def api(name):
    """Resolve a public class or function of the library by name."""
    if name not in _api:
        if name in CLASSES:
            _api[name] = getattr(importlib.import_module('skspatial.objects'), name)
        elif name.startswith('act.'):
            _api[name] = getattr(importlib.import_module('mon.actions'), name[4:])
        else:
            module, attr = name.split('.')
            _api[name] = getattr(importlib.import_module('skspatial.' + module), attr)
    return _api[name]


class Violation(Exception):
    pass


class Skip(Exception):
    """The oracle does not decide this event (too close to a documented tolerance or ill-conditioned)."""


class Op:
    __slots__ = ('fn', 'recv', 'args', 'kw', 'style', 'tag', 'meta')

    def __init__(self, fn, recv=None, args=(), kw=None, style=0, tag='', meta=None):
        self.fn, self.recv, self.args, self.kw = fn, recv, list(args), dict(kw or {})
        self.style, self.tag, self.meta = style, tag, meta or {}

    def copy(self, **changes):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(changes)
        return Op(**d)

    def to_json(self):
        return {k: enc(getattr(self, k)) for k in self.__slots__}

    @classmethod
    def from_json(cls, d):
        d = {k: dec(v) for k, v in d.items()}
        return cls(**d)

    def key(self):
        return json.dumps([self.fn, enc(self.recv), enc(self.args), enc(self.kw), self.style])

    def __repr__(self):
        kw = ', '.join(f'{k}={v!r}' for k, v in self.kw.items())
        args = ', '.join(map(repr, self.args))
        recv = f'{show(self.recv)}.' if self.recv is not None else ''
        name = self.fn.split('.')[-1] if self.recv is not None else self.fn
        return f'{recv}{name}({args}{", " if args and kw else ""}{kw})'


def show(spec):
    if isinstance(spec, tuple):
        return f'{spec[0]}({", ".join(map(repr, spec[1:]))})'
    return repr(spec)


def enc(x):
    """JSON form of plain data; tuples (object definitions) are marked, non-finite floats are named."""
    if isinstance(x, tuple):
        return {'obj': [enc(y) for y in x]}
    if isinstance(x, list):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {'dict': {k: enc(v) for k, v in x.items()}}
    if isinstance(x, F):
        return {'frac': [str(x.numerator), str(x.denominator)]}
    if isinstance(x, float) and not math.isfinite(x):
        return {'float': repr(x)}
    return x


def dec(x):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        if 'obj' in x:
            return tuple(dec(y) for y in x['obj'])
        if 'dict' in x:
            return {k: dec(v) for k, v in x['dict'].items()}
        if 'frac' in x:
            return F(int(x['frac'][0]), int(x['frac'][1]))
        return float(x['float'])
    return x


class Recorder:
    """Stand-in for 2D axes: accepts every call and records it."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def method(*args, **kwargs):
            self.calls.append((name, args, kwargs))

        return method


def recorder3d():
    from mpl_toolkits.mplot3d import Axes3D

    if 'rec3d' not in _api:

        class Recorder3D(Axes3D):
            def __init__(self):
                object.__setattr__(self, 'calls', [])

            def __getattribute__(self, name):
                if name in ('calls', '__class__', '__dict__'):
                    return object.__getattribute__(self, name)
                if name.startswith('__'):
                    return super().__getattribute__(name)
                calls = object.__getattribute__(self, 'calls')

                def method(*args, **kwargs):
                    calls.append((name, args, kwargs))

                return method

        _api['rec3d'] = Recorder3D
    return _api['rec3d']()


def is_rect(x):
    """'1' for a non-empty list of numbers, '2' for a non-empty rectangular list of such lists, else None."""
    if not x:
        return None
    if all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in x):
        return '1'
    if all(isinstance(v, list) and is_rect(v) == '1' for v in x) and len({len(v) for v in x}) == 1:
        return '2'
    return None


class Source(random.Random):
    kind = None


def representation(style, factor=0):
    """The random source of the representations of the operands; in some styles all arrays have the same one."""
    if not style:
        return None
    r = Source(style * factor + 1 if factor else style)
    if style % 8 == 3:
        r.kind = 13 if style % 16 == 3 else style // 16 % 16
    return r


def styled(x, r):
    """The same numbers in another representation, chosen by the random source r (None: as they are)."""
    if r is None:
        return x
    kind = is_rect(x)
    if kind is None:
        return x
    if any(isinstance(v, int) and abs(v) > 2**62 for row in (x if kind == '2' else [x]) for v in row):
        return x
    k = r.randrange(16) if r.kind is None else r.kind
    if k in (12, 13) and all(isinstance(v, int) and abs(v) <= 10**8 for row in (x if kind == '2' else [x]) for v in row):
        return np.array(x, dtype=np.int32)
    if k in (4, 5, 10) and not all(math.isfinite(v) for row in (x if kind == '2' else [x]) for v in row):
        k = 1
    if kind == '1':
        if k == 0:
            return tuple(x)
        if k == 1:
            return np.array(x)
        if k == 2:
            return np.array(x, dtype=float)
        if k == 3:
            return [float(v) for v in x]
        if k == 4:
            return api('Point')(x)
        if k == 5:
            return api('Vector')(np.array(x))
        if k == 6:
            return list(np.array(x))
        if k == 7:
            return np.repeat(np.array(x), 2)[::2]
        if k == 8:
            return np.array(x[::-1])[::-1]
        if k == 9:
            a = np.array(x)
            a.flags.writeable = False
            return a
        if k == 10:
            return api('Vector')(np.array([x, x]).T[:, 1])
        if k == 11:
            return swapped(np.array(x))
        if k == 14:
            return Row(x)
        if k == 15:
            return typed(x)
        return x
    if k == 0:
        return tuple(map(tuple, x))
    if k == 1:
        return np.array(x)
    if k == 2:
        return np.array(x, dtype=float, order='F')
    if k == 3:
        return [[float(v) for v in row] for row in x]
    if k == 4:
        return api('Points')(x)
    if k == 5:
        return [api('Point')(row) for row in x]
    if k == 6:
        return [np.array(row) for row in x]
    if k == 7:
        return np.repeat(np.array(x), 2, axis=0)[::2]
    if k == 8:
        return np.array([row[::-1] for row in x])[:, ::-1]
    if k == 9:
        a = np.array(x)
        a.flags.writeable = False
        return a
    if k == 10:
        return tuple(api('Vector')(row) for row in x)
    if k == 11:
        return swapped(np.array(x))
    if k == 14:
        return Row(Row(row) for row in x)
    if k == 15:
        return [typed(row) for row in x]
    return x


def swapped(a):
    """The same array with the bytes of its numbers in the other order."""
    return a.astype(a.dtype.newbyteorder())


class Row(collections.abc.Sequence):
    """A sequence of a program's own."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __repr__(self):
        return f'Row({self.items!r})'


def typed(x):
    """The numbers in an array of the standard library, or in a range if they are evenly spaced integers."""
    if all(isinstance(v, int) for v in x):
        step = x[1] - x[0] if len(x) > 1 else 1
        if step and list(range(x[0], x[0] + step * len(x), step)) == x:
            return range(x[0], x[0] + step * len(x), step)
        return array.array('l', x)
    return array.array('d', x)


AXES = {'Axes2D': Recorder, 'Axes3D': recorder3d}


_plotters = {}


def build(spec, r=None):
    """Build a value from plain data: tuples are objects of the library, lists are array_like."""
    if isinstance(spec, tuple):
        name = spec[0]
        if name in AXES:
            return AXES[name]()
        if name == 'Plotter':
            # Equal definitions are one plotter, which can be used several times.
            if _plotters.get('of') != repr(spec):
                _plotters.update({'of': repr(spec), 'plotter': build(spec[1], r).plotter(**spec[2])})
            return _plotters['plotter']
        return api(name)(*[build(a, r) for a in spec[1:]])
    if isinstance(spec, list):
        return styled(spec, r)
    if r is not None and type(spec) in (int, float) and r.random() < 0.5:
        # A scalar of NumPy with the same value.
        if type(spec) is float:
            return np.float64(spec)
        if abs(spec) <= 2**62:
            return r.choice((np.int64, np.int32))(spec) if abs(spec) <= 10**8 else np.int64(spec)
    return spec


class Out:
    __slots__ = ('ok', 'value', 'exc', 'warns', 'recv', 'args', 'kw')

    def describe(self):
        if self.ok:
            return f'returned {self.value!r}'
        return f'raised {type(self.exc).__name__}: {self.exc}'


class Executor:
    """Executes operations; consecutive operations on the same definition share one object."""

    def __init__(self, capture_warnings=False, before=None, after=None):
        self.capture_warnings = capture_warnings
        self.before, self.after = before, after
        self.last = None

    def prepare(self, op, share=True):
        r = representation(op.style)
        if op.recv is None:
            recv = None
            if op.fn in CLASSES:
                func = api(op.fn)
            else:
                head, attr = op.fn.split('.')
                func = getattr(api(head), attr) if head in CLASSES else api(op.fn)
        else:
            if share and self.last is not None and self.last[0] is op.recv and self.last[1] == op.style:
                recv = self.last[2]
            else:
                recv = build(op.recv, r)
                self.last = (op.recv, op.style, recv)
            func = getattr(recv, op.fn.split('.')[1])
        r2 = representation(op.style, 7)
        args = [build(a, r2) for a in op.args]
        kw = {k: build(v, r2) for k, v in op.kw.items()}
        return func, recv, args, kw

    def run(self, op, share=True):
        out = Out()
        func, recv, args, kw = self.prepare(op, share)
        out.recv, out.args, out.kw, out.warns, out.exc, out.value = recv, args, kw, (), None, None
        token = self.before(op, recv, args, kw) if self.before else None
        if self.capture_warnings:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                self._call(out, func, args, kw)
            out.warns = [str(w.message) for w in caught if issubclass(w.category, (RuntimeWarning, UserWarning))]
        else:
            self._call(out, func, args, kw)
        if self.after:
            self.after(op, out, token)
        return out

    @staticmethod
    def _call(out, func, args, kw):
        try:
            out.value = func(*args, **kw)
            out.ok = True
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as error:  # The outcome of the call is judged by the oracle.
            out.ok = False
            out.exc = error


# Helpers for oracles.


class Check:
    """Comparisons used by oracles; remembers the largest error relative to the tolerance."""

    def __init__(self):
        self.worst = {}
        self.fn = ''

    def note(self, err, tol):
        r = err / tol if tol > 0 else (0.0 if err == 0 else math.inf)
        if r > self.worst.get(self.fn, -1.0):
            self.worst[self.fn] = r

    def returned(self, out):
        if not out.ok:
            raise Violation(f'raised {type(out.exc).__name__} ({out.exc}) where a result exists')
        return out.value

    def raised(self, out, types=ValueError, why='the result is undefined'):
        if out.ok:
            raise Violation(f'returned {out.value!r} where {why}: an error must be raised')
        if not isinstance(out.exc, types):
            raise Violation(f'raised {type(out.exc).__name__} ({out.exc}) where {why}')
        return 'raise'

    def scalar(self, got, want, tol, what='value'):
        """Compare a number with an exact (rational or float) value."""
        try:
            g = float(got)
        except Exception:
            raise Violation(f'{what}: {got!r} is not a number') from None
        if not math.isfinite(g):
            raise Violation(f'{what} is {g}, expected {float(want)!r}')
        err = abs(g - float(want))
        self.note(err, tol)
        if not err <= tol:
            raise Violation(f'{what} is {g!r}, exact value {float(want)!r} (difference {err:.3g}, allowed {tol:.3g})')
        return g

    def vector(self, got, want, tol, what='value'):
        g = self.numbers(got, len(want), what)
        for i, (x, y) in enumerate(zip(g, want)):
            err = abs(x - float(y))
            self.note(err, tol)
            if not err <= tol:
                raise Violation(
                    f'{what} is {g}, exact value {[float(v) for v in want]} (component {i} differs by {err:.3g}, allowed {tol:.3g})')
        return g

    def numbers(self, got, n, what='value'):
        a = np.asarray(got)
        if a.shape != (n,):
            raise Violation(f'{what} has shape {a.shape}, expected ({n},)')
        g = [float(x) for x in a]
        if not all(map(math.isfinite, g)):
            raise Violation(f'{what} is not finite: {g}')
        return g

    def matrix(self, got, want, tol, what='value'):
        a = np.asarray(got)
        shape = (len(want), len(want[0]))
        if a.shape != shape:
            raise Violation(f'{what} has shape {a.shape}, expected {shape}')
        for i, (row, w) in enumerate(zip(a, want)):
            t = tol[i] if isinstance(tol, list) else tol
            self.vector(row, w, t, f'{what} row {i}')

    def array(self, got, want, tol, what='value'):
        a = np.asarray(got)
        if a.shape != (len(want),):
            raise Violation(f'{what} has shape {a.shape}, expected ({len(want)},)')
        for i, (x, w) in enumerate(zip(a, want)):
            t = tol[i] if isinstance(tol, list) else tol
            self.scalar(x, w, t, f'{what}[{i}]')

    def true(self, cond, msg):
        if not cond:
            raise Violation(msg)

    def boolean(self, got, want, what):
        if not isinstance(got, (bool, np.bool_)):
            raise Violation(f'{what} returned {got!r}, not a boolean')
        if bool(got) != want:
            raise Violation(f'{what} returned {bool(got)}, but the relation is {want}')
        return str(want).lower()


def qp(obj):
    """Exact coordinates of an array of the library."""
    return ex.qv([float(v) if not isinstance(v, (int, np.integer)) else int(v) for v in np.asarray(obj).tolist()])
