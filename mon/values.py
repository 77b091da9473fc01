"""Snapshots and comparisons of values of the library, without knowledge of how they are computed."""
import array
import math
import pickle
from collections.abc import Sequence

import numpy as np


def ours(x):
    """True for objects of the classes of the library and of their subclasses."""
    return any(c.__module__.startswith('skspatial') for c in type(x).__mro__)


def public(obj):
    """Public instance attributes of an object, by name."""
    return {k: v for k, v in sorted(getattr(obj, '__dict__', {}).items()) if not k.startswith('_')}


def snapshot(x):
    """Everything about a value that a caller can observe: values, types, shapes, writability, attributes."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            body = repr(x.tolist())
        else:
            body = x.tobytes()
        base = x.base
        under = base.tobytes() if isinstance(base, np.ndarray) and base.dtype != object else None
        return ('array', type(x).__name__, str(x.dtype), x.shape, x.flags.writeable, body, under, attributes(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), [snapshot(v) for v in x])
    if isinstance(x, dict):
        return ('dict', [(k, snapshot(v)) for k, v in x.items()])
    if isinstance(x, Sequence) and not isinstance(x, (str, bytes)) or isinstance(x, array.array):
        return ('sequence ' + type(x).__name__, id(x), [snapshot(v) for v in x])
    if ours(x):
        return ('object', type(x).__name__, attributes(x))
    return ('scalar', type(x).__name__, repr(x) if isinstance(x, (int, float, complex, str, bool, np.generic, type(None))) else id(x))


def attributes(x):
    return {k: snapshot(v) for k, v in public(x).items()}


def difference(before, after, path='operand'):
    """Describe the first difference between two snapshots; attributes that appear are allowed."""
    if type(before) is not type(after):
        return f'{path} changed'
    if isinstance(before, dict):
        for k, v in before.items():
            if k not in after:
                return f'{path}.{k} was removed'
            d = difference(v, after[k], f'{path}.{k}')
            if d:
                return d
        return None
    if isinstance(before, (list, tuple)):
        if len(before) != len(after):
            return f'{path} changed its length'
        if isinstance(before, tuple) and before and before[0] == 'array' == after[0]:
            for i, what in enumerate(('', 'class', 'dtype', 'shape', 'writability', 'values', 'underlying memory')):
                if before[i] != after[i]:
                    return f'{path}: {what} changed' + (f' from {before[i]} to {after[i]}' if i in (1, 2, 3, 4) else '')
            return difference(before[7], after[7], path)
        for i, (x, y) in enumerate(zip(before, after)):
            d = difference(x, y, f'{path}[{i}]' if isinstance(before, list) else path)
            if d:
                return d
        return None
    return None if before == after else f'{path} changed from {before!r} to {after!r}'[:300]


def structure(x):
    """Class, public attributes and exact values of a result, hashable by repr; used to compare results bit for bit."""
    if isinstance(x, np.ndarray):
        if not x.dtype.isnative:  # pickling keeps the numbers but not their byte order
            x = x.astype(x.dtype.newbyteorder('='))
        data = x.tolist() if x.dtype == object else (np.ascontiguousarray(x).tobytes().hex() if x.size < 64 else
                                                     __import__('hashlib').sha1(np.ascontiguousarray(x).tobytes()).hexdigest())
        return (type(x).__name__, str(x.dtype), x.shape, data, {k: structure(v) for k, v in public(x).items()})
    if isinstance(x, np.generic):
        return (type(x).__name__, repr(x.item()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [structure(v) for v in x])
    if isinstance(x, dict):
        return ('dict', sorted((str(k), structure(v)) for k, v in x.items()))
    if isinstance(x, (int, float, str, bool, type(None))):
        return (type(x).__name__, repr(x))
    if ours(x):
        return (type(x).__name__, {k: structure(v) for k, v in public(x).items()})
    return (type(x).__name__,)


def outcome(out):
    """What an operation did: the exact result, or the type of the error."""
    if out.ok:
        return repr(structure(out.value))
    return f'raise {type(out.exc).__name__}: {out.exc}'


def recorded_outcome(op, out):
    """The outcome and what was drawn on recording axes among the arguments."""
    calls = [a.calls for s, a in zip(op.args, out.args) if isinstance(s, tuple) and s[0] in ('Axes2D', 'Axes3D')]
    return outcome(out) + (' drew ' + repr(structure(calls)) if calls else '')


def leaves(x, path=''):
    """Numbers of a result: (path, number) in order; other leaves are given as they are."""
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            yield path, x.item()
        else:
            for i, v in enumerate(np.asarray(x).ravel().tolist()):
                yield f'{path}[{i}]', v
        yield path + '.shape', str(x.shape)
    elif isinstance(x, np.generic):
        yield path, x.item()
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, f'{path}[{i}]')
        yield path + '.len', str(len(x))
    elif ours(x):
        yield path + '.class', type(x).__name__
        for k, v in public(x).items():
            yield from leaves(v, f'{path}.{k}')
    else:
        yield path, x


def non_finite(x):
    """Path of the first NaN or infinity in a result, or None."""
    for path, v in leaves(x):
        if isinstance(v, float) and not math.isfinite(v):
            return f'{path or "result"} = {v}'
    return None


def shares(a, b):
    """True if an array in one value shares memory with an array in another."""
    return any(np.shares_memory(x, y) for x in arrays(a) for y in arrays(b))


def arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, array.array):
        yield np.asarray(x)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v)
    elif ours(x):
        for v in public(x).values():
            yield from arrays(v)


def equal_objects(a, b):
    """Same class, public attributes, shapes, dtypes and values."""
    return repr(structure(a)) == repr(structure(b))


def clone(x):
    return pickle.loads(pickle.dumps(x))
