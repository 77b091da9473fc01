"""Comparison of two executions that must have the same outcome, with the exact oracles as arbiters of a difference."""
import math

from . import registry
from .core import Check, Skip, Violation
from .values import leaves


def same_kind(a, b):
    """Both returned, or both raised the same type of error."""
    if a.ok != b.ok:
        return False
    return a.ok or type(a.exc) is type(b.exc)


def number(v):
    return isinstance(v, (int, float, complex)) and not isinstance(v, bool)


def close_values(x, y, rel, size):
    """Difference between two results beyond a tolerance relative to a size, or None."""
    p, q = list(leaves(x)), list(leaves(y))
    if len(p) != len(q):
        return f'{x!r} and {y!r} have different structure'
    for (path, v), (_, w) in zip(p, q):
        if isinstance(v, (bool, str)) or not number(v) or not number(w):
            if v != w:
                return f'{path or "result"}: {v!r} and {w!r}'
        elif v != w:
            if isinstance(v, float) and isinstance(w, float) and math.isnan(v) and math.isnan(w):
                continue
            d = abs(v - w)
            if not d <= rel * max(abs(v), abs(w), size):
                return f'{path or "result"}: {v!r} and {w!r} (difference {d:.3g})'
    return None


def oracles(fn):
    return [table[fn] for prop, table in sorted(registry.ORACLES.items()) if fn in table and prop not in ('C19', 'C24')]


def arbitrate(op, out):
    """Verdict of the exact oracles of an operation: 'none', 'right', 'undecided' or a description of what is wrong."""
    found = 'none'
    for oracle in oracles(op.fn):
        ck = Check()
        ck.fn = op.fn
        try:
            oracle(op, out, ck)
            found = 'right'
        except Skip:
            return 'undecided'
        except Violation as v:
            return str(v)
        except Exception as error:
            return f'the result cannot be read: {type(error).__name__}: {error}'
    return found


def judge_difference(op_a, a, op_b, b, text):
    """None if a difference of two outcomes is explained by ill-conditioning or tolerances, else its description."""
    va, vb = arbitrate(op_a, a), arbitrate(op_b, b)
    for who, v in (('first', va), ('second', vb)):
        if v not in ('none', 'right', 'undecided'):
            return f'{text}; the {who} is wrong: {v}'
    if 'undecided' in (va, vb) or va == vb == 'right':
        return None
    return text


def magnitude(x):
    """Largest magnitude of the numbers in plain data."""
    if isinstance(x, (list, tuple)):
        return max(map(magnitude, x), default=0.0)
    if isinstance(x, dict):
        return magnitude(list(x.values()))
    if number(x) and math.isfinite(x):
        return abs(float(x))
    return 0.0
