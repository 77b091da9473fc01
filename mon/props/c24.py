"""C24: the text form of an object evaluates back to an equal object."""
import ast

import numpy as np

import skspatial.objects

from .. import exact as ex
from ..core import CLASSES, Op, Skip, Violation, api
from ..registry import gen, oracle, prop
from .actions_gen import any_object

ARGS = {'Point': 1, 'Vector': 1, 'Points': 1, 'Line': ('point', 'direction'), 'LineSegment': ('point_a', 'point_b'), 'Plane': ('point', 'normal'),
        'Circle': ('point', 'radius'), 'Sphere': ('point', 'radius'), 'Triangle': ('point_a', 'point_b', 'point_c'),
        'Cylinder': ('point', 'vector', 'radius')}


def namespace():
    ns = {c: getattr(skspatial.objects, c) for c in CLASSES}
    ns.update(array=np.array, np=np, int64=np.int64, float64=np.float64)
    ns['__builtins__'] = {}
    return ns


@gen('texts_back')
def g_texts_back(G, r):
    ops = []
    for name in CLASSES:
        G.new_mode()
        a = any_object(G, r, name)
        if r.random() < 0.1 and name == 'Points':
            a = ('Points', G.points(r.choice((1, 1, 40, 110)), r.choice((1, 2, 3, 7))))
        if name == 'Points':  # NumPy abbreviates arrays of more than 1000 numbers
            a = (name, a[1][:1000 // len(a[1][0])])
        ops.append(Op('act.text', None, [a], style=G.style(0.4)))
    return ops


def printed(x, dtype):
    """The values NumPy prints for an array."""
    text = np.array2string(np.array(x, dtype=dtype), separator=',', threshold=10**6)
    return np.array(ast.literal_eval(text))


def stored(obj, i):
    """The type of the numbers of the i-th argument of the constructor, as the object has it."""
    fields = ARGS[type(obj).__name__]
    return np.asarray(getattr(obj, fields[i]) if isinstance(fields, tuple) else obj).dtype


@oracle('C24', 'act.text')
def o_text(op, out, ck):
    spec = op.args[0]
    name = spec[0]
    text = ck.returned(out)
    ck.true(type(text) is str, f'repr is {text!r}')
    short = [list(a) if isinstance(a, list) else a for a in spec[1:]]
    if any(stored(out.args[0], i) not in (np.dtype(int), np.dtype(float)) for i, a in enumerate(short) if isinstance(a, list)):
        raise Skip('NumPy prints the type of the numbers if it is not the default')
    # The object with the numbers as NumPy prints them must be valid.
    try:
        # Integers are given as such or as floats, which NumPy prints with fewer digits.
        held = [stored(out.args[0], i) for i in range(len(short))]
        rounded = [printed(a, t).tolist() if isinstance(a, list) else a for a, t in zip(short, held)]
        api(name)(*rounded)
    except ValueError:
        raise Skip('the printed numbers are not a valid definition') from None
    try:
        back = eval(text, namespace())
    except Exception as error:
        raise Violation(f'evaluating {text!r} raised {type(error).__name__}: {error}') from None
    ck.true(type(back) is type(out.args[0]), f'{text!r} evaluates to a {type(back).__name__}, not a {name}')
    want = dict(zip(ARGS[name], zip(short, rounded))) if isinstance(ARGS[name], tuple) else {None: (short[0], rounded[0])}
    if 'direction' in want:
        want['vector'] = want['direction']
    if 'normal' in want:
        want['vector'] = want['normal']
    for field, (exact, near) in want.items():
        got = np.asarray(back if field is None else getattr(back, field))
        x, y = np.asarray(exact), np.asarray(near)
        if got.shape != x.shape:
            raise Violation(f'{field or name} of {text!r} has shape {got.shape}, expected {x.shape}')
        for g, e, p in zip(got.ravel().tolist(), x.ravel().tolist(), y.ravel().tolist()):
            err, allowed = abs(ex.q(g) - ex.q(e)), abs(ex.q(p) - ex.q(e))
            if err > allowed * (1 + ex.q(1e-9)) + abs(ex.q(e)) * ex.q(1e-15):
                raise Violation(f'{field or name} is {g!r} in {text!r}, the object has {e!r}')
    if isinstance(ARGS[name], tuple):
        node = ast.parse(text, mode='eval').body
        ck.true(isinstance(node, ast.Call) and [k.arg for k in node.keywords] == list(ARGS[name]) and not node.args,
                f'{text!r} does not name the arguments {ARGS[name]}')
    ck.true(back.dimension == out.args[0].dimension, f'the dimension is {back.dimension!r}')
    return name


prop('C24', {'texts_back': 1}, 12000, 300000,
     'A case evaluates the repr of a random object of each class (any dimension, integers, reals of magnitudes 1e-7 to 1e7, up to 110 points) and compares '
     'class, argument names and every value with the object, allowing the rounding of NumPy\'s printing. Non-trivial: the event got a verdict; distinct: by definition.',
     required=['act.text'], minimum=1000)
