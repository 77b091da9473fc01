"""Uses of the objects of the library by a program: arithmetic, copies, pickles, text forms, attributes."""
import copy as _copy
import pickle as _pickle

import numpy as np


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def mul(a, b):
    return a * b


def truediv(a, b):
    return a / b


def floordiv(a, b):
    return a // b


def mod(a, b):
    return a % b


def pow(a, b):
    return a**b


def neg(a):
    return -a


def pos(a):
    return +a


def abs(a):
    return np.abs(a)


def ufunc(a, name):
    return getattr(np, name)(a)


def ufunc2(a, b, name):
    return getattr(np, name)(a, b)


def compare(a, b, name):
    return getattr(np, name)(a, b)


def view(a):
    return a.view()


def copy_method(a):
    return a.copy()


def copy(a):
    return _copy.copy(a)


def deepcopy(a):
    return _copy.deepcopy(a)


def pickle(a, protocol):
    return _pickle.loads(_pickle.dumps(a, protocol))


def text(a):
    return repr(a)


def string(a):
    return str(a)


def plotter(a, kw):
    """Make a plotter; nothing is drawn."""
    return callable(a.plotter(**kw))


def element(a, i):
    return a[i]


def iterate(a):
    return [x for x in a]


def reshape(a, shape):
    return a.reshape(shape)


def tolist(a):
    return a.tolist()


def reduce(a, name):
    return getattr(a, name)()


def attributes(a, names):
    return [getattr(a, n) for n in names]


def numpy_call(a, name):
    if name == 'clip':
        return np.clip(a, -1, 1)
    return getattr(np, name)(a)
