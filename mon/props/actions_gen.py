"""Workloads of protocol uses and plots on recording axes, shared by several properties."""
import math

from ..core import CLASSES, Op
from ..registry import gen
from .c03_05 import cylinder
from .c01_02 import line, plane

ARRAYS = ('Point', 'Vector', 'Points')
UFUNCS = ('sqrt', 'exp', 'log', 'floor', 'ceil', 'sin', 'square', 'sign', 'negative', 'absolute', 'isfinite', 'rint', 'reciprocal')
REDUCE = ('sum', 'mean', 'max', 'min', 'argmax', 'std', 'prod', 'all', 'any', 'cumsum', 'flatten', 'ravel', 'tolist')
ATTRS = {'Point': ('dimension',), 'Vector': ('dimension',), 'Points': ('dimension',), 'Line': ('point', 'direction', 'vector', 'dimension'),
         'LineSegment': ('point_a', 'point_b', 'dimension'), 'Plane': ('point', 'normal', 'vector', 'dimension'), 'Circle': ('point', 'radius', 'dimension'),
         'Sphere': ('point', 'radius', 'dimension'), 'Triangle': ('point_a', 'point_b', 'point_c', 'dimension'), 'Cylinder': ('point', 'vector', 'radius', 'dimension')}


def any_object(G, r, name, n=None):
    """Definition of a valid object of a class, of dimension n if the class has that dimension."""
    n = n or G.dim()
    if name in ('Point', 'Vector'):
        return (name, G.point(n))
    if name == 'Points':
        return (name, G.points(G.count(), n))
    if name == 'Line':
        return line(G, n)
    if name == 'Plane':
        return plane(G, n)
    if name == 'LineSegment':
        a = G.point(n)
        while True:
            b = [x + y for x, y in zip(a, G.vec(n))]
            if any(not math.isclose(x, y, rel_tol=1e-6, abs_tol=1e-300) for x, y in zip(a, b)):
                return (name, a, b)
            G.new_mode()
    if name == 'Circle':
        return (name, G.point(2), G.radius())
    if name == 'Sphere':
        return (name, G.point(3), G.radius())
    if name == 'Triangle':
        n = max(n, 2)
        a = [r.randint(-9, 9) for _ in range(n)]
        b, c = [list(a) for _ in range(2)]
        b[0] += r.choice((1, 2.5, 7))
        c[1] += r.choice((1, -3, 4.25))
        c[0] += r.choice((0, 1, 2))
        return (name, a, b, c)
    while True:
        spec = cylinder(G, r)
        if spec[3] > 0 and any(spec[2]):
            return spec


@gen('arithmetic')
def g_arithmetic(G, r):
    n = G.dim()
    s = G.style(0.3)
    ops = []
    for _ in range(3):
        name = r.choice(ARRAYS)
        a = any_object(G, r, name, n)
        if r.random() < 0.4:
            b = r.choice((0, 1, 2, -3, 0.5, G.num(), 1e-3, 7.25))
        elif name == 'Points':
            b = r.choice((('Points', G.points(len(a[1]), n)), ('Point', G.point(n)), ('Vector', G.point(n)), G.point(n)))
            if r.random() < 0.2:  # another number of rows or columns, as NumPy broadcasts them
                a = ('Points', G.points(*r.choice(((1, n), (len(a[1]), 1), (1, 1)))))
                b = r.choice((('Points', G.points(r.randint(2, 4), n)), G.points(len(a[1]), n), G.points(1, n)))
        elif r.random() < 0.1:
            a, b = (name, G.point(1)), r.choice((('Point', G.point(n)), ('Vector', G.point(n)), G.point(n)))
        else:
            b = r.choice((('Point', G.point(n)), ('Vector', G.point(n)), G.point(n), ('Points', G.points(r.randint(1, 4), n))))
        f = r.choice(('add', 'sub', 'add', 'sub', 'mul', 'mul', 'truediv', 'truediv', 'floordiv', 'mod'))
        ops.append(Op('act.' + f, None, [a, b] if r.random() < 0.6 else [b, a], style=s))
        ops.append(Op('act.' + r.choice(('neg', 'abs', 'pos')), None, [a], style=s))
        ops.append(Op('act.ufunc', None, [a, r.choice(UFUNCS)], style=s))
        if r.random() < 0.3:
            ops.append(Op('act.pow', None, [a, r.choice((2, 3, 0.5, -1))], style=s))
        if r.random() < 0.3:
            ops.append(Op('act.reduce', None, [a, r.choice(REDUCE)], style=s))
        if r.random() < 0.3:
            ops.append(Op('act.compare', None, [a, b, r.choice(('greater', 'equal', 'less', 'isclose', 'maximum', 'minimum', 'allclose'))], style=s))
    return ops


@gen('copies')
def g_copies(G, r):
    ops = []
    s = G.style(0.3)
    for name in CLASSES:
        a = any_object(G, r, name)
        ops.append(Op('act.' + r.choice(('copy', 'deepcopy')), None, [a], style=s))
        ops.append(Op('act.pickle', None, [a, r.randint(0, 5)], style=s))
        if name in ARRAYS:
            ops.append(Op('act.' + r.choice(('view', 'copy_method')), None, [a], style=s))
            ops.append(Op('act.element', None, [a, r.choice((0, -1))], style=s))
            ops.append(Op('act.iterate', None, [a], style=s))
    return ops


@gen('texts')
def g_texts(G, r):
    s = G.style(0.4)
    ops = []
    for name in CLASSES:
        G.new_mode()
        a = any_object(G, r, name)
        ops.append(Op('act.text', None, [a], style=s))
        if r.random() < 0.2:
            ops.append(Op('act.string', None, [a], style=s))
        if r.random() < 0.1:
            ops.append(Op('act.plotter', None, [a, {'color': 'k'} if r.random() < 0.5 else {}], style=s))
        if r.random() < 0.2:
            ops.append(Op('act.attributes', None, [a, list(ATTRS[name])], style=s))
    return ops


STYLE = {'alpha': (0.25, 0.5, 1), 'label': ('a', 'some label'), 'gid': ('id1', 'g'), 'zorder': (1, 5, 0.5), 'color': ('red', '#00ff7f', 'k'), 'visible': (False, True)}


def plot_style(r, extra=None, p=0.7):
    kw = {}
    names = dict(STYLE)
    names.update(extra or {})
    if r.random() < p:
        for k in r.sample(sorted(names), r.randint(1, 3)):
            kw[k] = r.choice(names[k])
    return kw


def plot_call(G, r, name, n):
    """Definition and keywords for plotting an object of a class in n dimensions."""
    a = any_object(G, r, name, n)
    kw = {}
    if name in ('Point', 'Points'):
        kw = plot_style(r, {'s': (5, 100), 'marker': ('x', 's')})
    elif name == 'Line':
        kw = plot_style(r, {'linewidth': (1, 3.5), 'linestyle': ('--', ':')})
        if r.random() < 0.6:
            kw['t_1'] = r.choice((0, -1, -2.5, 3, r.gauss(0, 5)))
        if r.random() < 0.6:
            kw['t_2'] = r.choice((0, 1, 2, -4, r.gauss(0, 5)))
    elif name == 'LineSegment':
        kw = plot_style(r, {'linewidth': (1, 3.5), 'linestyle': ('--', ':')})
    elif name == 'Vector':
        kw = plot_style(r, {'linewidth': (1, 3.5)})
        if r.random() < 0.6:
            kw['point'] = G.point(n)
        if r.random() < 0.6:
            kw['scalar'] = r.choice((2, -1, 0.5, 10, 0, 0.0, 1e-6, r.gauss(0, 3)))
        if n == 2 and r.random() < 0.3:
            kw['head_width'] = r.choice((0, 0.5))
    elif name == 'Circle':
        kw = plot_style(r, {'fill': (True, False), 'linewidth': (1, 3.5)})
    elif name == 'Triangle':
        kw = plot_style(r)
        if r.random() < 0.8:
            kw['part'] = r.choice(('points', 'lines'))
        if kw.get('part') == 'lines':
            for t in ('t_1', 't_2'):
                if r.random() < 0.3:
                    kw[t] = r.choice((0, 1, -1, 2.5, 0.25))
    else:
        kw = plot_style(r, {'linewidth': (0.5, 2)})
        kw.pop('zorder', None)
        if name == 'Plane':
            for k in ('lims_x', 'lims_y'):
                if r.random() < 0.7:
                    kw[k] = sorted([r.randint(-9, 9), r.randint(-9, 9)])
        else:
            if r.random() < 0.96:
                kw['n_angles'] = r.choice((2, 3, 5, 8))
            if name == 'Cylinder' and r.random() < 0.96:
                kw['n_along_axis'] = r.choice((2, 3, 6))
    return a, kw


PLOT2 = ('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Circle', 'Triangle')
PLOT3 = ('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Plane', 'Sphere', 'Triangle', 'Cylinder')


@gen('plots_recorded')
def g_plots_recorded(G, r):
    ops = []
    for _ in range(4):
        G.new_mode()
        n = r.choice((2, 3))
        name = r.choice(PLOT2 if n == 2 else PLOT3)
        a, kw = plot_call(G, r, name, n)
        ops.append(Op(f'{name}.plot_{n}d', a, [(f'Axes{n}D',)], kw, style=G.style(0.3)))
    return ops
