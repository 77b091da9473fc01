"""C19: plots show exactly the geometry of the object. The artists on real Matplotlib axes are inspected after each call."""
import numpy as np

from .. import exact as ex
from ..core import AXES, Op, Violation, build
from ..registry import gen, oracle, prop
from .actions_gen import PLOT2, PLOT3, any_object, plot_call, plot_style
from .c01_02 import K

_axes = {}


def fresh_axes(kind, which='main'):
    """Axes without artists; a figure is made once per process."""
    from matplotlib.figure import Figure

    import mpl_toolkits.mplot3d  # noqa: F401

    key = kind, which
    if key not in _axes:
        fig = Figure()
        ax = fig.add_subplot(111, **({'projection': '3d'} if kind == 3 else {}))
        _axes[key] = ax, set(map(id, ax.get_children()))
    ax, base = _axes[key]
    for a in list(ax.get_children()):
        if id(a) not in base:
            a.remove()
    return ax


def artists(ax, kind, which='main'):
    base = _axes[kind, which][1]
    return [a for a in ax.get_children() if id(a) not in base]


AXES['RealAxes2D'] = lambda: fresh_axes(2)
AXES['RealAxes3D'] = lambda: fresh_axes(3)


def call_2d_or_3d(G, r):
    n = r.choice((2, 3))
    name = r.choice(PLOT2 if n == 2 else PLOT3)
    a, kw = plot_call(G, r, name, n)
    return n, name, a, kw


@gen('plots')
def g_plots(G, r):
    ops = []
    for _ in range(3):
        G.new_mode()
        n, name, a, kw = call_2d_or_3d(G, r)
        s = G.style(0.3)
        ops.append(Op(f'{name}.plot_{n}d', a, [(f'RealAxes{n}D',)], kw, style=s))
        n, name, a, kw = call_2d_or_3d(G, r)
        if r.random() < 0.2 and n == 3 and name in ('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Triangle'):
            ops.append(Op(f'{name}.plot_3d', a, [('RealAxes2D',)], kw, style=s))
        n, name, a, kw = call_2d_or_3d(G, r)
        ops.append(Op(f'{name}.plotter', a, [], kw, style=s, meta={'n': n}))
    # Objects that cannot be plotted.
    n = r.choice((1, 2, 3, 4, 5))
    name = r.choice(('Point', 'Points', 'Vector', 'Line', 'LineSegment', 'Plane', 'Triangle', 'Circle', 'Sphere', 'Cylinder'))
    a = any_object(G, r, name, n)
    ops.append(Op(f'{name}.plotter', a, [], plot_style(r, p=0.3), style=G.style(0.3)))
    return ops


@gen('plots_many')
def g_plots_many(G, r):
    n = r.choice((2, 3))
    plotters = []
    for _ in range(r.randint(0, 4)):
        G.new_mode()
        name = r.choice(PLOT2 if n == 2 else PLOT3)
        a, kw = plot_call(G, r, name, n)
        plotters += [('Plotter', a, kw)] * (2 if r.random() < 0.15 else 1)
    return [Op(f'plotting.plot_{n}d', None, plotters)]


# Expected artists.


def expected(spec, n, kw):
    """Artists that show an object: (kind, data)."""
    name = spec[0]
    q = [[float(x) for x in a] if isinstance(a, list) and not isinstance(a[0], list) else a for a in spec[1:]]
    if name == 'Point':
        return [('scatter', [q[0]])]
    if name == 'Points':
        return [('scatter', [[float(x) for x in p] for p in q[0]])]
    if name == 'Vector':
        start = [float(x) for x in kw.get('point', [0] * n)]
        step = [float(x) for x in ex.mul(ex.q(kw.get('scalar', 1)), ex.qv(spec[1]))]
        if n == 2:
            return [('arrow', [start, step])]
        return [('segment', [start, [float(x + y) for x, y in zip(ex.qv(start), ex.mul(ex.q(kw.get('scalar', 1)), ex.qv(spec[1])))]])]
    if name == 'Line':
        p, d = ex.qv(spec[1]), ex.qv(spec[2])
        return [('segment', [[float(x) for x in ex.add(p, ex.mul(ex.q(t), d))] for t in (kw.get('t_1', 0), kw.get('t_2', 1))])]
    if name == 'LineSegment':
        return [('segment', q)]
    if name == 'Triangle':
        a, b, c = q
        if kw.get('part', 'points') == 'points':
            return [('scatter', [p]) for p in (a, b, c)]
        if 't_1' not in kw and 't_2' not in kw:
            return [('edge', [b, c]), ('edge', [c, a]), ('edge', [a, b])]
        lines = [('Line', x, [float(u - v) for u, v in zip(ex.qv(y), ex.qv(x))]) for x, y in ((b, c), (c, a), (a, b))]
        return [('edge', expected(ln, n, kw)[0][1]) for ln in lines]
    if name == 'Circle':
        return [('circle', [q[0], float(spec[2])])]
    mesh = {k: kw[k] for k in ('lims_x', 'lims_y', 'n_angles', 'n_along_axis') if k in kw}
    return [('surface', build(spec).to_mesh(**mesh))]


DATA_KW = ('t_1', 't_2', 'point', 'scalar', 'part', 'lims_x', 'lims_y', 'n_angles', 'n_along_axis')


def reference(kind, data, n, style):
    """The same thing drawn with Matplotlib alone."""
    import matplotlib.pyplot as plt

    ax = fresh_axes(n, 'reference')
    if kind == 'scatter':
        return ax.scatter(*[[p[i] for p in data] for i in range(n)], **style)
    if kind in ('segment', 'edge'):
        return ax.plot(*[[p[i] for p in data] for i in range(n)], **style)[0]
    if kind == 'arrow':
        return ax.arrow(*data[0], *data[1], **style)
    if kind == 'circle':
        c = plt.Circle(tuple(data[0]), data[1], **style)
        ax.add_artist(c)
        return c
    return ax.plot_surface(*data, **style)


def coordinates(artist, kind, n):
    if kind == 'scatter':
        if n == 3:
            return np.array([np.asarray(np.ma.getdata(x), dtype=float) for x in artist._offsets3d]).T
        return np.asarray(np.ma.getdata(artist.get_offsets()), dtype=float)
    if kind in ('segment', 'edge'):
        return np.array(artist.get_data_3d() if n == 3 else artist.get_data(), dtype=float).T
    if kind == 'arrow':
        return np.asarray(artist.get_xy(), dtype=float)
    if kind == 'circle':
        return np.array([[*artist.center, artist.get_radius()]], dtype=float)
    return np.asarray(artist._vec, dtype=float)[:3].T


GETTERS = {'alpha': ['get_alpha'], 'label': ['get_label'], 'gid': ['get_gid'], 'zorder': ['get_zorder'], 'visible': ['get_visible'],
           'color': ['get_color', 'get_facecolor', 'get_edgecolor'], 'linewidth': ['get_linewidth'], 'linestyle': ['get_linestyle'],
           's': ['get_sizes'], 'marker': ['get_paths'], 'fill': ['get_fill'], 'head_width': []}


def same(a, b):
    if isinstance(a, (list, tuple)) and len(a) and hasattr(a[0], 'vertices'):
        return len(a) == len(b) and all(np.array_equal(x.vertices, y.vertices) for x, y in zip(a, b))
    if isinstance(a, str) or a is None:
        return a == b
    return bool(np.array_equal(np.asarray(a), np.asarray(b)))


def check_shades(artist, color, i):
    """The faces of a surface have shades of a color."""
    from matplotlib.colors import to_rgb

    rgb = np.array(to_rgb(color))
    faces = np.asarray(artist.get_facecolor(), dtype=float)[:, :3]
    shade = faces.max(axis=1) / max(rgb.max(), 1e-9)
    if len(faces) == 0 or np.abs(faces - np.outer(shade, rgb)).max() > 1e-6 or shade.max() > 1 + 1e-6:
        raise Violation(f'artist {i}: color={color!r} gives faces of other colors: {faces[:3].tolist()}')


def compare(ck, got, spec, n, kw):
    """Compare artists with the expected ones; returns the number of artists."""
    want = expected(spec, n, kw)
    if len(got) != len(want):
        raise Violation(f'{len(got)} artists were added, expected {len(want)}: {got}')
    style = {k: v for k, v in kw.items() if k not in DATA_KW}
    for i, (artist, (kind, data)) in enumerate(zip(got, want)):
        ref = reference(kind, data, n, style)
        if not isinstance(artist, type(ref)) and not isinstance(ref, type(artist)):
            raise Violation(f'artist {i} is a {type(artist).__name__}, expected {type(ref).__name__}')
        x, y = coordinates(artist, kind, n), coordinates(ref, kind, n)
        if x.shape != y.shape:
            raise Violation(f'artist {i} has data of shape {x.shape}, expected {y.shape}')
        size = float(np.abs(y).max()) if y.size else 0.0
        if spec[0] == 'Line':
            size = max(size, ex.amax(ex.qv(spec[1])), *[abs(kw.get(t, 1)) * ex.amax(ex.qv(spec[2])) for t in ('t_1', 't_2')])
        if spec[0] == 'Triangle' and kind == 'edge':
            size = (1 + 2 * max(abs(kw.get(t, 1)) for t in ('t_1', 't_2'))) * max(ex.amax(ex.qv(p)) for p in spec[1:])
        if kind == 'edge' and np.abs(x - y).max() > np.abs(x[::-1] - y).max():
            x = x[::-1]
        err = float(np.abs(x - y).max()) if y.size else 0.0
        ck.note(err, K * size if size else 1)
        if not err <= K * size:
            k = np.abs(x - y).max(axis=1).argmax()
            raise Violation(f'artist {i} ({kind}) shows {x[k].tolist()}, expected {y[k].tolist()} (difference {err:.3g})')
        for key in style:
            if kind == 'surface' and key == 'color':
                check_shades(artist, style[key], i)
                continue
            for g in GETTERS.get(key, []):
                if hasattr(ref, g):
                    a, b = getattr(artist, g)(), getattr(ref, g)()
                    if not same(a, b):
                        raise Violation(f'artist {i}: {key}={style[key]!r} gives {a!r}, expected {b!r}')
    return len(want)


@oracle('C19', *[f'{c}.plot_2d' for c in PLOT2], *[f'{c}.plot_3d' for c in PLOT3])
def o_plot(op, out, ck):
    n = int(op.fn[-2])
    on = 2 if op.args[0][0] == 'RealAxes2D' else 3
    ax = out.args[0]
    if on != n:
        verdict = ck.raised(out, why='the axes are 2D and the plot is 3D')
        ck.true(not artists(ax, on), 'artists were added although an error was raised')
        return verdict
    ck.returned(out)
    return f'{compare(ck, artists(ax, n), op.recv, n, op.kw)} artists'


def plottable(name, dim):
    return (dim == 2 and name in PLOT2) or (dim == 3 and name in PLOT3)


@oracle('C19', *[f'{c}.plotter' for c in set(PLOT2 + PLOT3)])
def o_plotter(op, out, ck):
    name = op.recv[0]
    a = op.recv[1]
    dim = len(a[0]) if name == 'Points' else len(a)
    if not plottable(name, dim):
        return ck.raised(out, why='the object cannot be plotted in its dimension')
    f = ck.returned(out)
    ck.true(callable(f), f'the plotter is {f!r}')
    ax = fresh_axes(dim)
    kw = dict(op.kw)
    for _ in range(2):
        # A plotter can be used more than once.
        ax = fresh_axes(dim)
        f(ax)
        count = compare(ck, artists(ax, dim), op.recv, dim, kw)
    return f'{dim}D {count} artists'


@oracle('C19', 'plotting.plot_2d', 'plotting.plot_3d')
def o_helper(op, out, ck):
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import Axes3D

    n = int(op.fn[-2])
    got = ck.returned(out)
    try:
        ck.true(isinstance(got, tuple) and len(got) == 2, f'returned {got!r}, not a figure and axes')
        fig, ax = got
        ck.true(ax.figure is fig and fig.axes == [ax], 'the axes are not the only axes of the figure')
        ck.true(isinstance(ax, Axes3D) == (n == 3), f'the axes are {ax!r}')
        blank = plt.figure().add_subplot(111, **({'projection': '3d'} if n == 3 else {}))
        got = ax.get_children()
        got = got[:len(got) - len(blank.get_children())]
        k = 0
        for _, spec, kw in op.args:
            m = len(expected(spec, n, kw))
            compare(ck, got[k:k + m], spec, n, kw)
            k += m
        ck.true(k == len(got), f'{len(got)} artists were added, expected {k}')
    finally:
        plt.close('all')
    return f'{len(op.args)} plotters'


prop('C19', {'plots': 8, 'plots_many': 1}, 5000, 90000,
     'A case plots random objects of every class (with parameter ranges, starting points, mesh limits and style keywords) on real Matplotlib axes, directly, '
     'through plotters used twice and through the helpers with up to four plotters, and on axes of the wrong dimension; the artists on the axes are compared '
     'with the artists Matplotlib makes from the exact geometry. Non-trivial: the event got a verdict; distinct: by object and arguments.',
     required=[f'{c}.plot_2d' for c in PLOT2] + [f'{c}.plot_3d' for c in PLOT3] + [f'{c}.plotter' for c in PLOT3] + ['plotting.plot_2d', 'plotting.plot_3d'],
     technique='runtime monitoring: artists on real Matplotlib axes inspected after each plotting event and compared with exact geometry',
     assumptions=['Matplotlib draws what its artists hold; rendering itself is not examined.'])
