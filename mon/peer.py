"""Another process that executes operations: reads lines of JSON, writes the outcomes as lines of JSON.

Modes: 'plain', 'blocked' with an import hook that makes Matplotlib look not installed and records who asks for it, or
'quiet' and 'strict' with unusual settings of the interpreter, NumPy and the process.
"""
import decimal
import gc
import json
import os
import random
import subprocess
import sys


class Blocker:
    """Meta path finder: every import of Matplotlib fails as if it were not installed."""

    def __init__(self):
        self.attempts = []

    def find_spec(self, name, path=None, target=None):
        head = name.split('.')[0]
        if head in ('matplotlib', 'mpl_toolkits', 'pylab'):
            self.attempts.append(name)
            raise ModuleNotFoundError(f'No module named {head!r}', name=head)
        return None


def block():
    blocker = Blocker()
    sys.meta_path.insert(0, blocker)
    return blocker


def execute(op, executor):
    from .values import recorded_outcome

    try:
        out = executor.run(op, share=False)
    except Exception as error:
        return f'not built: {type(error).__name__}'
    return recorded_outcome(op, out)


ODD_PRINT = dict(precision=2, threshold=3, edgeitems=1, linewidth=12, suppress=True, nanstr='-', infstr='+', sign='+', floatmode='fixed')


def unusual(mode, seed):
    """Settings a program may have chosen for reasons of its own."""
    import locale
    import warnings

    import numpy as np

    np.seterr(all='ignore')
    if mode == 'strict':
        np.seterr(divide='raise', over='raise', invalid='raise')
    warnings.simplefilter('error')
    np.set_printoptions(**ODD_PRINT)
    np.random.seed(seed)
    random.seed(seed)
    decimal.getcontext().prec = 2
    sys.setrecursionlimit(300)
    sys.setswitchinterval(0.5)
    gc.disable()
    for name in ('de_DE.UTF-8', 'C.UTF-8', 'C'):
        try:
            locale.setlocale(locale.LC_ALL, name)
            break
        except locale.Error:
            pass
    os.chdir('/')


TEXTS = ('act.text', 'act.string')


def serve_pickles():
    """Executes operations on operands that were pickled in the other process."""
    import base64
    import pickle

    from .core import CLASSES, Executor, Op, Out, api
    from .values import recorded_outcome

    for line in sys.stdin:
        result = []
        for fn, data, _ in json.loads(line):
            try:
                recv, args, kw = pickle.loads(base64.b64decode(data))
                head, attr = fn.split('.') if '.' in fn else (fn, None)
                func = getattr(recv, attr) if recv is not None else api(fn) if attr is None or head not in CLASSES else getattr(api(head), attr)
            except Exception as error:
                result.append(f'not loaded: {type(error).__name__}: {error}')
                continue
            out = Out()
            out.recv, out.args, out.kw, out.warns, out.exc, out.value = recv, args, kw, (), None, None
            Executor._call(out, func, args, kw)
            result.append(recorded_outcome(Op(fn), out))
        sys.stdout.write(json.dumps(result) + '\n')
        sys.stdout.flush()


def serve(mode):
    if mode == 'pickles':
        return serve_pickles()
    blocker = block() if mode == 'blocked' else None
    from .core import AXES, Executor, Op, Recorder

    if blocker:
        AXES['Axes3D'] = Recorder
    imported = list(blocker.attempts) if blocker else []
    executor = Executor()
    source = random.Random(99)
    odd = mode in ('quiet', 'strict')
    if odd:
        import numpy as np

        import skspatial.objects  # noqa: F401

        usual = np.get_printoptions()
        unusual(mode, 12345)
    for line in sys.stdin:
        batch = json.loads(line)
        order = list(range(len(batch)))
        source.shuffle(order)
        result = [None] * len(batch)
        for i in order:
            if blocker:
                del blocker.attempts[:]
            op = Op.from_json(batch[i])
            if odd and op.fn in TEXTS:
                # The text of an array follows the print options.
                np.set_printoptions(**usual)
            text = execute(op, executor)
            if odd and op.fn in TEXTS:
                np.set_printoptions(**ODD_PRINT)
            result[i] = [text, sorted(set(blocker.attempts))[:3] if blocker else []]
        sys.stdout.write(json.dumps({'outcomes': result, 'imported': imported}) + '\n')
        sys.stdout.flush()


class Peer:
    """Client side."""

    def __init__(self, mode, hashseed, flags=()):
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), MON_ENV='1')
        self.proc = subprocess.Popen([sys.executable, '-B', *flags, os.path.join(root, 'run.py'), '--peer', mode], stdin=subprocess.PIPE,
                                     stdout=subprocess.PIPE, env=env, text=True)

    def outcomes(self, ops):
        return self.raw([op.copy(meta={}).to_json() for op in ops])

    def raw(self, batch):
        self.proc.stdin.write(json.dumps(batch) + '\n')
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError(f'the peer process ended with {self.proc.wait(10)}')
        return json.loads(line)

    def close(self):
        self.proc.stdin.close()
        try:
            self.proc.wait(10)
        except subprocess.TimeoutExpired:
            self.proc.kill()
