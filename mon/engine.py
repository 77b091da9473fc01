"""Runs the workloads of a property in several processes, collects verdicts and writes evidence."""
import contextlib
import hashlib
import importlib
import json
import os
import pkgutil
import random
import subprocess
import sys
import tempfile
import time
import traceback

from . import registry
from .core import Check, Executor, Op, Skip, Violation
from .gen import Gen

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
EVIDENCE = os.environ.get('MON_EVIDENCE') or os.path.join(ROOT, 'evidence')
SCALE = float(os.environ.get('MON_SCALE', '1'))  # Only for experiments: a fraction of the cases.
MAX_VIOLATIONS = 3  # per worker


def load():
    from . import props

    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module('mon.props.' + m.name)


def case_source(seed, prop, gen, i):
    return random.Random(f'{seed}/{prop}/{gen}/{i}')


def schedule(conf, tier, shard, nshards):
    """Case numbers of this shard, the generators interleaved according to their weights."""
    names = sorted(conf['gens'])
    total = int(conf[tier] * SCALE)
    weights = [conf['gens'][n] for n in names]
    pick = random.Random(12345)
    for i in range(total):
        g = pick.choices(names, weights)[0]
        if i % nshards == shard:
            yield g, i


class Stats:
    def __init__(self):
        self.events = {}
        self.skips = {}
        self.digests = set()
        self.signatures = set()
        self.samples = []
        self.cases = 0
        self.extra = {}

    def event(self, fn, verdict):
        t = self.events.setdefault(fn, {})
        t[verdict] = t.get(verdict, 0) + 1

    def skip(self, fn, reason):
        k = f'{fn}: {reason}'
        self.skips[k] = self.skips.get(k, 0) + 1

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def distinct(self, op):
        self.digests.add(hashlib.blake2b(op.key().encode(), digest_size=8).hexdigest())

    def signature(self, *parts):
        self.signatures.add('|'.join(map(str, parts)))


class OracleMonitor:
    """Judges each event with the exact oracle of the property."""

    def __init__(self, prop, conf, stats):
        self.table = registry.ORACLES.get(prop, {})
        self.stats, self.ck = stats, Check()
        self.executor = Executor()

    def judge(self, op):
        self.ck.fn = op.fn
        try:
            out = self.executor.run(op)
            return out, self.table[op.fn](op, out, self.ck)
        except (Skip, Violation, KeyboardInterrupt, MemoryError):
            raise
        except Exception:
            # The operands cannot be built or the result cannot be read: the library gave something unusable.
            raise Violation('the operation cannot be judged: ' + traceback.format_exc()[-1500:]) from None

    def session(self, ops, source):
        st = self.stats
        for k, op in enumerate(ops):
            if op.fn not in self.table:
                continue
            try:
                out, verdict = self.judge(op)
            except Skip as s:
                st.event(op.fn, 'skipped')
                st.skip(op.fn, str(s))
                continue
            except Violation as v:
                yield op, str(v)
                continue
            st.event(op.fn, verdict)
            st.distinct(op)
            st.signature(op.fn, verdict, dims(op), bool(op.style))
            if len(st.samples) < 4 and source.random() < 0.02:
                st.samples.append(f'{op!r} -> {out.describe()} [{verdict}]'[:600])

    def finish(self):
        self.stats.extra['worst_error_over_tolerance'] = {k: round(v, 6) for k, v in sorted(self.ck.worst.items())}


def dims(op):
    def d(x):
        if isinstance(x, tuple):
            return d(x[1]) if len(x) > 1 else '-'
        if isinstance(x, list):
            return f'{len(x)}x{len(x[0])}' if x and isinstance(x[0], list) else len(x)
        return type(x).__name__

    return ','.join(str(d(x)) for x in ([op.recv] if op.recv else []) + op.args)


def worker(prop, tier, seed, shard, nshards, path):
    load()
    conf = registry.PROPS[prop]
    stats = Stats()
    monitor = conf.get('monitor', OracleMonitor)(prop, conf, stats)
    violations = []
    progress = path + '.progress'
    for g, i in schedule(conf, tier, shard, nshards):
        r = case_source(seed, prop, g, i)
        with open(progress, 'w') as f:
            f.write(f'{g} {i}')
        f = registry.GENS[g]
        ops = f(Gen(r), r)
        stats.cases += 1
        for op, message in monitor.session(ops, random.Random(f'{seed}/{i}')):
            violations.append({'property': prop, 'generator': g, 'case': i, 'seed': seed, 'op': op.to_json() if op else None,
                               'call': repr(op)[:2000], 'message': message[:4000]})
            with open(path + '.found', 'w') as f:
                json.dump(violations, f)
            if len(violations) >= MAX_VIOLATIONS:
                break
        if len(violations) >= MAX_VIOLATIONS or getattr(monitor, 'stuck', False):
            break
    monitor.finish()
    with open(path, 'w') as f:
        json.dump({'events': stats.events, 'skips': stats.skips, 'digests': sorted(stats.digests), 'signatures': sorted(stats.signatures),
                   'samples': stats.samples, 'cases': stats.cases, 'extra': stats.extra, 'violations': violations}, f,
                  default=lambda x: x.tolist() if hasattr(x, 'tolist') else repr(x))
    if getattr(monitor, 'stuck', False):
        os._exit(0)  # Threads that will never end are left.


def merge_extra(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            t = a.setdefault(k, {})
            for x, y in v.items():
                if k.startswith('worst'):
                    t[x] = max(t.get(x, 0), y)
                elif isinstance(y, (int, float)):
                    t[x] = t.get(x, 0) + y
                else:
                    t[x] = y
        elif isinstance(v, (int, float)):
            a[k] = max(a.get(k, 0), v) if k.startswith('max') else a.get(k, 0) + v
        else:
            a.setdefault(k, v)


def environment(scratch):
    env = dict(os.environ)
    env.update(MPLCONFIGDIR=scratch, MON_ENV='1')
    return env


def check(prop, tier, seed):
    """Run the check of a property; returns the exit status."""
    load()
    conf = registry.PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='mon-')
    total = {'events': {}, 'skips': {}, 'digests': set(), 'signatures': set(), 'samples': [], 'cases': 0, 'extra': {}, 'violations': []}
    errors = []
    try:
        nshards = int(os.environ.get('MON_JOBS', '0')) or min(8, max(2, os.cpu_count() or 2))
        nshards = min(nshards, conf.get('max_jobs', 8))
        limit = 780 if tier == 'quick' else conf.get('limit', 7200)
        procs = []
        for s in range(nshards):
            path = os.path.join(scratch, f'out{s}.json')
            err = open(os.path.join(scratch, f'err{s}'), 'w+')
            cmd = [sys.executable, '-B', os.path.join(ROOT, 'run.py'), '--worker', prop, tier, str(seed), str(s), str(nshards), path]
            procs.append((subprocess.Popen(cmd, env=environment(scratch), stdout=err, stderr=err, cwd=scratch), path, err))
        for p, path, err in procs:
            try:
                code = p.wait(max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                for x, _, _ in procs:
                    x.kill()
                code = 'timeout'
            if code != 0 or not os.path.exists(path):
                err.seek(0)
                where = open(path + '.progress').read() if os.path.exists(path + '.progress') else '?'
                errors.append(f'worker ended with {code} in case {where}: {err.read()[-3000:]}')
                if os.path.exists(path + '.found'):
                    with contextlib.suppress(ValueError):  # It may have ended while it wrote this.
                        total['violations'] += json.load(open(path + '.found'))
                continue
            with open(path) as f:
                d = json.load(f)
            for fn, t in d['events'].items():
                u = total['events'].setdefault(fn, {})
                for k, v in t.items():
                    u[k] = u.get(k, 0) + v
            for k, v in d['skips'].items():
                total['skips'][k] = total['skips'].get(k, 0) + v
            total['digests'].update(d['digests'])
            total['signatures'].update(d['signatures'])
            total['samples'] += d['samples'][:2]
            total['cases'] += d['cases']
            total['violations'] += d['violations']
            merge_extra(total['extra'], d['extra'])
    finally:
        subprocess.run(['rm', '-rf', scratch], check=False)
    return report(prop, conf, tier, seed, total, errors, time.time() - t0)


def listed_findings(prop):
    """Keys of the known findings of a property; lines that start with 'fixed:' suppress nothing."""
    keys = set()
    with open(os.path.join(ROOT, 'known_findings.txt')) as f:
        for text in f:
            w = text.split()
            if len(w) > 2 and w[0] == 'finding:' and w[1] == f'property={prop}':
                keys.add(w[2].rstrip(':'))
    return keys


def report(prop, conf, tier, seed, total, errors, wall):
    known = conf.get('known')
    lines, fresh_known = [], []
    if known:
        try:
            fresh_known = known()
        except Exception:
            errors.append(traceback.format_exc())
    listed = listed_findings(prop)
    for key, text in fresh_known:
        if key in listed:
            lines.append(f'KNOWN-FINDING: property={prop} {key}: {text}')
        else:
            total['violations'].append({'property': prop, 'generator': None, 'case': 0, 'seed': seed, 'op': None, 'call': key, 'message': text})
    decided = {fn: sum(v for k, v in t.items() if k != 'skipped') for fn, t in total['events'].items()}
    problems = []
    if not total['violations']:
        for fn in conf.get('required', []):
            need = conf.get('minimum', 50) * min(1, SCALE) / (1 if SCALE >= 1 else 5)
            if decided.get(fn, 0) < need:
                problems.append(f'{fn}: only {decided.get(fn, 0)} events decided, {need} needed')
    evaluations = sum(decided.values())
    coverage = {
        'evaluations': evaluations, 'distinct_nontrivial': len(total['digests']), 'rule': conf['rule'],
        'samples': total['samples'][:12] or ['none'], 'cases': total['cases'], 'distinct_signatures': len(total['signatures']),
        'events_by_operation': total['events'], 'skipped': total['skips'],
    }
    coverage.update(total['extra'])
    if errors:
        coverage['worker_errors'] = errors[:5]
    if problems:
        coverage['inconclusive'] = problems
    os.makedirs(EVIDENCE, exist_ok=True)
    shown = []
    replays = os.path.join(EVIDENCE, 'replay')
    for k, v in enumerate(total['violations'][:10]):
        os.makedirs(replays, exist_ok=True)
        path = os.path.join(replays, f'{prop}-{k}.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        shown.append((v, path))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': coverage,
          'assumptions': conf.get('assumptions', ['The oracles in exact rational arithmetic and the tolerances stated in DESIGN.md.']),
          'wall_s': round(wall, 2), 'violations': len(total['violations'])}
    with open(os.path.join(EVIDENCE, f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for line in lines:
        print(line)
    print(f'{prop} {tier} seed={seed}: {total["cases"]} cases, {evaluations} events decided, {len(total["digests"])} distinct, '
          f'{len(total["signatures"])} signatures, {len(total["violations"])} violations, {wall:.1f} s')
    if shown:
        for v, path in shown:
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  {v["call"][:600]}\n  {v["message"][:1000]}')
        return 1
    if errors:
        print('ERROR: ' + errors[0])
        return 2
    if problems:
        print('INCONCLUSIVE: ' + '; '.join(problems))
        return 3
    return 0


def replay(path):
    """Re-execute the operation of a replay file, then the whole case if that does not show the violation."""
    load()
    with open(path) as f:
        v = json.load(f)
    conf = registry.PROPS[v['property']]
    make = conf.get('monitor', OracleMonitor)
    found = []
    if v['generator'] is None:
        found = [(key, text) for key, text in conf['known']() if key == v['call']]
    elif v['op'] is not None:
        found = list(make(v['property'], conf, Stats()).session([Op.from_json(v['op'])], random.Random(0)))
    if not found and v['generator'] is not None:
        r = case_source(v['seed'], v['property'], v['generator'], v['case'])
        ops = registry.GENS[v['generator']](Gen(r), r)
        found = list(make(v['property'], conf, Stats()).session(ops, random.Random(f'{v["seed"]}/{v["case"]}')))
    for op, message in found:
        print(f'{op!r}\n  {message}')
    if found:
        print(f'VIOLATION property={v["property"]} replay={path}')
        return 1
    print('not reproduced')
    return 0
