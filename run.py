"""Entry point of the checks: run.py ID [quick|thorough], run.py --replay FILE (from /verif)."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = '/opt/venv/bin/python'


def main(argv):
    if os.environ.get('MON_ENV') != '1':
        # The interpreter that has the dependencies of the library, the library from the working tree, one thread per process.
        env = dict(os.environ)
        env.update(MON_ENV='1', PYTHONPATH=os.path.join(os.environ.get('REPO', '/repo'), 'src') + os.pathsep + HERE,
                   PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
        env.pop('PYTHONWARNINGS', None)
        python = VENV if os.path.exists(VENV) else sys.executable
        os.execve(python, [python, '-B', os.path.abspath(__file__)] + argv, env)

    if argv[0] == '--peer':
        from mon import peer

        peer.serve(argv[1])
        return 0

    from mon import engine

    if argv[0] == '--worker':
        prop, tier, seed, shard, nshards, path = argv[1:]
        engine.worker(prop, tier, int(seed), int(shard), int(nshards), path)
        return 0
    if argv[0] == '--setup':
        # Nothing is compiled: check that the interpreter, the library and every monitor load.
        import skspatial.objects

        engine.load()
        print(f'{len(engine.registry.PROPS)} checks ready for {skspatial.objects.__file__}')
        return 0
    if argv[0] == '--replay':
        return engine.replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return engine.check(argv[0], tier, int(os.environ.get('VERIF_SEED', '1')))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
