#!/usr/bin/python3
"""run.py <property> [quick|thorough]: exit 0 (held), 1 (VIOLATION line), 2 (error of the machinery)."""
import importlib, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'props'))
import h, build


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ctx = h.Ctx(prop, tier)
    mod = importlib.import_module(prop)
    mod.run(ctx)
    return ctx.finish()


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
