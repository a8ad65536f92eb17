#!/opt/venv/bin/python
"""Run the check of one property:  run.py ID [--tier T] [--replay FILE]"""
import os
import sys

ENV = dict(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
    OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', MPLBACKEND='Agg', TZ='UTC',
    PYTHONWARNINGS='ignore',
    HDF5_USE_FILE_LOCKING='FALSE')
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse
import importlib
import json
import pathlib
import shutil
import tempfile
import traceback

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
from pbt import core
# code under test first, property-testing library last
sys.path.insert(0, str(core.REPO))
for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
        default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', nargs='*')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--jobs', type=int, default=8)
    args = ap.parse_args()
    # matplotlib and other caches go into a scratch home
    scratch = tempfile.mkdtemp(prefix='pbt-run-')
    os.environ['MPLCONFIGDIR'] = scratch
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = None
    try:
        import gravity_toolkit
        src = pathlib.Path(gravity_toolkit.__file__).resolve()
        if core.REPO not in src.parents:
            raise core.HarnessError(f'testing {src}, not {core.REPO}')
        module = importlib.import_module(f'props.{args.property}')
        if args.replay:
            d = json.loads(pathlib.Path(args.replay).read_text())
            allc = module.CHECKS + getattr(module, 'PROBES', [])
            chk = {c.name: c for c in allc}[d['check']]
            try:
                core.run_body(chk, d['case'])
            except Exception as exc:
                if core.classify(exc) == 'harness':
                    raise
                print(f'  {chk.name}: {core.describe(exc)}')
                print(f'VIOLATION property={args.property} replay={args.replay}')
                return 1
            print('replay: property held on this case')
            return 0
        return core.main_property(args.property, module, args.seed, args.tier,
            scale=args.scale, only=args.only, jobs=args.jobs)
    except BaseException:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
