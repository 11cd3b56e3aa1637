#!/usr/bin/env python3
"""Entry point of every check:  check.py ID [--tier quick|thorough] [--replay F]"""

import argparse
import importlib
import os
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get('EPREMPY_REPO', '/repo'))
VENV = '/opt/venv/bin/python'
ENV = {
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONHASHSEED': '0',
    'MPLBACKEND': 'Agg',
    'TZ': 'UTC',
    'LC_ALL': 'C.UTF-8',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'EPREMPY_MC': '1',
}


def reexec():
    """Pin the interpreter and every environment setting that could matter."""
    if os.environ.get('EPREMPY_MC') == '1':
        return
    env = dict(os.environ, **ENV)
    env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '/usr/bin:/bin')
    mpl = pathlib.Path('/opt/venv/mplconfig')
    if mpl.exists():
        env['MPLCONFIGDIR'] = str(mpl)
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe, '-W', 'ignore', __file__, *sys.argv[1:]], env)


def main():
    reexec()
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--selftest', action='store_true',
                   help='check that the framework and the package import')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick',
                   choices=('quick', 'thorough'))
    p.add_argument('--replay')
    args = p.parse_args()
    sys.path.insert(0, str(HERE))
    sys.path.insert(0, str(REPO / 'src'))
    import warnings
    warnings.simplefilter('ignore')
    from mc import engine
    import eprempy
    where = pathlib.Path(eprempy.__file__).resolve()
    if REPO.resolve() not in where.parents:
        print(f"eprempy was imported from {where}, not {REPO}", file=sys.stderr)
        return 2
    if args.selftest or not args.property:
        for path in sorted((HERE / 'mc' / 'props').glob('c*.py')):
            importlib.import_module(f'mc.props.{path.stem}')
        print('ok')
        return 0
    module = importlib.import_module(f'mc.props.{args.property.lower()}')
    if args.replay:
        return engine.replay(module, args.replay)
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    return engine.run(module, args.tier, seed)


if __name__ == '__main__':
    sys.exit(main())
