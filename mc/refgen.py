"""Run the generator of reference data in a scratch copy of the package.

Invoked as `python refgen.py SCRATCH`; reads one history per line (a list of
[source directory or None, options]) and writes what the package says after each
run of the generator.
"""

import contextlib
import io
import json
import pathlib
import runpy
import sys


def describe(package):
    from eprempy import parameter
    out = {
        'defaults': dict(parameter.defaults()),
        'constants': dict(parameter.BaseTypesH()),
        'raw': parameter.ConfigurationC().todict('raw'),
    }
    module = runpy.run_path(str(package / 'parameter' / 'reference.py'))
    for key in ('BASETYPES_H', 'CONFIGURATION_C'):
        out[key] = {
            k: {i: j.__name__ if isinstance(j, type) else j for i, j in v.items()}
            for k, v in module[key].items()
        }
    return out


def main(scratch):
    scratch = pathlib.Path(scratch)
    sys.path.insert(0, str(scratch / 'src'))
    import eprempy
    package = pathlib.Path(eprempy.__file__).parent
    assert package.parent == scratch / 'src'
    data = [package / 'parameter' / name for name in ('reference.json', 'reference.py')]
    original = [p.read_bytes() for p in data]
    script = scratch / 'scripts' / 'default-parameters.py'

    def files():
        return {
            str(p.relative_to(scratch)): p.read_bytes()
            for p in scratch.rglob('*') if p.is_file() and p.suffix not in ('.pyc', '.log')
            and p not in data
        }

    start = files()
    for line in sys.stdin:
        for p, b in zip(data, original):
            p.write_bytes(b)
        answers = []
        for source, options in json.loads(line):
            sys.argv = [str(script), *([] if source is None else ['-s', source]), *options]
            text = io.StringIO()
            answer = {}
            try:
                with contextlib.redirect_stdout(text):
                    runpy.run_path(str(script), run_name='__main__')
                answer = describe(package)
            except BaseException as err:
                answer['error'] = f'{type(err).__name__}: {err}'
            answer['printed'] = text.getvalue()
            answers.append(answer)
        print(json.dumps(answers), flush=True)
    for p, b in zip(data, original):
        p.write_bytes(b)
    now = files()
    print(json.dumps(sorted(k for k in start.keys() | now.keys() if start.get(k) != now.get(k))), flush=True)


if __name__ == '__main__':
    main(sys.argv[1])
