"""C19: configuration files are read, compared and generated faithfully."""

import contextlib
import io
import itertools
import json
import os
import pathlib
import re
import runpy
import sys
import tempfile

from . import c20

ID = 'C19'
LEVEL = 'model_checking'
RULE = (
    "every file of up to n lines over the alphabet of line forms; every pair of "
    "small files compared; every subset of files x option combination of the "
    "command line; non-trivial: distinct (parsed contents)"
)
BOUNDS = {
    'quick': {'lines': 3, 'line forms': 24, 'files compared': 3},
    'thorough': {'lines': 4, 'line forms': 24, 'files compared': 4},
}
ASSUMPTIONS = [
    "comment markers do not occur inside values",
    "whether --diff lists a parameter that one file sets to its default value "
    "and another does not set is unspecified",
]

# (line, expected pair or None, or 'bad')
FORMS = [
    ('', None),
    ('   ', None),
    ('\t', None),
    ('# a = 9', None),
    ('  # indented = 9', None),
    ('#', None),
    ('a=1', ('a', '1')),
    ('a = 2', ('a', '2')),
    ('  a\t=\t3  ', ('a', '3')),
    ('b=1.5e-3', ('b', '1.5e-3')),
    ("b = 'text'", ('b', "'text'")),
    ("b='x=y'", ('b', "'x=y'")),
    ('b =', ('b', '')),
    ('c = 4 # note', ('c', '4')),
    ('c=5# d=6', ('c', '5')),
    ('c = [1.0, 2.0] # list = 3', ('c', '[1.0, 2.0]')),
    ('d=/x/y z', ('d', '/x/y z')),
    ('d = a=b=c # e', ('d', 'a=b=c')),
    ('A=8', ('A', '8')),
    ('aa=7', ('aa', '7')),
    ('d=# only', ('d', '')),
    ('b = -0.5', ('b', '-0.5')),
    ('a.b = 1', ('a.b', '1')),
    ('é = ü', ('é', 'ü')),
]
OTHER = [
    # with comment markers '!' and ';'
    ('! a = 1', None),
    (' ; a = 1', None),
    ('a = 1 ! note', ('a', '1')),
    ('b = 2;', ('b', '2')),
    ('c = 3 ; x ! y', ('c', '3')),
    ('c = 3 ! x ; y', ('c', '3')),
    ('d = #4', ('d', '#4')),
    ('', None),
]


def expected(forms):
    out = {}
    for line, pair in forms:
        if pair:
            out[pair[0]] = pair[1]
    return out


def shards(tier):
    n = BOUNDS[tier]['lines']
    out = [{'kind': 'parse', 'n': n, 'part': p, 'of': 6} for p in range(6)]
    out += [{'kind': 'short'}, {'kind': 'comments'}, {'kind': 'diff'}, {'kind': 'generate'}, {'kind': 'lookup'}]
    out += [{'kind': 'compare', 'part': p, 'of': 8} for p in range(8)]
    return out


def run_shard(shard, cx):
    with tempfile.TemporaryDirectory() as tmp:
        globals()['run_' + shard['kind']](shard, cx, pathlib.Path(tmp).resolve())


def check_mapping(cfg, want):
    if dict(cfg) != want:
        return f'{dict(cfg)} instead of {want}'
    if len(cfg) != len(want) or sorted(cfg) != sorted(want):
        return 'length or keys'
    for k, v in want.items():
        if k not in cfg or cfg[k] != v or cfg.get(k) != v or type(cfg[k]) is not str:
            return f'{k!r}: {cfg[k]!r}'
    for k in ('nope', '', '#', 'note'):
        if k in cfg or cfg.get(k, 0) != 0:
            return f'{k!r} is present'
        try:
            cfg[k]
        except KeyError:
            pass
        else:
            return f'{k!r} accepted'
    return None


def run_parse(shard, cx, tmp):
    from eprempy import parameter
    f = tmp / 'c.cfg'
    n = shard['n']
    pairs = [x for x in FORMS]
    for k, forms in enumerate(itertools.product(pairs, repeat=n)):
        if k % shard['of'] != shard['part']:
            continue
        lines = [x[0] for x in forms]
        with cx.case({'lines': lines}):
            cx.step()
            f.write_text('\n'.join(lines) + ('\n' if k % 2 else ''))
            cfg = parameter.configfile(f)
            want = expected(forms)
            p = check_mapping(cfg, want)
            cx.require(p is None, {'lines': lines}, p)
            cx.outcome(sorted(want.items()))


def run_short(shard, cx, tmp):
    """Files with 0-2 lines, line endings, and ways of naming the file."""
    from eprempy import parameter, paths
    f = tmp / 'c.cfg'
    for n in (0, 1, 2):
        for forms in itertools.product(FORMS, repeat=n):
            for end, last in itertools.product(('\n', '\r\n'), (True, False)):
                lines = [x[0] for x in forms]
                case = {'lines': lines, 'end': end, 'last': last}
                with cx.case(case):
                    cx.step()
                    f.write_bytes((end.join(lines) + (end if last else '')).encode())
                    p = check_mapping(parameter.configfile(str(f)), expected(forms))
                    cx.require(p is None, case, p)
    for line in ('a', 'a 1', 'some text # a=1'):
        for rest in ([], ['b=1']):
            case = {'malformed': [line] + rest}
            with cx.case(case):
                cx.step()
                f.write_text('\n'.join([line] + rest))
                cfg = parameter.configfile(f)
                try:
                    got = dict(cfg)
                except ValueError:
                    pass
                else:
                    cx.require(
                        got == ({'b': '1'} if rest else {}), case, f'malformed line yields {got}',
                    )
    sub = tmp / 'sub'
    sub.mkdir()
    f.write_text('a=1')
    old = os.getcwd()
    try:
        os.chdir(sub)
        for arg in ('../c.cfg', str(f), f, pathlib.Path('..') / 'c.cfg', f'{tmp}/sub/../c.cfg'):
            case = {'path': str(arg)}
            with cx.case(case):
                cx.step()
                cfg = parameter.configfile(arg)
                os.chdir(tmp)
                ok = cfg['a'] == '1' and pathlib.Path(cfg.source) == f and str(cfg) == str(f)
                os.chdir(sub)
                cx.require(ok, case, f'{cfg.source}')
        with cx.case('missing'):
            try:
                parameter.configfile('c.cfg')
            except (OSError, ValueError, paths.NonExistentPathError):
                pass
            else:
                cx.fail('missing', 'a missing file is accepted')
    finally:
        os.chdir(old)


def run_comments(shard, cx, tmp):
    from eprempy import parameter
    f = tmp / 'c.cfg'
    for n in (1, 2, 3):
        for forms in itertools.product(OTHER, repeat=n):
            for order in (['!', ';'], [';', '!'], ('!', ';')):
                lines = [x[0] for x in forms]
                case = {'lines': lines, 'comments': list(order)}
                with cx.case(case):
                    cx.step()
                    f.write_text('\n'.join(lines))
                    p = check_mapping(parameter.configfile(f, comments=order), expected(forms))
                    cx.require(p is None, case, p)


CONTENTS = [
    {}, {'a': '1'}, {'a': '2'}, {'b': '1'}, {'a': '1', 'b': '1'}, {'a': '2', 'b': ''}, {'c': 'x', 'a': '1'},
]


def run_diff(shard, cx, tmp):
    """diff and compare of every pair of files, given as object or path."""
    from eprempy import parameter
    files = []
    for k, content in enumerate(CONTENTS):
        f = tmp / f'{k}.cfg'
        f.write_text(''.join(f'{n}={v}\n' for n, v in content.items()))
        files.append(f)
    for i, j in itertools.product(range(len(CONTENTS)), repeat=2):
        x, y = CONTENTS[i], CONTENTS[j]
        for form in ('object', 'str', 'path'):
            case = {'contents': [x, y], 'argument': form}
            with cx.case(case):
                cx.step()
                one = parameter.configfile(files[i])
                two = {'object': parameter.configfile(files[j]), 'str': str(files[j]), 'path': files[j]}[form]
                d = one.diff(two)
                cx.require(
                    set(d.keys[0]) == set(x) - set(y) and set(d.keys[1]) == set(y) - set(x),
                    case, f'keys {d.keys}',
                )
                for side, here, there in ((0, x, y), (1, y, x)):
                    must = {k: v for k, v in here.items() if there.get(k) != v}
                    full = dict(d.full[side])
                    cx.require(
                        set(must.items()) <= set(full.items()) <= set(here.items()), case, f'full {d.full}',
                    )
                got = one.compare(two)
                must = {k: (x.get(k), y.get(k)) for k in sorted({*x, *y}) if x.get(k) != y.get(k)}
                may = {k: (x.get(k), y.get(k)) for k in sorted({*x, *y})}
                cx.require(
                    set(must.items()) <= set(got.items()) <= set(may.items()) and list(got) == sorted(got),
                    case, f'compare {got}',
                )
                cx.outcome((i, j))
    for bad in (3, None, ['a']):
        with cx.case({'argument': repr(bad)}):
            try:
                parameter.configfile(files[0]).diff(bad)
            except TypeError:
                pass
            else:
                cx.fail({'argument': repr(bad)}, 'accepted')


# -- command line ---------------------------------------------------------
def call(argv, cwd):
    """Run `python -m eprempy ...` in this process; (status, out, err)."""
    out, err = io.StringIO(), io.StringIO()
    old, oldcwd = sys.argv, os.getcwd()
    sys.argv = ['eprempy', *argv]
    os.chdir(cwd)
    status = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_module('eprempy', run_name='__main__', alter_sys=False)
            except SystemExit as e:
                status = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    finally:
        sys.argv = old
        os.chdir(oldcwd)
    return status, out.getvalue(), err.getvalue()


SRC_LINES = [
    'config.eMin = readDouble("eMin", 5.0, 0.0, 1.0);',
    'config.useDegrees = readInt("useDegrees", 0, 0, 1);',
    'config.mass = readDoubleArray("mass", 1, &n, m, 0.0, 1.0);',
    'Scalar_t m[1] = {4.0};',
    'config.newOne = readInt("newOne", 3, 0, 9);',
    'config.idealShockTheta = readDouble("idealShockTheta", 0.5, 0.0, PI);',
]


def make_source(tmp):
    src = tmp / 'src'
    src.mkdir()
    (src / 'configuration.c').write_text('\n'.join(SRC_LINES) + '\n')
    (src / 'baseTypes.h').write_text('#define PI 3.0\n')
    return src


def same_value(x, y):
    from eprempy import parameter
    if isinstance(x, parameter.Variable) or isinstance(y, parameter.Variable):
        return type(x) is type(y) and x.unit == y.unit and list(x.data) == list(y.data)
    return x == y and type(x) is type(y)


def run_generate(shard, cx, tmp):
    from eprempy import cli, parameter
    src = make_source(tmp)
    for source, form, verbose in itertools.product((None, src), ('cli', 'call'), (False, True)):
        for target in ('out.cfg', 'sub/out.cfg', str(tmp / 'abs.cfg')):
            case = {'source': bool(source), 'form': form, 'verbose': verbose, 'target': target}
            with cx.case(case):
                cx.step()
                (tmp / 'sub').mkdir(exist_ok=True)
                path = (tmp / target).resolve()
                path.unlink(missing_ok=True)
                before = set(os.listdir(tmp))
                if form == 'cli':
                    argv = ['configfile', '-g', target] + (['-s', str(src)] if source else []) + (['-v'] if verbose else [])
                    status, out, err = call(argv, tmp)
                    cx.require(status == 0 and not err, case, f'{status} {err}')
                    cx.require(bool(out.strip()) == verbose and (not verbose or str(path) in out), case, f'output {out!r}')
                else:
                    old = os.getcwd()
                    os.chdir(tmp)
                    try:
                        buf = io.StringIO()
                        with contextlib.redirect_stdout(buf):
                            cli.generate_config_file(target, source, verbose)
                    finally:
                        os.chdir(old)
                    cx.require(bool(buf.getvalue()) == verbose, case, f'output {buf.getvalue()!r}')
                cx.require(path.is_file(), case, 'no file')
                extra = set(os.listdir(tmp)) - before - {path.name}
                cx.require(not extra, case, f'extra files {extra}')
                default = parameter.interface(srcdir=source)
                loaded = parameter.interface(path, srcdir=source)
                names = list(parameter.ConfigurationC(source))
                bad = [k for k in names if not same_value(default[k], loaded[k])]
                cx.require(not bad, case, lambda: f'{[(k, default[k], loaded[k]) for k in bad]}')
                raw = parameter.configfile(path)
                cx.require(set(raw) <= set(names), case, f'unknown parameters {set(raw) - set(names)}')
                missing = [k for k in names if k not in raw and default[k] is not None]
                cx.require(not missing, case, f'not in the file: {missing}')
                cx.require(list(raw) == sorted(raw), case, 'not sorted')
    # overwriting
    with cx.case('overwrite'):
        (tmp / 'o.cfg').write_text('eMin=99\nold=1\n' * 500)
        call(['configfile', '-g', 'o.cfg'], tmp)
        raw = parameter.configfile(tmp / 'o.cfg')
        cx.require('old' not in raw and raw['eMin'] == '1.0', 'overwrite', 'old contents survive')


FILES = {
    'x.cfg': {},
    'y.cfg': {'useDegrees': '1', 'idealShockTheta': '45.0'},
    'z.cfg': {'useDegrees': '0', 'eMin': '2.0', 'mhdDirectory': '/some/where'},
    's/x.cfg': {'eMin': '2.0', 'mass': '[1.0, 4.0]', 'unknown': '3'},
    's/w.cfg': {'eMin': '0.0', 'newOne': '4', 'idealShockTheta': '0.25'},
}
VALUE = re.compile(r"^(?P<label>\S+)\s+(?P<value>.+?)$")


def parse_output(text):
    """Blocks of a comparison: [(name, default, [(label, value)])]."""
    blocks = []
    lines = [l.rstrip() for l in text.splitlines()]
    k = 0
    while k < len(lines):
        if not lines[k].strip():
            k += 1
            continue
        head = re.fullmatch(r'\s*(\S+) \(default: (.*)\)\s*', lines[k])
        if not head or k + 1 >= len(lines) or set(lines[k + 1]) != {'-'}:
            return None
        rows = []
        k += 2
        while k < len(lines) and lines[k].strip():
            m = VALUE.match(lines[k])
            if not m:
                return None
            rows.append((m['label'], m['value'].strip()))
            k += 1
        blocks.append((head[1], head[2], rows))
    return blocks


def shown(value, unit):
    """What the comparison shows for a value with a unit."""
    from eprempy import metric
    if isinstance(value, list):
        if len(value) == 1:
            return shown(value[0], unit)
        value = '[' + ' '.join(f'{x:g}.' if float(x).is_integer() else f'{x:g}' for x in value) + ']'
    if unit is None or unit == '1':
        return str(value)
    return f"{value} {unit if unit == 'day' else str(metric.unit(unit))!r}"


def same_shown(a, b):
    if a == b:
        return True
    (x, _, u), (y, _, v) = a.partition(' '), b.partition(' ')
    try:
        return float(x) == float(y) and u == v
    except ValueError:
        return a.replace(' ', '') == b.replace(' ', '')


SOURCE_SPEC = {
    'eMin': ('float', 'MeV/nuc', 5.0), 'useDegrees': ('int', None, 0), 'mass': ('list', 'nucleon', [4.0]),
    'newOne': ('int', None, 3), 'idealShockTheta': ('float', 'rad', 0.5),
}


def run_compare(shard, cx, tmp):
    src = make_source(tmp)
    (tmp / 's').mkdir()
    for name, content in FILES.items():
        (tmp / name).write_text(''.join(f'{k} = {v}\n' for k, v in content.items()))
    package = {k: (v['type'], v['unit'], v['default']) for k, v in c20.load().items()}
    names = list(FILES)
    top = 3 if cx.tier == 'quick' else 4
    combos = [c for n in range(1, top + 1) for c in itertools.permutations(names, n)]
    combos += [('x.cfg', 'x.cfg')]
    jobs = itertools.product(combos, (False, True), (False, True), (False, True))
    for k, (files, diff, full, source) in enumerate(jobs):
        if k % shard['of'] != shard['part']:
            continue
        # The most files only matter to what counts as a difference.
        if len(files) == top and (source or not diff or full):
            continue
        argv = ['configfile', '-c', *files] + ['--diff'] * diff + ['--names'] * full + (['-s', str(src)] if source else [])
        case = {'argv': [a.replace(str(tmp), '@') for a in argv]}
        with cx.case(case):
            cx.step()
            status, out, err = call(argv, tmp)
            p = compare_problem(files, diff, full, SOURCE_SPEC if source else package, status, out, err)
            cx.require(p is None, case, p)
            cx.outcome(out)


def compare_problem(files, diff, full, spec, status, out, err):
    if status or err:
        return f'status {status} {err}'
    blocks = parse_output(out)
    if blocks is None:
        return f'unexpected output {out[:300]!r}'
    unique = list(dict.fromkeys(files))
    got = {name: (default, rows) for name, default, rows in blocks}
    if len(got) != len(blocks):
        return 'a parameter is listed twice'
    if [b[0] for b in blocks] != sorted(got):
        return 'not sorted'
    if set(got) - set(spec):
        return f'unknown parameters {set(got) - set(spec)}'
    for name, (kind, unit, default) in spec.items():
        values, displays = [], []
        for f in unique:
            content = FILES[f]
            if name in content:
                text = content[name]
                v = {'int': int, 'float': float, 'str': str, 'list': json.loads}[kind](text)
                u = 'deg' if unit == 'rad' and content.get('useDegrees') == '1' else unit
                values.append((v, u))
                displays.append(shown(v, u))
            else:
                values.append((default, unit))
                displays.append('(default)')
        differ = any(v != values[0] for v in values)
        if not diff and name not in got:
            return f'{name} is not listed'
        if diff and differ and name not in got:
            return f'{name} differs but is not listed'
        if diff and name in got and len(set(displays)) == 1:
            return f'{name} does not differ but is listed'
        if name not in got:
            continue
        heading, rows = got[name]
        if not same_shown(heading, shown(default, unit)):
            return f'{name}: default {heading!r} instead of {shown(default, unit)!r}'
        if len(rows) != len(unique):
            return f'{name}: {len(rows)} rows for {len(unique)} files'
        for i, (f, want, (label, value)) in enumerate(zip(unique, displays, rows)):
            if full:
                if not (f == label or ('/' + f).endswith('/' + label)):
                    return f'{name}: label {label!r} for {f}'
            elif label != str(i):
                return f'{name}: label {label!r} for file {i}'
            if not same_shown(value, want):
                return f'{name}: {value!r} instead of {want!r} for {f}'
        if full and len({r[0] for r in rows}) != len(rows):
            return f'{name}: ambiguous labels {rows}'
    return None


def run_lookup(shard, cx, tmp):
    """Malformed command lines and other entry points."""
    (tmp / 'a.cfg').write_text('eMin=2\n')
    before = sorted(os.listdir(tmp))
    for argv, ok in (
        (['configfile'], False), ([], False), (['nope'], False), (['configfile', '-g'], False), (['configfile', '-c'], False),
        (['configfile', '-g', 'o.cfg', '-c', 'a.cfg'], False), (['configfile', '--nope'], False), (['configfile', '-c', 'a.cfg', '-s'], False),
        (['configfile', '--help'], True), (['--help'], True), (['--version'], True), (['-V'], True),
    ):
        case = {'argv': argv}
        with cx.case(case):
            cx.step()
            status, out, err = call(argv, tmp)
            cx.require((status == 0) == ok, case, f'status {status} {out} {err}')
            cx.require(bool(out.strip() if ok else err.strip()), case, 'silent')
            cx.require(sorted(os.listdir(tmp)) == before, case, 'files changed')
    for argv in (['configfile', '-c', 'missing.cfg'], ['configfile', '-c', 'a.cfg', 'missing.cfg'], ['configfile', '-c', 'a.cfg', '-s', 'nowhere'], ['configfile', '-g', 'no/such/dir/o.cfg'], ['configfile', '-g', 'o.cfg', '-s', 'nowhere']):
        case = {'argv': argv}
        with cx.case(case):
            cx.step()
            try:
                status, out, err = call(argv, tmp)
            except Exception as err:
                cx.require(isinstance(err, (OSError, ValueError)) or 'Path' in type(err).__name__, case, repr(err))
            else:
                cx.require(status != 0 or 'ERROR' in out + err, case, f'no error: {status} {out}')
            cx.require(sorted(os.listdir(tmp)) == before, case, f'files changed: {sorted(os.listdir(tmp))}')
