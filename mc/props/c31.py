"""C31: reference data generated from EPREM source code say what that source says.

Explicit-state search over the database of reference values.  A state is the
content of the database; a transition is a run of the generator script on a
source tree, which overwrites or appends.  The script runs on a scratch copy of
the package, which is then asked for its defaults, constants and definitions, and
whose generated module is executed.  The reference is a dictionary of texts and a
value for each text, both written down here.
"""

import itertools
import json
import math
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

from .c21 import statement

ID = 'C31'
LEVEL = 'model_checking'
RULE = (
    "every source tree made of one choice (absent or one of the definitions) for "
    "each of the constants and parameters of the catalogue, in one run; every "
    "sequence of runs (source tree, overwriting or appending, with or without "
    "messages, or without a source) up to the depth bound; non-trivial: distinct "
    "databases"
)
BOUNDS = {
    'quick': {'trees': 'all triples of choices, the others absent or present', 'depth': 3},
    'thorough': {'trees': 'all', 'depth': 4},
}
ASSUMPTIONS = [
    "the script runs on a copy of the package, in which it writes",
    "appending keeps the existing definition of a name that is already in the database",
    "a tree that refers to names that are defined nowhere is left out",
]

PI, AU = 3.25, 1.5e13
# name -> definitions as (text, value of the text given the values of other names)
CONSTANTS = {
    'PI': [('3.25', lambda c: 3.25), ('(1.0 + 2.0)', lambda c: 3.0)],
    'AU': [('1.5e13', lambda c: 1.5e13), ('( PI * 2.0 )', lambda c: c['PI'] * 2), ('sqrt(PI)', lambda c: math.sqrt(c['PI']))],
    'T': [('1', lambda c: 1)],
    'LARGEINT': [('2147483647', lambda c: 2147483647)],
    'MY_FLAG': [('2', lambda c: 2), ('PI / 4', lambda c: c['PI'] / 4)],
    'NP0': [('-1.0e-5', lambda c: -1e-5)],
}
PARAMETERS = {
    'numNodesPerStream': [
        ('readInt', '3', '0', 'LARGEINT', lambda c, p: 3),
        ('readInt', 'LARGEINT', '1', 'LARGEINT', lambda c, p: c['LARGEINT'])],
    'lamo': [
        ('readDouble', '0.5', '0.0', '1.0e33', lambda c, p: 0.5),
        ('readDouble', 'AU * 2.0', '-1.0 * PI', 'config.eta', lambda c, p: c['AU'] * 2),
        ('readDouble', 'config.eta + PI', '0.0', 'PI', lambda c, p: p['eta'] + c['PI'])],
    'eta': [('readDouble', '-2.5e3', '-1.0e9', '0.0', lambda c, p: -2.5e3)],
    'outputDir': [
        ('readString', text, None, None, lambda c, p, t=text[1:-1]: t)
        for text in ('"./"', '"a\'b"', '""', '"x, y = {z} %s"', '"caf\u00e9 // no"', '"3"')],
    'minEnergy': [('readDoubleArray', '2.5', '0.0', '1.0', lambda c, p: [2.5])],
}
TYPES = {'readInt': 'int', 'readDouble': 'float', 'readString': 'str', 'readDoubleArray': 'list'}
ITEMS = [('c', k) for k in CONSTANTS] + [('p', k) for k in PARAMETERS]


def choices(item):
    kind, name = item
    return range(-1, len((CONSTANTS if kind == 'c' else PARAMETERS)[name]))


def tree_of(picked):
    """A source tree: [constants, parameters] with the number of the definition."""
    return [{n: i for (k, n), i in picked.items() if k == kind and i >= 0} for kind in 'cp']


def write(path, tree):
    path.mkdir(parents=True)
    header = ['#ifndef H', '#define H'] + [f'#define {n} {CONSTANTS[n][i][0]}' for n, i in tree[0].items()] + ['#endif']
    (path / 'baseTypes.h').write_text('\n'.join(header) + '\n')
    lines = ['void initGlobalParameters() {']
    for number, (n, i) in enumerate(tree[1].items()):
        kind, text, lo, hi, _ = PARAMETERS[n][i]
        if kind == 'readDoubleArray':
            lines.append(f'  Scalar_t default{number}[1] = {{{text}}};')
            text = f'default{number}'
        lines.append('  ' + statement(kind, n, text, lo, hi))
    (path / 'configuration.c').write_text('\n'.join([*lines, '}']) + '\n', encoding='utf-8')


def expected(tree):
    """What the database says; None if it is not complete."""
    constants, parameters = {}, {}
    try:
        for table, values, extra in ((CONSTANTS, constants, ()), (PARAMETERS, parameters, (constants,))):
            left = dict(tree[table is PARAMETERS])
            for _ in range(len(left) + 1):
                for n, i in list(left.items()):
                    try:
                        values[n] = table[n][i][-1](*extra, values)
                    except KeyError:
                        continue
                    del left[n]
            if left:
                return None
    except KeyError:
        return None
    raw = {}
    for n, i in tree[1].items():
        kind, text, lo, hi, _ = PARAMETERS[n][i]
        entry = {'mode': kind, 'defaultVal': text[1:-1] if kind == 'readString' else f'[{text}]' if kind == 'readDoubleArray' else text}
        if lo is not None:
            entry.update(minVal=lo, maxVal=hi)
        raw[n] = entry
    return {'constants': constants, 'defaults': parameters, 'raw': raw}


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, float):
        return isinstance(a, (int, float)) and math.isclose(a, b, rel_tol=1e-12)
    return type(a) is type(b) and a == b


def problem(answer, want):
    if 'error' in answer:
        return f"failed: {answer['error']}"
    for key in ('constants', 'defaults'):
        if set(answer[key]) != set(want[key]):
            return f"{key} {sorted(answer[key])}, expected {sorted(want[key])}"
        for n, v in want[key].items():
            if not same(answer[key][n], v):
                return f"{n} is {answer[key][n]!r}, expected {v!r}"
    if answer['raw'] != want['raw']:
        return f"definitions {answer['raw']}, expected {want['raw']}"
    if set(answer['BASETYPES_H']) != set(want['constants']):
        return f"the generated module has the constants {sorted(answer['BASETYPES_H'])}"
    for n, v in want['constants'].items():
        entry = answer['BASETYPES_H'][n]
        if not same(entry.get('value'), v):
            return f"the generated module has {entry} for {n}, expected {v!r}"
        if entry.get('type', type(v).__name__) != ('float' if n not in ('T', 'LARGEINT', 'MY_FLAG') else type(v).__name__):
            return f"the generated module has {entry} for {n}"
    if set(answer['CONFIGURATION_C']) != set(want['defaults']):
        return f"the generated module has the parameters {sorted(answer['CONFIGURATION_C'])}"
    for n, r in want['raw'].items():
        entry = answer['CONFIGURATION_C'][n]
        full = {'type': TYPES[r['mode']], **{k: v for k, v in r.items() if k != 'mode'}}
        if any(entry.get(k, full) != v for k, v in full.items()):
            return f"the generated module has {entry} for {n}, expected {full}"
    return None


def trees(tier):
    """Choices: all, or all triples of definitions with the others present or absent."""
    if tier == 'thorough':
        combos = itertools.product(*map(choices, ITEMS))
    else:
        combos = set()
        for base in (-1, 0):
            for where in itertools.combinations(range(len(ITEMS)), 3):
                for these in itertools.product(*(choices(ITEMS[i]) for i in where)):
                    c = [base] * len(ITEMS)
                    for i, x in zip(where, these):
                        c[i] = x
                    combos.add(tuple(c))
        combos = sorted(combos)
    for c in combos:
        tree = tree_of(dict(zip(ITEMS, c)))
        if expected(tree) is not None:
            yield tree


FEW = [
    [{}, {}],
    [{'PI': 0}, {'eta': 0, 'outputDir': 1}],
    [{'PI': 1, 'AU': 1, 'NP0': 0}, {'lamo': 1, 'outputDir': 3, 'minEnergy': 0}],
    [{'AU': 0, 'LARGEINT': 0, 'MY_FLAG': 0}, {'numNodesPerStream': 1, 'lamo': 0, 'outputDir': 4}],
    [{'T': 0, 'PI': 0, 'MY_FLAG': 1, 'AU': 2}, {'numNodesPerStream': 0, 'lamo': 2, 'eta': 0}],
]


def histories(depth):
    runs = [(s, append, verbose) for s in (None, *range(len(FEW))) for append in (False, True) for verbose in (False, True)]
    quiet = [r for r in runs if not r[2]]
    for n in range(2, depth + 1):
        # the first run replaces what the package came with
        for first in range(len(FEW)):
            for rest in itertools.product(runs if n == 2 else quiet, repeat=n - 1):
                yield [(first, False, False), *rest]


def shards(tier):
    n = 8 if tier == 'quick' else 64
    return [{'part': i, 'of': n, 'tier': tier} for i in range(n)]


class Generator:
    """The generator, in a copy of the package."""

    def __init__(self, repo):
        self.path = pathlib.Path(tempfile.mkdtemp(prefix='c31-')).resolve()
        self.home = self.path / 'copy'
        shutil.copytree(repo / 'src' / 'eprempy', self.home / 'src' / 'eprempy', ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copytree(repo / 'scripts', self.home / 'scripts')
        env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
        helper = pathlib.Path(__file__).resolve().parents[1] / 'refgen.py'
        self.process = subprocess.Popen(
            [sys.executable, str(helper), str(self.home)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            text=True, env={**env, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONUTF8': '1'}, cwd=self.path)

    def source(self, name, tree):
        path = self.path / 'trees' / name
        if not path.exists():
            write(path, tree)
        return str(path)

    def ask(self, history):
        self.process.stdin.write(json.dumps(history) + '\n')
        self.process.stdin.flush()
        return json.loads(self.process.stdout.readline())

    def finish(self):
        self.process.stdin.close()
        return json.loads(self.process.stdout.readline())

    def close(self):
        self.process.kill()
        self.process.wait()
        shutil.rmtree(self.path)


def run_shard(shard, cx):
    import eprempy
    repo = pathlib.Path(eprempy.__file__).resolve().parents[2]
    generator = Generator(repo)
    try:
        mine = slice(shard['part'], None, shard['of'])
        for number, tree in enumerate(list(trees(shard['tier']))[mine]):
            case = {'tree': tree}
            with cx.case(case):
                cx.step()
                source = generator.source(f't{number}', tree)
                answer, = generator.ask([[source, []]])
                want = expected(tree)
                why = problem(answer, want)
                cx.require(why is None, case, lambda: why)
                cx.require(not answer['printed'], case, f"printed {answer['printed']!r}")
                cx.state(json.dumps(tree, sort_keys=True))
                cx.outcome([sorted(want['defaults']), sorted(want['constants'])])
                shutil.rmtree(source)
        for history in list(histories(BOUNDS[shard['tier']]['depth']))[mine]:
            case = {'runs': [[None if s is None else FEW[s], *o] for s, *o in history]}
            with cx.case(case):
                ask, states, state = [], [], None
                for s, append, verbose in history:
                    if s is not None:
                        new = [dict(x) for x in FEW[s]]
                        if append:
                            new = [{**n, **o} for n, o in zip(new, state)]
                        state = new
                    if expected(state) is None:
                        break
                    states.append(state)
                    ask.append([
                        None if s is None else generator.source(f's{s}', FEW[s]),
                        ['--append'] * append + ['-v'] * verbose])
                answers = generator.ask(ask)
                cx.trace()
                for answer, tree, (_, _, verbose) in zip(answers, states, history):
                    cx.step()
                    why = problem(answer, expected(tree))
                    cx.require(why is None, case, lambda: why)
                    cx.require(bool(answer['printed']) == verbose, case, f"printed {answer['printed']!r}")
                    cx.state(json.dumps(tree, sort_keys=True))
                cx.outcome(json.dumps(states))
        case = {'after': 'all runs'}
        with cx.case(case):
            changed = generator.finish()
            cx.require(not changed, case, f'also changed {changed}')
    finally:
        generator.close()
