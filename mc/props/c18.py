"""C18: observers and datasets are exactly the files of the run directory.

Every directory of at most `files` names from a pool (streams, point observers,
and files that are neither), every identifier, every combination of config files
and ways to name one, every way to name the directory, and every sequence of
requests up to a length, under several hash seeds, against the naming convention
of the simulation.
"""

import itertools
import json
import os
import pathlib
import subprocess
import sys
import tempfile

from .. import eprem_data as D

ID = 'C18'
LEVEL = 'model_checking'
RULE = (
    "all directories of <= `files` names from a pool x all identifiers x hash "
    "seeds; all sets of config files x all ways to request one; all sources; all "
    "histories of <= `length` requests; non-trivial: distinct answers"
)
BOUNDS = {
    'quick': {'files': 2, 'seeds': [0, 1], 'length': 2},
    'thorough': {'files': 3, 'seeds': [0, 1, 2, 3, 4, 5], 'length': 3},
}
ASSUMPTIONS = [
    "stream files are numbered with six or more digits and no two files of the "
    "directory have the same prefix and number",
    "a file whose suffix is not that of a known format is not an observer",
    "any of several files of the same stream, or config files of equal rank, may be "
    "chosen, but the choice does not depend on the process",
]

STREAMS = ['stream000001.nc', 'obs000000.nc', 'obs000001.nc', 'obs123456.nc',
           'obs1234567.nc', 'flux000001.nc', 'flux000002.nc']
POINTS = ['p_obs000.nc', 'p_obs001.nc', 'p_obs012.nc', 'point001.nc', 'p_obspsp.nc',
          'p_obssob_.nc', 'pointint.nc', 'p_obsearth.nc', 'p_obs1234.nc']
OTHERS = ['observations.nc', 'streams.nc', 'fluxes.nc', 'obs.nc', 'earth.nc', 'psp.nc',
          'obs000009.txt', 'obs000001.txt', 'unrelated.nc', 'stream_1.nc', 'obs0x1.nc']
POOL = STREAMS + POINTS + OTHERS
INTS = [0, 1, 2, 12, 123456, 1234567, 9, -1, 10 ** 7]
TEXTS = ['0', '1', '000', '001', '12', '012', '1234', 'earth', 'psp', 'sob_', 'int',
         'p_obspsp', 'p_obsearth', 'unrelated', 'nope', 'obs000001']
KINDS = ['stream', 'point', 'observer']


def split(name):
    stem, suffix = os.path.splitext(name)
    return stem, suffix


def stream_id(name):
    stem, suffix = split(name)
    if suffix != '.nc':
        return None
    for p in ('stream', 'obs', 'flux'):
        rest = stem[len(p):]
        if stem.startswith(p) and rest.isdigit():
            return int(rest)
    return None


def point_id(name):
    stem, suffix = split(name)
    if suffix != '.nc':
        return None
    for p in ('point', 'p_obs'):
        if stem.startswith(p):
            return stem[len(p):].lstrip('_')
    return None


def candidates(kind, key, names):
    """The files that the identifier may refer to, or the error."""
    if kind == 'stream' and not isinstance(key, int):
        return 'TypeError'
    if kind == 'observer':
        prefixes = ('obs', 'flux') if isinstance(key, int) else ('p_obs',)
        digits = 6 if isinstance(key, int) else 3
    else:
        prefixes = ('stream', 'obs', 'flux') if kind == 'stream' else ('point', 'p_obs')
        digits = 6 if kind == 'stream' else 3
    stems = []
    try:
        stems += [f'{p}{int(key):0{digits}}' for p in prefixes]
    except ValueError:
        pass
    if isinstance(key, str):
        stems.append(key)
    return [n for n in names if split(n)[0] in stems and split(n)[1] == '.nc']


# The helper process evaluates requests and reports plain values.
HELPER = r'''
import json, os, sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, os.environ['C18_SRC'])
import numpy, pathlib
from eprempy import eprem, metric
def value(q, *i):
    return float(numpy.array(q[i]).ravel()[0])
def show(x):
    if isinstance(x, (str, int, float, type(None), bool)): return x
    if isinstance(x, pathlib.Path): return str(x)
    if isinstance(x, dict): return [[show(k), show(v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)): return [show(v) for v in x]
    if isinstance(x, eprem.Observer): return [type(x).__name__, str(x.source)]
    return str(x)
def ask(text, env):
    try:
        return show(eval(text, globals(), env))
    except Exception as err:
        return {'error': type(err).__name__}
def run(text, env):
    try:
        exec(text, globals(), env)
    except Exception as err:
        return {'error': type(err).__name__}
for line in sys.stdin:
    work = json.loads(line)
    os.chdir(work['cwd'])
    env = {}
    out = []
    for kind, text in work['steps']:
        out.append(ask(text, env) if kind == 'ask' else run(text, env))
    try:
        print(json.dumps(out), flush=True)
    except BrokenPipeError:
        os._exit(1)
'''


class Helper:
    """A process with a given hash seed that answers requests."""

    def __init__(self, seed, home):
        import eprempy
        env = dict(os.environ, PYTHONHASHSEED=str(seed), HOME=str(home),
                   C18_SRC=os.path.dirname(os.path.dirname(eprempy.__file__)))
        self.process = subprocess.Popen(
            [sys.executable, '-W', 'ignore', '-c', HELPER], env=env, text=True,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def __call__(self, cwd, steps):
        self.process.stdin.write(json.dumps({'cwd': str(cwd), 'steps': steps}) + '\n')
        self.process.stdin.flush()
        return json.loads(self.process.stdout.readline())

    def close(self):
        self.process.stdin.close()
        self.process.wait()


class Scratch:
    """Template observer files with different contents, linked into place."""

    def __init__(self, seed):
        self.tmp = tempfile.TemporaryDirectory(prefix='c18-')
        self.root = pathlib.Path(self.tmp.name).resolve()
        (self.root / 'home').mkdir()
        self.raw = D.make(self.root / 'template.nc', nt=2, ns=2, ne=2, nm=2)
        self.helper = Helper(seed, self.root / 'home')
        self.number = 0

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.helper.close()
        self.tmp.cleanup()

    def directory(self, names, configs=('eprem.cfg',), where=None):
        self.number += 1
        d = (where or self.root) / f'run{self.number}'
        d.mkdir(parents=True)
        for n in names:
            os.link(self.root / 'template.nc', d / n)
        for i, c in enumerate(configs):
            (d / c).parent.mkdir(exist_ok=True)
            D.config(d / c, lamo=round(0.1 * (i + 1), 3))
        return d


def directories(tier):
    for n in range(BOUNDS[tier]['files'] + 1):
        yield from itertools.combinations(POOL, n)


def shards(tier):
    every = list(directories(tier))
    out = []
    for seed in BOUNDS[tier]['seeds']:
        step = 60 if tier == 'quick' else 150
        for i in range(0, len(every), step):
            if len(every[i]) < 3 or seed < 3:
                out.append({'kind': 'files', 'seed': seed, 'from': i, 'to': i + step,
                            'tier': tier})
    for seed in BOUNDS[tier]['seeds'][:2]:
        if seed and tier == 'quick':
            break
        out += [{'kind': 'config', 'seed': seed, 'tier': tier, 'part': i}
                for i in range(PARTS)]
        out += [{'kind': 'source', 'seed': seed, 'tier': tier, 'maker': i}
                for i in range(len(MAKERS))]
        out += [{'kind': 'history', 'seed': seed, 'tier': tier, 'first': i}
                for i in range(len(EVENTS))]
        out.append({'kind': 'mapping', 'seed': seed, 'tier': tier})
    return out


def run_shard(shard, cx):
    tier, seed = shard['tier'], shard['seed']
    with Scratch(seed) as scratch:
        if shard['kind'] == 'files':
            for names in itertools.islice(directories(tier), shard['from'], shard['to']):
                check_files(cx, scratch, list(names), seed)
        elif shard['kind'] == 'config':
            configs(cx, scratch, seed, part=shard['part'], tier=tier)
        elif shard['kind'] == 'source':
            sources(cx, scratch, seed, maker=shard['maker'])
        elif shard['kind'] == 'mapping':
            mappings(cx, scratch, seed)
        else:
            histories(cx, scratch, seed, BOUNDS[tier]['length'], first=shard['first'])


def identifiers(names):
    """Identifiers of files of the directory, and some of none."""
    out = [(k, i) for i in INTS for k in KINDS]
    return out + [(k, t) for t in TEXTS for k in KINDS]


def check_files(cx, scratch, names, seed):
    case = {'kind': 'files', 'names': names, 'seed': seed}
    d = scratch.directory(names)
    asked = identifiers(names)
    steps = [['run', 'd = eprem.dataset(".")']]
    steps += [['ask', f'd.{k}'] for k in ('streams', 'points', 'observers')]
    steps += [['ask', f'eprem.{k}({i!r})'] for k, i in asked]
    with cx.case(case):
        _, streams, points, observers, *answers = scratch.helper(d, steps)
        for what, answer in (('streams', streams), ('points', points),
                             ('observers', observers)):
            if isinstance(answer, dict):
                cx.fail(case, f"{what}: {answer['error']}")
                return
        found = dict(zip(asked, answers))
        # The streams, each of which is the one file of that number.
        groups = {}
        for n in names:
            if (i := stream_id(n)) is not None:
                groups.setdefault(i, []).append(n)
        check_group(cx, case, d, 'Stream', streams, groups)
        groups = {}
        for n in names:
            if (i := point_id(n)) is not None:
                groups.setdefault(i, []).append(n)
        check_group(cx, case, d, 'Point', points, groups)
        cx.require(sorted(observers, key=str) == sorted(streams + points, key=str),
                   case, f"observers are {observers}")
        for (k, i), answer in found.items():
            cx.step()
            check_found(cx, case, d, k, i, answer, names)
        for i, (_, source) in streams:
            other = found.get(('stream', i))
            if isinstance(other, list):
                cx.require(other[1] == source, case,
                           f"stream({i}) is {other[1]} but streams[{i}] is {source}")
        for i, (_, source) in points:
            other = found.get(('point', i))
            if isinstance(other, list) and i.isdigit() and len(i) >= 3:
                cx.require(other[1] == source, case,
                           f"point({i!r}) is {other[1]} but points[{i!r}] is {source}")
        cx.state([streams, points].__repr__().replace(str(d), ''))
        cx.outcome([a if isinstance(a, dict) else a[1].rsplit('/')[-1] for a in answers])


def check_group(cx, case, d, kind, answer, groups):
    got = dict((k, v) for k, v in answer)
    cx.require(len(got) == len(answer) and set(got) == set(groups), case,
               f"{kind}s are {sorted(map(str, got))}, not {sorted(map(str, groups))}")
    for i, (name, source) in got.items():
        cx.require(name == kind, case, f"{i} is a {name}")
        allowed = [str(d / n) for n in groups.get(i, [])]
        cx.require(source in allowed, case, f"{kind} {i!r} is {source}")


def check_found(cx, case, d, kind, key, answer, names):
    want = candidates(kind, key, names)
    text = f"{kind}({key!r})"
    if isinstance(want, str):
        cx.require(answer == {'error': want}, case, f"{text} gave {answer}")
        return
    if not want:
        cx.require(answer == {'error': 'SourcePathError'}, case, f"{text} gave {answer}")
        return
    if isinstance(answer, dict):
        cx.fail(case, f"{text} gave {answer}, there is {want}")
        return
    expected = 'Stream' if kind == 'stream' or (
        kind == 'observer' and isinstance(key, int)) else 'Point'
    cx.require(answer[0] == expected, case, f"{text} is a {answer[0]}")
    cx.require(answer[1] in [str(d / n) for n in want], case,
               f"{text} is {answer[1]}, not in {want}")


PARTS = 8
CONFIGS = ['eprem_input_file', 'a.cfg', 'eprem.cfg', 'run.ini', 'in.in', 'other.txt']
RANKS = [('eprem_input_file',), ('a.cfg', 'eprem.cfg'), ('run.ini',), ('in.in',)]
NAMED = ['None', '"eprem.cfg"', 'pathlib.Path("eprem.cfg")', '"other.txt"',
         '"./eprem.cfg"', '"../elsewhere/my.cfg"', 'pathlib.Path("../elsewhere/my.cfg")',
         '"{root}/elsewhere/my.cfg"', 'pathlib.Path("{root}/elsewhere/my.cfg")',
         '"~/home.cfg"', '"nope.cfg"', '"../elsewhere/nope.cfg"', '"run.ini"']


def configs(cx, scratch, seed, only=None, part=None, tier=None):
    root = scratch.root
    (root / 'elsewhere').mkdir()
    D.config(root / 'elsewhere/my.cfg', lamo=7.5)
    D.config(root / 'home/home.cfg', lamo=8.5)
    number = 0
    for n in range(len(CONFIGS) + 1):
        for present in itertools.combinations(CONFIGS, n):
            number += 1
            if part is not None and number % PARTS != part:
                continue
            if only and list(present) != only[0]:
                continue
            d = scratch.directory(['obs000000.nc', 'p_obs000.nc'], present)
            values = {c: round(0.1 * (i + 1), 3) for i, c in enumerate(present)}
            for text in NAMED:
                if tier == 'quick' and 3 < n < 6 and text not in NAMED[:4]:
                    continue
                if only and text != only[1]:
                    continue
                case = {'kind': 'config', 'present': present, 'named': text, 'seed': seed}
                with cx.case(case):
                    cx.step()
                    config = text.format(root=root)
                    allowed = expected_config(present, text, values)
                    steps = [
                        ['ask', f'float(eprem.dataset("../{d.name}", config={config})'
                                '.parameters["lambda0"])'],
                        ['ask', f'str(eprem.dataset("../{d.name}", config={config})'
                                '.config.source)'],
                        ['ask', f'value(eprem.stream(0, {config}, "../{d.name}")["mfp"], '
                                '0, 0, 0, 0)'],
                        ['ask', f'value(eprem.point(0, {config}, "../{d.name}")["mfp"], '
                                '0, 0, 0, 0)'],
                        ['ask', f'value(eprem.dataset("../{d.name}", config={config})'
                                '.streams[0]["mfp"], 0, 0, 0, 0)'],
                    ]
                    if n > 1 and text != 'None' or n > 3:
                        steps = steps[:2]
                    # A relative path is relative to the working directory.
                    cwd = d if text == '"./eprem.cfg"' else root / 'elsewhere'
                    if text == '"./eprem.cfg"' and 'eprem.cfg' not in present:
                        allowed = []
                    answers = scratch.helper(cwd, steps)
                    check_config(cx, case, answers, allowed)
                    cx.state([present, text])
                    cx.outcome(repr(answers[0]))


def expected_config(present, text, values):
    if text == 'None':
        for rank in RANKS:
            if found := [values[c] for c in rank if c in present]:
                return found
        return []
    if 'nope' in text:
        return []
    if 'elsewhere' in text:
        return [7.5]
    if '~' in text:
        return [8.5]
    name = text.replace('pathlib.Path(', '').strip('()"').replace('./', '')
    return [values[name]] if name in values else []


def check_config(cx, case, answers, allowed):
    errors = [a for a in answers if isinstance(a, dict)]
    if not allowed:
        cx.require(len(errors) == len(answers), case, f"no config file, but {answers}")
        return
    cx.require(not errors, case, f"{answers}, expected one of {allowed}")
    if errors:
        return
    value, source, *mfps = answers
    cx.require(any(abs(value - v) < 1e-12 for v in allowed), case,
               f"lambda0 is {value}, not of {allowed}")
    for mfp in mfps:
        if not isinstance(mfp, dict):
            ratio = mfp / mfps[0]
            cx.require(abs(ratio - 1) < 1e-12, case, f"mean free paths {mfps}")
    if mfps:
        # The mean free path is proportional to lambda0.
        BASE.setdefault('mfp', mfps[0] / value)
        cx.require(abs(mfps[0] / value / BASE['mfp'] - 1) < 1e-9, case,
                   f"the mean free path {mfps[0]} is not that of lambda0={value}")


BASE = {}
SYSTEMS = [('None', 'm'), ('"mks"', 'm'), ('"cgs"', 'cm'), ('"MKS"', 'm'), ('"CGS"', 'cm'),
           ('"Cgs"', 'cm'), ('"nope"', None)]
SYSTEM_FEW = ('None', '"cgs"')


MAKERS = ['eprem.stream(0, source={}, system={})', 'eprem.point(0, source={}, system={})',
          'eprem.observer(0, source={}, system={})',
          'eprem.observer("000", source={}, system={})',
          'eprem.dataset(source={}, system={}).streams[0]',
          'eprem.dataset(source={}, system={}).points["000"]',
         'eprem.dataset(source={}, system={})']
ABSENT = ('"nope"', '"empty/nope"')
"""Directories that do not exist, to use with a configuration file that does."""


def sources(cx, scratch, seed, only=None, maker=None):
    root = scratch.root
    d = scratch.directory(['obs000000.nc', 'p_obs000.nc'], where=root / 'home')
    os.symlink(d, root / 'link')
    (root / 'empty').mkdir()
    ways = [
        (d, '"."'), (d, 'None'), (d, 'pathlib.Path()'), (root, f'"home/{d.name}"'),
        (root, f'"{d}"'), (root, f'pathlib.Path("{d}")'), (root, f'"~/{d.name}"'),
        (root, '"link"'), (root / 'empty', f'"../home/{d.name}/"'), (root, '"link/."'),
        (root, f'"empty/../home/{d.name}"'),
    ]
    bad = [(root, '"nope"'), (root, f'"home/{d.name}/obs000000.nc"'), (root, '"empty"'),
           (root / 'empty', 'None')]
    for (cwd, way), good in [(w, True) for w in ways] + [(w, False) for w in bad]:
        for make in MAKERS if maker is None else [MAKERS[maker]]:
            if good and 'streams' not in make and 'points' not in make and 'dataset' in make:
                continue
            for system, unit in SYSTEMS:
                text = make.format(way, system)
                case = {'kind': 'source', 'text': text.replace(str(root), '{root}'),
                        'cwd': str(cwd).replace(str(root), '{root}'), 'seed': seed}
                if only and (case['text'], case['cwd']) != only:
                    continue
                if way not in ('"."', '"link"', '"nope"') and system not in SYSTEM_FEW:
                    continue
                with cx.case(case):
                    cx.step()
                    check_source(cx, case, scratch, d, cwd, text, good, unit)
    for make in MAKERS if maker is None else [MAKERS[maker]]:
        for way in ABSENT:
            text = make.format(way, 'None').replace('source=', f'config="{d}/eprem.cfg", source=')
            case = {'kind': 'source', 'text': text.replace(str(root), '{root}'),
                    'cwd': '{root}', 'seed': seed}
            if only and (case['text'], case['cwd']) != only:
                continue
            with cx.case(case):
                cx.step()
                check_source(cx, case, scratch, d, root, text, False, None)


def check_source(cx, case, scratch, d, cwd, text, good, unit):
    answers = scratch.helper(cwd, [
        ['run', f'o = {text}'], ['ask', 'str(o.source)'], ['ask', 'str(o["r"].unit)'],
        ['ask', 'str(o)'], ['ask', 'hash(o) == hash(o.source)'],
        ['ask', 'str(o.system)'], ['ask', 'str(o.dataview.source)'],
    ])
    if not good:
        cx.require(all(isinstance(a, dict) for a in answers), case, f"gave {answers}")
        cx.outcome(repr(answers[0]))
        return
    if unit is None: # An unknown system has no units.
        cx.require(isinstance(answers[2], dict), case, f"gave {answers}")
        cx.outcome(repr(answers[0]))
        return
    name = 'obs000000.nc' if ('stream' in text or 'observer(0' in text) else 'p_obs000.nc'
    path = str(d / name)
    system = 'mks' if unit == 'm' else 'cgs'
    cx.require(answers == [None, path, unit, path, True, system, path], case,
               f"gave {answers}")
    cx.state([case['text'], case['cwd']])


def mappings(cx, scratch, seed):
    """An observer is a mapping of its quantities, with the file's axes."""
    d = scratch.directory(['obs000000.nc', 'p_obs000.nc'])
    raw = scratch.raw
    au = {'mks': D.AU, 'cgs': D.AU * 100}
    ev = {'mks': 1e6 * D.EV, 'cgs': 1e13 * D.EV}
    for maker in ('eprem.stream(0, system={!r})', 'eprem.point(0, system={!r})',
                  'eprem.dataset(system={!r}).streams[0]',
                  'eprem.dataset(system={!r}).points["000"]'):
        for system in ('mks', 'cgs'):
            case = {'kind': 'mapping', 'maker': maker, 'system': system, 'seed': seed}
            with cx.case(case):
                cx.step()
                steps = [
                    ['run', f'o = {maker.format(system)}'],
                    ['ask', 'len(o) == len(list(o)) == len(list(o.keys())) > 20'],
                    ['ask', '[k for k in o if k not in o]'],
                    ['ask', '"nope" in o'], ['ask', 'o["nope"]'], ['ask', 'o.get("nope", 3)'],
                    ['ask', '[float(x) for x in o.times.data]'],
                    ['ask', '[float(x) for x in o.energies.data]'],
                    ['ask', '[float(x) for x in o.mus.data]'],
                    ['ask', 'list(o.species)'],
                    ['ask', '[int(x) for x in o.shells]'],
                    ['ask', '[float(o.r), str(o.r.unit)]'],
                    ['ask', '[float(o.theta), str(o.theta.unit)]'],
                    ['ask', '[float(o.phi), str(o.phi.unit)]'],
                ]
                a = scratch.helper(d, steps)
                cx.require(a[1:6] == [True, [], False, {'error': 'KeyError'}, 3], case,
                           f"mapping: {a[1:6]}")
                for got, want in ((a[6], raw['time'] * D.DAY),
                                  (a[7], raw['egrid'] * ev[system]), (a[8], raw['mu'])):
                    cx.require(isinstance(got, list) and close(got, want), case,
                               f"axis {got}, expected {want.tolist()}")
                cx.require(a[9] == ['H+'], case, f"species {a[9]}")
                if 'stream' in maker:
                    cx.require(a[10] == [0, 1], case, f"shells {a[10]}")
                    cx.require(all(isinstance(x, dict) for x in a[11:]), case, f"{a[11:]}")
                    continue
                for got, want, unit in (
                    (a[11], raw['R'][0, 0] * au[system], 'm' if system == 'mks' else 'cm'),
                    (a[12], raw['T'][0, 0], 'rad'), (a[13], raw['P'][0, 0], 'rad'),
                ):
                    cx.require(isinstance(got, list) and close(got[:1], [want])
                               and got[1] == unit, case, f"{got}, expected {want} {unit}")


def close(a, b):
    return len(a) == len(b) and all(
        abs(x - y) <= 1e-9 * max(abs(y), 1e-300) for x, y in zip(a, b))


# Requests of a history: none may change what the others see.
EVENTS = [
    ['run', 'd = eprem.dataset("{a}")'], ['run', 'd = eprem.dataset("{b}", system="cgs")'],
    ['run', 'os.chdir("{b}")'], ['ask', 'sorted(d.streams)'], ['ask', 'sorted(d.points)'],
    ['ask', 'len(d.observers)'], ['ask', 'str(eprem.stream(0, source="{a}")["r"].unit)'],
    ['ask', 'str(eprem.stream(0, source="{a}", system="cgs")["r"].unit)'],
    ['ask', 'value(eprem.stream(0, source="{b}")["r"], 0, 0)'],
    ['ask', '[str(s["r"].unit) for s in d.streams.values()]'],
    ['ask', 'float(d.parameters["lambda0"])'], ['ask', 'eprem.stream(3, source="{a}")'],
    ['run', 'd.streams.get(0)["r"].withunit("au")'],
]


def model(events):
    """The answers of the events, from the state they leave."""
    current, cwd, out = None, 'a', []
    for e in events:
        text = EVENTS[e][1]
        if text.startswith('d = '):
            current = 'b' if '{b}' in text else 'a'
            out.append(None)
        elif 'chdir' in text:
            out.append(None)
        elif 'd.' in text and 'eprem.' not in text and current is None:
            out.append({'error': 'NameError'})
        else:
            system = 'cgs' if current == 'b' else 'mks'
            out.append({
                3: [0, 1] if current == 'a' else [0], 4: ['001'] if current == 'a' else [],
                5: 3 if current == 'a' else 1, 6: 'm', 7: 'cm', 8: 'r',
                9: ['m' if system == 'mks' else 'cm'] * (2 if current == 'a' else 1),
                10: 0.1 if current == 'a' else 0.25, 11: {'error': 'SourcePathError'},
                12: None,
            }[e])
    return out


def histories(cx, scratch, seed, length, only=None, first=None):
    root = scratch.root
    a = scratch.directory(['obs000000.nc', 'flux000001.nc', 'p_obs001.nc'])
    b = scratch.directory(['obs000000.nc'])
    D.config(b / 'eprem.cfg', lamo=0.25)
    r = scratch.raw['R'][0, 0] * D.AU
    for n in range(1, length + 2):
        for events in itertools.product(range(len(EVENTS)), repeat=n):
            # Every history of `length`, preceded by the creation of a dataset.
            if n == length + 1 and events[0] > 1:
                continue
            if first is not None and events[0] != first:
                continue
            if only and list(events) != only:
                continue
            case = {'kind': 'history', 'events': list(events), 'seed': seed}
            with cx.case(case):
                cx.step()
                steps = [[k, t.format(a=a, b=b)] for k, t in (EVENTS[e] for e in events)]
                want = model(events)
                got = scratch.helper(a, steps)
                for e, g, w in zip(events, got, want):
                    if w == 'r':
                        ok = isinstance(g, float) and abs(g / r - 1) < 1e-9
                    elif isinstance(w, float):
                        ok = isinstance(g, float) and abs(g - w) < 1e-12
                    else:
                        ok = g == w
                    cx.require(ok, case, f"{EVENTS[e][1]} gave {g}, expected {w}")
                cx.state(list(events))


def replay(case, cx):
    with Scratch(case['seed']) as scratch:
        kind = case['kind']
        if kind == 'files':
            check_files(cx, scratch, case['names'], case['seed'])
        elif kind == 'config':
            configs(cx, scratch, case['seed'], (list(case['present']), case['named']))
        elif kind == 'source':
            sources(cx, scratch, case['seed'], (case['text'], case['cwd']))
        elif kind == 'mapping':
            mappings(cx, scratch, case['seed'])
        else:
            histories(cx, scratch, case['seed'], len(case['events']), case['events'])
