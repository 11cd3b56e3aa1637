"""C20: the parameter interface reports what the run was configured with.

Every parameter, by every one of its names, for every kind of value and unit
system flag, set alone and together with every other parameter, against a
frozen table of parameter types and units; and every conversion and subscript
of the resulting variables.
"""

import functools
import itertools
import json
import math
import pathlib
import tempfile

ID = 'C20'
LEVEL = 'model_checking'
RULE = (
    "every parameter x every alias x every value of its alphabet x useDegrees; "
    "every pair of parameters; every subscript and number conversion of "
    "variables up to length 4; non-trivial: distinct (parameter, value, unit)"
)
BOUNDS = {
    'quick': {'values per parameter': '4-6', 'derived defaults': '6 sources, 7 derived', 'pairs': 'each with the 4 next ones', 'variable length': 4},
    'thorough': {'values per parameter': '4-6', 'derived defaults': '6 sources, 7 derived', 'pairs': 'all', 'variable length': 6},
}
ASSUMPTIONS = [
    "the six parameters that other defaults depend on are known from the "
    "frozen configuration.c",
    "with useDegrees the unit of angles that are not in the file is not specified",
]

SPEC = pathlib.Path(__file__).parent.parent / 'spec'
def quotient(a, b):
    """Division of numbers of type double."""
    return a / b if b else a * math.copysign(math.inf, b)


# defaults that configuration.c defines in terms of other parameters
DERIVED = {
    'epCalcStartTime': lambda g: g('simStartTime'),
    'idealShockInitTime': lambda g: g('simStartTime'),
    'idealShockPhiWidth': lambda g: g('idealShockWidth'),
    'idealShockThetaWidth': lambda g: g('idealShockWidth'),
    'idealShockScale': lambda g: quotient(g('idealShockSharpness'), g('idealShockScaleLength')),
    'obsR': lambda g: [g('rScale')],
    'simStopTime': lambda g: g('simStartTime') + g('tDel'),
}
SOURCES = ('simStartTime', 'tDel', 'rScale', 'idealShockWidth', 'idealShockSharpness', 'idealShockScaleLength')
VALUES = {
    'int': [('1', 1), ('0', 0), ('-3', -3), ('12', 12)],
    'float': [('1', 1.0), ('0.0', 0.0), ('-2.5', -2.5), ('1.5e-3', 1.5e-3), ('4E5', 4e5)],
    'str': [('a.txt', 'a.txt'), ('', ''), ('3', '3'), ('/x/y z', '/x/y z')],
    'list': [('[1.0]', [1.0]), ('[ 1.0,1.0 , 2.0 ]', [1.0, 1.0, 2.0]), ('[1.0, 2.5]', [1.0, 2.5]), ('[3,4,0.5]', [3, 4, 0.5]), ('2.0', [2.0]), ('[0]', [0])],
}


def load():
    spec = json.loads((SPEC / 'parameters.json').read_text())
    values = json.loads((SPEC / 'package.json').read_text())['defaults']
    for name, v in values.items():
        spec[name]['default'] = v
    return spec


def shards(tier):
    out = [{'kind': 'single', 'part': p, 'of': 8} for p in range(8)]
    out += [{'kind': 'pairs', 'part': p, 'of': 8} for p in range(8)]
    out = [{'kind': 'mapping'}, *({'kind': 'derived', 'part': p, 'of': 8} for p in range(8))] + [{'kind': 'sessions', 'first': h} for h in range(5)] + out
    out += [{'kind': 'variable', 'n': n} for n in range(1, BOUNDS[tier]['variable length'] + 1)]
    return out


def run_shard(shard, cx):
    with tempfile.TemporaryDirectory() as tmp:
        globals()['run_' + shard['kind']](shard, cx, pathlib.Path(tmp).resolve())


@functools.lru_cache(None)
def canonical(unit):
    from eprempy import metric
    return str(metric.unit(unit))


def problem_with(got, name, info, value, unit):
    """What is wrong with the value of a parameter, if anything."""
    from eprempy import parameter
    if unit is None:
        if isinstance(got, parameter.Variable):
            return f'{got!r} has a unit'
        if got != value or (value is not None and type(got) is not type(value)):
            return f'{got!r} instead of {value!r}'
        return None
    if not isinstance(got, parameter.Variable):
        return f'{got!r} is not a variable'
    if str(got.unit) != canonical(unit):
        return f'unit {got.unit} instead of {unit}'
    want = value if isinstance(value, list) else [value]
    have = [x for x in got.data]
    if any(isinstance(x, str) for x in have):
        return f'data {have} instead of {want}'
    # nan is only equal to nan
    if len(have) != len(want) or any(x != y and (x == x or y == y) for x, y in zip(have, want)):
        return f'data {have} instead of {want}'
    return None


def angle(spec, name, unit, degrees, given):
    if unit == 'rad' and degrees:
        return 'deg' if given else NotImplemented
    return unit


def check_all(i, spec, given, degrees, names=None):
    """Compare every parameter of an interface."""
    for name in names or spec:
        info = spec[name]
        if name in given:
            value = given[name]
        elif name in DERIVED:
            value = DERIVED[name](lambda n: given.get(n, spec[n]['default']))
        else:
            value = info['default']
        unit = angle(spec, name, info['unit'], degrees, name in given)
        if unit is NotImplemented:
            continue
        for alias in [name, *info['aliases']]:
            if alias not in i:
                return f'{alias!r} is missing'
            p = problem_with(i[alias], name, info, value, unit)
            if p:
                return f'{alias}: {p}'
    return None


def run_single(shard, cx, tmp):
    from eprempy import parameter
    spec = load()
    f = tmp / 'c.cfg'
    for name in sorted(spec)[shard['part']::shard['of']]:
        info = spec[name]
        neighbour = min([n for n in spec if n > name], default='eMin')
        for (text, value), degrees in itertools.product(VALUES[info['type']], (None, 0, 1)):
            if name == 'useDegrees' and degrees is not None:
                continue
            lines = [f'{name} = {text}']
            given = {name: value}
            if degrees is not None:
                lines.append(f'useDegrees = {degrees}')
                given['useDegrees'] = degrees
            deg = given.get('useDegrees', 0)
            case = {'config': lines}
            with cx.case(case):
                cx.step()
                f.write_text('\n'.join(lines) + '\n')
                i = parameter.interface(str(f))
                every = degrees is None and text == VALUES[info['type']][-1][0]
                p = check_all(i, spec, given, deg, None if every else [name, neighbour, 'useDegrees', 'obsPhi'])
                cx.require(p is None, case, p)
                cx.require(pathlib.Path(i.config) == f, case, f'config {i.config}')
                cx.outcome((name, text, degrees))
                if info['unit'] and info['type'] == 'float':
                    v = i[name]
                    cx.require(
                        float(v) == value and int(v) == int(value) and complex(v) == value,
                        case, f'conversion of {v!r} to a number',
                    )


def run_pairs(shard, cx, tmp):
    from eprempy import parameter
    spec = load()
    f = tmp / 'c.cfg'
    names = sorted(spec)
    n = len(names)
    for k, a in enumerate(names):
        if k % shard['of'] != shard['part']:
            continue
        others = range(k + 1, n) if cx.tier == 'thorough' else [(k + j) % n for j in range(1, 5)]
        for m in others:
            b = names[m]
            (ta, va), (tb, vb) = VALUES[spec[a]['type']][-1], VALUES[spec[b]['type']][0]
            for order in (0, 1) if cx.tier == 'thorough' else (m % 2,):
                lines = [f'{a}={ta}', f'{b}={tb}'][::1 - 2 * order]
                given = {a: va, b: vb}
                case = {'config': lines}
                with cx.case(case):
                    cx.step()
                    f.write_text('\n'.join(lines))
                    i = parameter.interface(config=f)
                    p = check_all(i, spec, given, given.get('useDegrees', 0), [a, b, names[(m + 1) % n], 'useDegrees'])
                    cx.require(p is None, case, p)
                    cx.outcome((a, b))


def run_derived(shard, cx, tmp):
    """Defaults in terms of other parameters, under every set of those."""
    from eprempy import parameter
    spec = load()
    f = tmp / 'c.cfg'
    small = [*DERIVED, *SOURCES, 'eMin', 'numEpSteps']
    options = [(None, VALUES['float'][2]), (None, *VALUES['float'][:3])][cx.tier != 'quick']
    combos = [
        (combo, fixed) for fixed in (None, *DERIVED)
        for combo in itertools.product(options[:2 if fixed else None], repeat=len(SOURCES))
    ]
    for combo, fixed in combos[shard['part']::shard['of']]:
        given = {n: x for n, x in zip(SOURCES, combo) if x}
        if fixed:
            given[fixed] = VALUES[spec[fixed]['type']][2]
        lines = [f'{n} = {x[0]}' for n, x in given.items()]
        case = {'config': lines}
        with cx.case(case):
            cx.step()
            f.write_text('\n'.join(lines[::-1]) + '\n')
            i = parameter.interface(f)
            p = check_all(i, spec, {n: x[1] for n, x in given.items()}, 0, small)
            cx.require(p is None, case, p)
            cx.outcome(tuple(lines))
    i = parameter.interface()
    p = check_all(i, spec, {}, 0)
    cx.require(p is None, 'an interface after all these', p)
    if shard['part']:
        return
    src = tmp / 'src'
    src.mkdir()
    (src / 'baseTypes.h').write_text('#define TWO 2.0\n')
    (src / 'configuration.c').write_text(
        'config.a = readDouble("a", 1.5, 0.0, 1.0);\n'
        'config.useDegrees = readInt("useDegrees", 0, 0, 1);\n'
        'config.b = readDouble("b", config.a * TWO, 0.0, 1.0);\n'
        'config.c = readDouble("c", config.b + config.a, 0.0, 1.0);\n'
        'config.n = readInt("n", 4, 0, 9);\n'
        'config.m = readInt("m", config.n, 0, 9);\n'
    )
    for a, b, c, n in itertools.product((None, 0.0, 4.0), (None, 0.5), (None, 7.0), (None, 2)):
        given = {k: v for k, v in zip('abcn', (a, b, c, n)) if v is not None}
        lines = [f'{k}={v}' for k, v in given.items()]
        case = {'source': 'a; b = a * TWO; c = b + a; n; m = n', 'config': lines}
        with cx.case(case):
            cx.step()
            f.write_text('\n'.join(lines) + '\n')
            i = parameter.interface(f, srcdir=src)
            a, n = given.get('a', 1.5), given.get('n', 4)
            b = given.get('b', a * 2.0)
            want = {'a': a, 'b': b, 'c': given.get('c', b + a), 'n': n, 'm': n}
            have = {k: i[k] for k in want}
            cx.require(have == want, case, f'{have} instead of {want}')
            cx.outcome(('source', tuple(lines)))


def run_mapping(shard, cx, tmp):
    """The mapping protocol, unknown names and alternative call forms."""
    from eprempy import parameter
    spec = load()
    f = tmp / 'c.cfg'
    f.write_text('eMin = 2.0\nunknownParameter = 7\nEmin = 3\nminimum_energy = 9\nbeta = 5\n')
    src = tmp / 'src'
    src.mkdir()
    (src / 'configuration.c').write_text('config.eMin = readDouble("eMin", 5.0, 0.0, 1.0);\nconfig.useDegrees = readInt("useDegrees", 0, 0, 1);\nconfig.mass = readDoubleArray("mass", 1, &n, m, 0.0, 1.0);\nScalar_t m[1] = {4.0};\nconfig.newOne = readInt("newOne", 3, 0, 9);\n')
    (src / 'baseTypes.h').write_text('#define C 3.0\n')
    full = {
        'none': lambda: parameter.interface(),
        'None': lambda: parameter.interface(None),
        'config': lambda: parameter.interface(f),
        'config str': lambda: parameter.interface(str(f)),
        'config=': lambda: parameter.interface(config=f),
        'positional': lambda: parameter.interface(f, None),
    }
    for label, make in full.items():
        with cx.case(label):
            cx.step()
            i = make()
            given = {} if label in ('none', 'None') else {'eMin': 2.0}
            cx.require(check_all(i, spec, given, 0) is None, label, lambda: check_all(i, spec, given, 0))
            cx.require((i.config is None) == (not given), label, f'config {i.config}')
            cx.require(str(i.source) == parameter.DB_PATH, label, f'source {i.source}')
            for bad in ('unknownParameter', 'nope', '', 'EMIN'):
                cx.require(bad not in i and i.get(bad) is None, label, f'{bad!r} is in the interface')
                try:
                    i[bad]
                except KeyError:
                    pass
                else:
                    cx.fail(label, f'{bad!r} accepted')
            for alias in ('minimum_energy', 'minimum energy', 'Emin'):
                cx.require(i[alias] == parameter.variable(0.0, unit='MeV'), label, f'{alias}: {i[alias]!r}')
            names = {n for k, v in spec.items() for n in [k, *v['aliases']]} | {'minimum_energy', 'minimum energy', 'Emin'}
            cx.require(set(i) == names, label, lambda: f'names differ: {set(i) ^ names}')
            cx.require(len(list(i)) == len(names), label, 'duplicate names')
            cx.require(set(i.reference) == set(spec) and len(i.basetypes) == 31, label, 'reference')
            for k, v in spec.items():
                cx.require(i.reference[k]['type'].__name__ == v['type'], label, f'type of {k}')
    for label, make in {
        'srcdir': lambda: parameter.interface(srcdir=src),
        'None, srcdir': lambda: parameter.interface(None, src),
        'config, srcdir=': lambda: parameter.interface(f, srcdir=src),
        'both': lambda: parameter.interface(str(f), str(src)),
        'both=': lambda: parameter.interface(config=f, srcdir=src),
    }.items():
        with cx.case(label):
            cx.step()
            i = make()
            value = 2.0 if label in ('config, srcdir=', 'both', 'both=') else 5.0
            small = {k: dict(spec[k]) for k in ('eMin', 'useDegrees', 'mass')}
            small['eMin']['default'] = value
            small['mass']['default'] = [4.0]
            p = check_all(i, small, {}, 0)
            cx.require(p is None, label, p)
            cx.require(i['newOne'] == 3 and 'eMax' not in i, label, 'parameters of the source')
            cx.require(pathlib.Path(i.source) == src / 'configuration.c', label, f'source {i.source}')
            cx.require(i.basetypes['C'] == 3.0, label, 'basetypes')
    for label, make in {
        'missing config': lambda: parameter.interface(tmp / 'missing.cfg'),
        'missing source': lambda: parameter.interface(srcdir=tmp / 'missing'),
        'three arguments': lambda: parameter.interface(f, src, 3),
    }.items():
        with cx.case(label):
            try:
                make()
            except Exception as err:
                cx.require(isinstance(err, (OSError, TypeError, ValueError)) or 'Path' in type(err).__name__, label, f'{err!r}')
            else:
                cx.fail(label, 'accepted')
    with cx.case('comments'):
        f.write_text('eMin = 2.0 ! note\n! eMax = 3\neMax = 4 # 5\n')
        i = parameter.interface(f, comments=['!', '#'])
        cx.require(float(i['eMin']) == 2.0 and float(i['eMax']) == 4.0, 'comments', 'comments option')


def run_sessions(shard, cx, tmp):
    """Interfaces do not influence one another."""
    from eprempy import parameter
    spec = load()
    variants = [
        {}, {'useDegrees': ('1', 1)}, {'idealShockTheta': ('45.0', 45.0)},
        {'useDegrees': ('1', 1), 'idealShockTheta': ('45.0', 45.0)},
        {'mass': ('[1.0, 4.0]', [1.0, 4.0]), 'flowMag': ('1e7', 1e7)},
    ]
    files = []
    for k, v in enumerate(variants):
        f = tmp / f'{k}.cfg'
        f.write_text(''.join(f'{n}={t}\n' for n, (t, _) in v.items()))
        files.append(f)
    names = ['idealShockTheta', 'mass', 'flowMag', 'useDegrees', 'beta' and 'boundaryFunctBeta', 'lamo']
    actions = range(len(variants))
    depth = 3 if cx.tier == 'quick' else 4
    for history in itertools.product(actions, repeat=depth):
        if history[0] != shard['first']:
            continue
        case = {'interfaces': [sorted(variants[h]) for h in history]}
        with cx.case(case):
            live = []
            for h in history:
                cx.step()
                i = parameter.interface(files[h])
                live.append((h, i))
                # use the new one destructively, as far as that is possible
                for n in ('mass', 'flowMag'):
                    v = i[n]
                    v.withunit('mg' if n == 'mass' else 'km/s')
                    v + v
                    try:
                        v.data[0] = -1
                    except Exception:
                        pass
                for g, j in live:
                    given = {n: v for n, (_, v) in variants[g].items()}
                    p = check_all(j, spec, given, given.get('useDegrees', 0), names)
                    cx.require(p is None, case, p)
            cx.state(history)


def run_variable(shard, cx, tmp):
    """Variables: subscription, conversion to numbers, rounding."""
    import numpy
    from eprempy import parameter, physical
    n = shard['n']
    pool = [1.5, -2.25, 0.0, 4.75, -0.5, 3.0]
    starts = [None, *range(-n - 1, n + 2)]
    steps = (None, 1, 2, -1, -2)
    for data, unit in itertools.product((pool[:n], pool[::-1][:n], [int(x) for x in pool[:n]]), (None, 'km', 'MeV/nuc')):
        u = unit or '1'
        v = parameter.variable(list(data), unit=unit) if unit else parameter.variable(list(data))
        base = {'data': data, 'unit': unit}
        with cx.case(base):
            for source in (v, physical.vector(data, unit=u), tuple(data), numpy.array(data)):
                w = parameter.variable(source) if not isinstance(source, (tuple, numpy.ndarray)) else parameter.variable(source, unit=u)
                cx.require(isinstance(w, parameter.Variable) and list(w.data) == list(data) and w.unit == u, base, f'copy of {source!r}')
            if n == 1:
                for source in (physical.scalar(data[0], unit=u),):
                    w = parameter.variable(source)
                    cx.require(list(w.data) == list(data) and w.unit == u, base, f'copy of {source!r}')
            for source in (v, physical.vector(data, unit=u)):
                try:
                    parameter.variable(source, unit='m')
                except ValueError:
                    pass
                else:
                    cx.fail(base, 'explicit unit together with a measured object accepted')
            cx.require(len(v) == n and [float(x) if n == 1 else x for x in v] is not None, base, 'length')
        for k in range(-n - 1, n + 1):
            case = dict(base, index=k)
            with cx.case(case):
                cx.step()
                try:
                    got = v[k]
                except IndexError:
                    cx.require(not -n <= k < n, case, 'refused')
                    continue
                cx.require(-n <= k < n, case, f'accepted: {got!r}')
                if -n <= k < n:
                    cx.require(float(got) == data[k] and got.unit == u, case, f'{got!r} instead of {data[k]} {u}')
        for s in itertools.product(starts, starts, steps):
            sl = slice(*s)
            want = list(data)[sl]
            case = dict(base, slice=s)
            if not want:
                continue
            with cx.case(case):
                cx.step()
                got = v[sl]
                have = [float(x) for x in numpy.atleast_1d(got.data)]
                cx.require(have == want and got.unit == u, case, f'{got!r} instead of {want} {u}')
        before = list(v.data)
        for f in (int, float, complex):
            case = dict(base, convert=f.__name__)
            with cx.case(case):
                cx.step()
                try:
                    got = f(v)
                except TypeError:
                    cx.require(n > 1, case, 'refused')
                    continue
                cx.require(n == 1 and type(got) is f and got == f(data[0]), case, f'{got!r}')
        for name, f in (('round', round), ('floor', math.floor), ('ceil', math.ceil), ('trunc', math.trunc), ('round1', lambda x: round(x, 1))):
            case = dict(base, rounding=name)
            with cx.case(case):
                cx.step()
                try:
                    got = f(v)
                except TypeError:
                    # math.trunc does not support numpy integers
                    cx.require(n > 1 or (name == 'trunc' and isinstance(data[0], int)), case, 'refused')
                    continue
                cx.require(n == 1 and got.unit == u and float(got) == f(data[0]), case, f'{got!r}')
        with cx.case(base):
            cx.require(list(v.data) == before and v.unit == u, base, 'modified')
            cx.outcome((n, unit))
