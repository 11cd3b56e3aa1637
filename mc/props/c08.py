"""C08: the algebra of units is the algebra of their sizes and dimensions.

Every pair of unit expressions under every operation and comparison, every power,
every spelling, and every tree of operations up to a depth, against sizes and
dimensions from an independent table; every sequence of requests up to a length,
in a process that has created no unit before, must give the same units.
"""

from fractions import Fraction as F
import itertools
import json
import os
import subprocess
import sys

from .. import symref as S
from .. import unitref as U

ID = 'C08'
LEVEL = 'model_checking'
RULE = (
    "all pairs of units x operations; all units x powers and spellings; all trees "
    "of `depth` operations on a core set; all sequences of `length` requests x "
    "hash seeds; non-trivial: distinct sizes"
)
BOUNDS = {
    'quick': {'depth': 2, 'length': 2, 'seeds': 2, 'prefixes': ['k', 'm']},
    'thorough': {'depth': 3, 'length': 3, 'seeds': 8, 'prefixes': ['k', 'm', 'c', 'M', 'u', 'n']},
}
ASSUMPTIONS = [
    "Gaussian units are compared in the Gaussian system, where each has its own "
    "mechanical dimension, and not with SI units of electromagnetism",
    "angles, counts and nucleons are dimensionless and interchangeable, as documented",
]

NATIVE = {
    # Gaussian units in terms of g, cm and s.
    'G': (F(-1, 2), F(1, 2), -1), 'Oe': (F(-1, 2), F(1, 2), -1),
    'Mx': (F(3, 2), F(1, 2), -1), 'statC': (F(3, 2), F(1, 2), -1),
    'statA': (F(3, 2), F(1, 2), -2), 'statV': (F(1, 2), F(1, 2), -1),
}
ELECTRIC = {'A', 'C', 'e', 'V', 'Ω', 'S', 'F', 'Wb', 'H', 'T'}
COUNTS = {'#', 'rad', 'deg', 'sr', 'nuc', 'amu'}
PLAIN = [b for b in U.BASE if b not in ('1', 'Ω', 'lm', 'lx')]
COMPOUNDS = [
    'm s^-1', 'cm / s', 'J s', 'kg m^2 s^-2', 'erg / s', 'au / d', 'V m^-1', 'T m s^-1',
    'dyn cm^-2', 's^3/km^6', 'J^1/2 kg^-1/2', 'km^-3', 'm cm', 'J erg', 'kg m^-1 s^-2',
    'G km', 'G cm^2', 'cm^-2 sr^-1 s^-1 MeV^-1 nuc', 'deg / s', '# cm^-3', 'F m^-1',
    'J m^-1', 'N s', 'kJ / keV', 'W h', 'cm^3/2 g^1/2 s^-1', '1 / s', 'Hz s', 'A s',
]
NAMES = {'m': 'meter', 's': 'second', 'g': 'gram', 'J': 'joule', 'G': 'gauss',
         'T': 'tesla', 'V': 'volt', 'd': 'day', 'erg': 'erg', 'eV': 'electronvolt',
         'nuc': 'nucleon', 'deg': 'degree', 'au': 'astronomical unit'}
POWERS = [0, 1, 2, 3, -1, -2, 0.5, 1.5, F(1, 3), F(-3, 2)]


def names(text):
    """The unprefixed symbols in some text."""
    out = set()
    for s in S.read(text)[1]:
        out.add(s if s in U.BASE else base(s))
    return out


def base(s):
    for n in (2, 1):
        if s[:n] in U.PREFIX and s[n:] in U.BASE:
            return s[n:]
    raise KeyError(s)


def value(text):
    """(size, dimension) of some text, or None where systems do not mix."""
    native = any(s in NATIVE for s in names(text))
    electric = any(s in ELECTRIC for s in names(text))
    if native and electric:
        return None
    factor, dim = 1.0, (F(0),) * 7
    c, powers = S.read(text)
    assert c == 1, text
    for s, e in powers.items():
        if s in ('nuc', 'amu'):
            f, d = 1.0, (F(0),) * 7
        else:
            f, d = U.symbol(s)
            b = s if s in U.BASE else base(s)
            if b in NATIVE:
                x, y, z = NATIVE[b]
                f = U.PREFIX[s[:len(s) - len(b)]] * 1e-2 ** float(x) * 1e-3 ** float(y)
                d = (F(x), F(y), F(z)) + (F(0),) * 4
            elif b in ('nuc', 'amu'):
                f, d = U.PREFIX[s[:-3]], (F(0),) * 7
        factor *= f ** float(e)
        dim = tuple(p + F(e).limit_denominator(1000) * q for p, q in zip(dim, d))
    return factor, dim


def same(a, b):
    return a[1] == b[1] and U.close(a[0], b[0], 1e-9)


def times(a, b, sign=1):
    return a[0] * b[0] ** sign, tuple(x + sign * y for x, y in zip(a[1], b[1]))


def raised(a, p):
    q = F(p).limit_denominator(1000)
    return a[0] ** float(q), tuple(x * q for x in a[1])


def units(tier):
    out = PLAIN + COMPOUNDS
    for p in BOUNDS[tier]['prefixes']:
        out = out + [p + b for b in ('m', 'g', 's', 'J', 'eV', 'T', 'G', 'V')]
    return list(dict.fromkeys(u for u in out if value(u) is not None))


def shards(tier):
    n = 16
    out = [{'kind': 'pairs', 'part': [i, n], 'tier': tier} for i in range(n)]
    out += [{'kind': 'single', 'tier': tier}, {'kind': 'refused', 'tier': tier}]
    out += [{'kind': 'tree', 'first': u, 'tier': tier} for u in CORE]
    out += [{'kind': 'history', 'seed': s, 'tier': tier}
            for s in range(BOUNDS[tier]['seeds'])]
    return out


CORE = ['m', 'km', 's', 'J', 'kg', 'cm / s', 'T', 'erg']


def run_shard(shard, cx):
    kind, tier = shard['kind'], shard['tier']
    b = BOUNDS[tier]
    if kind == 'pairs':
        k, n = shard['part']
        all = units(tier)
        if tier == 'thorough':
            pairs = itertools.product(all, repeat=2)
        else: # with both orders of the operations that are not symmetric
            pairs = itertools.combinations_with_replacement(all, 2)
        for i, (x, y) in enumerate(pairs):
            if i % n == k:
                check_pair(cx, x, y)
    elif kind == 'single':
        for x in units(tier):
            check_single(cx, x)
    elif kind == 'refused':
        refused(cx)
    elif kind == 'tree':
        for rest in itertools.product(CORE, repeat=b['depth']):
            for ops in itertools.product('*/', repeat=b['depth']):
                check_tree(cx, [shard['first'], *rest], ops)
    else:
        history(cx, b['length'], shard['seed'])


def check_single(cx, x):
    from eprempy import metric, symbolic
    case = {'kind': 'single', 'x': x}
    with cx.case(case):
        cx.step()
        u = metric.unit(x)
        a = value(x)
        cx.require(same(value(str(u)), a), case, f"{x!r} became {u}")
        c, powers = S.read(x)
        terms = [f'{s}^{e}' for s, e in powers.items()]
        spellings = {
            'text': str(u), 'reversed': ' '.join(terms[::-1]), 'list': terms,
            'product': ' * '.join(terms), 'unit': u, 'expression': symbolic.expression(x),
            'tuple': tuple(terms),
        }
        if all(s in NAMES and ' ' not in NAMES[s] for s in powers):
            spellings['names'] = ' '.join(f'{NAMES[s]}^{e}' for s, e in powers.items())
        if all(s[:1] == 'k' and s[1:] in NAMES for s in powers):
            spellings['kilo'] = ' '.join(f'kilo{NAMES[s[1:]]}^{e}' for s, e in powers.items())
        for name, spelling in spellings.items():
            v = metric.unit(spelling)
            cx.require(v is u, case, f"spelled by {name}, {spelling!r} is {v!r}, not {u!r}")
            cx.require(v == u and v & u and v | u, case, f"{spelling!r} differs")
        cx.require(u == x and x == u, case, f"{u!r} does not equal {x!r}")
        for p in POWERS:
            v = u ** p
            cx.require(same(value(str(v)), raised(a, p)), case, f"({u}) ** {p} gave {v}")
            cx.require(metric.unit(str(v)) is v, case, f"({u}) ** {p} is not a unit")
            cx.step()
        v = 1 / u
        cx.require(same(value(str(v)), raised(a, -1)), case, f"1 / ({u}) gave {v}")
        cx.require(u * 1 is u and 1 * u is u and u / 1 is u, case, "1 is not neutral")
        cx.require(same(value(str(u / u)), (1.0, (F(0),) * 7)), case, f"{u} / {u}")
        check_dimensions(cx, case, u, a, x)
        for system in ('mks', 'cgs'):
            v = u.normalize(system)
            w = metric.normalize(x, system)
            cx.require(v is w, case, f"normalize in {system}: {v} and {w}")
            check_coherent(cx, case, x, system, str(v))
        d = metric.unit([str(t) for t in u.decomposed])
        cx.require(same(value(str(d)), a), case, f"decomposed to {d}")
        cx.state(f'{a[0]:.9g} {a[1]}')
        cx.outcome(str(u))


def check_coherent(cx, case, x, system, result):
    """Normalizing keeps the dimension and gives the coherent unit."""
    involved = names(x)
    if involved & (set(NATIVE) | COUNTS | {'Ci', 'Bq', 'S'}):
        return
    if involved & ELECTRIC and system == 'cgs':
        return
    (_, d), (f, e) = value(x), value(result)
    size = 1.0 if system == 'mks' else 100.0 ** -float(d[0]) * 1000.0 ** -float(d[1])
    cx.require(d == e, case, f"in {system}, {x} became {result}")
    cx.require(U.close(f, size), case, f"in {system}, {x} became {result}, of size {f}")


LETTERS = 'LMTIHNJ'


def check_dimensions(cx, case, u, a, text):
    """The dimensions, in a system where the unit is defined."""
    native = any(s in NATIVE for s in names(text))
    electric = any(s in ELECTRIC for s in names(text))
    if native and names(text) - set(NATIVE):
        return # Gaussian quantities have no dimension in MKS.
    if 'S' in names(text):
        return # impedance: see C07
    want = {c: e for c, e in zip(LETTERS, a[1]) if e}
    if 'mol' in names(text):
        want = {('N' if k == 'N' else k): v for k, v in want.items()}
    for system in ('mks', 'cgs'):
        d = u.dimensions[system]
        if d is None or (electric and system == 'cgs') or (native and system == 'mks'):
            continue
        got = {k: v for k, v in S.read(str(d))[1].items()}
        cx.require(got == want, case, f"in {system}, {u} has dimension {d}")
    cx.require(any(u.dimensions.values()), case, "no dimensions")
    if not native:
        cx.require(u.dimensionless is (not want), case,
                   f"{u} dimensionless: {u.dimensionless}")


def check_pair(cx, x, y):
    from eprempy import metric
    case = {'kind': 'pair', 'x': x, 'y': y}
    if value(f'({x}) ({y})') is None:
        return
    a, b = value(x), value(y)
    with cx.case(case):
        cx.step()
        u, v = metric.unit(x), metric.unit(y)
        for name, result, w in (
            ('*', u * v, times(a, b)), ('* text', u * y, times(a, b)),
            ('text *', x * v, times(a, b)), ('/', u / v, times(a, b, -1)),
            ('/ text', u / y, times(a, b, -1)), ('text /', x / v, times(a, b, -1)),
            ('* back', v * u, times(a, b)), ('/ back', v / u, times(b, a, -1)),
        ):
            if not same(value(str(result)), w):
                cx.fail(case, f"{x} {name} {y} gave {result}")
                return
            cx.require(metric.unit(str(result)) is result, case,
                       f"{x} {name} {y}: {result} is not the unit of that name")
        cx.require((u * v) / v & u, case, f"({u} * {v}) / {v} is not {u}")
        alike = S.read(x)[1] == S.read(y)[1]
        cx.require((u == v) is alike and (v == u) is alike and (u != v) is not alike,
                   case, f"{u} == {v} is {u == v}")
        if (names(x) | names(y)) & COUNTS or {'S', 'F', 'H'} & (names(x) | names(y)):
            cx.outcome('dimensionless')
            return
        near = same(a, b)
        for name, answer in (('u & v', u & v), ('v & u', v & u), ('u & text', u & y),
                             ('text & v', x & v)):
            cx.require(answer is near, case, f"{name}: {answer}, expected {near}")
        convertible = a[1] == b[1]
        native = [bool(names(t) & set(NATIVE)) for t in (x, y)]
        electric = any(names(t) & ELECTRIC for t in (x, y))
        if electric and any(e.denominator != 1 for d in (a[1], b[1]) for e in d):
            return # Units without a metric system may have two dimensions.
        if any(native):
            # Only conversions of a quantity to itself are defined.
            if convertible:
                return
        for name, answer in (('u | v', u | v), ('v | u', v | u), ('u | text', u | y),
                             ('text | v', x | v)):
            cx.require(answer is convertible, case, f"{name}: {answer}")
        if convertible:
            for name, answer, w in (
                ('>>', u >> v, a[0] / b[0]), ('<<', u << v, b[0] / a[0]),
                ('>> text', u >> y, a[0] / b[0]), ('text >>', x >> v, a[0] / b[0]),
                ('<< text', u << y, b[0] / a[0]), ('text <<', x << v, b[0] / a[0]),
            ):
                cx.require(U.close(answer, w), case, f"{x} {name} {y}: {answer}, not {w}")
        else:
            try:
                factor = u >> v
            except metric.UnitConversionError:
                pass
            else:
                cx.fail(case, f"{x} >> {y}: {factor}")
        cx.outcome([near, convertible, str(u * v)])


def check_tree(cx, operands, ops):
    """Left- and right-nested trees of products and ratios."""
    from eprempy import metric
    if value(' '.join(f'({o})' for o in operands)) is None:
        return
    case = {'kind': 'tree', 'operands': operands, 'ops': list(ops)}
    with cx.case(case):
        cx.step()
        apply = {'*': lambda p, q: p * q, '/': lambda p, q: p / q}
        for name, order in (('left', 1), ('right', -1)):
            us = [metric.unit(o) for o in operands][::order]
            vs = [value(o) for o in operands][::order]
            u, v = us[0], vs[0]
            for op, nu, nv in zip(list(ops)[::order], us[1:], vs[1:]):
                sign = 1 if op == '*' else -1
                if order == 1:
                    u, v = apply[op](u, nu), times(v, nv, sign)
                else:
                    u, v = apply[op](nu, u), times(nv, v, sign)
            if not same(value(str(u)), v):
                cx.fail(case, f"{name}: {u}")
                return
            w = u ** 2 / u
            cx.require(same(value(str(w)), v), case, f"{name}: squared, {w}")
        cx.state(f'{v[0]:.9g} {v[1]}')
        cx.outcome(str(u))


def refused(cx):
    """Texts that are not units, and operations that are not defined."""
    from eprempy import metric
    for text in ('nope', 'm nope', 'kkm', 'm / xs', '2 m', '3', '0.5 m / s', 'mm m2',
                 'm ^ 2', '(m', 'm *', 'kmin2'):
        case = {'kind': 'refused', 'text': text}
        with cx.case(case):
            cx.step()
            try:
                u = metric.unit(text)
            except Exception as err:
                cx.outcome([text, type(err).__name__])
            else:
                cx.fail(case, f"{text!r} became {u!r}")
    u = metric.unit('m')
    for name, f in (
        ('u * 2', lambda: u * 2), ('2 * u', lambda: 2 * u), ('u / 2', lambda: u / 2),
        ('2 / u', lambda: 2 / u), ('2 ** u', lambda: 2 ** u), ('u ** "2"', lambda: u ** '2'),
        ('u + u', lambda: u + u), ('u >> 2', lambda: u >> 2), ('u << s', lambda: u << 's'),
    ):
        case = {'kind': 'refused', 'text': name}
        with cx.case(case):
            cx.step()
            try:
                v = f()
            except (TypeError, ValueError, metric.UnitConversionError) as err:
                cx.outcome([name, type(err).__name__])
            else:
                cx.fail(case, f"{name} gave {v!r}")


REQUESTS = [
    "metric.unit('cm')", "metric.unit('centimeter')", "metric.unit('m') / 'second'",
    "metric.unit('meter / second')", "metric.unit('s^-1 m')", "metric.unit(['m', 's^-1'])",
    "metric.unit('J') * 's'", "metric.unit('kg m^2 s^-1')", "metric.unit('J s')",
    "metric.unit('m') ** 0", "metric.unit('1')", "metric.unit('#') & '1'",
    "metric.unit('G') | 'T'", "metric.unit('erg') | 'J'", "metric.unit('N') & 'kg m / s^2'",
    "metric.unit('V').dimensions['mks']", "metric.unit('erg').decomposed",
    "metric.unit('km / s').normalize('mks')", "metric.unit('meter') is metric.unit('m')",
    "metric.unit('km') / 'km'", "metric.unit('km') / 'm'", "metric.unit('nope')",
    "metric.unit('day')", "metric.unit('T m^2')", "metric.unit('Wb') & 'T m^2'",
]

HELPER = r'''
import json, os, sys
sys.path.insert(0, os.environ['C08_SRC'])
import warnings; warnings.simplefilter('ignore')
from eprempy import metric
def ask(text):
    try:
        return str(eval(text))
    except Exception as err:
        return 'error ' + type(err).__name__
work = json.load(sys.stdin)
out = []
for sequence in work['sequences']:
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        answers = [ask(work['requests'][i]) for i in sequence]
        with os.fdopen(w, 'w') as f:
            json.dump(answers, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        out.append(json.loads(f.read()))
    os.waitpid(pid, 0)
print(json.dumps(out))
'''


def ask_fresh(sequences, seed):
    import eprempy
    env = dict(os.environ, PYTHONHASHSEED=str(seed),
               C08_SRC=os.path.dirname(os.path.dirname(eprempy.__file__)))
    done = subprocess.run(
        [sys.executable, '-W', 'ignore', '-c', HELPER], env=env, check=True,
        input=json.dumps({'sequences': sequences, 'requests': REQUESTS}),
        capture_output=True, text=True, timeout=800)
    return json.loads(done.stdout)


def history(cx, length, seed, sequences=None):
    n = len(REQUESTS)
    if sequences is None:
        length = length if seed == 0 else 1
        sequences = list(itertools.product(range(n), repeat=length))
        sequences += [list(range(n)), list(range(n))[::-1]]
    alone = ask_fresh([(i,) for i in range(n)], 0)
    answers = ask_fresh(sequences, seed)
    for sequence, answer in zip(sequences, answers):
        case = {'kind': 'history', 'sequence': list(sequence), 'seed': seed}
        with cx.case(case):
            for i, got in zip(sequence, answer):
                cx.step()
                cx.require(got == alone[i][0], case,
                           f"{REQUESTS[i]} gave {got}, alone {alone[i][0]}")
            cx.state([seed, answer])


def replay(case, cx):
    kind = case['kind']
    if kind == 'single':
        check_single(cx, case['x'])
    elif kind == 'pair':
        check_pair(cx, case['x'], case['y'])
    elif kind == 'tree':
        check_tree(cx, case['operands'], case['ops'])
    elif kind == 'refused':
        refused(cx)
    else:
        history(cx, 0, case['seed'], [case['sequence']])
