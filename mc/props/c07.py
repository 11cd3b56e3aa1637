"""C07: unit conversions are right, coherent, and free of history.

Every pair of named units over a range of metric prefixes, every pair of compound
expressions within families of equal dimension (and across families, where a
conversion must be refused), and every unit to both metric systems, against an
independent table of SI factors.  Every sequence of conversions up to a bounded
length, in a process that has converted nothing before, under several hash
seeds, must give the answers that each gives alone.
"""

import itertools
import json
import os
import re
import subprocess
import sys

from .. import unitref as U

ID = 'C07'
LEVEL = 'model_checking'
RULE = (
    "all pairs of named units with the given prefixes; all pairs of expressions "
    "in each family and across families; all units to each system; all sequences "
    "of `length` conversions x hash seeds; non-trivial: distinct factors"
)
BOUNDS = {
    'quick': {'prefixes': ['', 'k', 'm', 'u', 'M'], 'length': 2, 'seeds': 3},
    'thorough': {'prefixes': list(U.PREFIX), 'length': 3, 'seeds': 16},
}
ASSUMPTIONS = [
    "electromagnetic units correspond between SI and Gaussian systems as tabulated",
    "plane and solid angles, counts and nucleons are dimensionless, so a "
    "conversion among them is not checked; the ohm, photometric units and "
    "capacitance, conductance and inductance in Gaussian units are not compared",
]

SKIP = {'Ω', 'lm', 'lx'}
COUNTS = {'1', '#', 'nuc', 'amu', 'rad', 'deg', 'sr'}
MASSLIKE = {'nuc', 'amu'}
PREFIXABLE = [b for b in U.BASE if b not in SKIP and b not in ('1',)]
# Gaussian capacitance is a length, and so on.
GAUSSIAN = {'F', 'S', 'H'}
# Units of different quantities that are equal in the Gaussian system.
NATIVE = {'G', 'Oe', 'Mx', 'statC', 'statA', 'statV'}


def sym(prefix, base):
    return prefix + base


def product(*slots):
    return [' '.join(x) for x in itertools.product(*slots)]


def p(units, e):
    return [f'{u}^{e}' for u in units]


LEN = ['m', 'cm', 'km', 'au']
FAMILIES = {
    'velocity': product(LEN, p(['s', 'h', 'd', 'min'], -1))
    + ['km / s', 'm/h', 'J^1/2 kg^-1/2', 'cm s / s^2'],
    'diffusion': product(LEN, ['m', 'km', 'Rs'], p(['s', 'h'], -1))
    + ['m^2 s^-1', 'au^2 / d', 'J s kg^-1', 'cm^2 / s'],
    'energy': [
        'J', 'erg', 'MeV', 'eV', 'kJ', 'keV', 'N m', 'W s', 'kg m^2 s^-2',
        'g cm^2 s^-2', 'V C', 'Pa m^3', 'kW h', 'dyn cm', 'MV e', 'g km^2 h^-2',
        'kg au m d^-1 s^-1', 'T A m^2', 'C^2 F^-1',
    ],
    'flux': product(p(['cm', 'm', 'km'], -2), p(['s', 'h'], -1), ['sr^-1'],
                    p(['MeV', 'keV', 'J', 'erg'], -1))
    + ['# / (cm^2 s sr MeV)', 's kg^-1 sr^-1 m^-4', 'cm^-2 s^-1 sr^-1 (MeV/nuc)^-1'],
    'distribution': product(p(['s', 'ms', 'h'], 3), p(['m', 'cm', 'km', 'au'], -6))
    + ['s^3/km^6', 'kg^3/2 J^-3/2 m^-3'],
    'pressure': product(['J', 'erg', 'MeV'], p(['m', 'cm', 'km'], -3))
    + ['Pa', 'dyn cm^-2', 'N / m^2', 'kPa', 'T A m^-1', 'kg m^-1 s^-2', 'C V m^-3'],
    'induction': ['T', 'G', 'nT', 'mG', 'kg s^-2 A^-1', 'V s m^-2', 'Wb m^-2',
                  'Mx cm^-2', 'N A^-1 m^-1', 'J s C^-1 m^-2', 'erg statC^-1 s m^-2'],
    'field': ['V m^-1', 'kV / cm', 'statV cm^-1', 'T m s^-1', 'nT km s^-1',
              'J C^-1 m^-1', 'N C^-1', 'G km s^-1', 'eV e^-1 cm^-1'],
    'potential': ['V', 'MV', 'J C^-1', 'eV e^-1', 'statV', 'kg m^2 s^-3 A^-1',
                  'T m^2 s^-1', 'erg statC^-1', 'W A^-1', 'Wb s^-1'],
    'frequency': ['Hz', 's^-1', 'MHz', 'h^-1', '1 / d', 'Bq', 'Ci', 'km m^-1 s^-1',
                  'J erg^-1 min^-1'],
    'rotation': ['rad s^-1', 'deg / s', 'deg d^-1', 'mrad h^-1', 'rad Hz'],
    'current': ['A', 'C s^-1', 'statA', 'statC / s', 'mC h^-1', 'e s^-1', 'kA'],
    'dose': ['Gy', 'J kg^-1', 'erg / g', 'm^2 s^-2', 'km^2 h^-2', 'mGy'],
    'density': product(['kg', 'g', 'Mg'], p(['m', 'cm', 'au'], -3)),
    'number': p(['m', 'cm', 'km', 'au', 'Rs'], -3) + ['1 / cm^3', 'cm^-2 m^-1'],
    'power': ['W', 'erg s^-1', 'J / h', 'N m s^-1', 'V A', 'kW', 'MeV / d',
              'kg m^2 s^-3'],
    'viscosity': ['P', 'Pa s', 'g cm^-1 s^-1', 'kg / (m s)', 'cP', 'dyn s cm^-2'],
    'intensity': ['A m^-1', 'Oe', 'kA / m', 'mOe', 'A cm^-1', 'C s^-1 m^-1'],
    'mfp/rigidity': ['au V^-1', 'm MV^-1', 'km C J^-1', 'cm statV^-1'],
    'length': LEN + ['Rs', 'J N^-1', 'km^2 / m', 'm^1/2 cm^1/2'],
    'ratio': ['km m^-1', 'J erg^-1', 'T G^-1', 'au / km', 'N m / J'],
}


def value(text):
    """Reference (factor, dimension) of an expression, parsed independently."""
    tokens, pos = text, 0
    token = re.compile(r'\s*\*?\s*([A-Za-zΩμ#]+|\(|\)|/|\^-?\d+(?:/\d+)?|1)')
    stack = []
    terms = []
    current = terms
    sign = 1
    while pos < len(tokens):
        m = token.match(tokens, pos)
        assert m, (text, pos)
        t = m.group(1)
        pos = m.end()
        if t == '(':
            stack.append((current, sign))
            current, sign = [], 1
        elif t == ')':
            inner = current
            current, s = stack.pop()
            e = 1
            m = re.compile(r'\^(-?\d+(?:/\d+)?)').match(tokens, pos)
            if m:
                e, pos = U.F(m.group(1)), m.end()
            current += [(b, x * s * e) for b, x in inner]
            sign = 1
        elif t == '/':
            sign = -1
        elif t[0] == '^':
            b, x = current[-1]
            current[-1] = (b, x * U.F(t[1:]))
        else:
            current.append((t, U.F(sign)))
            sign = 1
    counts = {'nuc', '#'}
    return U.expr([(b, e) for b, e in terms if b not in counts])


def shards(tier):
    b = BOUNDS[tier]
    n = 8
    out = [{'kind': 'named', 'part': [i, n], 'tier': tier} for i in range(n)]
    out += [{'kind': 'family', 'name': f, 'tier': tier} for f in FAMILIES]
    out += [{'kind': 'cross', 'tier': tier}, {'kind': 'systems', 'tier': tier},
            {'kind': 'base', 'tier': tier}]
    out += [{'kind': 'history', 'first': i, 'seed': 0, 'tier': tier}
            for i in range(len(REQUESTS))]
    out += [{'kind': 'confusable', 'part': [i, 4], 'tier': tier} for i in range(4)]
    out += [{'kind': 'seed', 'seed': i + 1, 'tier': tier} for i in range(b['seeds'])]
    return out


def convert(u0, u1, quantity=None):
    """The factor, or None where the conversion is refused."""
    from eprempy import metric
    try:
        return float(metric.conversion(u0, u1, quantity=quantity))
    except metric.UnitConversionError:
        return None


def check_pair(cx, u0, u1, want, kind, key=None):
    """One conversion: its factor, its inverse, and its report."""
    from eprempy import metric
    case = {'kind': kind, 'u0': u0, 'u1': u1}
    with cx.case(case):
        cx.step()
        got = convert(u0, u1)
        if want is None:
            if got is not None:
                cx.fail(case, f"{u0!r} -> {u1!r}: converted by {got}", key=key)
                return
            cx.require(metric.conversion(u0, u1, error=False) is None, case,
                       "error=False did not return None")
            cx.outcome('refused')
            return
        if got is None or not U.close(got, want, 1e-9):
            cx.fail(case, f"{u0!r} -> {u1!r}: factor {got}, expected {want}", key=key)
            return
        back = convert(u1, u0)
        if back is None or not U.close(back * got, 1, 1e-9):
            cx.fail(case, f"{u1!r} -> {u0!r}: factor {back}, expected {1 / want}")
            return
        c = metric.conversion(u0, u1)
        cx.require((c.u0, c.u1) == (u0, u1), case, f"reports {c.u0!r} -> {c.u1!r}")
        cx.state([u0, u1, f'{got:.12g}'])
        cx.outcome([kind, f'{got:.6g}'])


def related(a, b):
    """The reference factor between two base symbols, or None, or 'skip'."""
    if a in MASSLIKE or b in MASSLIKE:
        fa, fb = U.BASE[a], U.BASE[b]
        if fa[1] == fb[1]:
            return fa[0] / fb[0]
        return 'skip' if (a in COUNTS and b in COUNTS) else None
    if a in COUNTS and b in COUNTS:
        return U.BASE[a][0] / U.BASE[b][0] if {a, b} <= {'rad', 'deg'} or a == b else 'skip'
    fa, fb = U.BASE[a], U.BASE[b]
    if fa[1] == fb[1]:
        return fa[0] / fb[0]
    if {a, b} & GAUSSIAN or {a, b} <= NATIVE:
        return 'skip'
    return None


def run_shard(shard, cx):
    kind, tier = shard['kind'], shard['tier']
    b = BOUNDS[tier]
    if kind == 'named':
        k, n = shard['part']
        pairs = [(x, y) for x in PREFIXABLE for y in PREFIXABLE
                 if related(x, y) not in (None, 'skip')]
        for i, (x, y) in enumerate(pairs):
            if i % n != k:
                continue
            for p0, p1 in itertools.product(b['prefixes'], repeat=2):
                u0, u1 = sym(p0, x), sym(p1, y)
                # A prefixed unit may collide with the symbol of another.
                if (p0 and u0 in U.BASE) or (p1 and u1 in U.BASE):
                    continue
                want = related(x, y) * U.PREFIX[p0] / U.PREFIX[p1]
                check_pair(cx, u0, u1, want, 'named')
    elif kind == 'base':
        for x, y in itertools.product(PREFIXABLE, repeat=2):
            want = related(x, y)
            if want != 'skip':
                check_pair(cx, x, y, want, 'base')
                if x in U.NAMES and y in U.NAMES and want is not None:
                    check_pair(cx, U.NAMES[x], U.NAMES[y], want, 'base')
                    check_pair(cx, 'kilo' + U.NAMES[x], y, want * 1e3, 'base')
        check_pair(cx, 'cm / s', 'S', 1e9 / (2.99792458e10)**2, 'base',
                   key='siemens-to-cm-per-s')
        for u0, u1 in (('V', 'ohm'), ('ohm', 'V')):
            check_pair(cx, u0, u1, None, 'base', key='volt-to-ohm')
        for u0, u1, want in (
            ('F', 'cm', 2.99792458e10**2 * 1e-9), ('H', 's^2 / cm', 1e9 / 2.99792458e10**2),
            ('pF', 'cm', 2.99792458e10**2 * 1e-21),
        ):
            check_pair(cx, u0, u1, want, 'base')
    elif kind == 'family':
        these = FAMILIES[shard['name']]
        for u0, u1 in itertools.product(these, repeat=2):
            a, d = value(u0)
            c, e = value(u1)
            assert d == e, (u0, u1)
            check_pair(cx, u0, u1, a / c, 'family')
    elif kind == 'cross':
        for f, g in itertools.product(FAMILIES, repeat=2):
            for u0 in FAMILIES[f][:3]:
                for u1 in FAMILIES[g][:3]:
                    a, d = value(u0)
                    c, e = value(u1)
                    if d != e and not (native(u0) and native(u1)):
                        check_pair(cx, u0, u1, None, 'cross')
    elif kind == 'systems':
        systems(cx, b)
    elif kind == 'history':
        length = BOUNDS[tier]['length']
        rest = itertools.product(range(len(REQUESTS)), repeat=length - 1)
        history(cx, [(shard['first'], *r) for r in rest], 0)
    elif kind == 'confusable':
        i, n = shard['part']
        pairs = itertools.permutations(range(len(CONFUSABLE)), 2)
        history(cx, list(itertools.islice(pairs, i, None, n)), 0, kind)
    else:
        n = len(REQUESTS)
        history(cx, [(i,) for i in range(n)] + [tuple(range(n)), tuple(range(n))[::-1]],
                shard['seed'])


def native(text):
    """True if this expression contains a Gaussian unit of electromagnetism."""
    return bool(NATIVE & set(re.findall(r'[A-Za-z]+', text)))


def systems(cx, b):
    """Every unit in each metric system."""
    from eprempy import metric
    units = [sym(q, x) for x in PREFIXABLE for q in b['prefixes']
             if not (q and sym(q, x) in U.BASE) and x not in GAUSSIAN]
    units += [u for f in FAMILIES.values() for u in f]
    for u in units:
        a, d = value(u) if u not in PREFIXABLE and not _named(u) else U.symbol(u)
        for system in ('mks', 'cgs'):
            case = {'kind': 'systems', 'u0': u, 'u1': system}
            with cx.case(case):
                cx.step()
                try:
                    c = metric.conversion(u, system)
                except metric.UnitConversionError as err:
                    cx.require('ambiguous' in str(err) or 'F' in u, case,
                               f"refused: {err}")
                    cx.outcome('ambiguous')
                    continue
                factor, dim = value(str(c.u1))
                if dim != d:
                    # Gaussian units of electromagnetism have other dimensions.
                    cx.require(system == 'cgs' and d[3] != 0 or 'nuc' in u, case,
                               f"converted to {c.u1!r}")
                    continue
                if 'nuc' not in u and not U.close(float(c) * factor, a, 1e-9):
                    cx.fail(case, f"{u!r} -> {c}: {float(c)}, expected {a / factor}")
                    continue
                if 'Ci' in u or 'Ci' in str(c.u1):
                    continue # The curie is the cgs unit of activity.
                if system == 'mks' and 'nuc' not in u:
                    cx.require(U.close(factor, 1, 1e-9), case,
                               f"{c.u1!r} is not a coherent {system} unit")
                if native(str(c.u1)) or 'F' in u:
                    continue # Products of Gaussian units may involve c.
                if system == 'cgs' and d[3] == 0 and 'nuc' not in u:
                    want = 100.0 ** -float(d[0]) * 1000.0 ** -float(d[1])
                    cx.require(U.close(factor, want, 1e-9), case,
                               f"{c.u1!r} is not a coherent {system} unit")
                cx.state([u, str(c.u1)])
                cx.outcome([system, str(c.u1)])
    for u, system, q, want in (
        ('cm / s', 'mks', 'velocity', 1e-2), ('cm', 'mks', 'length', 1e-2),
        ('s', 'mks', 'time', 1.0), ('cm', 'mks', 'capacitance', 1e9 / 2.99792458e10**2),
        ('nuc', 'mks', 'mass', 1.6605e-27), ('nuc', 'cgs', 'mass', 1.6605e-24),
        ('nuc', 'mks', 'mass number', 1.6605e-27), ('km/s', 'cgs', 'velocity', 1e5),
        ('MeV', 'cgs', 'energy', 1.6022e-6), ('nT', 'cgs', 'magnetic induction', 1e-5),
    ):
        case = {'kind': 'systems', 'u0': u, 'u1': system, 'quantity': q}
        with cx.case(case):
            got = convert(u, system, q)
            cx.require(got is not None and U.close(got, want), case,
                       f"{u!r} as {q} in {system}: {got}, expected {want}")


def _named(u):
    try:
        U.symbol(u)
    except KeyError:
        return False
    return True


REQUESTS = [
    ['km', 'cm', None], ['cm', 'km', None], ['m', 'J', None], ['MeV', 'erg', None],
    ['erg', 'keV', None], ['keV', 'kJ', None], ['G', 'mks', None], ['cm', 'mks', None],
    ['cm', 'mks', 'length'], ['cm', 'mks', 'capacitance'], ['cm / s', 'mks', 'velocity'],
    ['m^2 s^-1', 'au km s^-1', None], ['au km s^-1', 'm^2 s^-1', None],
    ['J s', 'kg m^2 s^-1', None], ['nuc', 'g', None], ['nuc', 'cgs', 'mass number'],
    ['deg / s', 'rad / s', None], ['cm^-2 sr^-1 s^-1 (MeV/nuc)^-1', 'm^-2 sr^-1 s^-1 J^-1', None],
    ['statV', 'V', None], ['V m^-1', 'T m s^-1', None], ['h', 'd', None], ['min', 'h', None],
    ['F', 'cm', None], ['nonsense', 'cm', None],
]

# Texts that a careless key would take for one another.
CONFUSABLE = [
    ['ms', 's', None], ['m s', 's', None], ['m s', 'km s', None], ['mm', 'm', None],
    ['m m', 'm^2', None], ['m m', 'm', None], ['Mm', 'm', None], ['mPa', 'Pa', None],
    ['MPa', 'Pa', None], ['m Pa', 'cm Pa', None], ['cd', 'mks', None], ['c d', 's', None],
    ['min', 's', None], ['m^2', 'cm^2', None], ['m^-2', 'cm^-2', None], ['m', 'cm', None],
    ['m2', 'cm2', None], ['G', 'T', None], ['g', 'kg', None], ['d', 's', None],
    ['D', 's', None], ['T', 'G', None], ['t', 'kg', None], ['h', 's', None], ['H', 's', None],
    ['km / h', 'm s^-1', None], ['km h', 'm s', None], ['km / h', 'm s', None],
    ['erg s', 'J s', None], ['erg / s', 'J s', None], ['erg / s', 'W', None],
    ['erg', 'J', None], ['ergs', 'J', None], ['cm', 'mks', 'length'],
    ['cm', 'mks', 'capacitance'], ['cm', 'MKS', 'length'], ['cm', 'mks', 'Length'],
]

HELPER = r'''
import json, os, sys
sys.path.insert(0, os.environ['C07_SRC'])
import warnings; warnings.simplefilter('ignore')
from eprempy import metric
def ask(u0, u1, q):
    try:
        c = metric.conversion(u0, u1, quantity=q)
        return ['%.12e' % float(c), str(c.u0), str(c.u1)]
    except Exception as err:
        return ['error', type(err).__name__]
work = json.load(sys.stdin)
out = []
for sequence in work['sequences']:
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        os.close(r)
        answers = [ask(*work['requests'][i]) for i in sequence]
        with os.fdopen(w, 'w') as f:
            json.dump(answers, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        out.append(json.loads(f.read()))
    os.waitpid(pid, 0)
print(json.dumps(out))
'''


def ask_fresh(sequences, seed, requests):
    import eprempy
    env = dict(os.environ, PYTHONHASHSEED=str(seed),
               C07_SRC=os.path.dirname(os.path.dirname(eprempy.__file__)))
    done = subprocess.run(
        [sys.executable, '-W', 'ignore', '-c', HELPER], env=env, check=True,
        input=json.dumps({'sequences': sequences, 'requests': requests}),
        capture_output=True, text=True, timeout=600)
    return json.loads(done.stdout)


def history(cx, sequences, seed, kind='history'):
    requests = CONFUSABLE if kind == 'confusable' else REQUESTS
    alone = ask_fresh([(i,) for i in range(len(requests))], 0, requests)
    answers = ask_fresh(sequences, seed, requests)
    for sequence, answer in zip(sequences, answers):
        case = {'kind': kind, 'sequence': list(sequence), 'seed': seed}
        with cx.case(case):
            for i, got in zip(sequence, answer):
                cx.step()
                cx.require(got == alone[i][0], case,
                           f"{requests[i]} gave {got}, alone {alone[i][0]}")
            cx.state([seed, answer])
            cx.outcome(answer[-1])


def replay(case, cx):
    kind = case['kind']
    if kind in ('history', 'confusable'):
        history(cx, [tuple(case['sequence'])], case['seed'], kind)
    elif kind == 'systems':
        systems(cx, BOUNDS['thorough'])
    elif kind == 'base':
        run_shard({'kind': 'base', 'tier': 'quick'}, cx)
    elif kind == 'cross':
        check_pair(cx, case['u0'], case['u1'], None, 'cross')
    else:
        a, c = value(case['u0'])[0], value(case['u1'])[0]
        if kind == 'named':
            a, c = U.symbol(case['u0'])[0], U.symbol(case['u1'])[0]
        check_pair(cx, case['u0'], case['u1'], a / c, kind)
