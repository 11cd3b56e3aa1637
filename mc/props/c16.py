"""C16: algebra on observables is algebra on their values.

Every expression tree of bounded depth over a set of observables -- products,
ratios, powers, sums, differences, changes of unit, and their symbolic spellings
-- under every request form, against the same arithmetic on reference values;
and every sequence of requests of bounded length on one collection, each of
which must answer as if it were the first.
"""

import fractions
import itertools
import pathlib
import tempfile
import warnings

import numpy as np

from .. import eprem_data as D
from .. import eprem_ref as R
from . import c14

ID = 'C16'
LEVEL = 'model_checking'
RULE = (
    "every expression tree up to `depth` operations over the leaf observables x "
    "request forms; every sequence of `length` requests on one collection; "
    "every alias; all pairs of similar spellings; non-trivial: distinct results"
)
BOUNDS = {
    'quick': {'depth': 2, 'leaves': 'small', 'length': 2},
    'thorough': {'depth': 2, 'leaves': 'large', 'length': 3},
}
ASSUMPTIONS = c14.ASSUMPTIONS

SIZES = {'nt': 3, 'ns': 4, 'species': ('H+', 'He++'), 'ne': 3, 'nm': 3}
SMALL = ['time', 'energy', 'mu', 'mass', 'r', 'ur', 'br', 'angle', 'mfp', 'flux']
LARGE = SMALL + ['v', 'rho', 'uphi', 'f', 'rigidity', 'energy_density', 'divu',
                 'umag', 'charge', 'intflux', 'fluence', 'x', 'ar']
UNITS = {
    'time': 'day', 'energy': 'MeV', 'r': 'au', 'ur': 'km/s', 'br': 'nT',
    'mfp': 'au', 'flux': 'cm^-2 s^-1 sr^-1 MeV^-1', 'v': 'km/s', 'rho': 'cm^-3',
    'uphi': 'km/s', 'f': 's^3/km^6', 'energy_density': 'erg/cm^3', 'umag': 'Mm/h',
    'angle': 'deg', 'mass': 'g', 'divu': '1/day', 'intflux': 'cm^-2 s^-1 sr^-1',
    'fluence': 'cm^-2 sr^-1 MeV^-1', 'x': 'km',
}


def shards(tier):
    leaves = SMALL if BOUNDS[tier]['leaves'] == 'small' else LARGE
    out = [{'kind': 'trees', 'first': x, 'tier': tier} for x in leaves]
    out += [{'kind': 'deep', 'part': [i, 8], 'tier': tier} for i in range(8)]
    n = len(QUERIES)
    out += [{'kind': 'history', 'first': i, 'tier': tier} for i in range(n)]
    out += [{'kind': 'names', 'part': [i, 4], 'tier': tier} for i in range(4)]
    out += [{'kind': 'spellings', 'part': [i, 8], 'tier': tier} for i in range(8)]
    return out


# -- the model -------------------------------------------------------------

class Node:
    """Reference value: dims, dimension exponents, and values by request."""

    def __init__(self, dims, dim, value):
        self.dims, self.dim, self.value = tuple(dims), tuple(dim), value


def merge(a, b):
    return tuple(a) + tuple(d for d in b if d not in a)


def spread(x, dims, into):
    """Rearrange an array over `dims` for broadcasting over `into`."""
    order = [d for d in into if d in dims]
    x = np.transpose(x, [dims.index(d) for d in order])
    shape = [x.shape[order.index(d)] if d in dims else 1 for d in into]
    return x.reshape(shape)


def reference(tree, model):
    op = tree[0]
    if op == 'leaf':
        dims, dim = R.TABLE[tree[1]]
        return Node(dims, [fractions.Fraction(x) for x in dim],
                    lambda sel, emin: np.asarray(
                        model.observe(tree[1], sel, emin), float))
    if op == 'str':
        return reference(tree[2], model)
    if op == 'unit':
        return reference(tree[1], model)
    a = reference(tree[1], model)
    if op == 'pow':
        n = fractions.Fraction(str(tree[2]))
        return Node(a.dims, [x * n for x in a.dim],
                    lambda s, e: a.value(s, e) ** float(n))
    b = reference(tree[2], model)
    dims = merge(a.dims, b.dims)
    f = {'*': np.multiply, '/': np.divide, '+': np.add, '-': np.subtract}[op]

    def value(s, e):
        return f(spread(a.value(s, e), a.dims, dims),
                 spread(b.value(s, e), b.dims, dims))
    if op in '+-':
        return Node(dims, a.dim, value)
    sign = 1 if op == '*' else -1
    return Node(dims, [x + sign * y for x, y in zip(a.dim, b.dim)], value)


def build(tree, quantities):
    op = tree[0]
    if op == 'leaf':
        return quantities[tree[1]]
    if op == 'str':
        return quantities[tree[1]]
    a = build(tree[1], quantities)
    if op == 'unit':
        return a.withunit(unit_of(tree[2]))
    if op == 'pow':
        n = tree[2]
        return a ** (fractions.Fraction(n) if isinstance(n, str) else n)
    b = build(tree[2], quantities)
    return {'*': lambda: a * b, '/': lambda: a / b,
            '+': lambda: a + b, '-': lambda: a - b}[op]()


def unit_of(encoded):
    """A unit from a string or a nested [operator, a, b]."""
    from eprempy import metric
    if isinstance(encoded, str):
        return metric.unit(encoded)
    op, a, b = encoded
    a = unit_of(a)
    if op == '^':
        return a ** (fractions.Fraction(b) if isinstance(b, str) else b)
    b = unit_of(b)
    return a * b if op == '*' else a / b


def forms(dims, raw):
    """Requests over the given dimensions: (index, selection, minimum energy)."""
    t, e, r = raw['time'], raw['egrid'].ravel(), raw['R']
    MEV = 1e6 * D.EV
    s = slice(None)
    emin = (e[0] * 2, 'MeV')
    whole = {d: (s, ['all']) for d in dims}
    if 'minimum energy' in dims:
        whole['minimum energy'] = (emin, None)
    point = {
        'time': (1, ['idx', [1]]), 'shell': (2, ['idx', [2]]),
        'species': ('He++', ['idx', [1]]), 'energy': (-1, ['idx', [2]]),
        'mu': (0, ['idx', [0]]),
    }
    some = {
        'time': (slice(1, None), ['idx', [1, 2]]),
        'shell': ([3, 0], ['idx', [3, 0]]), 'species': (s, ['all']),
        'energy': (slice(None, 2), ['idx', [0, 1]]), 'mu': ([2, 0], ['idx', [2, 0]]),
    }
    off = {
        'time': ((t[:2].mean(), t[1], 'day'), ['val', [t[:2].mean() * D.DAY, t[1] * D.DAY]]),
        'shell': ((0.42, 0.31, 'au'), ['rad', [0.42 * D.AU, 0.31 * D.AU]]),
        'species': ([1, 0], ['idx', [1, 0]]),
        'energy': ((e[0] * 1.4, 'MeV'), ['val', [e[0] * 1.4 * MEV]]),
        'mu': ((0.25, '1'), ['val', [0.25]]),
    }
    for chosen in (whole, point, some, off):
        pick = {d: chosen.get(d, whole[d]) for d in dims}
        index = tuple(pick[d][0] for d in dims)
        yield (
            index if len(index) > 1 else index[0],
            {d: v[1] for d, v in pick.items() if d != 'minimum energy'},
            [e[0] * 2 * MEV],
        )


# -- trees -----------------------------------------------------------------

def L(name):
    return ['leaf', name]


def allowed(*names):
    # One axis of the two cannot be labelled for both at once.
    return not ('intflux' in names and {'energy', 'flux', 'mfp', 'f', 'v', 'rigidity',
                                        'ar', 'fluence'} & set(names))


def level1(x):
    """Every one-operation tree on a leaf."""
    for n in (2, -1, 3, '1/2', '-3/2', 0.5):
        yield ['pow', L(x), n]
    yield ['str', f'{x}**2', ['pow', L(x), 2]]
    yield ['str', f'{x}**-1', ['pow', L(x), -1]]
    yield ['str', f'1/{x}', ['pow', L(x), -1]]
    yield ['str', f'sqrt({x})', ['pow', L(x), '1/2']]
    if x in UNITS:
        yield ['unit', L(x), UNITS[x]]


def pairs(x, leaves):
    for y in leaves:
        if not allowed(x, y):
            continue
        for op in '*/':
            yield [op, L(x), L(y)]
            yield ['str', f'{x} {op} {y}', [op, L(x), L(y)]] if x != y or op == '*' else None
            if x in UNITS and y in UNITS:
                yield ['unit', [op, L(x), L(y)], [op, UNITS[x], UNITS[y]]]
                yield [op, ['unit', L(x), UNITS[x]], L(y)]
                yield [op, L(x), ['unit', L(y), UNITS[y]]]
            yield [op, ['pow', L(x), 2], L(y)]
            yield ['pow', [op, L(x), L(y)], -2]
        if same(x, y):
            for op in '+-':
                yield [op, L(x), L(y)]
                if x in UNITS:
                    yield [op, ['unit', L(x), UNITS[x]], ['unit', L(y), UNITS[x]]]
                yield ['pow', [op, L(x), L(y)], 2]
                yield ['/', [op, L(x), L(y)], L(y)]
                yield [op, ['pow', L(x), 2], ['*', L(y), L(y)]]


def same(x, y):
    return R.TABLE[x] == R.TABLE[y]


def deep(tier):
    names = ['r', 'ur', 'mfp'] + (
        [] if tier == 'quick' else ['br', 'angle', 'flux'])
    for x, y, z in itertools.product(names, repeat=3):
        yield ['*', ['/', L(x), L(y)], L(z)]
        yield ['/', L(x), ['*', L(y), L(z)]]
        if len({x, y, z}) == 3:
            yield ['str', f'{x} / ({y} * {z})', ['/', L(x), ['*', L(y), L(z)]]]
            yield ['str', f'({x} / {y})**2 * {z}',
                   ['*', ['pow', ['/', L(x), L(y)], 2], L(z)]]
            yield ['str', f'{x}**2 {y}**-1 / {z}**1/2', ['/', [
                '*', ['pow', L(x), 2], ['pow', L(y), -1]], ['pow', L(z), '1/2']]]
            yield ['unit', ['/', L(x), ['*', L(y), L(z)]],
                   ['/', UNITS[x], ['*', UNITS[y], UNITS[z]]]]
            yield ['+', ['*', L(x), ['*', L(y), L(z)]],
                   ['*', ['*', L(x), L(y)], L(z)]]


# -- histories -------------------------------------------------------------

QUERIES = [
    ('mfp', (1, slice(None), 0, slice(None))),
    ('mfp', (slice(None), (0.42, 'au'), 'He++', -1)),
    ('r', (slice(None), 1)),
    ('r:au', (0, slice(None))),
    ('ur', ((0.2, 'day'), slice(None))),
    ('flux', (0, 0, 0, slice(None))),
    ('flux', ((0.2, 'day'), 1, [1, 0], (2.0, 'MeV'))),
    ('intflux', (0, 1, 0, (2.0, 'MeV'))),
    ('intflux', (slice(None), (0.42, 'au'), 1, (1.0, 3.0, 'MeV'))),
    ('mfp / ur', (slice(None), slice(None), 0, 0)),
    ('r**2:au^2', (slice(None), slice(None))),
    ('fluence', ((0.2, 'day'), 1, 0, 0)),
    ('energy', ((2.0, 'MeV'),)),
    ('angle:deg', (2, slice(None))),
    ('time', (slice(None),)),
    ('ur', (99, 0)),
    ('nothing', (0, 0)),
    ('x', (slice(None), (99.0, 'au'))),
]


def ask(quantities, query, abuse=False):
    """The answer to one query, as plain data."""
    key, index = query
    name, _, unit = key.partition(':')
    try:
        q = quantities[name]
        if unit:
            q = q.withunit(unit)
        got = q[index if len(index) > 1 else index[0]]
    except Exception as err:
        return ['error', type(err).__name__]
    out = [str(got.unit), list(got.dimensions), np.array(got, float).tolist()]
    for d in got.dimensions:
        a = got.axes[d]
        out.append([str(getattr(a, 'unit', '')), [str(x) for x in a]])
    if abuse:
        # Nothing a caller does to a result may reach the collection.
        plain = np.array(got)
        plain *= 0
        got = got * 2
        (q * q) if isinstance(q, object) else None
    return out


def run_history(cx, quantities_of, sequence):
    case = {'kind': 'history', 'sequence': list(sequence)}
    with cx.case(case):
        shared = quantities_of()
        for i in sequence:
            cx.step()
            got = ask(shared, QUERIES[i], abuse=True)
            want = FIRST.setdefault(i, None) or ask(quantities_of(), QUERIES[i])
            FIRST[i] = want
            if repr(got) != repr(want):
                cx.fail(case, f"request {QUERIES[i]} answered {str(got)[:150]},"
                              f" at first {str(want)[:150]}")
                return
            cx.state([i, got])
        cx.outcome([len(sequence), got[0]])


FIRST = {}


# Texts that a careless look-up could take for one another.
TEXTS = [
    'ur', 'u r', 'u * r', 'u*r', ' ur', 'ur ', 'Ur', 'UR', 'u R', 'U r', 'uR', 'r u', 'r * u',
    'br', 'b r', 'b * r', 'B r', 'Br', 'BR', 'brur', 'br ur', 'ur br', 'ur * br', 'ur*br',
    'br / ur', 'ur / br', 'br/ur', '(br) / ur', 'br / ur / r', 'br / (ur r)', 'br / (ur / r)',
    'r', 'R', 'r**2', 'r ** 2', 'r2', 'r r', 'r * r', 'rr', '(r)', 'r**-2', 'r**(1/2)', '1 / r',
    't', 'T', 'p', 'P', 'q', 'm', 'e', 'E', 'b', 'B', '|B|', '|b|', 'bp', 'b p', 'Bp', 'B p',
    'mfp', 'mean free path', 'mean_free_path', 'meanfreepath', 'Mean Free Path',
    'J', 'j', 'J(E)', 'j(E)', 'J E', 'J * E', 'flux', 'Flux', 'f', 'f lux', 'fluence', 'F',
    'u_mag', 'u mag', 'umag', 'div u', 'div(u)', 'divu', 'angle', 'flow angle', 'flow_angle',
    'rho', 'Rho', 'R ho', 'x', 'X', 'nothing', '',
]


def told(quantities, text):
    """What the quantity of this name is said to be."""
    try:
        q = quantities[text]
    except Exception as err:
        return ['error', type(err).__name__]
    return [str(q.unit), sorted(q.dimensions), [str(x) for x in (q.name,)] if hasattr(q, 'name') else []]


def spellings(cx, s, first, fresh, only=None):
    texts = only or [x for other in TEXTS for x in (first, other)]
    case = {'kind': 'spellings', 'texts': texts}
    with cx.case(case):
        shared = s.open()
        for i, text in enumerate(texts):
            cx.step()
            got = told(shared, text)
            if text not in fresh:
                fresh[text] = told(s.open(), text)
            if got != fresh[text]:
                case = {'kind': 'spellings', 'texts': texts[:i + 1]}
                cx.fail(case, f"{text!r} is {got}, but {fresh[text]} at first")
                return
            cx.state(['told', text, got])
        cx.outcome(fresh[texts[0]])


# -- running ---------------------------------------------------------------

class Setup:
    def __init__(self, tmp):
        self.path = pathlib.Path(tmp)
        self.raw = D.make(self.path / 'obs000000.nc', 'dist', **SIZES)
        D.config(self.path / 'eprem.cfg')
        self.model = R.Model(self.raw)
        self.quantities = self.open()

    def open(self):
        from eprempy import observable
        return observable.quantities(
            self.path / 'obs000000.nc', self.path / 'eprem.cfg', 'mks')


def run_shard(shard, cx):
    warnings.simplefilter('ignore')
    tier = shard['tier']
    leaves = SMALL if BOUNDS[tier]['leaves'] == 'small' else LARGE
    with tempfile.TemporaryDirectory(prefix='c16-') as tmp:
        s = Setup(tmp)
        kind = shard['kind']
        if kind == 'trees':
            x = shard['first']
            for tree in itertools.chain(level1(x), pairs(x, leaves)):
                if tree:
                    run_tree(cx, s, tree)
        elif kind == 'deep':
            k, n = shard['part']
            for i, tree in enumerate(deep(tier)):
                if i % n == k:
                    run_tree(cx, s, tree)
        elif kind == 'spellings':
            k, n = shard['part']
            fresh = {}
            for first in TEXTS[k::n]:
                spellings(cx, s, first, fresh)
        elif kind == 'history':
            FIRST.clear()
            length = BOUNDS[tier]['length']
            rest = itertools.product(range(len(QUERIES)), repeat=length - 1)
            for more in rest:
                run_history(cx, s.open, (shard['first'], *more))
        else:
            names(cx, s, *shard['part'])


def run_tree(cx, s, tree, only=None):
    np.seterr(all='ignore')
    dims = None
    with cx.case({'kind': 'tree', 'tree': tree, 'form': 0}):
        dims = tuple(build(tree, s.quantities).dimensions)
    ref = reference(tree, s.model)
    case = {'kind': 'tree', 'tree': tree, 'form': 0}
    if dims is None:
        return
    if not announced(tree, dims, ref):
        cx.fail(case, f"announced dimensions {dims}, expected {ref.dims}")
        return
    inner, mine = ref.value, ref.dims
    ref = Node(dims, ref.dim,
               lambda s, e: np.transpose(inner(s, e), [mine.index(d) for d in dims]))
    for number, (index, sel, emin) in enumerate(forms(ref.dims, s.raw)):
        if only is not None and number != only:
            continue
        case = {'kind': 'tree', 'tree': tree, 'form': number}
        with cx.case(case):
            want = ref.value(sel, emin)
            if not np.isfinite(want).all():
                continue
            quantity = build(tree, s.quantities)
            cx.step()
            got = quantity[index]
            cx.require(
                str(got.unit) == str(quantity.unit), case,
                f"observed in {got.unit}, announced in {quantity.unit}")
            if tree[0] == 'unit':
                cx.require(quantity.unit == unit_of(tree[2]), case,
                           f"unit {quantity.unit}")
            message = c14.compare(
                got, want,
                c14.expected_axes(s.model, None, sel, emin, ref.dims),
                tuple(ref.dim), species=SIZES['species'],
                floor=floor(tree, ref, sel, emin, want, s.model))
            if message:
                cx.fail(case, message)
                continue
            if number == 0 and 'minimum energy' not in ref.dims:
                # other spellings of the whole quantity
                plain = np.array(got)
                every = [np.array(quantity)]
                if tree[0] in ('leaf', 'unit', 'pow'):
                    cx.step()
                    every += [quantity[:], quantity[...],
                              quantity[index[:1] + (...,)] if len(dims) > 1 else quantity[...]]
                for this in every:
                    cx.require(
                        np.array_equal(np.array(this), plain, equal_nan=True), case,
                        'the whole quantity differs from itself by another subscript')
            cx.state([tree, number])
            cx.outcome([want.shape, [str(x) for x in ref.dim]])


def announced(tree, dims, ref):
    """Whether dimensions combine those of every operand, in their order."""
    if sorted(dims) != sorted(ref.dims):
        return False
    return all(
        [d for d in dims if d in these] == list(these)
        for these in map(lambda x: R.TABLE[x][0], leaves_of(tree)))


def leaves_of(tree):
    if tree[0] == 'leaf':
        return [tree[1]]
    if tree[0] == 'str':
        return leaves_of(tree[2])
    parts = tree[1:2] if tree[0] in ('unit', 'pow') else tree[1:3]
    return [x for t in parts for x in leaves_of(t)]


def floor(tree, ref, sel, emin, want, model):
    """Rounding in differences is relative to what is subtracted."""
    if tree[0] == 'pow':
        n = float(fractions.Fraction(str(tree[2])))
        if n > 0:
            inner = floor(tree[1], None, sel, emin, None, model)
            return inner ** n if inner else 0
        return 0
    if tree[0] in '+-':
        a, b = (reference(t, model).value(sel, emin) for t in tree[1:3])
        return 2e-3 * max(np.max(abs(a)), np.max(abs(b)))
    return 0


def names(cx, s, k, n):
    """Every name of every observable, and names of none."""
    from eprempy import observable, reference as reference_
    quantities = s.quantities
    every = list(quantities)
    case = {'kind': 'names', 'name': None}
    with cx.case(case):
        cx.require(len(every) == len(quantities) == len(set(every)), case,
                   "length of the collection differs from its names")
        missing = [x for x in R.TABLE if x not in every]
        cx.require(not missing, case, f"{missing} are missing")
    for i, name in enumerate(every):
        if i % n != k:
            continue
        case = {'kind': 'names', 'name': name}
        with cx.case(case):
            cx.step()
            cx.require(name in quantities, case, "listed but absent")
            q = quantities[name]
            group = list(reference_.OBSERVABLES.aliases.get(name, [name]))
            for other in group:
                cx.require(quantities[other] == q, case,
                           f"differs from its alias {other!r}")
                cx.require(str(quantities[other].unit) == str(q.unit), case,
                           f"unit differs from its alias {other!r}")
            for other in R.TABLE:
                if other not in group:
                    cx.require(not (quantities[other] == q), case,
                               f"equals {other!r}")
            cx.state([name, str(q.unit), list(q.dimensions)])
            cx.outcome(str(q.unit))
    for name in ('nothing', 'r / nothing', 'nothing**2', 'r * lambda0'):
        case = {'kind': 'names', 'name': name}
        with cx.case(case):
            cx.require(name not in quantities, case, "is in the collection")
            try:
                quantities[name]
            except KeyError:
                continue
            cx.fail(case, "did not raise KeyError")


def replay(case, cx):
    warnings.simplefilter('ignore')
    with tempfile.TemporaryDirectory(prefix='c16-') as tmp:
        s = Setup(tmp)
        if case['kind'] == 'tree':
            run_tree(cx, s, case['tree'], case['form'])
        elif case['kind'] == 'spellings':
            spellings(cx, s, None, {}, case['texts'])
        elif case['kind'] == 'history':
            FIRST.clear()
            run_history(cx, s.open, case['sequence'])
        else:
            names(cx, s, 0, 1)
