"""C11: measuring input never drops, reorders or invents values or units.

Every nested list or tuple over an alphabet of numbers, numeric strings, unit
strings, units and foreign objects, within bounds on length and depth, against
an independent reading of the documented grammar; and every creation, subscript,
cast, comparison and conversion of measured values and sequences.
"""

from fractions import Fraction as F
import itertools

import numpy as np

from .. import unitref as U

ID = 'C11'
LEVEL = 'model_checking'
RULE = (
    "all flat inputs of <= `flat` items, all nested inputs of <= `outer` items of "
    "<= `inner` items; all measured objects x representations x units x subscripts "
    "x conversions; non-trivial: distinct readings"
)
BOUNDS = {
    'quick': {'flat': 4, 'outer': 3, 'inner': 2, 'deep': 4},
    'thorough': {'flat': 6, 'outer': 3, 'inner': 3, 'deep': 5},
}
ASSUMPTIONS = [
    "a collection that mixes single values with nested ones, a nested collection "
    "followed by a unit, and a lone numeric string in the place of a unit, may be "
    "refused, never answered wrongly",
    "equal units that are spelled differently may be refused",
    "truth values and objects that are not real numbers may be refused",
    "a subscript that selects one item gives a value or a sequence of that value",
]

# Atoms of the input: how they are encoded, and built.
NUMBERS = ('1', '2.5', 'n3', 'i4')
STRINGS = ('"5', '"6.5')
UNITS = ('m', '1u', 'Um', 'Ukm', 'm / s')
FOREIGN = ('None', 'cplx', 'bool', 'v')
ATOMS = NUMBERS + STRINGS + UNITS + FOREIGN
SMALL = ('1', '2.5', '"5', 'm', 'Um', 'cm', 'None')


def atom(a):
    from eprempy import measured, metric
    if a == 'None':
        return None
    if a == 'cplx':
        return 1j
    if a == 'bool':
        return True
    if a == 'v':
        return measured.value(7, unit='s')
    if a[0] == 'n':
        return np.float64(a[1:])
    if a[0] == 'i':
        return np.int32(a[1:])
    if a[0] == '"':
        return a[1:]
    if a == '1u':
        return '1'
    if a[0] == 'U':
        return metric.unit(a[1:])
    if a[0].isdigit():
        return float(a) if '.' in a else int(a)
    return a


def build(x):
    """Make the input that `x` describes: an atom, ['l', ...] or ['t', ...]."""
    if isinstance(x, str):
        return atom(x)
    items = [build(i) for i in x[1:]]
    if x[0] == 'a':
        return np.array(items)
    return items if x[0] == 'l' else tuple(items)


def kind(a):
    if not isinstance(a, str):
        return 'seq'
    if a in FOREIGN:
        return 'other'
    if a in NUMBERS or a[0].isdigit() and a != '1u':
        return 'num'
    return 'str' if a[0] == '"' else 'unit'


def number(a):
    return float(a.lstrip('"ni'))


def unitname(a):
    return '1' if a == '1u' else a[1:] if a[0] == 'U' else a


class Bad(Exception):
    """The grammar does not admit this input."""


class Open(Exception):
    """This input may be refused; if not, it means `args`."""


def read(x):
    """The values and unit that the documentation gives to this input."""
    while kind(x) == 'seq' and x[0] in 'lt' and len(x) == 2:
        x = x[1]
    k = kind(x)
    if k in ('num', 'str'):
        return [number(x)], '1'
    if k in ('unit', 'other'):
        # NOTE: The text '1' is a number wherever it is not a unit.
        if x == '1u':
            return [1.0], '1'
        if x == 'bool':
            raise Open([([1.0], '1')])
        if x == 'v':
            raise Open([([7.0], 's')])
        raise Bad
    items = x[1:]
    if not items:
        raise Bad
    kinds = [kind(i) for i in items]
    if 'other' in kinds:
        if 'bool' in items and set(k for i, k in zip(items, kinds) if i != 'bool') <= {'num', 'str', 'unit'}:
            swap = [x[0]] + ['1' if i == 'bool' else i for i in items]
            try:
                raise Open([read(swap)])
            except Bad:
                pass
        raise Bad
    plain = {'num', 'str'}
    if set(kinds) <= plain:
        values = [number(i) for i in items]
        if kinds[-1] == 'str' and kinds.count('str') == 1:
            raise Open([(values, '1'), (values[:-1], items[-1][1:])])
        if 'str' in kinds and kinds.count('str') < len(kinds):
            if kinds.count('str') == 1:
                raise Open([(values, '1')])
        return values, '1'
    ones = [('str' if i == '1u' else k) for i, k in zip(items, kinds)]
    if kinds[-1] == 'unit' and set(ones[:-1]) <= plain:
        values = [1.0 if i == '1u' else number(i) for i in items[:-1]]
        unit = unitname(items[-1])
        if items[-1] == '1u' and 'str' in ones[:-1]:
            # All of them are numeric strings, or the last is a unit.
            raise Open([(values, '1'), (values + [1.0], '1')])
        if 'str' in ones[:-1] and items[-1][0] == 'U':
            raise Open([(values, unit)])
        return values, unit
    if set(ones) <= plain:
        raise Open([([1.0 if i == '1u' else number(i) for i in items], '1')])
    if kinds == ['seq', 'str']:
        both = []
        for y in ([x[0], items[0], 'm'], [x[0], items[0], ['t', items[1]]]):
            try:
                both += [read(y)]
            except Bad:
                pass
            except Open as err:
                both += err.args[0]
        raise Open([(v, items[1][1:] if u == 'm' else u) for v, u in both])
    if len(items) == 2 and kinds == ['seq', 'unit']:
        inner = items[0]
        if not inner[1:]:
            raise Open([([], unitname(items[1]))])
        ks = ['str' if i == '1u' else kind(i) for i in inner[1:]]
        unit = unitname(items[1])
        if set(ks) <= plain:
            return [1.0 if i == '1u' else number(i) for i in inner[1:]], unit
        if set(ks) <= plain | {'seq'}:
            raise Open([(flatten(inner), unit)])
        if 'bool' in inner and 'unit' not in ks and not set(inner[1:]) & {'None', 'cplx', 'v'}:
            raise Open([(flatten(inner), unit)])
        raise Bad
    if set(kinds) <= {'seq'} | plain:
        # An iterable of measurables.
        strict = set(kinds) == {'seq'}
        every = [[]]
        for i in items:
            try:
                r = [read(i)]
            except Open as err:
                strict = False
                r = err.args[0]
            every = [e + [j] for e in every for j in r]
        found = []
        for e in every:
            if len({canonical(u) for _, u in e}) == 1:
                if len({u for _, u in e}) > 1:
                    strict = False
                found.append(([v for vs, _ in e for v in vs], e[0][1]))
        if not found:
            raise Bad
        if strict:
            return found[0]
        raise Open(found)
    raise Bad


def canonical(u):
    return {'m s^-1': 'm / s'}.get(u, u)


def flatten(x):
    if kind(x) == 'seq':
        return [v for i in x[1:] for v in flatten(i)]
    if x in ('None', 'cplx', 'v') or (kind(x) == 'unit' and x != '1u'):
        raise Bad
    return [1.0 if x in ('1u', 'bool') else number(x)]


def expected(x):
    """(required reading or None, admissible readings)."""
    try:
        r = read(x)
        y = x
        while kind(y) == 'seq' and y[0] in 'lt' and len(y) == 2:
            y = y[1]
        if "'a'" in repr(y) and not (kind(y) == 'seq' and len(y) == 3 and kind(y[2]) == 'unit' and "'a'" not in repr(y[1][1:])):
            return None, [r]
        return r, [r]
    except Open as err:
        return None, list(err.args[0])
    except Bad:
        return None, []


ERRORS = (TypeError, ValueError)


def attempt(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except ERRORS as err:
        return 'refused', type(err).__name__


def same(u, v):
    from eprempy import metric
    if str(u) == str(v):
        return True
    try:
        return metric.unit(u) == metric.unit(v)
    except ERRORS:
        return False


def flat(v):
    return [float(i) for i in np.asarray(v, dtype=float).ravel()]


def matches(got, unit, admissible):
    return any(flat(got) == vs and same(unit, u) for vs, u in admissible)


def one(x, cx, key=None):
    from eprempy import quantity
    required, admissible = expected(x)
    case = {'parse': x}
    with cx.case(case, key):
        cx.state(repr(x))
        cx.outcome((repr(required), repr(admissible)))
        obj = build(x)
        before = repr(obj)
        # Values followed by their unit.
        s, r = attempt(quantity.parse, build(x))
        check(cx, case, 'parse', s, required, admissible,
              lambda: matches(r[:-1], r[-1], admissible) and isinstance(r[-1], str), r)
        # Every value with the unit.
        s, r = attempt(quantity.parse, build(x), distribute=True)
        check(cx, case, 'distribute', s, required, admissible,
              lambda: (all(len(i) == 2 for i in r)
                       and all(same(i[1], r[0][1]) for i in r)
                       and (matches([i[0] for i in r], r[0][1], admissible) if r
                            else any(v == [] for v, _ in admissible))), r)
        s, m = attempt(quantity.measure, obj)
        check(cx, case, 'measure', s, required, admissible,
              lambda: isinstance(m, quantity.Measurement) and matches(m.data, m.unit, admissible), m)
        if isinstance(obj, (list, tuple)) and obj and x[0] != 'a' and 'v' not in x[1:2]:
            t, n = attempt(quantity.measure, *obj)
            check(cx, case, 'measure(*)', t, required, admissible,
                  lambda: matches(n.data, n.unit, admissible), n)
        cx.step(4)
        # The predicates answer for every object.
        q = quantity.ismeasurable(obj)
        cx.require(isinstance(q, bool), case, f"ismeasurable gives {q!r}")
        if q and s != 'ok' and not excused(x):
            cx.fail(case, f"ismeasurable but not measured: {m}", key)
        h = quantity.hasdata(obj)
        d = quantity.getdata(obj)
        cx.require(h is (d is not None), case, f"hasdata gives {h}, getdata gives {d!r}")
        if required is not None:
            cx.require(h and flat(d) == required[0], case, f"data are {d!r}; should be {required[0]}")
        elif not admissible and x not in ('cplx', 'v'):
            cx.require(not h, case, f"data of input without meaning: {d!r}")
        cx.require(repr(obj) == before, case, f"the input became {obj!r}")
        cx.trace()


def excused(x):
    """The predicate does not compare units, nor judge what is in a text."""
    if kind(x) != 'seq':
        return x == 'bool'
    text = repr(x)
    return any(s in text for s in ('bool', "'\"", "'a'")) or not [i for i in x[1:]] or units_differ(x) or empty(x)


def empty(x):
    return kind(x) == 'seq' and (len(x) == 1 or any(empty(i) for i in x[1:]))


def units_differ(x):
    found = set()

    def walk(y):
        if kind(y) != 'seq':
            return
        us = [unitname(i) for i in y[1:] if kind(i) == 'unit']
        if us:
            found.update(us)
        elif any(kind(i) != 'seq' for i in y[1:]):
            found.add('1')
        for i in y[1:]:
            walk(i)
    for i in x[1:]:
        walk(i)
    return len(found) > 1


def check(cx, case, what, status, required, admissible, right, got):
    if status == 'ok':
        cx.require(bool(admissible) and right(), case,
                   lambda: f"{what} gives {got!r}; admissible: {admissible}")
    else:
        cx.require(required is None, case,
                   lambda: f"{what} refuses ({got}); should be {required}")


# -- inputs --------------------------------------------------------------------

def flats(tier):
    n = BOUNDS[tier]['flat']
    for k in range(n + 1):
        pool = ATOMS if k < 4 else SMALL
        for t in itertools.product(pool, repeat=k):
            yield ['t', *t]
            if k < 3:
                yield ['l', *t]
    yield from ATOMS


def nested(tier, first):
    """Collections of at least one collection."""
    b = BOUNDS[tier]
    inner = [['t', *t] for k in range(b['inner'] + 1) for t in itertools.product(SMALL, repeat=k)]
    pool = list(SMALL) + inner
    for k in range(1, b['outer'] + 1):
        for t in itertools.product(pool if k < 3 else trimmed(pool), repeat=k - 1):
            x = ['t', first, *t]
            if any(kind(i) == 'seq' for i in x[1:]):
                yield x


def trimmed(pool):
    """A third of the nested items, with one of each form."""
    keep = [p for p in pool if kind(p) != 'seq']
    seen = set()
    for p in pool:
        if kind(p) == 'seq':
            form = tuple(kind(i) for i in p[1:])
            if form not in seen or form == ('num', 'unit'):
                seen.add(form)
                keep.append(p)
    return keep


DEEP = (['t', '1', '2.5'], ['t', '1', 'm'], ['l', ['t', '1', '2.5'], 'm'],
        ['t', ['t', '1', 'm'], ['t', '2.5', 'm']], '1', 'm', '"5', 'Um', ['l'],
        ['t', ['t', '1', 'cm'], ['t', '2.5', 'm']], ['t', ['l', '1'], ['l', '2.5']],
        ['a', '1', '2.5'])


def deep(tier):
    n = BOUNDS[tier]['deep']
    for k in range(1, n):
        for t in itertools.product(DEEP if k < 3 else DEEP[:8], repeat=k):
            for wrap in ((), ('l',), ('t', 'l')):
                x = ['t', *t]
                for w in wrap:
                    x = [w, x]
                yield x


ODD = ['dict', 'bytes', 'set', 'range', 'array', 'array2', 'object', 'ellipsis', 'range+unit',
       'dict+unit', 'emptydict', 'string', 'unit', 'text']


def odd(name, cx):
    """Objects that are not lists, tuples, numbers or text."""
    from eprempy import metric, quantity
    made = {
        'dict': {'a': 1, 'b': 2}, 'bytes': b'12', 'set': {3}, 'range': range(1, 4),
        'array': np.array([1., 2.]), 'array2': np.array([[1., 2.], [3., 4.]]),
        'object': object(), 'ellipsis': ..., 'range+unit': (range(1, 3), 'm'),
        'dict+unit': ({1: 2}, 'm'), 'emptydict': {}, 'string': 'm s', 'unit': metric.unit('m'),
        'text': ('one', 'two'),
    }[name]
    right = {'set': ([3.], '1'), 'range': ([1., 2., 3.], '1'), 'array': ([1., 2.], '1'),
             'range+unit': ([1., 2.], 'm'), 'array2': ([1., 2., 3., 4.], '1')}.get(name)
    case = {'odd': name}
    with cx.case(case):
        cx.state(name)
        s, m = attempt(quantity.measure, made)
        if s == 'ok':
            cx.require(right is not None and matches(m.data, m.unit, [right]), case, f"measured as {m!r}")
        else:
            cx.require(right is None or name in ('array2', 'set'), case, f"refused: {m}")
        q = quantity.ismeasurable(made)
        cx.require(q in (True, False), case, f"ismeasurable gives {q!r}")
        if right is None:
            cx.require(not q, case, "ismeasurable is true")
        h = quantity.hasdata(made)
        cx.require(h is (quantity.getdata(made) is not None), case, "hasdata and getdata disagree")
        if right is None:
            cx.require(not h, case, f"has data {quantity.getdata(made)!r}")
        quantity.isindexlike(made)
        cx.outcome((name, s, q, h))
        cx.step(4)


# -- measured objects ----------------------------------------------------------

REPS = {
    # name: (the argument, its values)
    'int': (2, [2]), 'float': (2.5, [2.5]), 'f32': (np.float32(1.5), [1.5]),
    'i64': (np.int64(3), [3]), 'list1': ([4], [4]), 'tuple1': ((4.5,), [4.5]),
    'array1': (np.array([6.]), [6]), 'list2': ([1, 2], [1, 2]),
    'tuple3': ((1.5, -2, 0), [1.5, -2, 0]), 'array3': (np.array([3., 1., 2.]), [3, 1, 2]),
    'range': (range(1, 4), [1, 2, 3]), 'nested': ([[1, 2], [3, 4]], [1, 2, 3, 4]),
    'array2': (np.array([[1., 2., 5.], [3., 4., 6.]]), [1, 2, 5, 3, 4, 6]),
    'zero': (0, [0]), 'neg': (-1.5, [-1.5]), 'ints': (np.array([5, 7, 9], dtype='i4'), [5, 7, 9]),
    # Arrays whose memory is not what they show.
    'fortran': (lambda: np.array([[1., 2., 5.], [3., 4., 6.]], order='F'), [1, 2, 5, 3, 4, 6]),
    'transposed': (lambda: np.array([[1., 3.], [2., 4.], [5., 6.]]).T, [1, 2, 5, 3, 4, 6]),
    'reversed': (lambda: np.array([3., 2., 1.])[::-1], [1, 2, 3]),
    'strided': (lambda: np.array([1., 0., 2., 0., 3.])[::2], [1, 2, 3]),
    'swapped': (lambda: np.array([1., 2., 3.], dtype='>f8'), [1, 2, 3]),
    'unsigned': (lambda: np.array([1, 2, 3], dtype='u1'), [1, 2, 3]),
    'fraction': ([F(1, 2), F(-3, 4)], [0.5, -0.75]), 'mixed': ([1, 2.5, F(1, 4)], [1, 2.5, 0.25]),
}
UNITARGS = {None: '1', '1': '1', 'm': 'm', 'Um': 'm', 'Em / s': 'm / s', 'cm': 'cm', 'J': 'J', 'deg': 'deg'}
TARGETS = {'m': ('m', 'cm', 'km', 'au', 'Um', 'm'), 'cm': ('m', 'cm', 'Mm'), 'J': ('erg', 'eV', 'J'),
           'm / s': ('km / s', 'cm s^-1', 'm / s'), 'deg': ('rad', 'deg'), '1': ('1',)}
SPELL = {'m / s': 'm s^-1', 'km / s': 'km s^-1', 'cm / s': 'cm s^-1'}
INCONSISTENT = {'m': 's', 'cm': 'J', 'J': 'm', 'm / s': 'm', 'deg': 's', '1': 'm'}
SUBSCRIPTS = [0, 1, -1, 2, -3, 5, -9, 's:,,', 's:0,1,', 's:1,,', 's:,-1,', 's:,,-1', 's:,,2', 's:5,,',
              's:-2,,', 'l:0', 'l:1,0', 'a:0,0', 'b', 'n1']
MAKERS = ('value', 'sequence', 'measurement', 'scalar', 'vector')


def maker(name):
    from eprempy import measured, physical, quantity
    return {'value': measured.value, 'sequence': measured.sequence,
            'measurement': quantity.measurement, 'scalar': physical.scalar,
            'vector': physical.vector}[name]


def unitarg(u):
    from eprempy import metric, symbolic
    if u is None:
        return None
    if u[0] == 'U':
        return metric.unit(u[1:])
    if u[0] == 'E':
        return symbolic.expression(u[1:])
    return u


def subscript(s, n):
    if isinstance(s, int):
        return s
    if s == 'b':
        return np.array([i % 2 == 0 for i in range(n)])
    if s == 'n1':
        return np.int64(1)
    form, _, text = s.partition(':')
    v = [int(i) if i else None for i in text.split(',')]
    if form == 's':
        return slice(*v)
    return v if form == 'l' else np.array(v)


def close(a, b):
    """Equal to within the precision of single-precision numbers."""
    return U.close(a, b, 1e-6)


def objects(rep, cx):
    """Everything that can be done with a measured object."""
    from eprempy import measured, metric, quantity
    for name in MAKERS:
        for u, want in UNITARGS.items():
            arg, values = REPS[rep]
            arg = arg() if callable(arg) else arg.copy() if isinstance(arg, np.ndarray) else arg
            case = {'objects': rep, 'maker': name, 'unit': u}
            with cx.case(case):
                cx.state((rep, name, u))
                s, x = attempt(maker(name), arg, unit=unitarg(u))
                cx.step()
                if s != 'ok':
                    single = name in ('value', 'scalar')
                    scalar = name == 'vector' and np.ndim(arg) != 1
                    # A measurement holds integers or floating-point numbers.
                    other = name == 'measurement' and rep in ('fraction', 'mixed')
                    cx.require(single and len(values) > 1 or scalar or other, case, f"refused: {x}")
                    continue
                cx.require(name not in ('value', 'scalar') or len(values) == 1, case, f"created {x!r}")
                cx.require(flat(x.data) == values and same(x.unit, want), case, f"created {x!r}")
                cx.require(x.isunitless is (want == '1'), case, f"isunitless is {x.isunitless}")
                if isinstance(arg, np.ndarray) and name != 'vector':
                    arg[...] = -77
                    cx.require(flat(x.data) == values, case, "an object shares memory with its argument")
                cx.outcome((name, values, want))
                again(x, values, want, case, cx)
                if name in ('value', 'scalar') or name == 'measurement' and len(values) == 1:
                    casts(x, values[0], case, cx)
                elif name == 'measurement':
                    for t in (int, float, complex):
                        cx.require(attempt(t, x)[0] == 'refused', case, f"{t.__name__} of {x!r} has a value")
                if name not in ('value', 'scalar') and np.ndim(x.data) == 1:
                    items(x, name, values, want, case, cx)
                convert(x, values, want, case, cx)
                cx.trace()


def again(x, values, unit, case, cx):
    """Create objects from an object."""
    from eprempy import measured, quantity
    m = quantity.measure(x)
    cx.require(isinstance(m, quantity.Measurement) and flat(m.data) == values and same(m.unit, unit),
               case, f"measuring {x!r} gives {m!r}")
    s = measured.sequence(x)
    cx.require(flat(s.data) == values and same(s.unit, unit), case, f"sequence of {x!r} is {s!r}")
    st, v = attempt(measured.value, x)
    if st == 'ok':
        cx.require(len(values) == 1 and flat(v.data) == values and same(v.unit, unit), case,
                   f"value of {x!r} is {v!r}")
    else:
        cx.require(len(values) > 1 or np.ndim(x.data) > 1 or type(x).__name__ != 'Value', case, f"no value: {v}")
    # A new unit, or another object, in the same call is refused or obeyed.
    for args in ((x, 'km'), (x, x), (x, 3)):
        st, r = attempt(quantity.measure, *args)
        cx.require(st == 'refused', case, f"measure of {args!r} gives {r!r}")
    st, r = attempt(measured.sequence, x, unit='km' if unit != 'km' else 'm')
    cx.require(st == 'refused', case, f"the unit of {x!r} became that of {r!r}")
    d = quantity.getdata(x)
    cx.require(quantity.hasdata(x) and flat(d) == values, case, f"data of {x!r}: {d!r}")
    cx.step(8)


def casts(x, v, case, cx):
    cx.require(float(x) == float(v), case, f"float is {float(x)}")
    cx.require(int(x) == int(v), case, f"int is {int(x)}")
    st, c = attempt(complex, x)
    cx.require(c == complex(v) if st == 'ok' else type(x).__name__ == 'Scalar', case, f"complex is {c}")
    cx.step(3)


def items(x, name, values, unit, case, cx):
    n = len(values)
    cx.require(len(x) == n and x.size == n, case, f"len {len(x)}, size {x.size}")
    cx.require([flat(i.data) for i in x] == [[v] for v in values]
               and all(same(i.unit, unit) for i in x), case, f"items are {list(x)!r}")
    cx.require(flat(np.array(x)) == values, case, f"array is {np.array(x)!r}")
    for i in x:
        cx.require(i in x, case, f"{i!r} not in {x!r}")
    for s in SUBSCRIPTS:
        sub = subscript(s, n)
        try:
            want = np.array(values, dtype=float)[sub]
        except IndexError:
            want = None
        try:
            got = x[sub]
        except IndexError:
            cx.require(want is None, case, f"subscript {s}: refused")
            continue
        cx.step()
        cx.require(want is not None and flat(got.data) == flat(want) and same(got.unit, unit),
                   case, lambda: f"subscript {s} of {x!r}: {got!r}")
    cx.require(flat(x.data) == values, case, f"subscripts changed {x!r}")


def convert(x, values, unit, case, cx):
    for t in TARGETS[unit]:
        target = unitarg(t)
        name = t[1:] if t[0] == 'U' else t
        got = x.withunit(target)
        f = U.canonical(SPELL.get(unit, unit))[0] / U.canonical(SPELL.get(name, name))[0]
        cx.require(type(got) is type(x) and same(got.unit, name)
                   and all(close(a, b * f) for a, b in zip(flat(got.data), values))
                   and np.shape(got.data) == np.shape(x.data),
                   case, lambda: f"{x!r} in {t} is {got!r}")
        back = got.withunit(unit)
        cx.require(all(close(a, b) for a, b in zip(flat(back.data), values)) and same(back.unit, unit),
                   case, lambda: f"{x!r} via {t} is {back!r}")
        cx.require(flat(x.data) == values and same(x.unit, unit), case, f"conversion changed the operand: {x!r}")
        cx.step(2)
    st, r = attempt(x.withunit, INCONSISTENT[unit])
    cx.require(st == 'refused', case, f"{x!r} in {INCONSISTENT[unit]} is {r!r}")
    if unit != '1':
        for system in ('mks', 'cgs'):
            system_conversion(x, values, unit, system, case, cx)


def system_conversion(x, values, unit, system, case, cx):
    from eprempy import metric
    try:
        got = x.withunit(system)
    except metric.UnitConversionError:
        return
    f, d = U.canonical(SPELL.get(unit, unit))
    text = str(got.unit)
    g, e = U.canonical(SPELL.get(text, text))
    cx.require(d == e and all(close(a * g, b * f) for a, b in zip(flat(got.data), values)),
               case, lambda: f"{x!r} in {system} is {got!r}")


PAIR = ([1], [2], [1, 2], [2, 1], [1, 2, 3], [1.5], [])


def pairs(cx):
    """Equality of every pair of objects."""
    from eprempy import measured, quantity
    made = []
    for v in PAIR:
        for u in ('m', 'cm', 'm / s', '1'):
            for name in ('value', 'sequence', 'measurement'):
                if name == 'value' and len(v) != 1:
                    continue
                made.append((name, tuple(v), u, maker(name)(v[0] if name == 'value' else v, unit=u)))
    for a, b in itertools.product(made, repeat=2):
        case = {'equal': [a[:3], b[:3]]}
        with cx.case(case):
            cx.step()
            equal = a[3] == b[3]
            cx.state((a[:3], b[:3]))
            cx.require((a[3] != b[3]) is not equal, case, "== and != agree")
            cx.require((b[3] == a[3]) is equal, case, "equality is not symmetric")
            if a[1:3] == b[1:3]:
                if a[0] == b[0]:
                    cx.require(equal, case, "equal objects differ")
            else:
                cx.require(not equal, case, "different objects are equal")
            cx.outcome(equal)
    for a in made:
        for other in (1, 'm', None, [1], (1, 'm')):
            with cx.case({'equal': [a[:3], repr(other)]}):
                cx.require(not a[3] == other, {'equal': [a[:3], repr(other)]}, "equal to a foreign object")


def shards(tier):
    pool = list(SMALL) + [['t', *t] for k in range(BOUNDS[tier]['inner'] + 1)
                          for t in itertools.product(SMALL, repeat=k)]
    k = 16
    out = [{'flat': i, 'of': k} for i in range(k)]
    out += [{'nested': p} for p in pool]
    out += [{'deep': i, 'of': 8} for i in range(8)]
    out += [{'objects': r} for r in REPS]
    out += [{'odd': True}, {'pairs': True}]
    return out


def run_shard(shard, cx):
    tier = cx.tier
    if 'flat' in shard:
        for n, x in enumerate(flats(tier)):
            if n % shard['of'] == shard['flat']:
                one(x, cx)
    elif 'nested' in shard:
        for x in nested(tier, shard['nested']):
            one(x, cx)
    elif 'deep' in shard:
        for n, x in enumerate(deep(tier)):
            if n % shard['of'] == shard['deep']:
                one(x, cx)
    elif 'objects' in shard:
        objects(shard['objects'], cx)
    elif 'odd' in shard:
        for name in ODD:
            odd(name, cx)
    else:
        pairs(cx)


def replay(case, cx):
    if 'parse' in case:
        one(case['parse'], cx)
    elif 'odd' in case:
        odd(case['odd'], cx)
    elif 'objects' in case:
        objects(case['objects'], cx)
    else:
        pairs(cx)
