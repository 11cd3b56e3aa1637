"""C09: physical quantities have one consistent meaning in every metric system.

Every defined quantity, every product, ratio and power of two or three of them,
under every spelling, must have the unit and the dimension that follow from an
independent table of physical dimensions; every unit must belong to the quantity,
the dimension and the canonical unit that the same table gives; equality and
equivalence must be those of the dimensions, for all pairs; every sequence of
requests up to a length, in a process that has made none before, must agree.
"""

from fractions import Fraction as F
import itertools
import json
import os
import subprocess
import sys

from .. import symref as S
from .. import unitref as U
from .c08 import COUNTS, ELECTRIC, NATIVE, names, same, value
from . import c08

ID = 'C09'
LEVEL = 'model_checking'
RULE = (
    "all quantities; all pairs of quantities x operations; all trees of `depth` "
    "operations on a core set x powers; all units x systems x requests; all named "
    "units x prefixes; all sequences of `length` requests x hash seeds"
)
BOUNDS = {
    'quick': {'depth': 2, 'length': 2, 'seeds': 2, 'prefixes': ['k', 'm', 'M', 'u']},
    'thorough': {'depth': 3, 'length': 3, 'seeds': 8,
                 'prefixes': [p for p in U.PREFIX if p != 'μ']},
}
ASSUMPTIONS = [
    "CGS quantities of electromagnetism are Gaussian",
    "angles, counts and nucleons are dimensionless",
    "the canonical unit of radioactivity in CGS is the curie, as documented in its table",
]

# Dimensions in MKS and, where Gaussian quantities differ, in CGS.
MECHANICAL = {
    'acceleration': 'L T^-2', 'amount': 'N', 'area': 'L^2', 'dosage': 'L^2 T^-2',
    'energy': 'M L^2 T^-2', 'energy density': 'M L^-1 T^-2',
    'fluence': 'T^2 M^-1 L^-4', 'flux': 'T M^-1 L^-4', 'force': 'M L T^-2',
    'frequency': 'T^-1', 'identity': '1', 'illuminance': 'J L^-2',
    'integral flux': 'T^-1 L^-2', 'length': 'L', 'luminous flux': 'J',
    'luminous intensity': 'J', 'mass': 'M', 'mass density': 'M L^-3',
    'mass number': '1', 'momentum': 'M L T^-1', 'momentum density': 'M L^-2 T^-1',
    'number': '1', 'number density': 'L^-3', 'particle distribution': 'T^3 L^-6',
    'particle fluence': 'T^2 M^-1 L^-4', 'particle flux': 'T M^-1 L^-4',
    'plane angle': '1', 'power': 'M L^2 T^-3', 'power density': 'M L^-1 T^-3',
    'pressure': 'M L^-1 T^-2', 'radioactivity': 'T^-1', 'rate': 'T^-1', 'ratio': '1',
    'temperature': 'H', 'thermal conductivity': 'M L T^-3 H^-1', 'time': 'T',
    'solid angle': '1', 'speed': 'L T^-1', 'velocity': 'L T^-1',
    'viscosity': 'M L^-1 T^-1', 'volume': 'L^3', 'vorticity': 'T^-1',
    'wavenumber': 'L^-1', 'work': 'M L^2 T^-2',
}
GAUSSIAN = {
    'capacitance': ('T^4 I^2 M^-1 L^-2', 'L'),
    'charge': ('I T', 'M^1/2 L^3/2 T^-1'),
    'charge density': ('I T L^-3', 'M^1/2 L^-3/2 T^-1'),
    'conductance': ('T^3 I^2 M^-1 L^-2', 'L T^-1'),
    'conductivity': ('T^3 I^2 M^-1 L^-3', 'T^-1'),
    'current': ('I', 'M^1/2 L^3/2 T^-2'),
    'current density': ('I L^-2', 'M^1/2 L^-1/2 T^-2'),
    'displacement': ('I T L^-2', 'M^1/2 L^-1/2 T^-1'),
    'electric charge': ('I T', 'M^1/2 L^3/2 T^-1'),
    'electric field': ('M L T^-3 I^-1', 'M^1/2 L^-1/2 T^-1'),
    'electromotance': ('M L^2 T^-3 I^-1', 'M^1/2 L^1/2 T^-1'),
    'impedance': ('M L^2 T^-3 I^-2', 'T L^-1'),
    'inductance': ('M L^2 T^-2 I^-2', 'T^2 L^-1'),
    'induction': ('M T^-2 I^-1', 'M^1/2 L^-1/2 T^-1'),
    'magnetic field': ('M T^-2 I^-1', 'M^1/2 L^-1/2 T^-1'),
    'magnetic flux': ('M L^2 T^-2 I^-1', 'M^1/2 L^3/2 T^-1'),
    'magnetic induction': ('M T^-2 I^-1', 'M^1/2 L^-1/2 T^-1'),
    'magnetic intensity': ('I L^-1', 'M^1/2 L^-1/2 T^-1'),
    'magnetic moment': ('I L^2', 'M^1/2 L^5/2 T^-1'),
    'magnetization': ('I L^-1', 'M^1/2 L^-1/2 T^-1'),
    'magnetomotance': ('I', 'M^1/2 L^3/2 T^-2'),
    'permeability': ('M L T^-2 I^-2', '1'),
    'permittivity': ('T^4 I^2 M^-1 L^-3', '1'),
    'polarization': ('I T L^-2', 'M^1/2 L^-1/2 T^-1'),
    'potential': ('M L^2 T^-3 I^-1', 'M^1/2 L^1/2 T^-1'),
    'reluctance': ('I^2 T^2 M^-1 L^-2', 'L^-1'),
    'resistance': ('M L^2 T^-3 I^-2', 'T L^-1'),
    'resistivity': ('M L^3 T^-3 I^-2', 'T'),
    'vector potential': ('M L T^-2 I^-1', 'M^1/2 L^1/2 T^-1'),
}
TABLE = {q: (d, d) for q, d in MECHANICAL.items()}
TABLE.update(GAUSSIAN)
SYSTEMS = ('mks', 'cgs')
LETTERS = 'LMTIHNJ'
OHMIC = {'impedance', 'resistance', 'resistivity'}
"""Quantities with a listed finding about their dimensions."""


def vector(text):
    powers = S.read(str(text))[1]
    assert set(powers) <= set(LETTERS), text
    return tuple(F(powers.get(c, 0)).limit_denominator(1000) for c in LETTERS)


TABLE = {q: tuple(vector(d) for d in ds) for q, ds in TABLE.items()}
FOUND = {q: (tuple(v - F(w) * -1 if c == 'I' else v for c, v, w in
                   zip(LETTERS, d[0], (0, 0, 0, 1, 0, 0, 0))), d[1])
         if q in OHMIC else d for q, d in TABLE.items()}
"""The table with that finding, against which compounds are compared."""


def coherent(d, system):
    """The size of the coherent unit of this dimension."""
    if system == 'mks':
        return 1.0
    return 100.0 ** -float(d[0]) * 1000.0 ** -float(d[1])


def activity(text):
    """How often radioactivity contributes to the size, in CGS."""
    powers = S.read(text)[1]
    return 3.7e10 ** float(powers.get('Ci', 0))


def combine(terms):
    """The dimensions of a product of powers of quantities."""
    out = []
    for i in (0, 1):
        out.append(tuple(sum(e * FOUND[q][i][j] for q, e in terms) for j in range(7)))
    return tuple(out)


CORE = ['length', 'time', 'mass', 'magnetic field', 'charge', 'energy density', 'flux',
        'plane angle']


def shards(tier):
    n = 16
    b = BOUNDS[tier]
    out = [{'kind': 'pairs', 'part': [i, n], 'tier': tier} for i in range(n)]
    out += [{'kind': 'units', 'part': [i, n], 'tier': tier} for i in range(n)]
    out += [{'kind': 'trees', 'first': q, 'tier': tier} for q in CORE]
    out += [{'kind': k, 'tier': tier} for k in ('table', 'named', 'unknown')]
    out += [{'kind': 'history', 'seed': s, 'tier': tier} for s in range(b['seeds'])]
    return out


def run_shard(shard, cx):
    kind, tier = shard['kind'], shard['tier']
    b = BOUNDS[tier]
    if kind == 'table':
        table(cx)
    elif kind == 'pairs':
        k, n = shard['part']
        if tier == 'thorough':
            pairs = itertools.product(TABLE, repeat=2)
        else:
            pairs = itertools.combinations_with_replacement(TABLE, 2)
        for i, (p, q) in enumerate(pairs):
            if i % n == k:
                check_pair(cx, p, q)
    elif kind == 'trees':
        for rest in itertools.product(CORE, repeat=b['depth']):
            for ops in itertools.product('*/', repeat=b['depth']):
                check_tree(cx, [shard['first'], *rest], ops)
    elif kind == 'units':
        k, n = shard['part']
        all = units(b['prefixes'])
        for u in all[k::n]:
            check_unit(cx, u)
    elif kind == 'named':
        named(cx, b['prefixes'])
    elif kind == 'unknown':
        unknown(cx)
    else:
        history(cx, b['length'], shard['seed'])


def units(prefixes):
    out = c08.PLAIN + ['Ω'] + c08.COMPOUNDS
    for p in prefixes:
        out = out + [p + x for x in PREFIXABLE]
        out = out + [f'{p}m s^-1', f'cm^-2 sr^-1 s^-1 {p}eV^-1', f'{p}G cm', f'{p}V m^-1',
                     f'{p}g^1/2 cm^1/2 s^-1', f'{p}J cm^-3']
    return [u for u in dict.fromkeys(out) if valid(u)]


def valid(u):
    try:
        return value(u) is not None
    except KeyError:
        return False


PREFIXABLE = ['m', 'g', 's', 'J', 'eV', 'T', 'G', 'V', 'A', 'C', 'N', 'Pa', 'W', 'F', 'S',
              'H', 'Wb', 'K', 'mol', 'Hz', 'Bq', 'Ci', 'erg', 'dyn', 'statC', 'statV',
              'Mx', 'Oe', 'Gy', 'P', 'nuc']


def dims(x):
    return None if x is None else vector(x)


def check_quantity(cx, case, text, expected, key=None):
    """Unit and dimension of some quantity in both systems."""
    from eprempy import metric
    q = metric.quantity(text)
    cx.require(metric.quantity(text.upper()) is q and metric.quantity(q) is q, case,
               f"{text!r} is not the same quantity in upper case")
    cx.require(q == text and q == text.upper() and text == q, case, f"{q} != {text!r}")
    cx.require(q.name == text.lower(), case, f"name {q.name!r}")
    for i, system in enumerate(SYSTEMS):
        found = q[system]
        unit = str(found.unit)
        where = f"in {system}, {text!r}"
        cx.require(found == q[system.upper()], case, f"{where} differs in upper case")
        cx.require(found == metric.system(system)[text] == metric.system(system)[q], case,
                   f"{where} differs when requested from the system")
        for name, d in (('dimension', found.dimension), ('dimensions', q.dimensions[system])):
            if d is None or dims(d) != expected[i]:
                cx.fail(case, f"{where} has {name} {d}, expected {show(expected[i])}", key)
                return False
        v = value(unit)
        if v is None:
            cx.fail(case, f"{where} has unit {unit}", key)
            return False
        ohms = F(S.read(unit)[1].get('Ω', 0)).limit_denominator(1000)
        d = tuple(x - (-ohms if c == 'I' else 0) for c, x in zip(LETTERS, v[1]))
        cx.require(d == expected[i] or v[1] == expected[i], case,
                   f"{where} has unit {unit}, expected dimension {show(expected[i])}")
        want = coherent(v[1], system) * activity(unit)
        cx.require(U.close(v[0], want), case,
                   f"{where} has unit {unit}, which is not coherent", key)
        cx.require(metric.unit(q.units[system]) is found.unit, case,
                   f"{where} has units {q.units[system]!r} and {unit}")
        cx.require(metric.system(system).get_unit(quantity=text) is found.unit, case,
                   f"{where} has another unit on request")
        cx.outcome([system, unit, str(found.dimension)])
    return True


def show(d):
    return ' '.join(f'{c}^{x}' for c, x in zip(LETTERS, d) if x) or '1'


def table(cx):
    """Every defined quantity, and the mapping interface to a system."""
    from eprempy import metric
    for q in TABLE:
        key = f'dimension of {q}' if q in OHMIC else None
        case = {'kind': 'table', 'quantity': q}
        with cx.case(case):
            cx.step()
            check_quantity(cx, case, q, TABLE[q], key)
            for alias in (q.replace(' ', '_'), q.title()):
                for s in SYSTEMS:
                    cx.require(metric.quantity(alias)[s] == metric.quantity(q)[s], case,
                               f"{alias!r} differs from {q!r} in {s}")
            for p in (2, 3, -1, F(1, 2), F(-3, 2)):
                terms = [(q, F(p))]
                check_quantity(cx, case, f'{q.replace(" ", "_")}^{p}', combine(terms))
            cx.state(q)
    for s in SYSTEMS:
        case = {'kind': 'system', 'system': s}
        with cx.case(case):
            cx.step()
            system = metric.system(s)
            cx.require(metric.system(s.upper()) is system and metric.system(system) is system,
                       case, "not a singleton")
            cx.require(system == s and system == s.title() and str(system) == s, case, "name")
            cx.require(not any(system == t for t in SYSTEMS if t != s), case, "equality")
            cx.require(set(system) == set(TABLE) and len(system) == len(TABLE), case,
                       f"quantities {set(system) ^ set(TABLE)}")
            cx.require(set(system.keys()) == set(TABLE), case, "keys")
            for q, found in system.items():
                cx.require(found == metric.quantity(q)[s], case, f"item {q!r}")
                cx.require(q in system and system.get(q) == found, case, f"get {q!r}")
                cx.require(system.units[q] == metric.quantity(q).units[s], case, "units")
                cx.require(system.dimensions[q] == metric.quantity(q).dimensions[s], case,
                           "dimensions")
            # Every dimension belongs to a set of quantities.
            for q, ds in FOUND.items():
                i = SYSTEMS.index(s)
                d = metric.Dimension(show(ds[i]))
                same = {p for p, es in FOUND.items() if es[i] == ds[i]}
                cx.require(set(d.quantities(s)) == same, case,
                           f"{d} belongs to {d.quantities(s)}, expected {same}")
                for spelled in (show(ds[i]), d, metric.quantity(q).dimensions[s]):
                    u = system.get_unit(dimension=spelled)
                    belongs = {str(metric.quantity(p)[s].unit) for p in same}
                    cx.require(str(u) in belongs, case, f"{spelled} has unit {u}")


def check_pair(cx, p, q):
    from eprempy import metric
    case = {'kind': 'pair', 'p': p, 'q': q}
    with cx.case(case):
        cx.step()
        x, y = p.replace(' ', '_'), q.replace(' ', '_')
        for text, terms in (
            (f'{p} * {q}', [(p, 1), (q, 1)]), (f'{p} / {q}', [(p, 1), (q, -1)]),
            (f'{y} / {x}', [(q, 1), (p, -1)]),
            (f'({x} / {y})^2', [(p, 2), (q, -2)]),
            (f'{x}^-1 {y}^1/2', [(p, -1), (q, F(1, 2))]),
        ):
            if not check_quantity(cx, case, text, combine(terms)):
                return
        a, b = metric.quantity(p), metric.quantity(q)
        alike = all(FOUND[p][i] == FOUND[q][i] for i in (0, 1))
        cx.require((a | b) is alike and (b | a) is alike, case,
                   f"{p} | {q}: {a | b}, expected {alike}")
        cx.require((a == b) is (p == q) and (a != b) is (p != q), case, f"{p} == {q}")
        for (i, s), (j, t) in itertools.product(enumerate(SYSTEMS), repeat=2):
            x, y = a[s], b[t]
            alike = FOUND[p][i] == FOUND[q][j] and x.unit == y.unit
            cx.require((x == y) is alike and (x != y) is not alike, case,
                       f"{p} in {s} ({x}) == {q} in {t} ({y}): {x == y}")
        same = metric.quantity(f'{p} * {q}') | metric.quantity(f'{q} * {p}')
        cx.require(same, case, "the order of a product matters")
        if p == q:
            cx.require(metric.quantity(f'{p} / {q}') | metric.quantity('identity'), case,
                       f"{p} / {q} is not a number")
        for i, s in enumerate(SYSTEMS):
            if s == 'mks' and {p, q} & OHMIC:
                continue # The finding changes the units of products, too.
            compound = metric.quantity(f'{p} / {q}')[s]
            product = a[s].unit / b[s].unit
            cx.require(same_unit(compound.unit, product), case,
                       f"in {s}, unit {compound.unit}, expected {product}")
        check_factor(cx, case, p, q)
        cx.state([show(d) for d in combine([(p, 1), (q, -1)])])


def same_unit(u, v):
    return same(value(str(u)), value(str(v)))


def check_factor(cx, case, p, q):
    """Conversions between the systems, of mechanical quantities."""
    from eprempy import metric
    if p not in MECHANICAL or q not in MECHANICAL:
        return
    if {'illuminance', 'luminous flux'} & {p, q}:
        return # See C07.
    text = f'{p} * {q}'
    d = combine([(p, 1), (q, 1)])[0]
    handler = metric.quantity(text)
    for source, target in (('mks', 'cgs'), ('cgs', 'mks')):
        units = [str(metric.quantity(text)[s].unit) for s in (source, target)]
        want = value(units[0])[0] / value(units[1])[0]
        got = float(handler.convert(source).to(target))
        cx.require(U.close(got, want), case,
                   f"{text!r} from {source} to {target}: {got}, expected {want}")


def check_tree(cx, operands, ops):
    """Nested products and ratios."""
    case = {'kind': 'tree', 'operands': operands, 'ops': list(ops)}
    with cx.case(case):
        cx.step()
        for nest in ('left', 'right'):
            if nest == 'left':
                text, terms = operands[0].replace(' ', '_'), [(operands[0], 1)]
                for op, q in zip(ops, operands[1:]):
                    text = f'({text}) {op} {q.replace(" ", "_")}'
                    terms = terms + [(q, 1 if op == '*' else -1)]
            else:
                text, terms = operands[-1].replace(' ', '_'), [(operands[-1], 1)]
                for op, q in zip(ops[::-1], operands[-2::-1]):
                    text = f'{q.replace(" ", "_")} {op} ({text})'
                    sign = 1 if op == '*' else -1
                    terms = [(q, 1)] + [(t, sign * e) for t, e in terms]
            if not check_quantity(cx, case, text, combine(terms)):
                return
        cx.state(text)


def defined(text):
    """The systems in which some unit has a dimension."""
    out = set()
    for t in names(text):
        out |= membership(t)
    return out


ONLY = {
    'mks': {'J', 'N', 'Pa', 'W', 'C', 'A', 'V', 'Ω', 'S', 'F', 'Wb', 'H', 'T', 'Bq', 'Gy'},
    'cgs': {'erg', 'dyn', 'P', 'Ci', 'G', 'Mx', 'Oe', 'statC', 'statA', 'statV'},
}
NEITHER = {'e'}


def membership(t):
    for s, members in ONLY.items():
        if t in members:
            return {s}
    return {'mks', 'cgs'}


def check_unit(cx, u):
    """Dimension, canonical unit and quantity of one unit."""
    from eprempy import metric
    case = {'kind': 'unit', 'unit': u}
    with cx.case(case):
        cx.step()
        unit = metric.unit(u)
        q = metric.quantity(str(unit.quantity))
        involved = names(u)
        v = value(u)
        for i, s in enumerate(SYSTEMS):
            system = metric.system(s)
            where = f"in {s}, {u!r}"
            # Its dimension.
            try:
                d = system.get_dimension(u)
            except ValueError:
                d = None
            cx.require(d == unit.dimensions[s], case,
                       f"{where} has dimensions {d} and {unit.dimensions[s]}")
            cx.require((d is not None) is (s in defined(u)), case,
                       f"{where} has dimension {d}")
            if d is not None and 'Ω' not in involved:
                cx.require(isinstance(d, metric.Dimension), case, f"{type(d)}")
                cx.require(d == system.get_dimension(unit), case, f"{where}: two dimensions")
                if involved & NEITHER:
                    want = q.dimensions[s]
                    cx.require(dims(d) == dims(want), case, f"{where}: {d}, {want}")
                else:
                    cx.require(dims(d) == v[1], case,
                               f"{where} has dimension {d}, expected {show(v[1])}")
            # Its canonical unit.
            for spelled in (u, unit, str(unit)):
                got = system.get_unit(unit=spelled)
                cx.require(got is unit.normalize(s), case, f"{where} became {got}")
            cx.require(got is q[s].unit or same_unit(got, q[s].unit), case,
                       f"{where} became {got}, but the unit of {q} is {q[s].unit}")
            f = value(str(got))
            if f is None:
                cx.fail(case, f"{where} became {got}")
                continue
            want = coherent(f[1], s) * activity(str(got))
            cx.require(U.close(f[0], want), case, f"{where} became {got}")
            if not involved & (ELECTRIC | set(NATIVE)):
                cx.require(f[1] == v[1], case, f"{where} became {got}")
            again = system.get_unit(unit=got)
            cx.require(same_unit(again, got), case, f"{where} became {got}, then {again}")
            other = metric.system(SYSTEMS[1 - i]).get_unit(unit=unit)
            back = system.get_unit(unit=other)
            if same_quantity(unit, other):
                cx.require(same_unit(back, got), case,
                           f"{where} became {got}, but {back} via {other}")
            cx.require(system.get_unit(unit=u, dimension='L', quantity='mass') is got, case,
                       "the unit does not go first")
            cx.outcome([s, str(got), str(d)])
        cx.state(u)


def same_quantity(u, v):
    return str(u.quantity) == str(v.quantity)


def named(cx, prefixes):
    """Every named unit with its prefix: scale, reduction, ratios."""
    from eprempy import metric
    symbols = [(p, x) for x in PREFIXABLE for p in ['', *prefixes] if valid(p + x)
               and not (p and p + x in U.BASE)]
    for p, x in symbols:
        text = p + x
        case = {'kind': 'named', 'unit': text}
        with cx.case(case):
            cx.step()
            n = metric.NamedUnit(text)
            name = n.name
            cx.require(metric.NamedUnit(name) is n and metric.NamedUnit(n) is n, case,
                       f"{name!r} is another unit")
            cx.require(n == text and n == name and hash(n) == hash(metric.NamedUnit(name)),
                       case, "equality with its names")
            cx.require(U.close(n.scale, U.PREFIX[p]), case, f"scale {n.scale}")
            factor, dim = value(text)
            base = value(x)[0]
            for r in ['', *prefixes]:
                if r and r + x in U.BASE or not valid(r + x):
                    continue
                want = U.PREFIX[p] / U.PREFIX[r]
                for how, got in (
                    ('>>', n >> (r + x)), ('<< back', metric.NamedUnit(r + x) << n),
                    ('ratio', metric.ratio(text, r + x)), ('reflected', text >> metric.NamedUnit(r + x)),
                ):
                    cx.require(U.close(got, want), case, f"{how} {r + x}: {got}, not {want}")
                cx.require(U.close(n << (r + x), 1 / want), case, f"<< {r + x}")
                cx.require((n == r + x) is (U.PREFIX[p] == U.PREFIX[r]), case,
                           f"equality with {r + x}")
                cx.step()
            for s in SYSTEMS:
                cx.require(n.is_allowed_in(s) is (s in membership(x)), case, f"allowed in {s}")
                cx.require(set(n.systems['allowed']) == membership(x), case, "systems")
                reduction = n.reduce(s)
                if reduction is None:
                    cx.require(not n.is_defined_in(s), case, f"not reduced in {s}")
                    continue
                check_reduction(cx, case, reduction, factor, dim, s)
                check_reduction(cx, case, 2 * reduction, 2 * factor, dim, s)
                check_reduction(cx, case, reduction / 4, factor / 4, dim, s)
                for e in (2, -1, 0.5):
                    powered = tuple(v * F(e) for v in dim)
                    check_reduction(cx, case, reduction ** e, factor ** e, powered, s)
                    check_reduction(cx, case, 3 * reduction ** e * 2, 6 * factor ** e,
                                    powered, s)
                cx.step(9)
            if (parts := n.decomposed) is not None:
                f, d = value(' '.join(str(t) for t in parts))
                if n.scale == 1 or x in ('m', 'g'):
                    cx.require(U.close(f, factor) and d == dim, case, f"decomposed: {parts}")
            cx.state(text)


def check_reduction(cx, case, r, factor, dim, system):
    """The scale and terms, and the text of both."""
    terms = ' '.join(str(t) for t in r.units) or '1'
    f, d = value(terms)
    cx.require(r.system == system, case, f"reduced in {r.system}")
    cx.require(U.close(r.scale * f, factor) and d == dim, case,
               f"in {system}, reduced to {r.scale} {terms}")
    text = str(r).split(' [')[0]
    c, powers = S.read(text)
    cx.require(U.close(float(c), r.scale) and powers == S.read(terms)[1], case,
               f"scale {r.scale} and terms {terms} became {text!r}")


UNKNOWN = ['nope', 'length nope', 'nope / time', 'nope^2', '', 'length /', '(length', '!',
           'lengthtime', 'energy density density']


def unknown(cx):
    """What is not a quantity is an error everywhere, and stays one."""
    from eprempy import metric
    for text in UNKNOWN:
        case = {'kind': 'unknown', 'text': text}
        with cx.case(case):
            cx.step()
            for s in SYSTEMS:
                for again in range(2):
                    system = metric.system(s)
                    cx.require(text not in system, case, f"{text!r} is a quantity in {s}")
                    cx.require(system.get(text) is None, case, "with a unit")
                    for request in (
                        lambda: system[text], lambda: system.get_unit(quantity=text),
                        lambda: metric.quantity(text)[s], lambda: metric.quantity(text).units,
                        lambda: metric.conversion('cm', s, quantity=text),
                    ):
                        try:
                            result = request()
                        except RecursionError:
                            cx.fail(case, f"{text!r} is endless")
                        except Exception as err:
                            cx.outcome([text, type(err).__name__])
                        else:
                            cx.require(False, case,
                                       f"{text!r} gave {result!r}")
    for s in SYSTEMS:
        for request in (
            {'dimension': 'L^77'}, {'dimension': 'M^1/7 T'}, {'unit': 'nope'}, {},
        ):
            case = {'kind': 'unknown', 'system': s, 'request': request}
            with cx.case(case):
                try:
                    u = metric.system(s).get_unit(**request)
                except Exception as err:
                    cx.outcome([s, type(err).__name__])
                else:
                    cx.fail(case, f"{request} gave {u!r}")


REQUESTS = [
    "metric.quantity('energy')['mks'].unit", "metric.quantity('Energy')['CGS'].unit",
    "metric.quantity('energy / time')['mks']", "metric.quantity('nope')['mks']",
    "metric.quantity('magnetic field')['cgs'].dimension",
    "metric.quantity('work') | metric.quantity('energy')",
    "metric.quantity('current') | metric.quantity('magnetomotance')",
    "metric.system('cgs').get_unit(unit='J')", "metric.system('mks').get_unit(unit='erg')",
    "metric.system('MKS').get_unit(dimension='L T^-1')",
    "metric.system('cgs').get_unit(dimension='M L^2 T^-2')",
    "metric.system('cgs').get_unit(quantity='velocity')",
    "metric.system('mks').get_dimension('T')", "metric.system('cgs').get_dimension('T')",
    "metric.system('cgs').get_dimension('eV cm^-3')",
    "metric.unit('km / s').quantity", "metric.unit('MeV / nuc').dimensions['cgs']",
    "metric.NamedUnit('kJ').reduce('mks')", "metric.NamedUnit('cm').reduce('mks')",
    "metric.NamedUnit('min').reduce()", "metric.NamedUnit('Hz').decomposed",
    "float(metric.quantity('energy density').convert('mks').to('cgs'))",
    "'pressure' in metric.system('mks')", "'nope' in metric.system('mks')",
    # The same text as a dimension, as a unit and as a quantity.
    "metric.system('mks').get_unit(dimension='T')", "metric.system('mks').get_unit(unit='T')",
    "metric.system('mks').get_unit(dimension='N')", "metric.system('mks').get_unit(unit='N')",
    "metric.system('cgs').get_unit(dimension='L')", "metric.system('cgs').get_unit(unit='L')",
    "metric.system('mks').get_unit(dimension='J')", "metric.system('mks').get_unit(unit='J')",
    "metric.system('mks').get_unit(quantity='time')", "metric.system('mks').get_unit(dimension='time')",
    "metric.system('cgs').get_dimension('G')", "metric.system('mks').get_dimension('N')",
]


def ask_fresh(sequences, seed):
    import eprempy
    env = dict(os.environ, PYTHONHASHSEED=str(seed),
               C08_SRC=os.path.dirname(os.path.dirname(eprempy.__file__)))
    done = subprocess.run(
        [sys.executable, '-W', 'ignore', '-c', c08.HELPER], env=env, check=True,
        input=json.dumps({'sequences': sequences, 'requests': REQUESTS}),
        capture_output=True, text=True, timeout=800)
    return json.loads(done.stdout)


def history(cx, length, seed, sequences=None):
    n = len(REQUESTS)
    if sequences is None:
        length = length if seed == 0 else 1
        sequences = list(itertools.product(range(n), repeat=length))
        sequences += [list(range(n)), list(range(n))[::-1]]
    alone = ask_fresh([(i,) for i in range(n)], 0)
    answers = ask_fresh(sequences, seed)
    for sequence, answer in zip(sequences, answers):
        case = {'kind': 'history', 'sequence': list(sequence), 'seed': seed}
        with cx.case(case):
            for i, got in zip(sequence, answer):
                cx.step()
                cx.require(got == alone[i][0], case,
                           f"{REQUESTS[i]} gave {got}, alone {alone[i][0]}")
            cx.state([seed, answer])


def replay(case, cx):
    kind = case['kind']
    if kind in ('table', 'system'):
        table(cx)
    elif kind == 'pair':
        check_pair(cx, case['p'], case['q'])
    elif kind == 'tree':
        check_tree(cx, case['operands'], case['ops'])
    elif kind == 'unit':
        check_unit(cx, case['unit'])
    elif kind == 'named':
        named(cx, BOUNDS['thorough']['prefixes'])
    elif kind == 'unknown':
        unknown(cx)
    else:
        history(cx, 0, case['seed'], [case['sequence']])
