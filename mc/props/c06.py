"""C06: axes answer for exactly the values that they hold.

Every short list of targets on small axes of all kinds, in every representation,
against the list of values; every short chain of subscripts against the list of
positions; every pair of small collections of axes against a dictionary; every
pair of short sequences merged; nearest values against a search.
"""

import itertools
import math

import numpy as np

ID = 'C06'
LEVEL = 'model_checking'
RULE = (
    "all axes x targets (<= `targets`) x representations x modes; all chains of "
    "<= `chain` subscripts; all pairs of collections of <= `names` axes x "
    "operations; all pairs of sequences; non-trivial: distinct answers"
)
BOUNDS = {
    'quick': {'targets': 2, 'chain': 2, 'names': 3, 'merge': 4},
    'thorough': {'targets': 3, 'chain': 3, 'names': 4, 'merge': 5},
}
ASSUMPTIONS = [
    "a value within a relative difference of 1e-5 of a target is that target",
    "with repeated values, the index is that of any of them",
    "with no value on the required side, the nearest one answers for it",
    "fresh axes of points number their positions from zero",
    "an axis may refuse the position of a value given as another kind of object",
]

METERS = {'m': 1.0, 'cm': 1e-2, 'km': 1e3, 'au': 1.495978707e11}
COORDS = {
    'up': ([1.0, 2.0, 4.0, 8.0], 'm'),
    'down': ([8.0, 4.0, 2.0, 1.0], 'm'),
    'mixed': ([4.0, 1.0, 8.0, 2.0], 'm'),
    'one': ([2.0], 'm'),
    'signed': ([-2.0, 0.0, 2.0], 'cm'),
    'fine': ([0.1, 0.2, 0.3, 0.7], 'au'),
    'plain': ([1.0, 1.5, 2.5], '1'),
}
POINTS = {
    'range': [0, 1, 2, 3],
    'gaps': [1, 10, 100],
    'back': [3, 1, 2],
    'sub': [2, 3],
}
SYMBOLS = {
    'species': ['H+', 'He+', 'O6+', 'Fe'],
    'letters': ['c', 'a', 'b'],
    'lone': ['H+'],
}
SUBS = (
    0, -1, 1, (1,), ':', '...', (1, 3, None), (None, None, -1), (None, None, 2),
    (-2, None, None), (0, 1, None), (3, 0, -1), (1, 99, None), '[0,2]', '[2,0,2]',
    '[-1]', 'mask', '(list)', 'array', 'Index', 'Value', 'range', 'int64',
)
CHAIN = (
    0, -1, ':', (1, None, None), (None, None, -1), (None, None, 2), '[1,0]', '[-1]',
    'mask', '(list)',
)


def axis(kind, name):
    from eprempy import measured, physical
    if kind == 'C':
        values, unit = COORDS[name]
        return physical.coordinates(measured.sequence(list(values), unit=unit))
    if kind == 'P':
        return physical.points(list(POINTS[name]))
    return physical.symbols(list(SYMBOLS[name]))


def values(kind, name):
    if kind == 'C':
        return list(COORDS[name][0])
    return list(POINTS[name] if kind == 'P' else SYMBOLS[name])


def data(kind, a):
    """The values of an axis."""
    if kind == 'C':
        return [float(x) for x in np.array(a.data, dtype=float)]
    if kind == 'P':
        return [int(x) for x in a.data]
    return [str(x) for x in a.data]


def every(kinds='CPS'):
    for kind, table in zip('CPS', (COORDS, POINTS, SYMBOLS)):
        if kind in kinds:
            for name in table:
                yield kind, name


# -- subscripts ---------------------------------------------------------------

def subscript(s, n):
    """What `s` selects from `n` positions, and the object that says so."""
    from eprempy import numeric
    base = list(range(n))
    if isinstance(s, int):
        return s, [base[s]]
    if s == ':':
        return slice(None), base
    if s == '...':
        return Ellipsis, base
    if isinstance(s, (tuple, list)) and len(s) == 1:
        return (s[0],), [base[s[0]]]
    if isinstance(s, (tuple, list)):
        return slice(*s), base[slice(*s)]
    if s == 'mask':
        mask = np.array([i % 2 == 0 for i in base], dtype=bool)
        return mask, [i for i in base if mask[i]]
    if s == '(list)':
        return ([0, n - 1],), [base[0], base[n - 1]]
    if s == 'array':
        return np.array([n - 1, 0]), [base[n - 1], base[0]]
    if s == 'Index':
        return numeric.index.sequence([0, n - 1]), [base[0], base[n - 1]]
    if s == 'Value':
        return numeric.index.value(n - 1), [base[n - 1]]
    if s == 'range':
        return range(0, n, 2), base[0:n:2]
    if s == 'int64':
        return np.int64(0), [base[0]]
    if s.startswith('['):
        items = eval(s)
        return items, [base[i] for i in items]
    raise NotImplementedError(s)


# Names of axes: some begin or end with another.
NAMES = ('x', 'xy', 'z', 'yx')


def shards(tier):
    b = BOUNDS[tier]
    out = []
    for kind, name in every():
        out.append({'p': 'lookup', 'kind': kind, 'name': name, 'n': b['targets']})
        for i in range(len(SUBS)):
            if b['chain'] > 2 or i % 4 == 0:
                out.append({'p': 'chain', 'kind': kind, 'name': name,
                            'first': [i] if b['chain'] > 2 else list(range(i, min(i + 4, len(SUBS)))),
                            'n': b['chain']})
    for kind, name in every('C'):
        out.append({'p': 'nearest', 'kind': kind, 'name': name})
    out.append({'p': 'merge', 'n': b['merge'] - 1})
    for i in range(8):
        out.append({'p': 'merge', 'n': b['merge'], 'part': i})
    for n in range(b['names'] + 1):
        for names in itertools.permutations(NAMES[:b['names']], n):
            out.append({'p': 'axes', 'names': list(names), 'n': b['names']})
    out.append({'p': 'factory'})
    return out


def run_shard(shard, cx):
    {'lookup': lookup, 'chain': chain, 'nearest': nearest, 'merge': merge,
     'axes': axes, 'factory': factory}[shard['p']](shard, cx)


# -- positions of values --------------------------------------------------------

def close(a, b):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-30)


def targets_of(kind, name):
    """Members, values between members, and values beyond them."""
    v = values(kind, name)
    if kind == 'C':
        s = sorted(v)
        mid = [(a + b) / 2 for a, b in zip(s, s[1:])][:2]
        # Close to a member, but beyond the tolerance.
        near = [v[0] * (1 + 4e-5), s[-1] * (1 - 4e-4)]
        near = [x for x in near if x not in v]
        return v + mid + [s[0] - 0.5 * abs(s[0] or 1), s[-1] * 1.5 + 1] + near
    if kind == 'P':
        return v + [7, -1, max(v) + 1]
    return v + ['H', 'zz', '']


def where(v, x):
    return [i for i, y in enumerate(v) if x == y]


def expected(kind, v, x, closest):
    """Positions that may answer for `x`; none if there is no answer."""
    found = where(v, x)
    if found or closest is None:
        return found
    side = [i for i, y in enumerate(v) if (y < x if closest == 'lower' else y > x)]
    pool = side or range(len(v))
    best = min(abs(v[i] - x) for i in pool)
    return [i for i in pool if abs(v[i] - x) == best]


def representations(kind, name, group):
    """Ways to give these targets, with their values in the axis' unit."""
    from eprempy import measured, metric, physical, quantity
    g = list(group)
    if kind == 'S':
        yield 'args', lambda a, **k: a.index(*g, **k), 1
        yield 'list', lambda a, **k: a.index(g, **k), 1
        yield 'tuple', lambda a, **k: a.index(tuple(g), **k), 1
        return
    yield 'args', lambda a, **k: a.index(*g, **k), 1
    yield 'list', lambda a, **k: a.index(g, **k), 1
    yield 'tuple', lambda a, **k: a.index(tuple(g), **k), 1
    yield 'array', lambda a, **k: a.index(np.array(g), **k), 1
    yield 'numpy', lambda a, **k: a.index(*np.array(g), **k), 1
    if kind == 'P':
        yield 'axis', lambda a, **k: a.index(physical.points(g), **k), 1
        return
    unit = COORDS[name][1]
    yield 'axis', lambda a, **k: a.index(
        physical.coordinates(measured.sequence(g, unit=unit)), **k), 1
    others = [unit] + ([u for u in METERS if u != unit] if unit != '1' else [])
    for u in others:
        s = METERS[unit] / METERS[u] if unit != '1' else 1.0
        h = [x * s for x in g]
        yield f'args {u}', lambda a, h=h, u=u, **k: a.index(*h, u, **k), s
        yield f'list {u}', lambda a, h=h, u=u, **k: a.index((h, u), **k), s
        yield f'args list {u}', lambda a, h=h, u=u, **k: a.index(h, u, **k), s
        yield f'sequence {u}', lambda a, h=h, u=u, **k: a.index(
            measured.sequence(h, unit=u), **k), s
        yield f'measurement {u}', lambda a, h=h, u=u, **k: a.index(
            quantity.measure(h, u), **k), s
        yield f'unit {u}', lambda a, h=h, u=u, **k: a.index(
            *h, metric.unit(u), **k), s
        if len(h) == 1:
            yield f'value {u}', lambda a, h=h, u=u, **k: a.index(
                measured.value(h[0], unit=u), **k), s
            yield f'scalar {u}', lambda a, h=h, u=u, **k: a.index(
                physical.scalar(h[0], unit=u), **k), s
        else:
            yield f'vector {u}', lambda a, h=h, u=u, **k: a.index(
                physical.vector(h, unit=u), **k), s


REFUSED = (ValueError, TypeError, KeyError)


def positions(r):
    """The positions in an index object, and whether it is a single value."""
    from eprempy import numeric
    if isinstance(r, numeric.index.Value):
        return [int(r)]
    return [int(i) for i in r]


def lookup(shard, cx):
    kind, name = shard['kind'], shard['name']
    if 'only' in shard:
        return lookup_one(kind, name, shard['only'][0], shard['only'][1], cx)
    pool = range(len(targets_of(kind, name)))
    for n in range(1, shard['n'] + 1):
        for picks in itertools.product(pool, repeat=n):
            for closest in ((None, 'lower', 'upper') if kind == 'C' else (None,)):
                lookup_one(kind, name, list(picks), closest, cx)
    # All of the positions, and containment.
    from eprempy import measured
    case = {'p': 'lookup', 'kind': kind, 'name': name, 'only': None}
    with cx.case({**case, 'what': 'whole'}):
        a = axis(kind, name)
        v = values(kind, name)
        cx.require(len(a) == len(v) and a.length == len(v), case, lambda: f"length of {a}")
        cx.require(len(list(a)) == len(v), case, "items")
        for s in ([], [slice(None)]):
            fresh = axis(kind, name)
            if s:
                fresh = fresh[s[0]]
            if kind != 'P' or v == list(range(len(v))):
                cx.require(positions(fresh.index()) == list(range(len(v))), case,
                           lambda: f"positions of {a}: {fresh.index()}")
        if kind == 'P' and v == list(range(len(v))):
            for s in itertools.product((None, -3, -1, 0, 1, 2), (None, -2, 0, 3, 9), (None, 1, 2, -1, -2)):
                cx.step()
                got = positions(axis(kind, name).index(slice(*s)))
                cx.require(got == v[slice(*s)], case, lambda: f"positions {s} of {a}: {got}")
        for x in targets_of(kind, name):
            fresh = axis(kind, name)
            # NOTE: The members of a measured axis have a unit.
            got = (measured.value(x, unit=COORDS[name][1]) if kind == 'C' else x) in fresh
            cx.require(bool(got) == bool(where(v, x)), case,
                       lambda: f"{x!r} in {a} is {got}")
        for o, other in every():
            b = axis(o, other)
            same = o == kind and values(o, other) == v and (
                o != 'C' or COORDS[other][1] == COORDS[name][1])
            cx.require((a == b) is same and (a != b) is not same, case,
                       lambda: f"{a!r} == {b!r} is {a == b}")
            if o != kind:
                continue
            # Singular axes are in the axes that contain their value.
            for i in range(len(b)):
                part = b[i]
                x = values(o, other)[i]
                if kind == 'C':
                    if (COORDS[other][1] == '1') != (COORDS[name][1] == '1'):
                        continue
                    if COORDS[name][1] != '1':
                        x = x * METERS[COORDS[other][1]] / METERS[COORDS[name][1]]
                    inside = any(close(x, y) for y in v)
                else:
                    inside = x in v
                got = part in axis(kind, name)
                cx.step()
                cx.require(bool(got) == inside, case,
                           lambda: f"{part!r} in {axis(kind, name)!r} is {got}")
                got = part in axis(kind, name)[1:]
                if kind == 'C':
                    inside = any(close(x, y) for y in v[1:])
                else:
                    inside = x in v[1:]
                cx.require(bool(got) == inside, case,
                           lambda: f"{part!r} in {axis(kind, name)[1:]!r} is {got}")


def lookup_one(kind, name, picks, closest, cx):
    v = values(kind, name)
    pool = targets_of(kind, name)
    group = [pool[i] for i in picks]
    want = [expected(kind, v, x, closest) for x in group]
    keywords = {} if closest is None else {'closest': closest}
    case = {'p': 'lookup', 'kind': kind, 'name': name, 'only': [picks, closest]}
    with cx.case(case):
        cx.outcome((kind, name, str(want)))
        for label, look, scale in representations(kind, name, group):
            here = f"{label} {group} closest={closest} on {kind} {v}"
            for sub in (None, slice(1, None), slice(None, None, -1)):
                a = axis(kind, name)
                w, u = want, v
                if sub is not None:
                    a = a[sub]
                    u = v[sub]
                    if not u:
                        continue
                    w = [expected(kind, u, x, closest) for x in group]
                cx.step()
                try:
                    got = positions(look(a, **keywords))
                except REFUSED as err:
                    cx.require(not all(w), case,
                               lambda: f"{here}, {sub}: refused with {err!r}")
                    continue
                ok = len(got) == len(w) and all(g in e for g, e in zip(got, w))
                cx.require(ok, case, lambda: f"{here}, {sub}: {got}, not {w}")
        cx.trace()


# -- chains of subscripts ---------------------------------------------------------

def chain(shard, cx):
    kind, name = shard['kind'], shard['name']
    if 'only' in shard:
        return chain_one(kind, name, shard['only'], cx)
    for i in shard['first']:
        for n in range(shard['n']):
            for rest in itertools.product(CHAIN, repeat=n):
                chain_one(kind, name, [SUBS[i], *rest], cx)


# unit of an axis: the unit to convert it to, and the size of a value given in
# the former when it is given in the latter relative to the first one
CHANGES = {
    'm': ('km', 1), 'km': ('m', 1e-3),
    'cm': ('mm', 1), 'mm': ('cm', 10),
    'au': ('Mau', 1), 'Mau': ('au', 1e-6),
}


def isclose(x, values):
    return any(abs(x - v) <= 1e-12 * max(abs(x), abs(v)) for v in values)


def converted(a, cx, case):
    """The axis in another unit, with the same positions."""
    unit = str(a.unit)
    new, _ = CHANGES.get(unit, ('1', 1))
    had = positions(a.indices)
    b = a.withunit(new)
    cx.step()
    cx.require(str(b.unit) == new, case, lambda: f"{a!r} in {new} is {b!r}")
    got = positions(b.indices)
    cx.require(got == had, case, lambda: f"positions of {a!r} in {new}: {got}, not {had}")
    return b


def chain_one(kind, name, subs, cx):
    case = {'p': 'chain', 'kind': kind, 'name': name, 'only': list(subs)}
    v = values(kind, name)
    fresh = list(range(len(v)))
    # NOTE: Points number their positions with their data.
    base = list(v) if kind == 'P' else fresh
    with cx.case(case):
        for early in (False, True, 'm')[:3 if kind == 'C' else 2]:
            a = axis(kind, name)
            held = fresh
            for s in subs:
                if early == 'm':
                    # convert it and subscript the result
                    a = converted(a, cx, case)
                if early:
                    a.indices
                n = len(held)
                refuse = False
                try:
                    i, picked = subscript(s, n)
                except IndexError:
                    refuse = True
                    i = -99 if n == 0 or isinstance(s, str) else s if isinstance(s, int) else s[0]
                cx.step()
                if refuse:
                    if isinstance(s, str):
                        i = eval(s) if s.startswith('[') else [99]
                    try:
                        r = a[i]
                    except IndexError:
                        r = None
                    cx.require(r is None, case, lambda: f"{a!r}[{i}] is {r!r}")
                    break
                before = (data(kind, a), positions(a.indices)) if early else None
                b = a[i]
                if early:
                    cx.require((data(kind, a), positions(a.indices)) == before, case,
                               lambda: f"subscript {s} changed {a!r}")
                held = [held[p] for p in picked]
                cx.require(type(b) is type(a), case, lambda: f"type of {b!r}")
                got = data(kind, b)
                if early == 'm':
                    scale = CHANGES.get(str(b.unit), (None, 1))[1]
                    got = [min(v, key=lambda x: abs(x - g / scale)) if isclose(g / scale, v) else g for g in got]
                cx.require(got == [v[p] for p in held], case,
                           lambda: f"{v}{subs} at {s}: {got}, not {[v[p] for p in held]}")
                cx.require(len(b) == len(held) == b.length, case, lambda: f"length of {b!r}")
                if kind == 'C':
                    cx.require(str(b.unit) == str(a.unit), case, lambda: f"unit of {b!r}")
                a = b
            else:
                if early == 'm':
                    a = converted(a, cx, case)
                # NOTE: The position of a fresh axis of points is its data.
                want = [fresh[p] for p in held]
                if kind == 'P' and v != fresh:
                    continue
                got = positions(a.indices)
                cx.require(got == want, case,
                           lambda: f"positions of {v}{subs}: {got}, not {want}")
                got = positions(a.index())
                cx.require(got == want, case,
                           lambda: f"index() of {v}{subs}: {got}, not {want}")
            cx.outcome((kind, name, tuple(held)))
            cx.state((kind, name, early, tuple(map(str, subs))))
        cx.trace()


# -- nearest values -----------------------------------------------------------------

def nearest(shard, cx):
    from eprempy import container
    v0 = values(shard['kind'], shard['name'])
    for v in itertools.permutations(v0):
        v = list(v)
        for shape in ((len(v),), (1, len(v)), (2, len(v) // 2)):
            if math.prod(shape) != len(v):
                continue
            for x in targets_of(shard['kind'], shard['name']):
                for bound in (None, 'lower', 'upper'):
                    case = {'p': 'nearest', 'kind': shard['kind'], 'name': shard['name'],
                            'v': v, 'x': x, 'bound': bound, 'shape': shape}
                    with cx.case(case):
                        pool = [y for y in v if bound is None or (y >= x if bound == 'lower' else y <= x)]
                        pool = pool or v
                        best = min(abs(y - x) for y in pool)
                        for form in (list, tuple, np.array) if len(shape) == 1 else (np.array,):
                            cx.step()
                            given = form(v) if len(shape) == 1 else np.array(v).reshape(shape)
                            r = container.nearest(given, x, bound=bound) if bound else container.nearest(given, x)
                            got = np.asarray(given)[r.index]
                            cx.require(
                                r.value == got and got in pool and abs(got - x) == best,
                                case, lambda: f"nearest of {v} to {x} ({bound}): {r}")
                        cx.outcome((tuple(v), x, bound))


# -- merged orders ---------------------------------------------------------------------

def merge(shard, cx):
    from eprempy import container
    names = 'abcdefg'[:shard['n']]
    sequences = [
        s for n in range(len(names) + 1) for s in itertools.permutations(names, n)
    ]
    for k, p in enumerate(sequences):
        if 'part' in shard and k % 8 != shard['part']:
            continue
        for q in sequences:
            case = {'p': 'merge', 'n': shard['n'], 'p': 'merge', 'these': p, 'those': q}
            with cx.case(case):
                cx.step()
                common = [i for i in p if i in q]
                agree = common == [i for i in q if i in p]
                try:
                    r = container.merge(iter(p), q)
                except container.MergeError:
                    r = None
                if r is None:
                    cx.require(not agree, case, lambda: f"merge{p, q} is refused")
                    continue
                ok = (
                    agree
                    and sorted(r) == sorted({*p, *q})
                    and [i for i in r if i in p] == list(p)
                    and [i for i in r if i in q] == list(q)
                )
                cx.require(ok, case, lambda: f"merge{p, q} = {r}")
                cx.outcome(tuple(r))


# -- collections of axes -----------------------------------------------------------------

# Per name: the variants of the axis (values), of which the second is singular.
VARIANTS = {
    'x': ('P', [0, 1, 2], [1], [5, 6]),
    'xy': ('C', [1.0, 2.0], [2.0], [3.0]),
    'z': ('S', ['p', 'q'], ['q'], ['r']),
    'yx': ('P', [0, 1], [0], [9]),
}


def variant(name, i):
    from eprempy import measured, physical
    kind, *forms = VARIANTS[name]
    v = forms[i]
    if kind == 'P':
        return physical.points(list(v))
    if kind == 'C':
        return physical.coordinates(measured.sequence(list(v), unit='m'))
    return physical.symbols(list(v))


def held(name, i):
    return VARIANTS[name][1 + i]


def collection(spec):
    from eprempy import physical
    return physical.axes({k: variant(k, i) for k, i in spec})


def described(a):
    out = []
    for k in a:
        kind = VARIANTS[k][0] if k in VARIANTS else None
        v = a[k]
        d = v.data
        out.append((k, [x if isinstance(x, str) else float(x) for x in d]))
    return out


def shown(spec):
    return [
        (k, [x if isinstance(x, str) else float(x) for x in held(k, i)])
        for k, i in spec
    ]


def specs(names, count):
    """All collections over orders of subsets of these names."""
    for n in range(count + 1):
        for order in itertools.permutations(names, n):
            for forms in itertools.product(range(3), repeat=n):
                yield list(zip(order, forms))


def attempt(f, *errors):
    try:
        return f()
    except errors:
        return None


def axes(shard, cx):
    names = shard['names']
    universe = NAMES[:shard['n']]
    if 'only' in shard:
        one, two = shard['only']
        if two is None:
            return axes_one([tuple(i) for i in one], cx)
        return axes_pair([tuple(i) for i in one], [tuple(i) for i in two], cx)
    # The full algebra of pairs: all forms of the first against all forms of the
    # second, unless there are four names (then two forms of each).
    deep = len(universe) > 3
    for forms in itertools.product(range(2 if deep else 3), repeat=len(names)):
        one = list(zip(names, forms))
        axes_one(one, cx)
        for two in specs(universe, len(universe)):
            if deep and any(i == 2 for _, i in two):
                continue
            axes_pair(one, two, cx)


def axes_pair(one, two, cx):
    case = {'p': 'axes', 'names': [k for k, _ in one], 'n': 4, 'only': [one, two]}
    with cx.case(case):
        a, b = collection(one), collection(two)
        d, e = dict(one), dict(two)
        p, q = [k for k, _ in one], [k for k, _ in two]
        cx.state((tuple(one), tuple(two)))
        # Equality: the same axes in the same order.
        cx.require((a == b) is (one == two) and (a != b) is (one != two), case,
                   lambda: f"{a} == {b} is {a == b}")
        # Comparisons: subsets with the same common axes.
        conflict = any(d[k] != e[k] for k in d if k in e)
        for op, want in (
            ('__lt__', set(p) < set(q)), ('__le__', set(p) <= set(q)),
            ('__gt__', set(p) > set(q)), ('__ge__', set(p) >= set(q)),
        ):
            cx.step()
            got = attempt(lambda: getattr(a, op)(b), ValueError)
            cx.require(got is (None if conflict else want), case,
                       lambda: f"{a} {op} {b} is {got}")
        # Sum: fill singular axes.
        cx.step()
        got = attempt(lambda: a + b, ValueError)
        want = []
        if set(p) != set(q):
            want = None
        else:
            for k in p:
                i, j = d[k], e[k]
                u, v = held(k, i), held(k, j)
                if i == j:
                    want.append((k, i))
                elif len(v) == 1 and v[0] in u:
                    want.append((k, i))
                elif len(u) == 1 and u[0] in v:
                    want.append((k, j))
                else:
                    want = None
                    break
        cx.require((got is None) == (want is None), case, lambda: f"{a} + {b} is {got}")
        if got is not None and want is not None:
            cx.require(described(got) == shown(want), case, lambda: f"{a} + {b} is {got}")
        # Merger: all axes, in an order that both have; the axes of the second.
        cx.step()
        got = attempt(lambda: a | b, ValueError)
        agree = [k for k in p if k in q] == [k for k in q if k in p]
        cx.require((got is not None) == agree, case, lambda: f"{a} | {b} is {got}")
        if got is not None and agree:
            r = list(got)
            ok = (
                sorted(r) == sorted({*p, *q})
                and [k for k in r if k in p] == p and [k for k in r if k in q] == q
            )
            cx.require(ok, case, lambda: f"order of {a} | {b}: {r}")
            for k, v in described(got):
                # A singular axis does not replace a full one.
                if k in d and k in e:
                    i = d[k] if len(held(k, e[k])) == 1 < len(held(k, d[k])) else e[k]
                else:
                    i = d.get(k, e.get(k))
                cx.require([(k, v)] == shown([(k, i)]), case,
                           lambda: f"axis {k} of {a} | {b}: {v}")
        # Neither operand changes.
        cx.require(described(a) == shown(one) and described(b) == shown(two), case,
                   lambda: f"operands became {a}, {b}")
        cx.outcome((str(got), conflict))
        cx.trace()


def axes_one(one, cx):
    case = {'p': 'axes', 'names': [k for k, _ in one], 'n': 4, 'only': [one, None]}
    with cx.case(case):
        p = [k for k, _ in one]
        d = dict(one)

        def check(got, want, what):
            cx.step()
            if want is None:
                cx.require(got is None, case, lambda: f"{what} of {one} is {got}")
            else:
                cx.require(got is not None and described(got) == shown(want), case,
                           lambda: f"{what} of {one}: {got}, not {shown(want)}")

        a = collection(one)
        cx.require(len(a) == len(p) and list(a) == p and tuple(a.names) == tuple(p)
                   and list(a.dimensions) == p, case, lambda: f"names of {a}")
        for i, k in enumerate(p):
            cx.require(described({k: a[k]}) == described({k: a[i]}) == shown([one[i]]),
                       case, lambda: f"items of {a}")
            cx.require(k in a, case, f"{k} is not in {a}")
        for bad in (len(p), 'q', -len(p) - 1):
            cx.require(attempt(lambda: a[bad], KeyError) is None, case,
                       lambda: f"{a}[{bad!r}]")
        check(a.copy(), one, 'copy')
        for k in (*NAMES, 'q'):
            check(a.without(k), [o for o in one if o[0] != k], f'without({k})')
            check(attempt(lambda: a.without(k, strict=True), KeyError),
                  [o for o in one if o[0] != k] if k in d else None, f'strict without({k})')
        for n in range(1, len(p) + 1):
            for order in itertools.permutations(p, n):
                check(a.extract(*order), [(k, d[k]) for k in order], f'extract{order}')
                whole = len(order) == len(p)
                want = [(k, d[k]) for k in order]
                places = [p.index(k) for k in order]
                for what, f in (
                    ('names', lambda: a.permute(*order)), ('name list', lambda: a.permute(list(order))),
                    ('named order', lambda: a.permute(order=order)),
                    ('places', lambda: a.permute(*places)), ('place list', lambda: a.permute(places)),
                ):
                    if n == 1 and what == 'names':
                        continue
                    if n == 1 and what == 'places':
                        continue
                    got = attempt(f, ValueError, TypeError)
                    check(got, want if whole else None, f'permute {what} {order}')
        check(attempt(lambda: a.extract('q'), KeyError), None, 'extract(q)')
        check(attempt(lambda: a.extract(), TypeError), None, 'extract()')
        for k in NAMES:
            for i in range(2):
                new = variant(k, i)
                want = [(n, i if n == k else j) for n, j in one]
                check(attempt(lambda: a.replace(k, new), KeyError), want if k in d else None,
                      f'replace({k})')
                for other in NAMES:
                    if other in d and other != k:
                        continue
                    want = [(other, i) if n == k else (n, j) for n, j in one]
                    check(attempt(lambda: a.replace(k, **{other: variant(other, i)}), KeyError),
                          want if k in d else None, f'replace({k}, {other}=)')
                if k in d:
                    continue
                check(a.insert(k, new), [*one, (k, i)], f'insert({k})')
                for at in range(-1, len(p) + 2):
                    got = attempt(lambda: a.insert(k, new, index=at), ValueError, IndexError)
                    if 0 <= at < len(p):
                        check(got, [*one[:at], (k, i), *one[at:]], f'insert({k}, index={at})')
                    elif got is not None:
                        # Whatever the position means, nothing is lost.
                        cx.require([o for o in described(got) if o[0] != k] == shown(one)
                                   and k in got, case, lambda: f'insert({k}, {at}): {got}')
                for where_ in ('before', 'after'):
                    for o in (*NAMES, 'q'):
                        got = attempt(lambda: a.insert(k, new, **{where_: o}), ValueError, KeyError)
                        if o not in d:
                            check(got, None, f'insert({k}, {where_}={o})')
                            continue
                        # NOTE: The existing tests fix which side is which, and
                        # disagree with the names of the keywords.
                        at = p.index(o) + (where_ == 'before')
                        check(got, [*one[:at], (k, i), *one[at:]], f'insert({k}, {where_}={o})')
        cx.require(described(a) == shown(one), case, lambda: f"{one} became {a}")
        cx.trace()


# -- creation of collections --------------------------------------------------------------

def factory(shard, cx):
    from eprempy import measured, metric, physical
    forms = {
        'range': (range(3), 'P', [0, 1, 2]),
        'ints': ([2, 5, 9], 'P', [2, 5, 9]),
        'unordered ints': ([5, 2, 9], 'P', [5, 2, 9]),
        'downward range': (range(4, 1, -1), 'P', [4, 3, 2]),
        'unordered array': (np.array([5, 2]), 'P', [5, 2]),
        'unordered floats': ([1.5, 0.5, 2.5], 'C', [1.5, 0.5, 2.5]),
        'unordered with unit': ([3.0, 1.0, 'm'], 'C', [3.0, 1.0]),
        'int array': (np.array([2, 5]), 'P', [2, 5]),
        'points': (physical.points([4]), 'P', [4]),
        'strings': (['b', 'a'], 'S', ['b', 'a']),
        'symbols': (physical.symbols(['H+']), 'S', ['H+']),
        'floats': ([0.5, 1.5], 'C', [0.5, 1.5]),
        'measured': (measured.sequence([1.0, 2.0], unit='m'), 'C', [1.0, 2.0]),
        'with unit': ([1.0, 2.0, 'm'], 'C', [1.0, 2.0]),
        'pair': (([1.0, 2.0], 'm'), 'C', [1.0, 2.0]),
        'vector': (physical.vector([3.0, 4.0], unit='s'), 'C', [3.0, 4.0]),
        'coordinates': (physical.coordinates(measured.sequence([7.0], unit='J')), 'C', [7.0]),
    }
    units = {'measured': 'm', 'with unit': 'm', 'pair': 'm', 'vector': 's', 'coordinates': 'J'}
    kinds = {'P': 'Points', 'S': 'Symbols', 'C': 'Coordinates'}

    def check(case, got, dims, picked):
        cx.step()
        ok = list(got) == list(dims)
        for k, f in zip(dims, picked):
            _, kind, v = forms[f]
            this = got[k]
            ok = ok and type(this).__name__ == kinds[kind] and described({k: this})[0][1] == [
                x if isinstance(x, str) else float(x) for x in v]
            if kind == 'C' and f in units:
                ok = ok and str(this.unit) == units[f]
        cx.require(ok, case, lambda: f"{picked} as {dims}: {got!r}")

    for n in (1, 2):
        for picked in itertools.product(forms, repeat=n):
            case = {'p': 'factory', 'forms': picked}
            with cx.case(case):
                given = [forms[f][0] for f in picked]
                dims = ['b', 'a'][:n]
                pairs = dict(zip(dims, given))
                plain = [f'x{i}' for i in range(n)]
                check(case, physical.axes(**pairs), dims, picked)
                check(case, physical.axes(pairs), dims, picked)
                check(case, physical.axes(mapping=pairs), dims, picked)
                check(case, physical.axes(axes=given), plain, picked)
                check(case, physical.axes(axes=given, dimensions=dims), dims, picked)
                cx.outcome(picked)
    for n in range(1, 4):
        for shape in itertools.product((1, 2, 3), repeat=n):
            case = {'p': 'factory', 'shape': shape}
            with cx.case(case):
                for dims, got in (
                    (['x0', 'x1', 'x2'][:n], physical.axes(*shape)),
                    (['x0', 'x1', 'x2'][:n], physical.axes(shape=shape)),
                    (['r', 'q', 'p'][:n], physical.axes(shape=shape, dimensions=['r', 'q', 'p'][:n])),
                ):
                    cx.step()
                    cx.require(list(got) == dims and [len(got[k]) for k in dims] == list(shape)
                               and all(data('P', got[k]) == list(range(m)) for k, m in zip(dims, shape)),
                               case, lambda: f"axes of {shape}: {got!r}")
                for bad in (
                    lambda: physical.axes(shape=shape, dimensions=['p', 'q', 'r', 's'][:n + 1]),
                    lambda: physical.axes(shape=shape, dimensions=['p', 'q'][:n - 1]),
                    lambda: physical.axes(axes=[range(m) for m in shape], dimensions=['p', 'q', 'r', 's'][:n + 1]),
                    lambda: physical.axes(dimensions=['p']),
                    lambda: physical.axes(),
                    lambda: physical.axes([range(2)]),
                    lambda: physical.axes(x=[1j]), lambda: physical.axes(x=[None]),
                ):
                    got = attempt(bad, ValueError, TypeError)
                    cx.require(got is None, case, lambda: f"{got!r} from {shape}")


def replay(case, cx):
    if case['p'] in ('lookup', 'chain', 'axes'):
        if case.get('only') is None:
            case = {**case, 'n': 0}
            case.pop('only', None)
        return run_shard(case, cx)
    if case['p'] == 'nearest':
        return nearest(case, cx)
    if case['p'] == 'merge':
        return merge({'p': 'merge', 'n': case['n']}, cx)
    return factory(case, cx)
