"""C13: the container functions and look-up tables do what they say.

Every small input of each function, and every short history of each table and
registry, against a definition written from the documentation: nearest values by
comparing all distances, merged sequences by anchors, tables by scanning, and so on.
"""

import contextlib
import io
import itertools
import math
import operator
from fractions import Fraction as F

ID = 'C13'
LEVEL = 'model_checking'
RULE = (
    "all arrays of length <= `array` over 6-8 values of 11 types, with all targets and "
    "bounds; all pairs of sequences of distinct members over `symbols` symbols; all "
    "nestings to depth `nesting`; all tables of <= `entries` entries and all requests; "
    "all histories of `history` registrations; all exception hierarchies; non-trivial: "
    "distinct results"
)
BOUNDS = {
    'quick': {'array': 4, 'symbols': 4, 'nesting': 3, 'entries': 3, 'history': 3},
    'thorough': {'array': 5, 'symbols': 5, 'nesting': 4, 'entries': 4, 'history': 4},
}
ASSUMPTIONS = [
    "members that two merged sequences share appear once in each",
    "slices to convert to ranges have no negative numbers",
    "among equally near values any may be chosen",
]

NAN, INF = float('nan'), float('inf')
TYPES = {
    'list': [-2, -1, 0, 1, 3, 4.5],
    'float64': [-2.5, -1.0, 0.0, 1e-3, 3.0, 1e300, INF, NAN],
    'float32': [-2.5, -1.0, 0.0, 1.5, 3.0, INF, NAN],
    'int64': [-3, -1, 0, 1, 2, 7], 'int8': [-128, -1, 0, 1, 2, 127],
    'uint8': [0, 1, 2, 5, 128, 255], 'uint64': [0, 1, 2, 5, 7, 1000],
    'bool': [False, True], 'complex': [0, 1, 1j, 1 + 1j, -2, 3j],
    'fraction': [F(1, 3), F(1, 2), F(-1, 4), F(0), F(2)],
    'tuple': [0.1, 0.2, 0.3, 0.7],
}
TARGETS = {
    'float64': [-3, -1.75, 0, 0.5, 2, 3, 1e299, INF], 'float32': [-3, 0, 0.75, 2, INF],
    'int8': [-100, -2, 0, 1.5, 3, 100], 'uint8': [0, 3, 4.5, 130, 200],
    'uint64': [0, 3, 6, 500], 'bool': [0, 1], 'complex': [0, 1 + 2j, -1, 2],
    'fraction': [F(2, 5), F(0), F(1)], 'tuple': [0.1, 0.14, 0.21, 0.29, 1.0],
}


def shards(tier):
    out = [{'kind': 'nearest', 'type': t, 'target': i, 'tier': tier} for t in TYPES
           for i in range(len(TARGETS.get(t, TARGETS['float64'])))]
    for kind in ('merge', 'unwrap', 'simple', 'tables', 'edges', 'registry', 'exceptions',
                 'operators'):
        out += [{'kind': kind, 'part': [i, 4], 'tier': tier} for i in range(4)]
    return out


def run_shard(shard, cx):
    kind, tier = shard['kind'], shard['tier']
    b = BOUNDS[tier]
    if kind == 'nearest':
        name = shard['type']
        for n in range(1, b['array'] + 1):
            for values in itertools.product(range(len(TYPES[name])), repeat=n):
                check_nearest(cx, name, list(values), shard['target'])
        return
    i, n = shard['part']
    for case in itertools.islice(CASES[kind](b), i, None, n):
        case = {'kind': kind, **case}
        with cx.case(case):
            cx.step()
            CHECKS[kind](cx, case)


# -- nearest ----------------------------------------------------------------

def apart(x, t):
    if x != x or t != t:
        return INF
    if x == t:
        return 0
    if isinstance(x, complex) or isinstance(t, complex):
        return abs(complex(x) - complex(t))
    if math.isinf(x) or math.isinf(t):
        return INF
    return float(abs(F(x) - F(t)))


def check_nearest(cx, name, indices, target):
    import numpy
    from eprempy import container
    case = {'kind': 'nearest', 'type': name, 'values': indices, 'target': target}
    values = [TYPES[name][i] for i in indices]
    t = TARGETS.get(name, TARGETS['float64'])[target]
    with cx.case(case):
        shapes = [(len(values),)]
        if len(values) in (2, 4) and name not in ('list', 'tuple', 'fraction'):
            shapes += [(len(values) // 2, 2), (1, len(values))]
        for shape in shapes:
            if name in ('list', 'fraction'):
                array = values
            elif name == 'tuple':
                array = tuple(values)
            else:
                array = numpy.array(values, dtype=name).reshape(shape)
            flat = [x.item() if hasattr(x, 'item') else x for x in numpy.asarray(array).flat]
            for bound in (None, 'lower', 'upper'):
                if bound and name == 'complex':
                    continue
                cx.step()
                allowed = [x for x in flat if bound is None or x == x and
                           (x >= t if bound == 'lower' else x <= t)] or flat
                best = min(apart(x, t) for x in allowed)
                with numpy.errstate(all='ignore'):
                    found = container.nearest(array, t, **({'bound': bound} if bound else {}))
                index = found.index
                if len(shape) == 1:
                    ok = int(index) == index and 0 <= index < len(flat)
                    at = flat[index] if ok else None
                else:
                    ok = isinstance(index, tuple) and len(index) == len(shape)
                    at = array[index].item() if ok else None
                ok = ok and (at == found.value or at != at and found.value != found.value)
                ok = ok and any(at is x or at == x or (at != at and x != x) for x in allowed)
                if not ok or apart(at, t) > best * (1 + 1e-6) + (
                        1e-7 if name == 'float32' else 0):
                    cx.fail(case, f"nearest {t} in {array!r}, {bound}: {found}")
                    return
                cx.outcome([name, bound, repr(at), t])


# -- merge ------------------------------------------------------------------

def merges(b):
    symbols = 'abcde'[:b['symbols']]
    these = [list(p) for n in range(len(symbols) + 1)
             for p in itertools.permutations(symbols, n)]
    return ({'x': x, 'y': y} for x, y in itertools.product(these, repeat=2))


def expected_merge(x, y):
    shared = [i for i in x if i in y]
    if shared != [i for i in y if i in x]:
        return None
    out = []
    y = list(y)
    held = []
    for i in x:
        if i in shared:
            k = y.index(i)
            out += held + y[:k] + [i]
            y, held = y[k + 1:], []
        else:
            held.append(i)
    return out + held + y


def check_merge(cx, case):
    from eprempy import container
    x, y = case['x'], case['y']
    want = expected_merge(x, y)
    for make in (list, tuple, iter, ''.join, dict.fromkeys):
        a, c = make(x), make(y)
        try:
            got = container.merge(a, c)
        except container.MergeError:
            got = None
        cx.require(got == want, case, f"merge({a!r}, {c!r}): {got}, expected {want}")
        if want is not None:
            cx.require(isinstance(got, list), case, f"{type(got)}")
    cx.require(x == list(case['x']), case, "an argument changed")
    if want is not None:
        for s in (x, y):
            cx.require([i for i in want if i in s] == s, case, f"{want} loses the order of {s}")
    cx.state([len(x), len(y), want])
    cx.outcome(want and len(want))


# -- unwrap, wrap, unique, size ---------------------------------------------

LEAVES = [3, 'ab', None, (), [], [1, 2], (1, 2), {'k': 1}, 2.5, '', [None, 'x'], {5}]
SHELLS = [list, tuple, set, lambda x: [x, 0]]


def nestings(b):
    for depth in range(b['nesting'] + 1):
        for shells in itertools.product(range(2), repeat=depth):
            for leaf in range(len(LEAVES)):
                yield {'shells': list(shells), 'leaf': leaf}


def check_unwrap(cx, case):
    from eprempy import container
    leaf = LEAVES[case['leaf']]
    x = leaf
    for i in case['shells']:
        x = [x] if i == 0 else (x,)
    core = leaf
    while isinstance(core, (list, tuple)) and len(core) == 1:
        core = core[0]
    got = container.unwrap(x)
    cx.require(got == core and type(got) is type(core), case, f"unwrap({x!r}): {got!r}")
    if core is None:
        wrapped = []
    elif isinstance(core, str) or not hasattr(core, '__iter__'):
        wrapped = [core]
    else:
        wrapped = list(core)
    for new in (list, tuple):
        got = container.unwrap(x, newtype=new)
        cx.require(type(got) is new and got == new(wrapped), case,
                   f"unwrap({x!r}, newtype={new.__name__}): {got!r}")
    got = container.wrap(x)
    w = wrapped if x is leaf and core is leaf else (
        list(x) if isinstance(x, (list, tuple)) else wrapped)
    cx.require(type(got) is list and got == w, case, f"wrap({x!r}): {got!r}, expected {w!r}")
    cx.require(tuple(container.Wrapper(x)) == tuple(w) and len(container.Wrapper(x)) == len(w),
               case, f"Wrapper({x!r})")
    separable = hasattr(x, '__iter__') and not isinstance(x, (str, bytes))
    cx.require(container.isseparable(x) is separable, case, f"isseparable({x!r})")
    cx.require(container.isiterable(x) is hasattr(x, '__iter__'), case, f"isiterable({x!r})")
    n = len(x) if hasattr(x, '__len__') else 0
    cx.require(container.length(x) == n, case, f"length({x!r})")

    def count(y):
        if isinstance(y, str) or not hasattr(y, '__iter__'):
            return 1
        return sum(map(count, y))
    if separable:
        cx.require(container.size(x) == count(x), case, f"size({x!r}): {container.size(x)}")
    else:
        try:
            cx.fail(case, f"size({x!r}): {container.size(x)}, expected TypeError")
        except TypeError:
            pass
    shape = separable and len(x) > 0 and all(isinstance(i, int) for i in x)
    cx.require(container.isshapelike(x) is shape, case, f"isshapelike({x!r})")
    for types, wrappers, strict in itertools.product(
            (int, str, (int, str), list), ((), (list,), (list, tuple)), (True, False)):
        want = isinstance(x, types)
        if not want and wrappers and isinstance(x, wrappers):
            want = (all if strict else any)(isinstance(i, types) for i in x)
        got = container.hastype(x, types, *wrappers, strict=strict)
        cx.require(got is want, case, f"hastype({x!r}, {types}, {wrappers}, {strict}): {got}")
    cx.state(repr(x))
    cx.outcome(repr(core))


def simples(b):
    for n in range(6):
        for x in itertools.product('aab', repeat=0) if n == 0 else itertools.product(
                ['a', 1, (2,)], repeat=n):
            yield {'unique': [list(i) if isinstance(i, tuple) else i for i in x]}
    these = ['ab', 3, ['a'], ['a', 'b'], (1, 2, 3), [], {'k': 1}, None, b'xy', range(2)]
    for i, j in itertools.product(range(len(these)), repeat=2):
        yield {'distribute': [i, j]}
    for start, stop, step, given in itertools.product(
            (None, 0, 1, 3), (None, 0, 2, 7), (None, 1, 2, 3), (None, 0, 5)):
        yield {'slice': [start, stop, step], 'stop': given}
    for n in range(6):
        for c in ('and', 'or'):
            for quoted in (True, False):
                yield {'join': [f's{i}' for i in range(n)], 'c': c, 'quoted': quoted}
    for i in range(len(NULLS)):
        yield {'null': i}
    for types in range(3):
        for n in range(1, 4):
            for x in itertools.product([1, 'a', 2.5], repeat=n):
                yield {'all': types, 'of': list(x)}
    for pos in range(3):
        for kwd in range(3):
            yield {'pos': [1, 'b', None][:pos], 'kwd': dict([('c', 1), ('d', 'D')][:kwd])}


DISTRIBUTED = ['ab', 3, ['a'], ['a', 'b'], (1, 2, 3), [], {'k': 1}, None, b'xy', range(2)]
NULLS = [
    (None, True), (0, False), (0.0, False), (False, False), (0j, False), ('', True),
    ('0', False), ([], True), ([0], False), ((), True), ({}, True), (set(), True),
    ([[]], False), (F(0), False), (range(0), True), (range(1), False),
]


def check_simple(cx, case):
    from eprempy import container, etc
    if 'unique' in case:
        x = case['unique']
        want = []
        for i in x:
            if i not in want:
                want.append(i)
        cx.require(container.unique(x) == want, case, f"unique({x})")
        cx.require(container.unique(iter(x)) == want, case, f"unique(iter({x}))")
        if len(x) != 1:
            cx.require(container.unique(*x) == want, case, f"unique(*{x})")
        cx.require(container.unique(*x, strict=True) == want, case, f"strict {x}")
        cx.require(container.unique(x, strict=True) == [x], case, f"strict [{x}]")
        cx.outcome(len(want))
    elif 'distribute' in case:
        a, c = (DISTRIBUTED[i] for i in case['distribute'])
        whole = [hasattr(i, '__iter__') and not isinstance(i, (str, bytes)) for i in (a, c)]
        if not any(whole):
            try:
                cx.fail(case, f"distribute: {list(container.distribute(a, c))}")
            except TypeError:
                pass
            return
        want = list(itertools.product(a if whole[0] else [a], c if whole[1] else [c]))
        got = list(container.distribute(a, c))
        cx.require(got == want, case, f"distribute({a!r}, {c!r}): {got}")
        cx.outcome(len(want))
    elif 'slice' in case:
        s, given = slice(*case['slice']), case['stop']
        if s.stop is None and given is None:
            try:
                cx.fail(case, f"{container.slice2range(s)}")
            except TypeError:
                pass
            return
        got = container.slice2range(s, stop=given)
        whole = range(given if s.stop is None else 100)
        cx.require(list(got) == list(whole[s]), case, f"{s}, {given}: {got}")
        cx.require(isinstance(got, range), case, f"{got!r}")
        cx.outcome(len(got))
    elif 'join' in case:
        x, c, quoted = case['join'], case['c'], case['quoted']
        if not x:
            return
        shown = [repr(i) if quoted else i for i in x]
        want = shown[0] if len(x) == 1 else (
            f"{shown[0]} {c} {shown[1]}" if len(x) == 2
            else ', '.join(shown[:-1]) + f", {c} {shown[-1]}")
        got = etc.join(iter(x), c, quoted=quoted)
        cx.require(got == want, case, f"join: {got!r}, expected {want!r}")
        cx.outcome(want)
    elif 'null' in case:
        x, want = NULLS[case['null']]
        cx.require(etc.isnull(x) is want, case, f"isnull({x!r}): {etc.isnull(x)}")
        import numpy
        for shape in ((0,), (1,), (2, 2), (2, 0), ()):
            empty = 0 in shape
            cx.require(bool(etc.isnull(numpy.zeros(shape))) is empty, case, f"isnull, {shape}")
        one, two = etc.sentinel('one', 'PASS'), etc.sentinel('one', 'PASS')
        cx.require(one is two and one is not etc.PASS and str(one) == 'one' and one == 'PASS',
                   case, f"sentinel: {one!r}")
        cx.require(etc.sentinel('PASS', True) is etc.PASS, case, "PASS")
        cx.require([*map(bool, (etc.PASS, etc.NULL, etc.FAIL))] == [True, False, False], case,
                   "truth of sentinels")
        cx.outcome([repr(x), want])
    elif 'all' in case:
        types = [int, (int, float), str][case['all']]
        want = all(isinstance(i, types) for i in case['of'])
        cx.require(etc.allisinstance(types, *case['of']) is want, case, "allisinstance")
        cx.outcome([case['all'], want])
    else:
        parts = [repr(x) for x in case['pos']] + [f"{k}={v!r}" for k, v in case['kwd'].items()]
        got = etc.strargs(*case['pos'], **case['kwd'])
        cx.require(got == ', '.join(parts), case, f"strargs: {got!r}")
        cx.outcome(got)


# -- tables and bijections --------------------------------------------------

def tables(b):
    entries = [dict(zip('xy', v)) for v in itertools.product((1, 2), repeat=2)]
    entries += [dict(e, z=v) for e in entries for v in (1, 3)]
    for n in range(1, b['entries'] + 1):
        for these in itertools.combinations_with_replacement(range(len(entries)), n):
            yield {'entries': [entries[i] for i in these]}
    values = (1, 2, 'a', None)
    for n in range(5):
        for v in itertools.product(range(4), repeat=n):
            yield {'pairs': dict(zip('pqrs', (values[i] for i in v)))}


def check_tables(cx, case):
    if 'pairs' in case:
        return check_bijection(cx, case)
    from eprempy import container
    entries = case['entries']
    table = container.Table(entries)
    common = [k for k in 'xyz' if all(k in e for e in entries)]
    cx.require(set(table.keys) == set(common) and len(table) == len(entries), case, table.keys)
    cx.require(list(table) == entries, case, "entries differ")
    for k in ('x', 'z', 'w'):
        cx.require((k in table) is (k in common), case, f"{k!r} in table")
        if k in common:
            cx.require(table[k] == tuple(e[k] for e in entries), case, f"[{k!r}]: {table[k]}")
        else:
            error(cx, case, container.TableKeyError, lambda: table[k], f"[{k!r}]")
        cx.require(table.get(k, 9) == tuple(e.get(k, 9) for e in entries), case, f"get {k!r}")
    for wide in (table, container.Table([{k: str(v) * 4 * v for k, v in e.items()} for e in entries])):
        for n in range(1, 4):
            for names in itertools.permutations('xyzw', n):
                shown = [k for k in names if k in common]
                want = [shown, ['-' * len(k) for k in shown],
                        *([str(e[k]) for k in shown] for e in wide)] if shown else []
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    wide.show(names)
                got = [line.split() for line in out.getvalue().splitlines()]
                cx.require(got == want, case, f"shown as {got}")
    for value in (1, 2, 3):
        found = [e for e in entries if value in e.values()]
        if not found:
            for unique in (True, False):
                error(cx, case, container.MissingValueError,
                      lambda: table.find(value, unique=unique), f"find {value}")
            continue
        cx.require(table.find(value) == found, case, f"find {value}")
        if len(found) == 1:
            cx.require(table.find(value, unique=True) == found[0], case, f"find {value}")
        else:
            error(cx, case, container.AmbiguousValueError,
                  lambda: table.find(value, unique=True), f"find {value}, unique")
    pairs = [(k, v) for k in 'xyzw' for v in (1, 2, 3)]
    for n in (1, 2, 3):
        for request in itertools.permutations(pairs, n):
            keys = [k for k, _ in request]
            if len(set(keys)) < n or ('w' in keys and keys[0] != 'w'):
                continue
            if any(k not in common for k in keys[1:]) and keys[0] in common:
                continue
            for strict in (True, False):
                check_request(cx, case, table, entries, common, dict(request), strict)
    cx.state(entries)


def check_request(cx, case, table, entries, common, request, strict):
    from eprempy import container
    cx.step()
    want = None
    subset = entries
    for k, v in request.items():
        if k not in common:
            want = container.TableKeyError
            break
        subset = [e for e in subset if e[k] == v]
        if not strict and len(subset) == 1:
            break
    if want is None:
        if len(subset) == 1:
            want = subset[0]
        else:
            want = (container.AmbiguousRequestError if subset and not strict
                    else container.TableLookupError)
    what = f"table({request}, strict={strict})"
    if isinstance(want, type):
        error(cx, case, want, lambda: table(strict=strict, **request), what)
    else:
        got = table(strict=strict, **request)
        cx.require(got == want, case, f"{what}: {got}, expected {want}")
    cx.outcome([strict, len(request), want if isinstance(want, type) else 'entry'])


def error(cx, case, kind, f, what):
    try:
        result = f()
    except kind as err:
        cx.require(type(err) is kind, case, f"{what}: {err!r}")
        str(err)
        return
    except Exception as err:
        cx.fail(case, f"{what}: {err!r}, expected {kind.__name__}")
        return
    cx.fail(case, f"{what}: {result!r}, expected {kind.__name__}")


def check_bijection(cx, case):
    from eprempy import container
    pairs = case['pairs']
    if len(set(pairs.values())) < len(pairs):
        error(cx, case, container.InjectiveTypeError, lambda: container.Bijection(pairs),
              f"{pairs}")
        cx.outcome('refused')
        return
    source = dict(pairs)
    m = container.Bijection(source)
    source['other'] = 'changed'
    inverse = {v: k for k, v in pairs.items()}
    cx.require(dict(m) == pairs and len(m) == len(pairs), case, f"{dict(m)}")
    cx.require(dict(m.invert()) == inverse, case, f"inverse {dict(m.invert())}")
    cx.require(dict(m.invert().invert()) == pairs, case, "inverse of inverse")
    for v in (1, 2, 'a', None, 'unknown'):
        if v in inverse:
            cx.require(m.find(v) == m.find(v, 'd') == inverse[v], case, f"find({v!r})")
        else:
            cx.require(m.find(v, 'd') == 'd', case, f"find({v!r}, 'd')")
            error(cx, case, KeyError, lambda: m.find(v), f"find({v!r})")
    for k in (*pairs, 'unknown'):
        cx.require((k in m) is (k in pairs), case, f"{k!r} in")
    cx.outcome(len(pairs))


# -- graphs and registries --------------------------------------------------

def edges(b):
    pairs = [(x, y) for x in 'abc' for y in 'abc' if x != y]
    options = [[*p, w] for p in pairs for w in (2, 4.0, None, 0.5)]
    for n in range(4):
        for these in itertools.product(range(len(options)), repeat=n):
            if n < 3 or these[0] < 4 and these[1] % 2 == 0:
                yield {'edges': [options[i] for i in these]}


def check_edges(cx, case):
    from eprempy import container
    graph = container.Graph()
    want = {}
    for start, end, w in case['edges']:
        graph.add_connection(start, end, w)
        want.setdefault((start, end), w)
        want.setdefault((end, start), 1 / w if w else w)
    made = [graph]
    keys = [(s, e) for s, e, _ in case['edges']]
    if len(set(keys)) == len(keys):
        made.append(container.Graph({(s, e): w for s, e, w in case['edges']}))
    for g in made:
        cx.require({k: g.get_weight(*k) for k in g} == want and len(g) == len(want), case,
                   f"{g.connections}, expected {want}")
        cx.require(set(g.nodes) == {x for k in want for x in k}, case, f"nodes {g.nodes}")
        for x in 'abcd':
            near = {e: w for (s, e), w in want.items() if s == x}
            cx.require(g.get_adjacencies(x) == near, case, f"near {x}: {g.get_adjacencies(x)}")
            for y in 'abcd':
                cx.require(((x, y) in g) is ((x, y) in want), case, f"{x}, {y}")
                if (x, y) not in want:
                    error(cx, case, KeyError, lambda: g.get_weight(x, y), f"weight {x}, {y}")
    cx.state(sorted(want, key=str))
    cx.outcome(len(want))


def f():
    pass


def g():
    pass


def g_1():
    pass


EVENTS = [
    ['plain', 'f'], ['plain', 'g'], ['call', 'f'], ['named', 'f', 'f'], ['named', 'g', 'f'],
    ['named', 'g', 'h'], ['over', 'g', 'f'], ['over', 'f', 'h'], ['plain', 'g_1'],
    ['named', 'f', 'g_1'], ['named', 'f', 'f_1'], ['reset'], ['copy'], ['change'],
]


def registrations(b):
    for base in ({}, {'f': [2, 3]}, {'f': {'object': 1, 'extra': 2}, 'f_1': 5, 'g_2': 6}):
        for n in range(1, b['history'] + 1):
            for events in itertools.product(range(len(EVENTS)), repeat=n):
                yield {'base': base, 'events': list(events)}


def check_registry(cx, case):
    from eprempy import container
    objects = {'f': f, 'g': g, 'g_1': g_1}
    base = case['base']
    start = {k: dict(v) if isinstance(v, dict) else {'object': v} for k, v in base.items()}
    registry = container.ObjectRegistry(base)
    model = {k: dict(v) for k, v in start.items()}
    for i in case['events']:
        cx.step()
        kind, *rest = EVENTS[i]
        if kind == 'reset':
            registry.reset()
            model = {k: dict(v) for k, v in start.items()}
        elif kind == 'copy':
            old, registry = registry, registry.copy()
            if old is not registry:
                old.register(f, name='only in the old one')
            start = {k: dict(v) for k, v in model.items()}
        elif kind == 'change':
            for v in [*registry.values()][:1]:
                v['object'] = 'changed'
            for v in [*model.values()][:1]:
                v['object'] = 'changed'
        else:
            obj = objects[rest[0]]
            before = set(registry)
            if kind == 'plain':
                result = registry.register(obj, color=i)
            elif kind == 'call':
                result = registry.register(color=i)(obj)
            else:
                result = registry.register(name=rest[1], overwrite=kind == 'over',
                                           color=i)(obj)
            cx.require(result is obj, case, "the registered object was replaced")
            new = set(registry) - before
            entry = {'object': obj, 'color': i}
            wanted = rest[1] if len(rest) > 1 else rest[0]
            if kind == 'over' or wanted not in model:
                key = wanted
            else:
                cx.require(len(new) == 1, case, f"no new key for {EVENTS[i]}: {set(registry)}")
                key, = new
                cx.require(key.startswith(rest[0]), case, f"{EVENTS[i]} has key {key!r}")
            model[key] = entry
        got = {k: registry[k] for k in registry}
        cx.require(got == model and len(registry) == len(model), case,
                   f"{EVENTS[i]}: {got}, expected {model}")
    cx.state(sorted(model))
    cx.outcome(len(model))


# -- exceptions -------------------------------------------------------------

class Special(KeyError):
    pass


KINDS = [Exception, LookupError, KeyError, Special, IndexError, ArithmeticError,
         ZeroDivisionError, ValueError]
VALUES = [None, 'value', 0, ...]


def exceptions_(b):
    for n in range(4):
        for kinds in itertools.permutations(range(len(KINDS)), n):
            yield {'caught': list(kinds)}


def check_exceptions(cx, case):
    import numpy
    from eprempy import exceptions
    caught = case['caught']

    def raising(*args, **kwargs):
        kind = args[0] if args else kwargs['kind']
        if kind is not None:
            raise kind('text')
        return 'result'

    for shift in range(len(VALUES)):
        values = {i: VALUES[(j + shift) % len(VALUES)] for j, i in enumerate(caught)}
        wrapper = exceptions.Wrapper(raising)
        for i in caught:
            wrapper.catch(KINDS[i], values[i])
        for kind in (None, *KINDS):
            for args, kwargs in (((kind,), {}), ((kind, 2), {}), ((), {'kind': kind}),
                                 ((kind,), {'a': 1})):
                cx.step()
                if kind is None:
                    want = 'result'
                else:
                    known = [t for t in kind.__mro__ if t in [KINDS[i] for i in caught]]
                    if not known:
                        error(cx, case, kind, lambda: wrapper.compute(*args, **kwargs),
                              f"raising {kind.__name__}")
                        continue
                    want = values[KINDS.index(known[0])]
                    if want is ...:
                        want = (args[0] if len(args) == 1 else args) if not kwargs else (
                            kwargs if not args else (args, kwargs))
                got = wrapper.compute(*args, **kwargs)
                cx.require(type(got) is type(want) and got == want, case,
                           f"raising {kind}: {got!r}, expected {want!r}")
    array = numpy.arange(3)
    wrapper = exceptions.Wrapper(raising).catch(KeyError, array)
    cx.require(wrapper.compute(KeyError) is array, case, "an array as a substitute")
    for i in caught[:1]:
        for kind in (None, *KINDS):
            f = exceptions.convert(KINDS[i], 'value')(raising)
            h = exceptions.convert(KINDS[i], TypeError)(raising)
            m = exceptions.convert(KINDS[i], TypeError, 'message')(raising)
            if kind is None:
                cx.require(f(None) == h(None) == m(None) == 'result', case, "convert, no error")
            elif issubclass(kind, KINDS[i]):
                cx.require(f(kind) == 'value', case, f"convert {kind}: {f(kind)!r}")
                error(cx, case, TypeError, lambda: h(kind), "convert")
                error(cx, case, TypeError, lambda: m(kind), "convert")
            else:
                for x in (f, h, m):
                    error(cx, case, kind, lambda: x(kind), "convert")
    cx.state(caught)
    cx.outcome(len(caught))


# -- operators ----------------------------------------------------------------

NAMES = {
    'int': (int, ()), 'float': (float, ()), 'complex': (complex, ()),
    'eq': (operator.eq, ('equal',)), 'ne': (operator.ne, ('not equal', 'unequal')),
    'lt': (operator.lt, ('less', 'less than')),
    'le': (operator.le, ('less or equal', 'less than or equal to')),
    'gt': (operator.gt, ('greater', 'greater than')),
    'ge': (operator.ge, ('greater or equal', 'greater than or equal to')),
    'abs': (abs, ('absolute',)), 'pos': (operator.pos, ('positive',)),
    'neg': (operator.neg, ('negative',)), 'round': (round, ()),
    'floor': (math.floor, ()), 'ceil': (math.ceil, ('ceiling',)),
    'trunc': (math.trunc, ('truncate',)),
    'add': (operator.add, ('addition',)), 'sub': (operator.sub, ('subtract', 'subtraction')),
    'mul': (operator.mul, ('multiply', 'multiplication')),
    'truediv': (operator.truediv, ('divide', 'division', 'true divide', 'true division')),
    'floordiv': (operator.floordiv, ('floor divide', 'floor division')),
    'mod': (operator.mod, ('remainder',)), 'pow': (pow, ('power',)),
}
GROUPS = {
    'unary': ('abs', 'pos', 'neg'), 'ordering': ('lt', 'le', 'gt', 'ge'),
    'comparative': ('lt', 'le', 'gt', 'ge', 'eq', 'ne'), 'additive': ('add', 'sub'),
    'multiplicative': ('mul', 'truediv'), 'cast': ('int', 'float', 'complex'),
    'math': ('floor', 'ceil', 'trunc'),
    'algebraic': ('add', 'sub', 'mul', 'truediv', 'pow'),
    'binary': ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'add', 'sub', 'mul', 'truediv'),
    'real': ('lt', 'le', 'gt', 'ge', 'eq', 'ne', 'add', 'sub', 'mul', 'truediv', 'pow',
             'abs', 'pos', 'neg', 'floordiv', 'mod'),
}
OPERANDS = (-2.5, -1, 0, 1, 2, 3.5)
UNARY = ('int', 'float', 'complex', 'abs', 'pos', 'neg', 'round', 'floor', 'ceil', 'trunc')


def operators(b):
    for name in NAMES:
        for args in itertools.product(OPERANDS, repeat=1 if name in UNARY else 2):
            yield {'operator': name, 'args': list(args)}
    for name in GROUPS:
        for args in itertools.product(OPERANDS, repeat=1 if name in ('unary', 'cast', 'math') else 2):
            yield {'group': name, 'args': list(args)}
    for n in (1, 2):
        for names in itertools.permutations([*GROUPS, 'add', 'round'], n):
            for excluded in ([], ['add'], ['abs', 'lt']):
                yield {'generate': list(names), 'excluded': excluded}


def attempt(f, *args):
    try:
        return repr(f(*args))
    except (ArithmeticError, ValueError, TypeError) as err:
        return type(err).__name__


def check_operators(cx, case):
    from eprempy import numeric
    table = numeric.OPERATORS
    if 'operator' in case:
        name, args = case['operator'], case['args']
        f, aliases = NAMES[name]
        want = attempt(f, *args)
        cx.require(attempt(table[name], *args) == want, case, f"{name} is not {want}")
        cx.require(attempt(table, name, *args) == want, case, f"calling {name} is not {want}")
        for alias in (name, *aliases):
            got = attempt(numeric.FUNCTIONS[alias], *args)
            cx.require(got == want, case, f"{alias} is {got}, not {want}")
        cx.require(numeric.CALLABLES.invert()[table[name]] == name, case, "inverse")
        for bad in (f"{name}!", ''):
            cx.require(attempt(table, bad, *args) == 'ValueError', case, f"{bad!r} is known")
        cx.outcome((name, want))
    elif 'group' in case:
        group, args = case['group'], case['args']
        names = GROUPS[group]
        wanted = [attempt(NAMES[n][0], *args) for n in names if n not in UNARY or len(args) == 1]
        got = attempt(lambda: table(group, *args))
        if group != 'real': # its members take different numbers of arguments
            failed = [w for w in wanted if w.endswith('Error')]
            want = failed[0] if failed else repr(tuple(NAMES[n][0](*args) for n in names))
            cx.require(got == want, case, f"{got}, not {want}")
        if group in ('cast', 'math'):
            return
        want = attempt(lambda: {
            n: (NAMES[n][0](*args) if n not in UNARY or len(args) == 1
                else tuple(NAMES[n][0](a) for a in args)) for n in names})
        got = attempt(lambda: table.callgroup(group, *args))
        cx.require(got == want, case, f"callgroup: {got}, not {want}")
        cx.outcome((group, want))
    else:
        names, excluded = case['generate'], case['excluded']
        want = {NAMES[n][0].__name__ for g in names for n in GROUPS.get(g, (g,)) if n not in excluded}
        got = [f.__name__ for f in table.generate(*names, excluded=excluded)]
        cx.require(len(got) == len(want) and set(got) == want, case, f"{got}, not {want}")
        cx.outcome((tuple(names), tuple(excluded)))


CASES = {'merge': merges, 'unwrap': nestings, 'simple': simples, 'tables': tables,
         'edges': edges, 'registry': registrations, 'exceptions': exceptions_,
         'operators': operators}
CHECKS = {'merge': check_merge, 'unwrap': check_unwrap, 'simple': check_simple,
          'tables': check_tables, 'edges': check_edges, 'registry': check_registry,
          'exceptions': check_exceptions, 'operators': check_operators}


def replay(case, cx):
    if case['kind'] == 'nearest':
        check_nearest(cx, case['type'], case['values'], case['target'])
    else:
        with cx.case(case):
            CHECKS[case['kind']](cx, case)
