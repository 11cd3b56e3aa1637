"""C03: arrays combine by dimension name, never by position.

All ordered pairs (and triples) of labelled arrays over every ordered subset of
the dimensions x, y, z, with every pattern of full / singular lengths, under
every binary operator; compared with a name-aligned numpy reference.
"""

import itertools
import operator

import numpy as np

from .. import phys, unitref as U
from ..phys import Ref

ID = 'C03'
LEVEL = 'model_checking'
RULE = (
    "every ordered pair of arrays over the 15 ordered non-empty subsets of "
    "{x,y,z} and all full/singular length patterns, times 8 operators and 3 "
    "labellings, plus every ordered triple under two groupings; non-trivial: "
    "distinct result dimensions/shape/values or a refusal; the pairs once more "
    "with equal lengths of all dimensions, and with different axis values; and "
    "all pairs over {x,y} with every dimension of length 0 to 3"
)
FULL = {'x': 3, 'y': 2, 'z': 4}
BOUNDS = {
    'quick': {'dimensions': 3, 'singular dims per array': 1, 'triples': 'full lengths'},
    'thorough': {'dimensions': 3, 'singular dims per array': 3, 'triples': 'one singular'},
}
ASSUMPTIONS = [
    "when two shared dimensions appear in opposite orders the combination may "
    "be refused; it must not be resolved by position",
    "the order of dimensions that belong to only one operand is free as long "
    "as both operands' own orders survive",
]
SUBSETS = [p for n in (1, 2, 3) for p in itertools.permutations('xyz', n)]
OPS = {
    'mul': operator.mul, 'div': operator.truediv, 'add': operator.add,
    'sub': operator.sub, 'pow': operator.pow, 'floordiv': operator.floordiv,
    'mod': operator.mod, 'lt': operator.lt, 'ge': operator.ge,
}
FLAVOURS = ('physical', 'real')


def patterns(dims, limit):
    for k in range(0, min(limit, len(dims)) + 1):
        for ones in itertools.combinations(dims, k):
            yield tuple(1 if d in ones else FULL[d] for d in dims)


def operands(limit):
    return [(d, s) for d in SUBSETS for s in patterns(d, limit)]


LABELS = {'x': 'symbol', 'y': 'coordinate', 'z': 'point'}


def axis(d, n, other=False):
    from eprempy import measured, physical
    # The other labels have the same kind and number, and are disjoint.
    if d == 'x':
        v = (['a', 'b', 'c'] if other else ['p', 'q', 'r'])[:n]
        return physical.symbols(v), tuple(v)
    if d == 'y':
        v = [1.5, 7.0][:n] if other else [1.0, 2.5, 4.5][:n]
        return physical.coordinates(measured.sequence(v, unit='au')), tuple(
            round(i * U.canonical('au')[0], 12) for i in v)
    v = range(5, 5 + n) if other else range(n)
    return physical.points(v), tuple(map(float, v))


def build(flavour, dims, shape, base, unit='m', other=False):
    from eprempy import physical, real
    v = phys.values(int(np.prod(shape)), base).reshape(shape)
    built = {d: axis(d, n, other) for d, n in zip(dims, shape)}
    if flavour == 'real':
        x = real.array(v, dimensions=dims)
        f, dim = 1.0, U.dim()
    else:
        x = physical.array(v, unit=unit, axes=physical.axes({d: b[0] for d, b in built.items()}))
        f, dim = U.canonical(unit)
    return x, Ref(v * f, dim, [(d, b[1]) for d, b in built.items()], 'array')


def dims_of(x):
    return tuple(x.dimensions)


def values_of(x):
    return np.array(x, float)


def conflicting(p, q):
    return [n for n in p if n in q] != [n for n in q if n in p]


def check(x, ref, flavour):
    if flavour == 'physical':
        return phys.mismatch(x, ref, ordered=False)
    names = list(x.dimensions)
    if sorted(names) != sorted(ref.names):
        return f"dimensions {names}, expected {ref.names}"
    got = values_of(x)
    if tuple(x.shape) != got.shape:
        return f"shape {x.shape} but data {got.shape}"
    if dict(x.shapemap) != dict(zip(names, got.shape)):
        return f"shapemap {x.shapemap}"
    want = phys.reorder(ref, names).si
    if not phys.same(got, want):
        return f"values {got.tolist()} over {names}, expected {want.tolist()}"
    return None


def pair(cx, flavour, a, b, ops, unit_b='m'):
    from eprempy import numeric
    for op in ops:
        unit = '1' if op == 'pow' else 'm'
        # Fresh operands per operation, so that nothing is carried over.
        x, rx = build(flavour, *a, 0.5, unit)
        y, ry = build(flavour, *b, 0.25, unit)
        case = ['pair', flavour, [list(i) for i in a], [list(i) for i in b], op]
        with cx.case(case):
            cx.step()
            cx.state((flavour, a, b, op))
            aligned = None if conflicting(a[0], b[0]) else phys.align(rx, ry)
            same_axes = rx.axes == ry.axes
            try:
                got = OPS[op](x, y)
            except (ValueError, TypeError) as err:
                if op in ('mul', 'div', 'floordiv', 'mod') and aligned is not None:
                    cx.fail(case, f"refused compatible arrays: {err!r}")
                elif same_axes:
                    cx.fail(case, f"refused identical dimensions and axes: {err!r}")
                cx.outcome(('refused', flavour, a, b, op))
                continue
            cx.trace()
            if aligned is None:
                if op in ('lt', 'ge') and got is NotImplemented:
                    continue
                cx.fail(case, f"conflicting dimension orders {a[0]} and {b[0]} were combined to {got!r}")
                continue
            p, q, axes = aligned
            with np.errstate(all='ignore'):
                if op in ('floordiv', 'mod') and flavour == 'physical':
                    f = U.canonical('m')[0]
                    want = OPS[op](p / f, q / f)
                else:
                    want = OPS[op](p, q)
            if op in ('lt', 'ge'):
                g = np.asarray(got)
                if a[0] != b[0]:
                    cx.fail(case, f"compared arrays over {a[0]} and {b[0]} elementwise: {g.tolist()}")
                    continue
                cx.require(
                    g.shape == want.shape and bool(np.all(g == want)),
                    case, lambda: f"got {g.tolist()}, expected {want.tolist()}")
                continue
            if op in ('add', 'sub') and a[0] != b[0]:
                # Different orders or names must never be added by position.
                pass
            d = {'mul': tuple(2 * i for i in rx.dim), 'div': U.dim()}.get(op, rx.dim)
            if op in ('floordiv', 'mod'):
                d = U.canonical(got.unit)[1] if flavour == 'physical' else d
                ref = Ref(want * (U.canonical(got.unit)[0] if flavour == 'physical' else 1.0), d, axes, 'array')
            else:
                ref = Ref(want, d, axes, 'array')
            why = check(got, ref, flavour)
            if cx.require(why is None, case, lambda: why):
                names = list(got.dimensions)
                for mine in (a[0], b[0]):
                    kept = tuple(n for n in names if n in mine)
                    cx.require(kept == tuple(mine), case, f"dimension order {mine} became {kept}")
                cx.outcome((flavour, tuple(names), got.shape, op, a, b))
                cx.state((flavour, tuple(names), values_of(got).tolist()))
    # remesh: both meshes have the merged shape and broadcast by name
    x, rx = build('real', *a, 0.5)
    y, ry = build('real', *b, 0.25)
    case = ['pair', 'real', [list(i) for i in a], [list(i) for i in b], 'remesh']
    if flavour == 'real' and not conflicting(a[0], b[0]):
        with cx.case(case):
            cx.step()
            p, q = np.asarray(x.remesh(y)[0]), np.asarray(x.remesh(y)[1])
            names = list(x.dimensions | y.dimensions)
            rp, rq = reference_mesh(rx, names), reference_mesh(ry, names)
            u, v = np.broadcast_arrays(p, q)
            s, t = np.broadcast_arrays(rp, rq)
            cx.require(
                u.shape == s.shape and np.array_equal(u, s) and np.array_equal(v, t),
                case, lambda: f"meshes {u.tolist()} and {v.tolist()} over {names}")
            cx.trace()


def lengths(cx, flavour, a, b):
    """Arrays of any lengths, also empty: they combine or are refused."""
    ops = ['mul', 'div', 'add', 'lt']
    shapes = [dict(zip(*s)) for s in (a, b)]
    if all(shapes[0][d] == shapes[1][d] or 1 in (shapes[0][d], shapes[1][d])
           for d in a[0] if d in b[0]):
        return pair(cx, flavour, a, b, ops)
    for op in ops:
        case = ['lengths', flavour, [list(i) for i in a], [list(i) for i in b], op]
        with cx.case(case):
            cx.step()
            x, _ = build(flavour, *a, 0.5)
            y, _ = build(flavour, *b, 0.25)
            try:
                got = OPS[op](x, y)
            except (ValueError, TypeError):
                got = None
            cx.require(got is None, case, lambda: f"arrays of shapes {a[1]} and {b[1]} over {a[0]} and {b[0]} combined to {got!r}")
            cx.outcome(('unequal', flavour, a, b, op))


def reference_mesh(r, names):
    order = [n for n in names if n in r.names]
    x = np.transpose(r.si, [r.names.index(n) for n in order])
    return x.reshape([len(r.labels(n)) if n in r.names else 1 for n in names])


def relabelled(cx, a, b):
    """Arrays that have a dimension in common with different axis values."""
    for op in ('add', 'sub', 'mul', 'div'):
        x, rx = build('physical', *a, 0.5)
        y, ry = build('physical', *b, 0.25, other=True)
        case = ['relabelled', [list(i) for i in a], [list(i) for i in b], op]
        with cx.case(case):
            cx.step()
            cx.state(('relabelled', a, b, op))
            try:
                got = OPS[op](x, y)
            except (ValueError, TypeError) as err:
                cx.require(op in ('add', 'sub') or conflicting(a[0], b[0]), case,
                           lambda: f"refused compatible arrays: {err!r}")
                cx.outcome(('refused', 'relabelled', a, b, op))
                continue
            cx.trace()
            if conflicting(a[0], b[0]):
                cx.fail(case, f"conflicting dimension orders {a[0]} and {b[0]} were combined to {got!r}")
                continue
            if op in ('add', 'sub'):
                cx.fail(case, f"combined different axis values of {sorted(set(a[0]) & set(b[0]))} to {got!r}")
                continue
            p, q, axes = phys.align(rx, ry)
            names = list(got.axes)
            order = [names.index(n) for n, _ in axes] if sorted(names) == sorted(n for n, _ in axes) else None
            if not cx.require(order is not None, case, f"dimensions {names}"):
                continue
            want = OPS[op](p, q)
            have = np.transpose(np.array(got), order) * U.canonical(got.unit)[0]
            cx.require(have.shape == want.shape and phys.same(have, want), case,
                       lambda: f"values {have.tolist()}, expected {want.tolist()}")
            for n, v in got.axes.items():
                mine = [m.axes[n] for m in (x, y) if n in m.axes]
                longest = max(map(len, mine))
                cx.require(any(v == m for m in mine if len(m) == longest), case,
                           lambda: f"the axis of {n} became {v}")
            cx.outcome(('relabelled', tuple(names), got.shape, op, a, b))


def triple(cx, flavour, abc):
    """(a*b)*c and a*(b*c) describe the same labelled array."""
    case = ['triple', flavour, [[list(i) for i in s] for s in abc]]
    with cx.case(case):
        built = [build(flavour, *s, base) for s, base in zip(abc, (0.5, 0.25, 2.0))]
        xs = [b[0] for b in built]
        rs = [b[1] for b in built]
        order = consistent([s[0] for s in abc])
        results = []
        for group in ('left', 'right'):
            cx.step(2)
            try:
                if group == 'left':
                    got = (xs[0] * xs[1]) * xs[2]
                else:
                    got = xs[0] * (xs[1] * xs[2])
            except ValueError as err:
                cx.outcome(('refused', flavour, abc, group))
                continue
            results.append(got)
            names = sorted({n for r in rs for n in r.names})
            meshes = [reference_mesh(r, names) for r in rs]
            want = meshes[0] * meshes[1] * meshes[2]
            labels = {}
            for r in rs:
                for n, v in r.axes:
                    if n not in labels or len(v) > len(labels[n]):
                        labels[n] = v
            ref = Ref(want, tuple(sum(i) for i in zip(*(r.dim for r in rs))), [(n, labels[n]) for n in names], 'array')
            why = check(got, ref, flavour)
            cx.require(why is None, case, lambda: f"{group}: {why}")
            cx.outcome((flavour, tuple(got.dimensions), got.shape, abc, group))
            cx.trace()


def consistent(orders):
    return None


def any_lengths():
    return [(d, s) for d in SUBSETS if set(d) <= {'x', 'y'}
            for s in itertools.product(range(4), repeat=len(d))]


def shards(tier):
    limit = 1 if tier == 'quick' else 3
    out = []
    n = len(operands(limit))
    for flavour in FLAVOURS:
        for lo in range(0, n, 4):
            out.append({'what': 'pairs', 'flavour': flavour, 'limit': limit, 'lo': lo, 'hi': lo + 4})
    lim3 = 0 if tier == 'quick' else 1
    m = len(operands(lim3))
    for flavour in FLAVOURS:
        for i in range(m):
            out.append({'what': 'triples', 'flavour': flavour, 'limit': lim3, 'i': i})
    for flavour in FLAVOURS:
        for i in range(len(any_lengths())):
            if i % 4 == 0:
                out.append({'what': 'lengths', 'flavour': flavour, 'limit': 0, 'lo': i, 'hi': i + 4})
    for lo in range(0, len(SUBSETS), 3):
        for flavour in FLAVOURS:
            out.append({'what': 'square', 'flavour': flavour, 'limit': 0 if tier == 'quick' else 1, 'lo': lo, 'hi': lo + 3})
        out.append({'what': 'relabelled', 'flavour': 'physical', 'limit': limit, 'lo': lo, 'hi': lo + 3})
    return out


def run_shard(shard, cx):
    sp = operands(shard['limit'])
    fl = shard['flavour']
    if shard['what'] == 'lengths':
        for a in any_lengths()[shard['lo']:shard['hi']]:
            for b in any_lengths():
                lengths(cx, fl, a, b)
        return
    if shard['what'] == 'square':
        # Equal lengths: pairing by position would go unnoticed.
        square = [(d, s) for d in SUBSETS for k in range(min(shard['limit'], len(d)) + 1)
                  for ones in itertools.combinations(d, k)
                  for s in [tuple(1 if n in ones else 2 for n in d)]]
        for a in square:
            if a[0] in SUBSETS[shard['lo']:shard['hi']]:
                for b in square:
                    pair(cx, fl, a, b, list(OPS) if fl == 'physical' else ['mul', 'div', 'add', 'pow', 'lt'])
        return
    if shard['what'] == 'relabelled':
        for a in sp:
            if a[0] in SUBSETS[shard['lo']:shard['hi']]:
                for b in sp:
                    if set(a[0]) & set(b[0]) and (cx.tier != 'quick' or len(a[0]) + len(b[0]) < 6):
                        relabelled(cx, a, b)
        return
    if shard['what'] == 'pairs':
        ops = list(OPS) if fl == 'physical' else ['mul', 'div', 'add', 'pow', 'lt']
        for a in sp[shard['lo']:shard['hi']]:
            for b in sp:
                pair(cx, fl, a, b, ops)
    else:
        a = sp[shard['i']]
        for b, c in itertools.product(sp, sp):
            if cx.tier == 'quick' and len(a[0]) + len(b[0]) + len(c[0]) > 7:
                continue
            triple(cx, fl, (a, b, c))


def replay(case, cx):
    if case[0] == 'pair':
        pair(cx, case[1], *[tuple(tuple(i) for i in s) for s in case[2:4]], [case[4]] if case[4] in OPS else [])
    elif case[0] == 'lengths':
        lengths(cx, case[1], *[tuple(tuple(i) for i in s) for s in case[2:4]])
    elif case[0] == 'relabelled':
        relabelled(cx, *[tuple(tuple(i) for i in s) for s in case[1:3]])
    else:
        triple(cx, case[1], tuple(tuple(tuple(i) for i in s) for s in case[2]))
