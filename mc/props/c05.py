"""C05: subscripting labelled arrays is orthogonal numpy indexing, labels kept.

Every index expression built from a per-dimension alphabet (integers, slices
with bounds and steps, index lists, numpy integer arrays, package index
objects), with and without an ellipsis or missing trailing dimensions, applied
to every array shape, and a second subscript applied to each result.
"""

import itertools

import numpy as np

from .. import phys, unitref as U
from ..phys import Ref

ID = 'C05'
LEVEL = 'model_checking'
RULE = (
    "every index expression over the per-dimension alphabet for every shape "
    "up to 3 dimensions, on array, real-valued and numeric arrays with three "
    "label kinds, followed by every second subscript from a reduced alphabet; "
    "non-trivial: distinct (shape, expression, result)"
)
BOUNDS = {
    'quick': {'shapes': '(4,) (5,) (3,4) (1,4) (2,3,4) (1,3,1)', '3-d alphabet': 'reduced', 'chain': 2},
    'thorough': {'shapes': '(4,) (5,) (3,4) (1,4) (2,3,4) (1,3,1)', '3-d alphabet': 'full', 'chain': 2},
}
ASSUMPTIONS = [
    "an ellipsis that stands for no dimension (unless last), and index "
    "sequences on 1-D arrays, may be refused, never answered wrongly",
    "an integer index keeps its dimension with length 1 (the documented "
    "behaviour of these arrays)",
]

S = slice
FULL = [
    ['i', 0], ['i', 1], ['i', -1],
    ['s', None, None, None], ['s', 1, None, None], ['s', None, -1, None],
    ['s', 1, 3, None], ['s', None, None, 2], ['s', -2, None, None],
    ['s', None, None, -1], ['s', 1, 2, None], ['s', 0, 100, None],
    ['l', 0], ['l', 0, 1], ['l', 1, 0], ['l', -1, 0], ['l', 1, 1],
    ['a', 0, 1], ['a', 1, 0, 1], ['t', 1, 0], ['l', 1, -2], ['r', 1, 3], ['is', 0, 1],
]
SMALL = [
    ['i', 0], ['i', -1], ['s', None, None, None], ['s', 1, None, None], ['s', None, -1, None],
    ['s', None, None, 2], ['l', 1, 0], ['l', 0],
]
SECOND = [['i', 0], ['s', 1, None, None], ['l', 0]]
NAMES = ('u', 'v', 'w')


def decode(e):
    kind, *v = e
    if kind == 'i':
        return v[0]
    if kind == 's':
        return slice(*v)
    if kind == 'l':
        return list(v)
    if kind == 't':
        return tuple(v)
    if kind == 'a':
        return np.array(v)
    if kind == 'iv':
        from eprempy import numeric
        return numeric.index.value(v[0])
    if kind == 'is':
        from eprempy import numeric
        return numeric.index.sequence(v)
    if kind == 'r':
        return range(*v)
    if kind == '...':
        return Ellipsis
    raise KeyError(kind)


def positions(e, n):
    """Positions selected along a dimension of length `n`, or None (refuse)."""
    kind, *v = e
    if kind == 's':
        return list(range(*slice(*v).indices(n)))
    v = list(range(*v)) if kind == 'r' else v
    if any(not -n <= i < n for i in v):
        return None
    return [i % n for i in v]


def axis(kind, n):
    from eprempy import measured, physical
    if kind == 0:
        v = ['p', 'q', 'r', 's', 't'][:n]
        return physical.symbols(v), tuple(v)
    if kind == 1:
        v = [1.0, 2.5, 4.0, 7.0, 11.0][:n]
        return physical.coordinates(measured.sequence(v, unit='au')), tuple(
            round(i * U.canonical('au')[0], 12) for i in v)
    return physical.points(range(n)), tuple(map(float, range(n)))


def build(flavour, shape):
    from eprempy import numeric, physical, real
    v = phys.values(int(np.prod(shape))).reshape(shape)
    names = NAMES[:len(shape)]
    if flavour == 'real':
        return real.array(v, dimensions=names), Ref(v, U.dim(), None)
    if flavour == 'numeric':
        return numeric.array(v, dimensions=names), Ref(v, U.dim(), None)
    if flavour == 'plain':
        kinds = [lambda n: range(n), lambda n: ['p', 'q', 'r', 's'][:n], lambda n: tuple(range(3, n + 3))]
        plain = [kinds[i](n) for i, n in enumerate(shape)]
        x = physical.array(v, unit='km', axes=dict(zip(names, plain)))
        return x, Ref(v * 1e3, U.canonical('m')[1], [
            (d, tuple(i if isinstance(i, str) else float(i) for i in p)) for d, p in zip(names, plain)], 'array')
    built = [axis(i, n) for i, n in enumerate(shape)]
    x = physical.array(v, unit='km', axes=physical.axes(dict(zip(names, (b[0] for b in built)))))
    if flavour == 'converted':
        x = physical.array(v / 1e3, unit='Mm', axes=x.axes).withunit('km')
    return x, Ref(v * 1e3, U.canonical('m')[1], list(zip(names, (b[1] for b in built))), 'array')


def select(ref, picks, names):
    si = ref.si
    for d, p in enumerate(picks):
        si = np.take(si, p, axis=d)
    axes = ref.axes
    if axes is not None:
        axes = [(n, tuple(lab[i] for i in p)) for (n, lab), p in zip(axes, picks)]
    return Ref(si, ref.dim, axes, ref.kind)


def optional(exprs, ndim):
    """Expressions the package may refuse (but must not get wrong).

    - an ellipsis that stands for no dimension, unless it comes last
    - an index sequence given to a 1-D array
    """
    if len(exprs) > ndim and exprs[-1] != ['...']:
        return True
    return ndim == 1 and lists(exprs) > 0


def expand(exprs, ndim):
    """Per-dimension expressions after filling in missing dimensions."""
    full = ['s', None, None, None]
    if ['...'] in exprs:
        k = exprs.index(['...'])
        fill = ndim - (len(exprs) - 1)
        return exprs[:k] + [full] * fill + exprs[k + 1:]
    return list(exprs) + [full] * (ndim - len(exprs))


def check(got, ref, flavour, names):
    if flavour in ('physical', 'converted', 'plain'):
        why = phys.mismatch(got, ref)
        if why is None and str(got.unit) != 'km':
            why = f"unit became {got.unit}"
        return why
    if tuple(got.dimensions) != tuple(names):
        return f"dimensions {tuple(got.dimensions)}"
    a = np.array(got)
    if tuple(got.shape) != ref.si.shape or a.shape != ref.si.shape:
        return f"shape {got.shape} / {a.shape}, expected {ref.si.shape}"
    if not np.array_equal(a, ref.si):
        return f"values {a.tolist()}, expected {ref.si.tolist()}"
    return None


def subscript(cx, case, x, ref, flavour, exprs, bare):
    names = NAMES[:ref.si.ndim]
    filled = expand(exprs, ref.si.ndim)
    picks = [positions(e, n) for e, n in zip(filled, ref.si.shape)]
    args = tuple(decode(e) for e in exprs)
    if bare:
        args = args[0]
    cx.step()
    try:
        got = x[args]
    except (IndexError, ValueError) as err:
        if any(p is None for p in picks) and isinstance(err, IndexError) or optional(exprs, ref.si.ndim):
            cx.outcome(('refused', ref.si.shape, repr(exprs)))
            return None
        cx.fail(case, f"x[{args}] raised {err!r}")
        return None
    if any(p is None for p in picks):
        if [] in picks:
            return None  # nothing was selected, so nothing can be wrong
        cx.fail(case, f"x[{args}] is out of range but returned {got!r}")
        return None
    want = select(ref, picks, names)
    why = check(got, want, flavour, names)
    if not cx.require(why is None, case, lambda: f"x[{args}]: {why}"):
        return None
    why = check(x, ref, flavour, names)
    cx.require(why is None, case, lambda: f"the source changed: {why}")
    cx.trace()
    cx.outcome((flavour, ref.si.shape, repr(exprs), want.si.tolist()))
    cx.state((flavour, want.si.tolist(), want.axes))
    return got, want


def expressions(shape, tier):
    nd = len(shape)
    alpha = FULL if nd < 3 or tier == 'thorough' else SMALL
    out = [([['...']], True)]
    for k in range(1, nd + 1):
        menu = alpha if k < 3 or tier == 'thorough' else SMALL
        for combo in itertools.product(menu, repeat=k):
            if k == 1 and lists(combo):
                continue  # a lone sequence is read as one index per dimension
            out.append((list(combo), False))
    for e in FULL:
        if not lists([e]):
            out.append(([e], True))
    for e in SMALL:
        out += [([['...'], e], False), ([e, ['...']], False)]
    if nd == 3:
        for e, f in itertools.product(SMALL, repeat=2):
            out += [([e, ['...'], f], False)]
    return out


def lists(exprs):
    return sum(e[0] in ('l', 'a', 'r', 'is', 't') for e in exprs)


def shapes(tier):
    return [(4,), (3, 4), (1, 4), (2, 3, 4), (5,), (1, 3, 1)]


FLAVOURS = ('physical', 'converted', 'plain', 'real', 'numeric')


def shards(tier):
    out = []
    for shape in shapes(tier):
        n = len(expressions(shape, tier))
        for fl in FLAVOURS:
            step = 200 if fl in ('physical', 'converted', 'plain') else 2000
            for lo in range(0, n, step):
                out.append({'shape': shape, 'flavour': fl, 'lo': lo, 'hi': lo + step, 'tier': tier})
    return out


def run_shard(shard, cx):
    shape, fl = tuple(shard['shape']), shard['flavour']
    x, ref = build(fl, shape)
    for exprs, bare in expressions(shape, shard['tier'])[shard['lo']:shard['hi']]:
        case = [fl, list(shape), exprs, bare]
        got = None
        with cx.case(case):
            got = subscript(cx, case, x, ref, fl, exprs, bare)
        if got is None or len(exprs) > 2 or 0 in got[1].si.shape:
            continue
        nd = len(shape)
        if shard['tier'] == 'quick' and nd > 2:
            continue
        for second in itertools.product(SECOND, repeat=min(nd, 2)):
            case = [fl, list(shape), exprs, bare, list(second)]
            with cx.case(case):
                subscript(cx, case, *got, fl, list(second), False)


def replay(case, cx):
    fl, shape, exprs, bare, *more = case
    x, ref = build(fl, tuple(shape))
    with cx.case(case):
        got = subscript(cx, case, x, ref, fl, exprs, bare)
        if more and got:
            subscript(cx, case, *got, fl, more[0], False)
