"""C01: arithmetic on physical objects is dimensionally and numerically right.

Explicit-state search.  A state is a pair (real eprempy object, reference in SI
with labelled axes); a transition applies one operator to it together with one
operand of a fixed alphabet, on the left or on the right, or one unary
operator / numpy ufunc.  Every state reached is compared with the reference.
"""

import fractions
import itertools
import operator

import numpy as np

from .. import phys, unitref as U
from ..phys import Ref

ID = 'C01'
LEVEL = 'model_checking'
RULE = (
    "every operator sequence up to the depth bound over the operand alphabet "
    "(numbers, scalars, vectors, tensors, arrays; 6 units; 0-2 dimensions), "
    "deduplicated on the observable state; powers by rational numbers; non-trivial: distinct observed "
    "result (kind, unit, axes, values) or a refusal of an inconsistent pair"
)
BOUNDS = {
    'quick': {'depth': 2, 'second step': 'reduced operand menu'},
    'thorough': {'depth': 3, 'third step': 'reduced operand menu'},
}
ASSUMPTIONS = [
    "units of results are compared as (SI factor, SI dimension), so any "
    "spelling of the right unit is accepted",
    "operands whose units are consistent but not identical may be refused "
    "by additive and ordering operators, but must never give a wrong value",
    "the unit of '//' and '%' is not part of the claim",
]

M = [['m', 1]]
CM = [['cm', 1]]
S = [['s', 1]]
MS = [['m', 1], ['s', -1]]
J = [['J', 1]]
KG = [['kg', 1], ['m', 2], ['s', -2]]
X3 = ['x', 3]
Y2 = ['y', 2]

SEEDS = (
    [{'kind': 'number', 'value': v} for v in (2, 0.5, -3.0, 1)]
    + [{'kind': 'scalar', 'unit': u, 'value': v}
       for u, v in ((M, 4.0), (CM, 25.0), (S, 0.5), (MS, -2.0), ([], 2.0), ([], 0.5))]
    + [{'kind': 'vector', 'unit': u, 'shape': [3], 'base': b}
       for u, b in ((M, 1.0), (CM, 10.0), (S, 2.0), ([], 0.25))]
    + [{'kind': 'tensor', 'unit': u, 'shape': s}
       for u, s in ((M, [3, 2]), (S, [3, 2]), ([], [3, 2]), (M, [3]))]
    + [{'kind': 'array', 'unit': u, 'axes': a, 'base': b}
       for u, a, b in (
           (M, [X3], 1.0), (CM, [X3], 10.0), (S, [X3], 1.0), ([], [X3], 0.25),
           (M, [X3, Y2], 1.0), (M, [Y2, X3], 1.0), (S, [Y2], 1.0),
           ([], [X3, Y2], 0.125), (J, [X3, Y2], 1.0), (KG, [X3, Y2], 2.0),
           (MS, [['x', {'c': [1.0, 2.0, 4.0], 'u': 'au'}]], 1.0),
           (M, [['x', {'c': [1.0, 2.0, 4.0], 'u': 'au'}], Y2], 1.0),
           # arrays that differ from another one in their labels alone
           (M, [['x', {'c': [1.0, 2.0, 4.0], 'u': 'au'}]], 1.0),
           (M, [['x', {'c': [1.0, 2.0, 5.0], 'u': 'au'}]], 1.0),
           (M, [['x', {'c': [1.0, 2.0, 4.0], 'u': 'm'}]], 1.0),
           (M, [['z', 3]], 1.0),
       )]
)
NUMBERS = [i for i, s in enumerate(SEEDS) if s['kind'] == 'number']
MENU = [0, 5, 9, 14, 18, 24]  # reduced operand menu

BINARY = {
    'add': operator.add, 'sub': operator.sub, 'mul': operator.mul,
    'div': operator.truediv, 'pow': operator.pow,
    'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge,
    'eq': operator.eq, 'ne': operator.ne,
    'floordiv': operator.floordiv, 'mod': operator.mod,
}
CHAINED = ('add', 'mul', 'div', 'pow')
UNARY = {'neg': operator.neg, 'pos': operator.pos, 'abs': operator.abs}
FRACTIONS = (fractions.Fraction(2), fractions.Fraction(1, 2), fractions.Fraction(-3, 2))
EXPONENTS = (1, 2, 3, -1, -2, -3, 0.5, -0.5)

RANK = {'number': 0, 'scalar': 1, 'vector': 2, 'tensor': 3, 'array': 4}


class Refused(Exception):
    pass


class Skip(Exception):
    """Outside the claim (e.g. the unit-dependent cases listed above)."""


def build(i):
    return phys.make(SEEDS[i])


def ratio_equal(a, b):
    return a.dim == b.dim


def unit_of(x):
    return str(x.unit) if hasattr(x, 'unit') else '1'


def identical(x, y):
    """Are the two units the same expression (not merely consistent)?"""
    def terms(t):
        out = {}
        for part in t.split():
            s, _, e = part.partition('^')
            if s != '1':
                out[s] = e or '1'
        return out
    return terms(unit_of(x)) == terms(unit_of(y))


def combine(f, x, a, y, b, dim):
    """Reference for an elementwise operation `f` on SI values."""
    kind = max(a.kind, b.kind, key=RANK.get)
    with np.errstate(all='ignore'):
        if a.kind == 'array' and b.kind == 'array':
            if any(
                len(a.labels(n)) == len(b.labels(n)) and a.labels(n) != b.labels(n)
                for n in a.names if n in b.names
            ):
                raise Skip  # conflicting labels: the merge order is a choice
            aligned = phys.align(a, b)
            if aligned is None:
                raise Skip  # dimensions in conflicting orders
            p, q, axes = aligned
            return Ref(f(p, q), dim, axes, 'array')
        try:
            si = f(a.si, b.si)
        except ValueError:
            raise Refused
        if kind == 'array':
            r = a if a.kind == 'array' else b
            if si.shape != r.si.shape:
                raise Refused
            return Ref(si, dim, r.axes, 'array')
        if kind == 'vector' and si.ndim > 1:
            raise Skip
        return Ref(si, dim, None, kind)


def expect(op, x, a, y, b):
    """('ref', Ref) | ('raw', ndarray) | ('refuse', None) | ('free', Ref)"""
    pair = {a.kind, b.kind}
    if pair == {'array', 'vector'} and op in ('add', 'sub'):
        return 'refuse', None
    if op in ('add', 'sub'):
        if a.dim != b.dim:
            return 'refuse', None
        if pair & {'number'} and not (identical(x, y)):
            return 'refuse', None
        f = np.add if op == 'add' else np.subtract
        if a.kind == b.kind == 'array':
            if a.names != b.names or a.axes != b.axes:
                return 'refuse', None
        r = combine(f, x, a, y, b, a.dim)
        return ('ref' if identical(x, y) else 'free'), r
    if op in ('lt', 'le', 'gt', 'ge', ):
        if 'number' in pair:
            # a bare number is compared with the numerical value
            p = a.si if a.kind == 'number' else np.array(raw(x))
            q = b.si if b.kind == 'number' else np.array(raw(y))
            return 'raw', BINARY[op](p, q)
        if a.dim != b.dim:
            return 'refuse', None
        if a.kind == b.kind == 'array' and (a.names != b.names):
            return 'refuse', None
        if a.kind != b.kind and 'array' in pair:
            raise Skip
        if a.si.shape != b.si.shape and a.si.ndim and b.si.ndim:
            raise Skip
        if not identical(x, y):
            return 'freeraw', BINARY[op](a.si, b.si)
        return 'raw', BINARY[op](np.array(raw(x)), np.array(raw(y)))
    if op == 'mul':
        return 'ref', combine(np.multiply, x, a, y, b, add(a.dim, b.dim))
    if op == 'div':
        return 'ref', combine(np.divide, x, a, y, b, sub(a.dim, b.dim))
    if op in ('floordiv', 'mod'):
        if not identical(x, y):
            raise Skip
        f = np.floor_divide if op == 'floordiv' else np.mod
        if a.kind == b.kind == 'array' and a.names != b.names:
            raise Skip
        return 'value', combine(f, x, a, y, b, a.dim)
    if op == 'pow':
        if np.any(np.asarray(raw(x)) < 0) and np.any(np.asarray(raw(y)) % 1):
            raise Skip  # complex result
        if any(b.dim):
            return 'refuse', None
        if unit_of(y) != '1':
            raise Skip
        if b.kind in ('number', 'scalar'):
            e = float(b.si)
            if e not in EXPONENTS:
                raise Skip  # not a rational power a unit can carry
            dim = tuple(d * U.F(e).limit_denominator(64) for d in a.dim)
            if a.kind == 'number':
                return 'raw', a.si ** e
            with np.errstate(all='ignore'):
                si = np.power(a.si, e)
            return 'ref', Ref(si, dim, a.axes, a.kind)
        if a.kind == 'number':
            return 'raw', np.power(a.si, np.array(raw(y)))
        if unit_of(x) != '1':
            return 'refuse', None
        if a.kind == b.kind == 'array':
            if a.names != b.names:
                return 'refuse', None
        elif a.kind == 'array' or b.kind == 'array':
            if a.si.shape != b.si.shape and b.si.ndim and a.si.ndim:
                raise Skip
        return 'ref', combine(np.power, x, a, y, b, U.dim())
    raise KeyError(op)


def raw(x):
    if isinstance(x, (int, float)):
        return x
    o = phys.observe(x)
    return o['raw']


def add(p, q):
    return tuple(i + j for i, j in zip(p, q))


def sub(p, q):
    return tuple(i - j for i, j in zip(p, q))


def judge(cx, case, op, x, a, y, b):
    """Execute `x op y` on the implementation and compare; return new state."""
    try:
        want, ref = expect(op, x, a, y, b)
    except Skip:
        cx.note('outside the claim')
        return None
    except Refused:
        want, ref = 'refuse', None
    cx.step()
    try:
        with np.errstate(all='ignore'):
            got = BINARY[op](x, y)
    except (ValueError, TypeError) as err:
        if want in ('refuse', 'free', 'freeraw'):
            cx.outcome(('refused', op, a.kind, b.kind, a.dim, b.dim))
            return None
        cx.fail(case, f"refused although consistent: {type(err).__name__}: {err}")
        return None
    if want == 'refuse':
        if got is NotImplemented:
            return None
        cx.fail(case, f"accepted an inconsistent pair and returned {got!r}")
        return None
    if want in ('raw', 'freeraw'):
        g = np.array(got, float)
        w = np.broadcast_to(np.asarray(ref, float), g.shape) if np.ndim(ref) == 0 and g.shape == (1,) else np.asarray(ref, float)
        cx.require(phys.same(g, w, 1e-9), case, lambda: f"got {g.tolist()}, expected {w.tolist()}")
        cx.outcome((op, g.tolist()))
        return None
    if want == 'value':
        g = phys.observe(got)
        w = BINARY[op](np.array(raw(x)), np.array(raw(y)))
        cx.require(phys.same(g['raw'], w), case, lambda: f"values {g['raw']}, expected {w}")
        return None
    why = phys.mismatch(got, ref, ordered=False)
    if not cx.require(why is None, case, lambda: why):
        return None
    if ref.kind == 'array':
        ref = phys.reorder(ref, list(got.dimensions))
    return got, ref


def canon(x, ref):
    return (
        ref.kind, ref.dim, ref.axes, unit_of(x),
        np.round(np.asarray(ref.si), 12).tolist(),
    )


def equality(cx, case, x, a, y, b):
    """== and != agree with each other and with what is observable."""
    try:
        eq, ne = x == y, x != y
    except Exception as err:
        cx.fail(case, f"comparison raised {err!r}")
        return
    cx.step(2)
    if a.kind == 'number' or b.kind == 'number':
        return
    cx.require(bool(eq) != bool(ne), case, f"== gives {eq} and != gives {ne}")
    should = (
        identical(x, y)
        and np.shape(raw(x)) == np.shape(raw(y))
        and np.array_equal(raw(x), raw(y))
        and (a.kind != 'array' or b.kind != 'array' or a.axes == b.axes)
    )
    if should and a.kind == b.kind:
        cx.require(bool(eq), case, "equal values, unit and axes compare unequal")
    if bool(eq):
        cx.require(a.dim == b.dim, case, "objects with different dimensions compare equal")
        cx.require(
            np.size(a.si) == np.size(b.si) and np.allclose(np.ravel(a.si), np.ravel(b.si)),
            case, "objects with different values compare equal",
        )
        if a.kind == b.kind == 'array':
            cx.require(
                a.names == b.names and all(a.labels(n) == b.labels(n) for n in a.names),
                case, "arrays with different axes compare equal",
            )


def unaries(cx, case, x, a):
    out = []
    if a.kind == 'number':
        return out
    for name, f in UNARY.items():
        cs = case + [['unary', name]]
        with cx.case(cs):
            cx.step()
            got = f(x)
            ref = Ref(f(a.si), a.dim, a.axes, a.kind)
            why = phys.mismatch(got, ref)
            if cx.require(why is None, cs, lambda: why):
                out.append((cs, got, ref))
    for e in FRACTIONS:
        cs = case + [['unary', f'power {e}']]
        if np.any(np.asarray(raw(x)) < 0) and e % 1:
            continue  # complex result
        with cx.case(cs):
            cx.step()
            with np.errstate(all='ignore'):
                got = x ** e
                si = np.power(a.si, float(e))
            ref = Ref(si, tuple(d * e for d in a.dim), a.axes, a.kind)
            why = phys.mismatch(got, ref)
            cx.require(why is None, cs, lambda: why)
    if a.kind == 'scalar':
        with cx.case(case + [['unary', 'float']]):
            cx.require(phys.same(float(x), raw(x)), case, f"float() gives {float(x)}")
            cx.require(int(x) == int(raw(x)), case, f"int() gives {int(x)}")
            import math
            for f in (round, math.floor, math.ceil, math.trunc):
                got = f(x)
                w = f(raw(x))
                r = Ref(w * U.canonical(x.unit)[0], a.dim, None, 'scalar')
                why = phys.mismatch(got, r)
                cx.require(why is None, case + [[f.__name__]], lambda: why)
    return out


def shards(tier):
    return [{'seed': i, 'tier': tier} for i in range(len(SEEDS))]


def expand(cx, hist, x, a, operands, ops, seen):
    """All transitions out of one state."""
    out = []
    for j, op, side in itertools.product(operands, ops, ('L', 'R')):
        y, b = build(j)
        if a.kind == 'number' and b.kind == 'number':
            continue
        case = hist + [[op, j, side]]
        with cx.case(case):
            left = (x, a, y, b) if side == 'L' else (y, b, x, a)
            if op == 'eq':
                if side == 'L':
                    equality(cx, case, x, a, y, b)
                continue
            new = judge(cx, case, op, *left)
            cx.trace()
            if new is not None:
                new_x, new_ref = new
                # the operands must be left as they were
                why = phys.mismatch(x, a, ordered=False) if a.kind != 'number' else None
                cx.require(why is None, case, lambda: f"operand changed: {why}")
                k = canon(new_x, new_ref)
                cx.outcome(k)
                if cx.state(k):
                    out.append((case, new_x, new_ref))
    for case, new_x, new_ref in unaries(cx, hist, x, a):
        k = canon(new_x, new_ref)
        cx.outcome(k)
        if cx.state(k):
            out.append((case, new_x, new_ref))
    return out


def finite(ref):
    return np.all(np.isfinite(ref.si)) and (ref.si.size == 0 or 1e-12 < np.max(np.abs(ref.si)) < 1e12)


def run_shard(shard, cx):
    i = shard['seed']
    x, a = build(i)
    ops = [o for o in BINARY if o != 'ne']
    cx.state(canon(x, a))
    level = expand(cx, [i], x, a, range(len(SEEDS)), ops, None)
    depth = 2 if shard['tier'] == 'quick' else 3
    for d in range(2, depth + 1):
        menu = MENU if d > 2 or shard['tier'] == 'quick' else range(len(SEEDS))
        chain = CHAINED if d > 2 or shard['tier'] == 'quick' else CHAINED + ('lt', 'eq')
        nxt = []
        for hist, x, a in level:
            if finite(a):
                nxt += expand(cx, hist, x, a, menu, chain, None)
        level = nxt


def replay(case, cx):
    x, a = build(case[0])
    for n, step in enumerate(case[1:], 1):
        if step[0] == 'unary':
            if step[1] == 'float' or step[1].startswith('power'):
                unaries(cx, case[:n], x, a)
                continue
            f = UNARY[step[1]]
            x, a = f(x), Ref(f(a.si), a.dim, a.axes, a.kind)
            continue
        op, j, side = step
        y, b = build(j)
        if op == 'eq':
            equality(cx, case, x, a, y, b)
            continue
        new = judge(cx, case, op, *((x, a, y, b) if side == 'L' else (y, b, x, a)))
        if new is None:
            return
        x, a = new
