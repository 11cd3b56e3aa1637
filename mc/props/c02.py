"""C02: changing units never changes the physical quantity.

Explicit-state search over histories of unit changes interleaved with
value-preserving and value-changing operations.  Reference: SI values.
"""

import numpy as np

from .. import phys, unitref as U
from ..phys import Ref

ID = 'C02'
LEVEL = 'model_checking'
RULE = (
    "every history, up to the depth bound, of unit changes (3-4 mutually "
    "convertible spellings per family plus one inconsistent unit), indexing, "
    "transposition, scaling, negation, self-addition, self-product, square "
    "root and reduction, from every seed object; non-trivial: distinct "
    "observed object"
)
BOUNDS = {
    'quick': {'depth': 3, 'families': 7},
    'thorough': {'depth': 4, 'families': 7},
}
ASSUMPTIONS = [
    "SI values agree with an independent unit table within a relative 1e-9",
]

FAMILIES = {
    'length': ['m', 'cm', 'Mm', 'mm'],
    'energy': ['J', 'erg', 'MeV'],
    'time': ['s', 'h', 'd'],
    'speed': ['m s^-1', 'km/s', 'au d^-1'],
    'density': ['m^-3', 'cm^-3', '1 / km^3'],
    'field': ['T', 'nT', 'G'],
    'temperature-flux': ['K m^-2 s^-1', 'K cm^-2 s^-1', 'K / (km^2 h)'],
}
DIMS = {
    'length': [('m', 1)], 'energy': [('J', 1)], 'time': [('s', 1)],
    'speed': [('m', 1), ('s', -1)], 'density': [('m', -3)], 'field': [('T', 1)],
    'temperature-flux': [('K', 1), ('m', -2), ('s', -1)],
}
FACTORS = {
    'km/s': 1e3, '1 / km^3': 1e-9, 'K / (km^2 h)': 1e-6 / 3600,
}
WRONG = {'length': 's', 'energy': 'm', 'time': 'K', 'speed': 'm', 'density': 'm^3',
         'field': 'm', 'temperature-flux': 'K'}
SHAPES = {
    'scalar': (), 'vector': (3,), 'tensor': (2, 3), 'array': (2, 3), 'array3': (2, 1, 3),
    'value': (), 'sequence': (3,), 'coordinates': (3,),
}
QUICK_FAMILIES = ('length', 'speed', 'density')
NAMES = ('a', 'b', 'c')


def factor(u):
    return FACTORS[u] if u in FACTORS else U.canonical(u)[0]


def base_values(shape):
    n = int(np.prod(shape)) if shape else 1
    return phys.values(n, 1.5).reshape(shape)


def build(kind, family, i):
    from eprempy import measured, physical
    u = FAMILIES[family][i]
    v = base_values(SHAPES[kind])
    dim = U.expr(DIMS[family])[1]
    si = v * factor(u)
    if kind == 'scalar':
        return physical.scalar(float(v), unit=u), Ref(si, dim, None, 'scalar')
    if kind in ('vector', 'tensor'):
        return getattr(physical, kind)(v, unit=u), Ref(si, dim, None, kind)
    if kind.startswith('array'):
        names = NAMES[:v.ndim]
        axes = {n: physical.points(range(s)) for n, s in zip(names, v.shape)}
        x = physical.array(v, unit=u, axes=physical.axes(axes))
        r = Ref(si, dim, [(n, tuple(map(float, range(s)))) for n, s in zip(names, v.shape)], 'array')
        return x, r
    if kind == 'value':
        return measured.value(float(v), unit=u), Ref(si, dim, None, 'value')
    if kind == 'sequence':
        return measured.sequence(list(map(float, v)), unit=u), Ref(si, dim, None, 'sequence')
    if kind == 'coordinates':
        s = measured.sequence(list(map(float, v)), unit=u)
        return physical.coordinates(s), Ref(si, dim, None, 'coordinates')
    raise KeyError(kind)


def check(x, ref):
    if ref.kind in ('scalar', 'vector', 'tensor', 'array'):
        return phys.mismatch(x, ref)
    f, dim = U.canonical(x.unit)
    raw = float(x) if ref.kind == 'value' else np.array([float(i) for i in x] if ref.kind == 'sequence' else x, float)
    if ref.kind == 'coordinates':
        raw = np.array(x, float)
    if dim != ref.dim:
        return f"unit {x.unit} has the wrong dimension"
    if not phys.same(np.asarray(raw) * f, ref.si):
        return f"SI values {np.asarray(raw) * f}, expected {ref.si}"
    return None


QUICK_OPS = ('unit', 'wrong', 'twice', 'self+', 'square', 'sqrt', 'first', 'reverse', 'swap', 'squeeze')


def ops(kind, family, tier='thorough'):
    full = all_ops(kind, family)
    if tier == 'quick':
        return [o for o in full if o[0] in QUICK_OPS]
    return full


def all_ops(kind, family):
    out = [['unit', u] for u in FAMILIES[family]] + [['wrong', WRONG[family]]]
    if kind in ('value', 'sequence', 'coordinates'):
        return out
    out += [['twice'], ['half'], ['self+'], ['neg'], ['square'], ['sqrt']]
    if kind.startswith('array'):
        out += [['first'], ['reverse'], ['T'], ['swap'], ['sum'], ['squeeze'], ['whole']]
    elif kind != 'scalar':
        out += [['sum']]
    return out


def apply(cx, case, op, x, ref, units):
    """One transition on the implementation and the reference."""
    name = op[0]
    si, dim, axes, kind = ref.si, ref.dim, ref.axes, ref.kind
    if name in ('unit', 'wrong'):
        power = units.get('power', 1)
        target = op[1]
        if power != 1:
            if target in FACTORS:
                return None
            target = ' '.join(raised(t, power) for t in target.split())
        try:
            new = x.withunit(target)
        except Exception as err:
            if name == 'wrong':
                cx.outcome(('refused', kind, str(x.unit), target))
                return None
            cx.fail(case, f"withunit({target!r}) raised {err!r}")
            return None
        if name == 'wrong':
            cx.fail(case, f"withunit({target!r}) on {x.unit} returned {new!r}")
            return None
        return new, ref
    if name == 'twice':
        return 2 * x, Ref(2 * si, dim, axes, kind)
    if name == 'half':
        return x / 2, Ref(si / 2, dim, axes, kind)
    if name == 'self+':
        return x + x, Ref(si + si, dim, axes, kind)
    if name == 'neg':
        return -x, Ref(-si, dim, axes, kind)
    if name == 'square':
        if units.get('power', 1) != 1:
            return None
        return x * x, Ref(si * si, tuple(2 * d for d in dim), axes, kind)
    if name == 'sqrt':
        if units.get('power', 1) != 2 or np.any(si < 0):
            return None
        return np.sqrt(x), Ref(np.sqrt(si), tuple(d / 2 for d in dim), axes, kind)
    if name == 'sum':
        if kind == 'array':
            if si.ndim < 2:
                return None
            return np.sum(x, axis=0), Ref(si.sum(axis=0), dim, axes[1:], kind)
        return np.sum(x), Ref(si.sum(), dim, None, 'scalar')
    if name == 'whole':
        return x[...], ref
    if name == 'first':
        return x[0, ...], Ref(si[:1], dim, [(axes[0][0], axes[0][1][:1])] + axes[1:], kind)
    if name == 'reverse':
        return x.transpose(list(ref.names)[::-1]), Ref(si.transpose(), dim, axes[::-1], kind)
    if name == 'T':
        return np.transpose(x), Ref(si.transpose(), dim, axes[::-1], kind)
    if name == 'swap':
        n = si.ndim
        if n < 2:
            return None
        order = [n - 1] + list(range(n - 1))
        return x.transpose(*order), Ref(si.transpose(order), dim, [axes[i] for i in order], kind)
    if name == 'squeeze':
        keep = [i for i, s in enumerate(si.shape) if s != 1]
        if len(keep) == si.ndim or not keep:
            return None
        return np.squeeze(x), Ref(si.squeeze(), dim, [axes[i] for i in keep], kind)
    raise KeyError(name)


def raised(term, power):
    s, _, e = term.partition('^')
    return f"{s}^{int(e or 1) * power}"


def power_of(ref, family):
    d = U.expr(DIMS[family])[1]
    for i, j in zip(ref.dim, d):
        if j:
            return int(i / j)
    return 1


def canon(x, ref):
    return (ref.kind, str(x.unit), ref.axes, np.asarray(ref.si).tolist())


def shards(tier):
    return [
        {'kind': k, 'family': f, 'tier': tier}
        for k in SHAPES for f in FAMILIES
        if tier != 'quick' or k.startswith('array') or f in QUICK_FAMILIES
    ]


def explore(cx, hist, x, ref, family, kind, depth):
    """Depth-first over histories; `x` is re-read after every step."""
    if depth == 0:
        return
    for op in ops(kind, family, cx.tier if depth < 3 else 'thorough'):
        case = hist + [op]
        with cx.case(case):
            if op[0] in ('twice', 'half', 'neg', 'self+') and any(o[0] == op[0] for o in hist[1:]):
                continue  # the same rescaling twice adds nothing
            if op[0] not in ('unit', 'wrong') and ref.kind == 'scalar' and kind != 'scalar':
                continue
            got = apply(cx, case, op, x, ref, {'power': power_of(ref, family)})
            cx.step()
            # The operand itself must be unaffected.
            why = check(x, ref)
            if not cx.require(why is None, case, lambda: f"operand changed by the operation: {why}"):
                continue
            if got is None:
                continue
            new, nref = got
            cx.trace()
            why = check(new, nref)
            if op[0] == 'unit' and why is None and power_of(ref, family) == 1:
                if abs(U_unit(new) / factor(op[1]) - 1) > 1e-9:
                    why = f"result is in {new.unit}, requested {op[1]}"
            if not cx.require(why is None, case, lambda: why):
                continue
            k = canon(new, nref)
            cx.state(k)
            cx.outcome(k)
        if got is not None:
            explore(cx, case, new, nref, family, kind, depth - 1)


def U_unit(x):
    return U.canonical(x.unit)[0]


def run_shard(shard, cx):
    kind, family = shard['kind'], shard['family']
    depth = 3 if shard['tier'] == 'quick' else 4
    if kind in ('value', 'sequence', 'coordinates'):
        depth = 4
    for i in range(len(FAMILIES[family])):
        if shard['tier'] == 'quick' and i > 0 and kind not in ('value', 'sequence', 'coordinates'):
            break
        with cx.case([[kind, family, i]]):
            x, ref = build(kind, family, i)
            why = check(x, ref)
            cx.require(why is None, [[kind, family, i]], lambda: why)
            cx.state(canon(x, ref))
        explore(cx, [[kind, family, i]], x, ref, family, kind, depth)


def replay(case, cx):
    kind, family, i = case[0]
    x, ref = build(kind, family, i)
    for n in range(1, len(case)):
        got = apply(cx, case, case[n], x, ref, {'power': power_of(ref, family)})
        why = check(x, ref)
        cx.require(why is None, case, lambda: f"operand changed: {why}")
        if got is None:
            return
        x, ref = got
        why = check(x, ref)
        cx.require(why is None, case, lambda: why)
