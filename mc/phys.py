"""Reference model of physical objects: SI values over labelled axes.

`Ref` is deliberately boring: a numpy array of SI values, a dimension vector,
and (for arrays) an ordered list of (name, labels).  It knows nothing about how
eprempy stores units, scales, or axes.
"""

from fractions import Fraction as F

import numpy as np

from . import unitref as U


class Ref:
    def __init__(self, si, dim, axes=None, kind='tensor'):
        self.si = np.asarray(si, float)
        self.dim = tuple(F(x) for x in dim)
        self.axes = None if axes is None else [(n, tuple(v)) for n, v in axes]
        self.kind = kind

    @property
    def names(self):
        return None if self.axes is None else [n for n, _ in self.axes]

    def labels(self, name):
        return dict(self.axes)[name]


KINDS = ('scalar', 'vector', 'tensor', 'array')


def labels_of(axis):
    """Plain python labels of a physical axis (with unit folded into SI)."""
    unit = getattr(axis, 'unit', None)
    values = list(axis)
    if all(isinstance(v, str) for v in values):
        return tuple(values)
    array = np.array(axis, float)
    if unit is not None:
        array = array * U.canonical(unit)[0]
    return tuple(round(float(v), 12) for v in array)


def observe(x):
    """Project an eprempy physical object onto what a user can see."""
    from eprempy import physical
    kind = {
        physical.Array: 'array',
        physical.Vector: 'vector',
        physical.Tensor: 'tensor',
        physical.Scalar: 'scalar',
    }.get(type(x))
    if kind is None:
        raise TypeError(f"not a physical object: {type(x)}")
    factor, dim = U.canonical(x.unit)
    raw = float(x) if kind == 'scalar' else np.array(x, float)
    if kind != 'scalar' and np.array(x).dtype == object:
        raise TypeError(f"the values are not numbers: {np.array(x).dtype}")
    out = {
        'kind': kind,
        'unit': str(x.unit),
        'raw': raw,
        'si': np.asarray(raw, float) * factor,
        'dim': dim,
        'axes': None,
    }
    if kind == 'array':
        out['axes'] = [(d, labels_of(x.axes[d])) for d in x.axes.names]
        out['dimensions'] = list(x.dimensions)
        out['shape'] = tuple(x.shape)
        out['shapemap'] = dict(x.shapemap)
    return out


def same(a, b, rtol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    scale = np.nanmax(np.abs(b)) if b.size else 0.0
    with np.errstate(all='ignore'):
        ok = np.isclose(a, b, rtol=rtol, atol=1e-14 * (scale if np.isfinite(scale) else 1.0), equal_nan=True)
    return bool(np.all(ok))


def mismatch(x, ref, ordered=True, kinds=True):
    """Explain how the real object `x` differs from `ref`, or return None."""
    try:
        o = observe(x)
    except TypeError as err:
        return str(err)
    if kinds and o['kind'] != ref.kind:
        return f"kind {o['kind']} instead of {ref.kind}"
    if o['dim'] != ref.dim:
        return f"unit {o['unit']} has dimension {tuple(map(str, o['dim']))}, expected {tuple(map(str, ref.dim))}"
    if o['kind'] == 'array' and ref.axes is not None:
        names = [n for n, _ in o['axes']]
        if list(o['dimensions']) != names:
            return f"dimensions {o['dimensions']} disagree with axes {names}"
        if sorted(names) != sorted(ref.names):
            return f"dimensions {names}, expected {ref.names}"
        if ordered and names != ref.names:
            return f"dimension order {names}, expected {ref.names}"
        lens = tuple(len(v) for _, v in o['axes'])
        if lens != o['shape'] or o['shape'] != o['si'].shape:
            return f"axis lengths {lens}, shape {o['shape']}, data {o['si'].shape}"
        if list(o['shapemap'].items()) != list(zip(names, o['shape'])):
            return f"shapemap {o['shapemap']} disagrees with {names}, {o['shape']}"
        for n, v in o['axes']:
            if tuple(v) != tuple(ref.labels(n)):
                return f"axis {n!r} is {v}, expected {ref.labels(n)}"
        si = np.transpose(o['si'], [names.index(n) for n in ref.names])
    else:
        si = o['si']
    if not same(si, ref.si):
        return f"SI values {si.tolist()} (unit {o['unit']}), expected {ref.si.tolist()}"
    return None


def reorder(ref, names):
    """The same reference with its dimensions in another order."""
    if ref.names == names:
        return ref
    si = np.transpose(ref.si, [ref.names.index(n) for n in names])
    return Ref(si, ref.dim, [(n, ref.labels(n)) for n in names], ref.kind)


def align(a, b):
    """Broadcast two labelled refs by dimension *name*.

    Returns the aligned arrays and the merged axes.  Order: the dimensions of
    `a`, with those only in `b` placed so that both original orders survive.
    """
    names = merge(a.names, b.names)
    if names is None:
        return None
    axes = []
    for n in names:
        la = dict(a.axes).get(n)
        lb = dict(b.axes).get(n)
        axes.append((n, lb if la is None else la if lb is None else (lb if len(la) == 1 else la)))

    def expand(r):
        order = [n for n in names if n in r.names]
        x = np.transpose(r.si, [r.names.index(n) for n in order])
        return x.reshape([len(r.labels(n)) if n in r.names else 1 for n in names])
    return expand(a), expand(b), axes


def merge(p, q):
    """Any interleaving is fine as long as both orders are preserved."""
    shared_p = [n for n in p if n in q]
    shared_q = [n for n in q if n in p]
    if shared_p != shared_q:
        return None
    return list(p) + [n for n in q if n not in p]


def make(spec):
    """Build (real object, Ref) from a JSON-able description.

    spec = {kind, unit: [[sym, exp], ...], shape/axes, base}
    Values are distinct and identify their position, so a transposed or
    misaligned result cannot look right.
    """
    from eprempy import physical
    kind = spec['kind']
    terms = [tuple(t) for t in spec.get('unit', [])]
    text = unit_text(terms)
    factor, dim = U.expr(terms) if terms else (1.0, U.dim())
    base = spec.get('base', 1.0)
    if kind == 'number':
        return spec['value'], Ref(spec['value'], U.dim(), kind='number')
    if kind == 'scalar':
        v = spec.get('value', base)
        return physical.scalar(v, unit=text), Ref(v * factor, dim, kind='scalar')
    if kind in ('vector', 'tensor'):
        shape = tuple(spec['shape'])
        n = int(np.prod(shape))
        v = values(n, base, spec.get('sign', 1)).reshape(shape)
        f = getattr(physical, kind)
        return f(v, unit=text), Ref(v * factor, dim, kind=kind)
    axes = [(n, a) for n, a in spec['axes']]
    shape = tuple(axis_len(a) for _, a in axes)
    v = values(int(np.prod(shape)), base, spec.get('sign', 1)).reshape(shape)
    mapping = {n: axis_make(a) for n, a in axes}
    x = physical.array(v, unit=text, axes=physical.axes(mapping))
    return x, Ref(v * factor, dim, [(n, axis_labels(a)) for n, a in axes], 'array')


def axis_len(a):
    """An axis is n (points), [str, ...] (symbols) or {c: values, u: unit}."""
    return a if isinstance(a, int) else len(a['c']) if isinstance(a, dict) else len(a)


def axis_make(a):
    from eprempy import measured, physical
    if isinstance(a, int):
        return physical.points(range(a))
    if isinstance(a, dict):
        return physical.coordinates(measured.sequence(a['c'], unit=a['u']))
    return physical.symbols(list(a))


def axis_labels(a):
    if isinstance(a, int):
        return tuple(float(i) for i in range(a))
    if isinstance(a, dict):
        f = U.canonical(a['u'])[0]
        return tuple(round(float(i) * f, 12) for i in a['c'])
    return tuple(a)


PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61,
          67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113, 127, 131, 137,
          139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211]


def values(n, base=1.0, sign=1):
    """n distinct positive (or alternating) values."""
    v = np.array([PRIMES[i % len(PRIMES)] + (i // len(PRIMES)) * 0.5 for i in range(n)], float)
    v = v * base
    if sign < 0:
        v = v * np.where(np.arange(n) % 2 == 0, 1.0, -1.0)
    return v


def unit_text(terms, style=0):
    if not terms:
        return '1'
    parts = []
    for s, e in terms:
        e = F(e)
        parts.append(s if e == 1 else f"{s}^{e}")
    return (' * ' if style else ' ').join(parts)
