"""C04: numpy functions and reductions respect labels and units.

Every supported numpy function x every keyword combination (every axis, every
axes permutation, keepdims) x every object kind / shape / unit, also on objects
reached through a conversion, a transposition or a subscript, and every pair
(reduction, reduction) in sequence.  Reference: numpy on SI values with the
labels carried alongside.
"""

import itertools

import numpy as np

from .. import phys, unitref as U
from ..phys import Ref

ID = 'C04'
LEVEL = 'model_checking'
RULE = (
    "every (function, keywords) from the supported set on every seed object "
    "(4 kinds, 0-3 dimensions with singular ones, 6 units, 3 provenances), and "
    "every second application to each result; non-trivial: distinct result or "
    "refusal"
)
BOUNDS = {
    'quick': {'chain': 2, 'shapes': 7},
    'thorough': {'chain': 3, 'shapes': 9},
}
ASSUMPTIONS = [
    "a keyword combination may be refused with TypeError/ValueError, but not "
    "answered with wrong labels, units or values; the combinations listed in "
    "SUPPORTED may not be refused",
]
SHAPES = [(), (4,), (3, 2), (1, 3), (2, 3, 4), (1, 2, 1), (1, 1)]
UNITS = ['m', 'km', 'cm s^-1', '1', 'rad', 'deg', 's^2']
KINDS = ('array', 'tensor', 'vector', 'scalar')
NAMES = ('u', 'v', 'w')


def build(kind, shape, unit, how):
    from eprempy import measured, physical
    if kind == 'scalar' and shape or kind != 'scalar' and not shape:
        return None
    if kind == 'vector' and len(shape) != 1:
        return None
    v = phys.values(int(np.prod(shape)) if shape else 1, 0.125).reshape(shape)
    # not monotonic, so that min/max/gradient cannot be confused with ends
    if shape:
        flat = v.ravel()
        if len(flat) > 1:
            flat[[1, -1]] = flat[[-1, 1]]
        v = flat.reshape(shape)
    f, dim = U.canonical(unit)
    if kind == 'scalar':
        return physical.scalar(float(v), unit=unit), Ref(v * f, dim, None, kind)
    if kind in ('vector', 'tensor'):
        return getattr(physical, kind)(v, unit=unit), Ref(v * f, dim, None, kind)
    names = NAMES[:len(shape)]
    labels = [
        (['p', 'q', 'r', 's'][:n] if i == 0 else list(range(n)) if i == 1 else None, n)
        for i, n in enumerate(shape)
    ]
    axes, ref = {}, []
    for i, (name, n) in enumerate(zip(names, shape)):
        if i == 0:
            s = ['p', 'q', 'r', 's'][:n]
            axes[name] = physical.symbols(s)
            ref.append((name, tuple(s)))
        elif i == 1:
            axes[name] = physical.points(range(n))
            ref.append((name, tuple(map(float, range(n)))))
        else:
            c = [1.0, 2.5, 4.0, 7.0][:n]
            axes[name] = physical.coordinates(measured.sequence(c, unit='au'))
            ref.append((name, tuple(round(x * U.canonical('au')[0], 12) for x in c)))
    axes = physical.axes(axes)
    si = v * f
    if how == 'converted':
        if unit != 'km':
            return None
        x = physical.array(v * 1e3, unit='m', axes=axes).withunit('km')
    elif how == 'transposed':
        if len(shape) < 2:
            return None
        order = [names[-1], *names[:-1]]
        x = physical.array(v, unit=unit, axes=axes).transpose(order)
        perm = [len(shape) - 1, *range(len(shape) - 1)]
        si, ref = si.transpose(perm), [ref[i] for i in perm]
    elif how == 'indexed':
        if shape[0] < 3:
            return None
        x = physical.array(v, unit=unit, axes=axes)[1:]
        si, ref = si[1:], [(ref[0][0], ref[0][1][1:])] + ref[1:]
    else:
        x = physical.array(v, unit=unit, axes=axes)
    return x, Ref(si, dim, ref, kind)


class Refuse(Exception):
    """The operation must be refused."""


class Optional(Exception):
    """The operation may be refused; otherwise the attached result is right."""

    def __init__(self, ref=None):
        self.ref = ref


def reduced(ref, si, axis, keepdims):
    """Reference of a reduction."""
    if axis is None:
        return Ref(si, ref.dim, None, 'scalar')
    if ref.kind != 'array':
        return Ref(si, ref.dim, None, ref.kind)
    ax = axis % ref.si.ndim
    axes = [a for i, a in enumerate(ref.axes) if i != ax]
    return Ref(si, ref.dim, axes, 'array')


def calls(nd):
    """[(function name, kwargs)] for `nd` dimensions."""
    out = []
    axes = [None] + list(range(-nd, nd))
    for name in ('min', 'max', 'mean', 'sum', 'cumsum'):
        for ax in axes:
            out.append((name, {} if ax is None else {'axis': ax}))
    for name in ('min', 'max', 'mean', 'sum'):
        for ax in range(nd):
            for keep in (True, False):
                out.append((name, {'axis': ax, 'keepdims': keep}))
        out.append((name, {'axis': None}))
    if nd >= 2:
        for name in ('sum', 'mean', 'max'):
            out.append((name, {'axis': [0, 1]}))
    out.append(('transpose', {}))
    for p in itertools.permutations(range(nd)):
        if nd > 1:
            out.append(('transpose', {'axes': list(p)}))
            if nd == 3:
                out.append(('transpose', {'axes': [i - nd for i in p]}))
    out.append(('squeeze', {}))
    for ax in range(-nd, nd):
        out.append(('squeeze', {'axis': ax}))
    for name in ('sqrt', 'sin', 'cos', 'tan', 'log', 'log10', 'log2', 'log1p'):
        out.append((name, {}))
    for ax in axes:
        out.append(('gradient', {} if ax is None else {'axis': ax}))
        out.append(('gradient2', {} if ax is None else {'axis': ax}))
        out.append(('gradientu', {} if ax is None else {'axis': ax}))
        if nd:
            out.append(('trapz', {} if ax is None else {'axis': ax}))
            out.append(('trapz2', {} if ax is None else {'axis': ax}))
            out.append(('trapzu', {} if ax is None else {'axis': ax}))
            out.append(('trapzx', {} if ax is None else {'axis': ax}))
    # One spacing per axis: numbers, scalars and vectors in all combinations.
    for n in range(1, nd + 1):
        for menu in itertools.product(STEPS, repeat=n):
            if n == nd:
                out.append(('gradientn', {'steps': list(menu)}))
            if n == 1 and nd > 1:
                out.append(('gradientn', {'steps': list(menu), 'axis': nd - 1}))
            if n == 2 and nd > 1:
                out.append(('gradientn', {'steps': list(menu), 'axis': [1, 0]}))
    for e in (2, 3, 0.5, -1):
        out.append(('power', {'e': e}))
    out += [('array', {}), ('array_equal', {}), ('size', {}), ('multiply', {}), ('true_divide', {})]
    return out


# spacing: (kind, value in its unit, unit)
STEPS = {
    'number': 2.0, '2 s': (2.0, 's'), '3 min': (3.0, 'min'), '3 s': (3.0, 's'),
    '[s]': (None, 's'), '[min]': (None, 'min'),
}


def step_of(k, n, bare=False):
    """The spacing named `k` for `n` points; in SI if `bare`."""
    from eprempy import physical
    v = STEPS[k]
    if not isinstance(v, tuple):
        return v
    v, unit = v
    f = U.canonical(unit)[0]
    if v is None:
        v = np.arange(n) * (np.arange(n) + 1.0)
        return v * f if bare else physical.vector(v, unit=unit)
    return v * f if bare else physical.scalar(v, unit=unit)


def step_axes(kw, nd):
    ax = kw.get('axis')
    return list(range(nd)) if ax is None else list(ax) if isinstance(ax, (list, tuple)) else [ax]


def run(name, kw, x):
    """The implementation."""
    from eprempy import physical
    kw = dict(kw)
    if isinstance(kw.get('axis'), list):
        kw['axis'] = tuple(kw['axis'])
    if name == 'gradient2':
        return np.gradient(x, 2.0, **kw)
    if name == 'gradientu':
        return np.gradient(x, physical.scalar(2.0, unit='s'), **kw)
    if name == 'gradientn':
        shape = np.array(x).shape
        steps = [step_of(k, shape[i]) for k, i in zip(kw.pop('steps'), step_axes(kw, len(shape)))]
        return np.gradient(x, *steps, **kw)
    if name == 'trapz2':
        return np.trapz(x, dx=2.0, **kw)
    if name == 'trapzu':
        return np.trapz(x, dx=physical.scalar(2.0, unit='min'), **kw)
    if name == 'trapzx':
        n = np.array(x).shape[kw.get('axis', -1)]
        return np.trapz(x, physical.vector(np.arange(n) ** 2.0, unit='min'), **kw)
    if name == 'power':
        return np.power(x, kw['e'])
    if name == 'array':
        return np.array(x)
    if name == 'array_equal':
        return [np.array_equal(x, x), np.array_equal(x, -x)]
    if name == 'size':
        if hasattr(x, 'shape'):
            return [x.size, x.ndim, list(x.shape)]
        return [int(np.array(x).size), np.array(x).ndim]
    if name == 'multiply':
        return np.multiply(2.0, x)
    if name == 'true_divide':
        return np.true_divide(x, 4.0)
    return getattr(np, name)(x, **kw)


def expect(name, kw, x, ref):
    """('ref', Ref) | ('list', [Ref]) | ('plain', value); may raise."""
    si, dim, axes, kind = ref.si, ref.dim, ref.axes, ref.kind
    nd = si.ndim
    f = U.canonical(x.unit)[0]
    ax = kw.get('axis')
    if name in ('min', 'max', 'mean', 'sum'):
        if kind == 'scalar' and 'axis' in kw and ax is not None:
            raise Optional
        if isinstance(ax, list):
            g = getattr(np, name)(si, axis=tuple(ax))
            keep = [a for i, a in enumerate(axes or []) if i not in ax]
            r = Ref(g, dim, keep if kind == 'array' and keep else None,
                    'scalar' if g.ndim == 0 else kind)
            if g.ndim == 0:
                return 'value', r
            raise Optional(r)
        r = reduced(ref, getattr(np, name)(si, axis=ax), ax, False)
        if r.kind != 'scalar' and r.si.ndim == 0:
            # a 0-d array and a scalar are equally good answers
            return 'value', r
        if 'axis' in kw and ax is None:
            raise Optional(r)
        if kw.get('keepdims'):
            g = getattr(np, name)(si, axis=ax, keepdims=True)
            r = Ref(g, dim, None, kind)
            r.axes = AnyLabel(axes, ax) if axes else None
            return 'keep', r
        return 'ref', r
    if name == 'cumsum':
        if kind == 'scalar':
            raise Optional
        if ax is None:
            return 'ref', Ref(np.cumsum(si), dim, None, 'vector')
        return 'ref', Ref(np.cumsum(si, axis=ax), dim, axes, kind)
    if name == 'transpose':
        if kind == 'scalar':
            return 'ref', ref
        p = kw.get('axes')
        p = list(range(nd))[::-1] if p is None else [i % nd for i in p]
        return 'ref', Ref(si.transpose(p), dim, [axes[i] for i in p] if axes else None, kind)
    if name == 'squeeze':
        if kind == 'scalar':
            return 'ref', ref
        if ax is not None and si.shape[ax] != 1:
            raise Refuse
        drop = [i for i, n in enumerate(si.shape) if n == 1] if ax is None else [ax % nd]
        g = si.squeeze(axis=tuple(drop))
        if g.ndim == 0:
            return 'ref', Ref(g, dim, None, 'scalar')
        keep = [a for i, a in enumerate(axes or []) if i not in drop]
        return 'ref', Ref(g, dim, keep if axes else None, kind)
    if name == 'sqrt':
        return 'ref', Ref(np.sqrt(si), tuple(d / 2 for d in dim), axes, kind)
    if name in ('sin', 'cos', 'tan'):
        if str(x.unit) not in ('rad', 'deg'):
            raise Refuse
        return 'ref', Ref(getattr(np, name)(si), U.dim(), axes, kind)
    if name.startswith('log'):
        if str(x.unit) != '1':
            raise Refuse
        return 'ref', Ref(getattr(np, name)(si), U.dim(), axes, kind)
    if name == 'gradientn':
        if kind == 'scalar':
            return 'plain', []
        need = step_axes(kw, nd)
        if any(si.shape[i] < 2 for i in need):
            raise Refuse
        steps = kw['steps']
        units = {None if k == 'number' else STEPS[k][1] for k in steps}
        if len(units) > 1 and None in units:
            raise Refuse
        d = dim if None in units else tuple(i - j for i, j in zip(dim, U.dim(T=1)))
        g = np.gradient(si, *[step_of(k, si.shape[i], True) for k, i in zip(steps, need)], axis=tuple(need))
        r = [Ref(i, d, axes, kind) for i in g] if len(need) > 1 else Ref(g[0] if isinstance(g, list) else g, d, axes, kind)
        if len(units) > 1:
            # different consistent units may be refused, never mixed up
            raise Optional(r)
        return 'list' if len(need) > 1 else 'ref', r
    if name.startswith('gradient'):
        if kind == 'scalar':
            return 'plain', []
        h = 1.0 if name == 'gradient' else 2.0
        d = dim
        if name == 'gradientu':
            d = tuple(i - j for i, j in zip(dim, U.dim(T=1)))
        need = range(nd) if ax is None else [ax]
        if any(si.shape[i] < 2 for i in need):
            raise Refuse
        g = np.gradient(si, h, axis=tuple(range(nd)) if ax is None else ax)
        if ax is None and nd > 1:
            return 'list', [Ref(i, d, axes, kind) for i in g]
        g = g[0] if isinstance(g, list) else g
        return 'ref', Ref(g, d, axes, kind)
    if name.startswith('trapz'):
        if kind != 'array':
            raise Optional
        a = -1 if ax is None else ax
        h = {'trapz': 1.0, 'trapz2': 2.0, 'trapzu': 120.0}.get(name)
        if h is None:
            g = np.trapz(si, 60 * np.arange(si.shape[a]) ** 2.0, axis=a)
        else:
            g = np.trapz(si, dx=h, axis=a)
        if name in ('trapzu', 'trapzx'):
            if g.ndim == 0:
                raise Optional
            dim = tuple(i + j for i, j in zip(dim, U.dim(T=1)))
        if g.ndim == 0:
            # numpy returns a bare number for 1-D input
            return 'number', g
        keep = [v for i, v in enumerate(axes) if i != a % nd]
        return 'ref', Ref(g, dim, keep, kind)
    if name == 'power':
        e = kw['e']
        d = tuple(U.F(e) * i for i in dim)
        raise Optional(Ref(si ** e, d, axes, kind))
    if name == 'array':
        return 'plain', np.asarray(si / f)
    if name == 'array_equal':
        return 'plain', [True, False]
    if name == 'size':
        return 'plain', [int(si.size), nd, list(si.shape)] if kind in ('array', 'tensor') else [int(si.size), nd]
    if name == 'multiply':
        raise Optional(Ref(2 * si, dim, axes, kind))
    if name == 'true_divide':
        raise Optional(Ref(si / 4, dim, axes, kind))
    raise KeyError(name)


class AnyLabel(list):
    """Axes of a keepdims reduction: the reduced label is unspecified."""

    def __init__(self, axes, ax):
        super().__init__(axes)
        self.skip = axes[ax % len(axes)][0]


def compare(got, ref, x, source):
    if ref is None:
        return None
    if ref.kind == 'number':
        return None
    if isinstance(got, (np.ndarray, float, np.floating)) and not hasattr(got, 'unit'):
        # a bare numpy result is only right for unitless data, or as numbers
        return 'lost its unit and labels'
    return phys.mismatch(got, ref)


def step(cx, case, name, kw, x, ref):
    """Apply one function; return [(object, Ref)] to continue from."""
    cx.step()
    allowed = required = None
    try:
        kind, want = expect(name, kw, x, ref)
    except Refuse:
        kind, want = 'refuse', None
    except Optional as o:
        kind, want = 'optional', o.ref
    try:
        with np.errstate(all='ignore'):
            got = run(name, kw, x)
    except (TypeError, ValueError, IndexError, NotImplementedError) as err:
        if kind in ('refuse', 'optional'):
            cx.outcome(('refused', name, repr(kw), ref.kind, ref.si.shape))
            return []
        cx.fail(case, f"numpy.{name}(x, {kw}) raised {type(err).__name__}: {err}")
        return []
    cx.trace()
    if kind == 'refuse':
        cx.fail(case, f"numpy.{name}(x, {kw}) should be refused but gave {got!r}")
        return []
    if name in ('multiply', 'true_divide', 'power') and not hasattr(got, 'unit'):
        # a bare array of the right numbers
        f = U.canonical(x.unit)[0]
        e = {'multiply': lambda v: 2 * v, 'true_divide': lambda v: v / 4}.get(name, lambda v: v ** kw['e'])
        cx.require(phys.same(np.array(got, float), e(ref.si / f)), case, lambda: f"numbers {got}")
        return []
    if kind == 'optional':
        if want is None:
            return []
        kind = 'list' if isinstance(want, list) else 'ref'
    if kind in ('keep', 'value'):
        if not hasattr(got, 'unit'):
            cx.fail(case, f'numpy.{name}(x, {kw}) lost its unit')
            return []
        f, d = U.canonical(got.unit)
        v = np.array(got, float)
        ok = d == want.dim and phys.same(v.reshape(want.si.shape) * f, want.si)
        cx.require(ok, case, lambda: f"numpy.{name}(x, {kw}) gave {got!r}")
        if kind == 'keep' and want.kind == 'array':
            names = [n for n, _ in want.axes]
            cx.require(list(got.dimensions) == names, case, f"dimensions {got.dimensions}")
            lens = [len(i) for i in got.axes.values()]
            cx.require(lens == list(want.si.shape), case,
                       f"axes of lengths {lens} for data of shape {want.si.shape}")
            for n, label in want.axes:
                if n != want.axes.skip:
                    i = phys.observe(got)['axes']
                    cx.require((n, label) in list(i), case, f"labels {i}")
        return []
    if kind == 'plain':
        if isinstance(want, np.ndarray):
            ok = phys.same(np.asarray(got, float), want)
        else:
            ok = list(got) == list(want)
        cx.require(ok, case, lambda: f"numpy.{name} gave {got!r}, expected {want!r}")
        return []
    if kind == 'number':
        f = U.canonical(x.unit)[0]
        v = float(got)
        if hasattr(got, 'unit'):
            v, w = v * U.canonical(got.unit)[0], want
        else:
            w = want / f
        cx.require(phys.same(v, w), case, lambda: f"numpy.{name}(x, {kw}) gave {got!r}, expected {w}")
        return []
    pairs = list(zip(got, want)) if kind == 'list' else [(got, want)]
    if kind == 'list' and len(got) != len(want):
        cx.fail(case, f"{len(got)} gradients")
        return []
    out = []
    for g, w in pairs:
        key = known_defect(name, kw, g, x, ref, w)
        if key:
            cx.fail(case, f"numpy.{name}(x, {kw}) gave {g!r}", key)
            continue
        why = compare(g, w, x, ref)
        if cx.require(why is None, case, lambda: f"numpy.{name}(x, {kw}): {why}"):
            k = (w.kind, w.dim, w.axes, np.round(w.si, 9).tolist(), str(g.unit))
            cx.outcome(k)
            cx.state(k)
            out.append((g, w))
    return out


def known_defect(name, kw, got, x, ref, want):
    """Recognize the exact outcome of a listed finding."""
    if name == 'transpose' and kw.get('axes') and ref.kind == 'array':
        raw = np.array(got)
        flipped = np.array(x).transpose()
        right = np.array(x).transpose(kw['axes'])
        wrong = flipped.shape != right.shape or not phys.same(flipped, right)
        if wrong and raw.shape == flipped.shape and phys.same(raw, flipped):
            if list(got.dimensions) == [n for n, _ in want.axes] and got.unit == x.unit:
                return 'numpy.transpose-axes-reverse-data'
    if name in ('sin', 'cos', 'tan') and str(x.unit) == 'deg':
        if phys.same(np.array(got, float), getattr(np, name)(np.array(x, float))):
            return 'trigonometry-degrees-as-radians'
    return None


HOW = ('fresh', 'converted', 'transposed', 'indexed')


def shards(tier):
    return [
        {'kind': k, 'shape': list(s), 'how': h, 'tier': tier, 'unit': u}
        for k in KINDS for s in SHAPES for h in HOW
        for u in (UNITS if h == 'fresh' else UNITS[:2])
        if build_ok(k, tuple(s), h, u)
    ]


def build_ok(kind, shape, how, unit):
    if (kind == 'scalar') != (not shape) or kind == 'vector' and len(shape) != 1:
        return False
    if how != 'fresh' and kind != 'array':
        return False
    if how == 'transposed' and len(shape) < 2 or how == 'indexed' and shape[0] < 3:
        return False
    return how != 'converted' or unit == 'km'


CHAIN = ('min', 'max', 'mean', 'sum', 'cumsum', 'transpose', 'squeeze', 'sqrt', 'gradient')


def run_shard(shard, cx):
    shape = tuple(shard['shape'])
    built = build(shard['kind'], shape, shard['unit'], shard['how'])
    if built is None:
        return
    head = [shard['kind'], list(shape), shard['unit'], shard['how']]
    explore(cx, [head], *built, 2 if shard['tier'] == 'quick' else 3, True)


def explore(cx, hist, x, ref, depth, first=False):
    todo = []
    for name, kw in calls(ref.si.ndim):
        if not first and name not in CHAIN:
            continue
        if not first and 'keepdims' in kw:
            continue
        case = hist + [[name, kw]]
        with cx.case(case):
            results = step(cx, case, name, kw, x, ref)
            why = phys.mismatch(x, ref)
            cx.require(why is None, case, lambda: f"the argument was modified: {why}")
            if depth > 1 and name in CHAIN:
                todo += [(case, *r) for r in results[:1] if len(results) == 1]
    for case, g, w in todo:
        if w.kind != 'scalar':
            explore(cx, case, g, w, depth - 1)


def replay(case, cx):
    kind, shape, unit, how = case[0]
    x, ref = build(kind, tuple(shape), unit, how)
    for name, kw in case[1:]:
        with cx.case(case):
            out = step(cx, case, name, kw, x, ref)
        if not out:
            return
        x, ref = out[0]
