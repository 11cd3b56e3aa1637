"""C29: creating an object from another keeps its values, unit and labels.

Explicit-state search.  A state is an object (or plain data) together with an
independent description of it: kind, values in SI, dimension, axes.  The
transitions are the public factories, with and without an explicit unit and
explicit axes, conversion to another unit, and the standard ways to copy.  Starting from a catalogue of
representations of real numbers (and of things that are not real numbers),
every path up to the depth bound is executed.  Each call is either refused with
TypeError or ValueError, or gives an object that the description predicts; the
calls that the documentation describes must not be refused.
"""

import copy
import fractions
import pickle

import numpy as np

from .. import phys, unitref as U

ID = 'C29'
LEVEL = 'model_checking'
RULE = (
    "every path of factories (scalar, vector, tensor, array, coordinates, points, "
    "symbols, measured value and sequence; without a unit, with a consistent one, "
    "with another one; 6 forms of axes), unit conversions and copies (copy, deepcopy, "
    "pickle) up to the depth bound "
    "from every source in the catalogue; non-trivial: distinct (kind, shape, "
    "unit, values, labels) or refusals"
)
BOUNDS = {
    'quick': {'depth': 4},
    'thorough': {'depth': 6},
}
ASSUMPTIONS = [
    "a call that the documentation does not describe may be refused with "
    "TypeError or ValueError",
    "axes of fewer or more lengths than the data, or of other lengths, must be refused",
]

F = fractions.Fraction
FACTORIES = ('scalar', 'vector', 'tensor', 'array', 'coordinates', 'points',
             'symbols', 'value', 'sequence')
UNITFUL = ('scalar', 'vector', 'tensor', 'array', 'value', 'sequence')
UNITS = (None, 'cm', 's')
COPY = {
    'copy': copy.copy,
    'deepcopy': copy.deepcopy,
    'pickle': lambda x: pickle.loads(pickle.dumps(x)),
}
CONVERT = ('cm', 'au', 'km')
V2 = [[1.5, 2.0, -3.0], [4.0, 5.5, 6.0]]
V3 = [[[1.0, 2.0], [3.0, 4.0]], [[5.0, 6.0], [7.0, 8.5]]]


class D:
    """What an object is: kind, values as given, unit, named axes."""

    def __init__(self, kind, values, unit=None, axes=None, real=True):
        self.kind, self.unit, self.axes, self.real = kind, unit, axes, real
        self.values = np.asarray(values, float) if real else values

    @property
    def measured(self):
        return self.unit is not None

    def key(self):
        v = self.values.tolist() if self.real else self.values
        return (self.kind, self.unit, self.axes, v)

    @property
    def si(self):
        return self.values * (U.canonical(self.unit)[0] if self.unit else 1.0)


def named(shape, names=None):
    names = names or [f'x{i}' for i in range(len(shape))]
    return tuple((n, tuple(float(i) for i in range(k))) for n, k in zip(names, shape))


def sources():
    """name -> (constructor of a fresh source, its description)."""
    from eprempy import physical as P, measured as M, real as R, numeric as N, quantity as Q
    out = {}

    def plain(name, make, values, kind='data'):
        out[name] = (make, D(kind, values))

    def junk(name, make):
        out[name] = (make, D('junk', None, real=False))

    plain('int', lambda: 2, 2.0, 'number')
    plain('float', lambda: 2.5, 2.5, 'number')
    plain('Fraction', lambda: F(5, 2), 2.5, 'number')
    plain('float64', lambda: np.float64(2.5), 2.5, 'number')
    plain('int64', lambda: np.int64(7), 7.0, 'number')
    plain('0-D', lambda: np.array(2.5), 2.5)
    plain('[1]', lambda: [1], [1.0])
    plain('(1, 2)', lambda: (1, 2), [1.0, 2.0])
    plain('range', lambda: range(3), [0.0, 1.0, 2.0])
    plain('[]', lambda: [], [])
    plain('[F]', lambda: [F(1, 2), F(3, 2)], [0.5, 1.5])
    plain('1-D 1', lambda: np.array([2.5]), [2.5])
    plain('1-D', lambda: np.array([1.5, 2.0, -4.0]), [1.5, 2.0, -4.0])
    plain('1-D int', lambda: np.array([3, 1, 2]), [3.0, 1.0, 2.0])
    plain('late negative', lambda: [3, -1, 2], [3.0, -1.0, 2.0])
    plain('late fraction', lambda: [3.0, 1.0, 1.5], [3.0, 1.0, 1.5])
    plain('late infinity', lambda: [1.0, np.inf], [1.0, np.inf])
    plain('1-D strided', lambda: np.arange(6.0)[::-2], [5.0, 3.0, 1.0])
    plain('2-D 1', lambda: np.array([[2.5]]), [[2.5]])
    plain('2-D row', lambda: [[1.0, 2.0]], [[1.0, 2.0]])
    plain('2-D', lambda: np.array(V2), V2)
    plain('2-D F', lambda: np.asfortranarray(V2), V2)
    plain('2-D T', lambda: np.array(V2).T, np.array(V2).T)
    plain('nested', lambda: [list(r) for r in V2], V2)
    plain('3-D', lambda: np.array(V3), V3)
    for name, make in {
        'complex': lambda: 1j, 'text': lambda: '2', 'None': lambda: None,
        'ragged': lambda: [[1, 2], [3]], 'texts': lambda: ['1', '2'],
        'dict': lambda: {'a': 1}, 'set': lambda: {1, 2}, 'complexes': lambda: [1j, 2.0],
        'scalars': lambda: [P.scalar(1.0, unit='km'), P.scalar(2.0, unit='m')],
        'values': lambda: [M.value(1.0, unit='km'), M.value(2.0, unit='m')],
        'object': lambda: [object()], 'symbols': lambda: P.symbols(['a', 'b']),
        'text array': lambda: np.array(['1', 'b']),
    }.items():
        junk(name, make)
    out['scalar'] = (lambda: P.scalar(2.5, unit='km'), D('scalar', 2.5, 'km'))
    out['scalar int'] = (lambda: P.scalar(2, unit='m'), D('scalar', 2.0, 'm'))
    out['vector 1'] = (lambda: P.vector([2.5], unit='km'), D('vector', [2.5], 'km'))
    out['vector'] = (lambda: P.vector([1.0, -2.0], unit='km'), D('vector', [1.0, -2.0], 'km'))
    out['vector 1'] = (lambda: P.vector([1, 2]), D('vector', [1.0, 2.0], '1'))
    out['tensor 11'] = (lambda: P.tensor([[2.5]], unit='km'), D('tensor', [[2.5]], 'km'))
    out['tensor 1'] = (lambda: P.tensor([2.5], unit='au'), D('tensor', [2.5], 'au'))
    out['tensor 1D'] = (lambda: P.tensor([1.0, 2.0], unit='au'), D('tensor', [1.0, 2.0], 'au'))
    out['tensor'] = (lambda: P.tensor(V2, unit='km'), D('tensor', V2, 'km'))
    out['tensor part'] = (lambda: P.tensor(V3, unit='km')[1], D('tensor', V3[1], 'km'))
    x = (('x', (3.0, 5.0)),)
    out['array'] = (lambda: P.array([1.0, 2.0], unit='km', axes={'x': P.points([3, 5])}),
                    D('array', [1.0, 2.0], 'km', x))
    out['array 1'] = (lambda: P.array([2.5], unit='km', axes=['x']), D('array', [2.5], 'km', named((1,), ['x'])))
    out['array 11'] = (lambda: P.array([[2.5]], unit='km', axes=['x', 'y']),
                       D('array', [[2.5]], 'km', named((1, 1), ['x', 'y'])))
    out['array 2D'] = (lambda: P.array(V2, unit='m', axes=['y', 'x']), D('array', V2, 'm', named((2, 3), ['y', 'x'])))
    out['array part'] = (lambda: P.array(V3, unit='m', axes=['a', 'b', 'c'])[:, 1, :],
                         D('array', np.array(V3)[:, 1:2, :], 'm',
                           (('a', (0.0, 1.0)), ('b', (1.0,)), ('c', (0.0, 1.0)))))
    out['array converted'] = (lambda: P.array([1.0, 2.0], unit='km', axes=['x']).withunit('m'),
                              D('array', [1e3, 2e3], 'm', named((2,), ['x'])))
    out['array T'] = (lambda: P.array(V2, unit='m', axes=['y', 'x']).transpose('x', 'y'),
                      D('array', np.array(V2).T, 'm', named((3, 2), ['x', 'y'])))
    out['value'] = (lambda: M.value(2.5, unit='km'), D('value', 2.5, 'km'))
    out['sequence'] = (lambda: M.sequence([1.0, 2.0], unit='km'), D('sequence', [1.0, 2.0], 'km'))
    out['sequence 1'] = (lambda: M.sequence([2.5], unit='km'), D('sequence', [2.5], 'km'))
    out['measurement'] = (lambda: Q.measure([1.0, 2.0], 'km'), D('measurement', [1.0, 2.0], 'km'))
    out['measurement 1'] = (lambda: Q.measure(2.5, 'km'), D('measurement', [2.5], 'km'))
    out['coordinates'] = (lambda: P.coordinates(M.sequence([1.0, 2.0], unit='km')),
                          D('coordinates', [1.0, 2.0], 'km'))
    out['coordinates T'] = (lambda: P.coordinates(M.sequence([1.0, 2.0], unit='km')).withunit('m'),
                            D('coordinates', [1e3, 2e3], 'm'))
    out['points'] = (lambda: P.points([4, 2]), D('points', [4.0, 2.0]))
    out['real'] = (lambda: R.array(V2, 'p', 'q'), D('real', V2, None, named((2, 3), ['p', 'q'])))
    out['real 1D'] = (lambda: R.array([1.0, 2.0], 'p'), D('real', [1.0, 2.0], None, named((2,), ['p'])))
    out['numeric'] = (lambda: N.array([1.0, 2.0]), D('data', [1.0, 2.0]))
    return out


def axes_forms(d):
    """label -> (argument, resulting axes or None if it must be refused)."""
    from eprempy import physical as P, measured as M
    shape = d.values.shape or (1,)
    if d.kind == 'data' and d.values.ndim == 0:
        shape = ()
    names = ['u', 'v', 'w', 't'][:len(shape)]
    marks = [tuple(range(3, 3 + k)) for k in shape]
    out = {
        'names': (list(names), named(shape, names)),
        'points': ({n: P.points(m) for n, m in zip(names, marks)},
                   tuple((n, tuple(map(float, m))) for n, m in zip(names, marks))),
        'coordinates': ({n: M.sequence(np.array(m, float), unit='m') for n, m in zip(names, marks)},
                        tuple((n, tuple(map(float, m))) for n, m in zip(names, marks))),
        'symbols': ({n: [chr(97 + i) for i in m] for n, m in zip(names, marks)},
                    tuple((n, tuple(chr(97 + i) for i in m)) for n, m in zip(names, marks))),
        'too many': ([*names, 'z'], None),
    }
    if shape:
        out['too few'] = (names[1:], None) if len(names) > 1 else (['u', 'v'], None)
        out['too long'] = ({n: P.points(range(k + (i == len(shape) - 1)))
                            for i, (n, k) in enumerate(zip(names, shape))}, None)
        if shape[0] > 1:
            out['too short'] = ({n: P.points(range(k - (i == 0)))
                                 for i, (n, k) in enumerate(zip(names, shape))}, None)
    return out


def predict(d, factory, unit, form, axes):
    """(must succeed, description of the result) or None for a refusal."""
    if factory == 'symbols':
        return None
    if not d.real:
        return None
    if unit is not None and d.measured:
        return None
    if d.kind == 'measurement' and unit is not None:
        return None
    v, u = d.values, d.unit or unit or '1'
    documented = d.kind not in ('points', 'numeric')
    if factory in ('scalar', 'value'):
        if v.size != 1:
            return None
        must = documented and (
            d.kind in ('number', 'data', 'scalar', 'tensor', 'vector') if factory == 'scalar'
            else d.kind in ('number', 'value', 'sequence'))
        if d.kind == 'data' and v.ndim > 1:
            must = False
        return must, D(factory, v.reshape(-1)[0], u)
    if factory == 'vector':
        if d.kind in ('number',) or (d.kind == 'data' and v.ndim == 0):
            return (False, D('vector', v.reshape(1), u))
        v = v.reshape(1) if v.ndim == 0 else v
        must = documented and d.values.ndim == 1 or d.kind in ('scalar', 'value')
        return (must, D('vector', v, u)) if v.ndim == 1 else None
    if factory == 'tensor':
        if d.kind in ('number',) or (d.kind == 'data' and v.ndim == 0):
            return (False, D('tensor', v.reshape(1), u))
        return documented, D('tensor', v.reshape(1) if v.ndim == 0 else v, u)
    if factory == 'sequence':
        must = d.kind in ('number', 'value', 'sequence') or (d.kind == 'data' and v.ndim == 1)
        return must, D('sequence', v.reshape(-1), u)
    if factory == 'coordinates':
        must = d.kind in ('number', 'coordinates', 'sequence') or (d.kind == 'data' and v.ndim == 1)
        return must, D('coordinates', v.reshape(-1), u)
    if factory == 'points':
        if d.measured and any(U.canonical(d.unit)[1]):
            return None
        if v.ndim > 1 or np.any(v < 0) or np.any(v != np.floor(v)) or np.any(np.isinf(v)):
            return None
        must = d.kind in ('number', 'points') or (d.kind == 'data' and v.ndim == 1)
        return must, D('points', v.reshape(-1))
    if factory == 'array':
        if v.ndim == 0 and d.kind not in ('data', 'array'):
            v = v.reshape(1)
        if d.kind == 'array':
            return None if form else (True, D('array', v, u, d.axes))
        if form:
            if axes is None:
                return None
            return documented, D('array', v, u, axes)
        if d.kind == 'real':
            return True, D('array', v, u, d.axes)
        return documented, D('array', v, u, named(v.shape))
    raise KeyError(factory)


def judge(got, want):
    """Why `got` is not what `want` describes, or None."""
    from eprempy import physical as P, measured as M
    types = {'scalar': P.Scalar, 'vector': P.Vector, 'tensor': P.Tensor, 'array': P.Array,
             'coordinates': P.Coordinates, 'points': P.Points, 'value': M.Value, 'sequence': M.Sequence}
    if not isinstance(got, types[want.kind]):
        return f"a {type(got).__name__} instead of a {want.kind}"
    if want.kind in ('scalar', 'array', 'vector', 'tensor'):
        ref = phys.Ref(want.si, U.canonical(want.unit)[1], want.axes, want.kind)
        return phys.mismatch(got, ref)
    if want.kind == 'value':
        values = np.asarray(float(got))
    else:
        if want.kind == 'sequence' and np.array(got).dtype.kind == 'O':
            return f"values {np.array(got)!r} are not numbers"
        values = np.array(got, float)
        if len(got) != want.values.size:
            return f"length {len(got)}, expected {want.values.size}"
    if values.shape != want.values.shape:
        return f"shape {values.shape}, expected {want.values.shape}"
    if want.kind == 'points':
        factor, dim = 1.0, U.canonical('1')[1]
    else:
        factor, dim = U.canonical(str(got.unit))
    if dim != U.canonical(want.unit or '1')[1]:
        return f"unit {got.unit}, expected {want.unit}"
    if not phys.same(values * factor, want.si):
        return f"values {values.tolist()} {getattr(got, 'unit', '')}, expected {want.values.tolist()} {want.unit}"
    return None


def call(factory, x, unit, axes, given):
    from eprempy import physical as P, measured as M
    f = {'value': M.value, 'sequence': M.sequence}.get(factory) or getattr(P, factory)
    kwargs = {}
    if unit is not None:
        kwargs['unit'] = unit
    if given:
        kwargs['axes'] = axes
    return f(x, **kwargs)


def moves(d):
    for factory in FACTORIES:
        for unit in UNITS if factory in UNITFUL else (None,):
            yield ['make', factory, unit, None]
            if factory == 'array' and d.real:
                for form in axes_forms(d):
                    yield ['make', factory, unit, form]
    if d.kind in ('scalar', 'vector', 'tensor', 'array', 'value', 'sequence', 'coordinates') and d.unit != '1':
        for unit in CONVERT:
            yield ['withunit', unit]
    if d.kind in ('scalar', 'vector', 'tensor', 'array', 'value', 'sequence', 'coordinates', 'points'):
        for how in COPY:
            yield ['copy', how]


def apply(cx, case, move, x, d):
    """Execute one move; return the new state, or None."""
    with cx.case(case):
        cx.step()
        if move[0] == 'copy':
            got, want, must = COPY[move[1]](x), d, True
        elif move[0] == 'withunit':
            factor = U.canonical(d.unit)[0] / U.canonical(move[1])[0]
            dim = U.canonical(d.unit)[1]
            try:
                got = x.withunit(move[1])
            except (ValueError, TypeError) as err:
                cx.require(dim != U.canonical(move[1])[1], case, f"conversion refused: {err}")
                return None
            if not cx.require(dim == U.canonical(move[1])[1], case, f"inconsistent conversion accepted: {got!r}"):
                return None
            want = D(d.kind, d.values * factor, move[1], d.axes)
            must = True
        else:
            _, factory, unit, form = move
            axes, result = axes_forms(d)[form] if form else (None, None)
            p = predict(d, factory, unit, form, result)
            try:
                got = call(factory, x, unit, axes, form is not None)
            except (TypeError, ValueError) as err:
                cx.outcome(('refused', factory, d.kind))
                cx.require(p is None or not p[0], case, lambda: f"refused although documented: {type(err).__name__}: {err}")
                return None
            if not d.real and factory in ('symbols', 'points'):
                return None  # names, or numbers in the form of text
            if d.real and factory == 'symbols' and not d.values.size:
                return None
            if not cx.require(p is not None, case, lambda: f"accepted: {got!r}"):
                return None
            must, want = p
        why = judge(got, want)
        if not cx.require(why is None, case, lambda: f"{why}; got {got!r}"):
            return None
        cx.outcome(want.key())
        if d.real and d.kind not in ('number', 'data', 'real', 'points', 'measurement', 'junk'):
            why = judge(x, d)
            cx.require(why is None, case, lambda: f"the source changed: {why}")
        return got, want
    return None


def shards(tier):
    return [{'source': s, 'tier': tier} for s in sources()]


def explore(cx, case, x, d, depth):
    for move in moves(d):
        new = apply(cx, case + [move], move, x, d)
        if new is None:
            continue
        fresh = cx.state((new[1].key(), depth, move[0] == 'copy'))
        if fresh and depth > 1:
            explore(cx, case + [move], *new, depth - 1)


def run_shard(shard, cx):
    make, d = sources()[shard['source']]
    depth = BOUNDS[shard['tier']]['depth']
    explore(cx, [shard['source']], make(), d, depth)


def replay(case, cx):
    make, d = sources()[case[0]]
    x = make()
    for n, move in enumerate(case[1:], 2):
        new = apply(cx, case[:n], move, x, d)
        if new is None:
            return
        x, d = new
