"""C28: index objects and array dimensions behave as integers and ordered sets.

All histories of operations on single indices and sequences of indices, all
index expressions on small arrays, all bounds of targets in small arrays, all
operations on pairs of collections of dimension names and their compositions;
each against a model made of Python integers, lists and sets.
"""

import itertools
import operator
import warnings

import numpy

ID = 'C28'
LEVEL = 'model_checking'
RULE = (
    "index objects: breadth-first over objects, operators and operands; index "
    "expressions: shape x tuple of index forms; bounds: array x targets x axis; "
    "dimensions: collection x operator x collection, composed; non-trivial: "
    "distinct results"
)
BOUNDS = {
    'quick': {'operations': 2, 'index tuple': 3, 'dimension names': 3, 'composition of dimensions': 2, 'array length': 4},
    'thorough': {'operations': 3, 'index tuple': 4, 'dimension names': 4, 'composition of dimensions': 2, 'array length': 5},
}
ASSUMPTIONS = [
    "a sequence divided by an index of zero is left to numpy",
    "bounds are defined for arrays that do not decrease along the axis",
    "a list that is the whole subscript, not a member of a tuple, is not covered",
]


def shards(tier):
    out = [{'part': 'factories'}, {'part': 'shifts'}]
    out += [{'part': 'operations', 'block': i} for i in range(8)]
    out += [{'part': 'expressions', 'block': i} for i in range(8)]
    out += [{'part': 'expand'}, {'part': 'bounds'}, {'part': 'bounds 2-D'}]
    out += [{'part': 'dimensions', 'block': i} for i in range(8)]
    out += [{'part': 'permute'}]
    return [dict(s, tier=tier) for s in out]


def run_shard(shard, cx):
    warnings.simplefilter('ignore')
    globals()['run_' + shard['part'].replace(' ', '_').replace('-', '')](shard, cx)


def attempt(f):
    try:
        return 'ok', f()
    except Exception as err:
        return 'error', err


# -- index objects ------------------------------------------------------------

ARITHMETIC = {
    '+': operator.add, '-': operator.sub, '*': operator.mul,
    '//': operator.floordiv, '%': operator.mod, '**': operator.pow,
}
COMPARE = {
    '==': operator.eq, '!=': operator.ne, '<': operator.lt,
    '<=': operator.le, '>': operator.gt, '>=': operator.ge,
}
UNARY = {'abs': abs, 'neg': operator.neg, 'pos': operator.pos}


def build(x):
    from eprempy import numeric
    return numeric.index.sequence(list(x)) if isinstance(x, tuple) else numeric.index.value(x)


def model(obj):
    """The model of an index object, with checks that its views agree."""
    from eprempy import numeric
    if isinstance(obj, numeric.index.Value):
        x = int(obj)
        assert operator.index(obj) == x and obj.data == x and list(range(100))[5:][x % 5] == x % 5 + 5
        return x
    if isinstance(obj, numeric.index.Sequence):
        x = tuple(int(i) for i in obj)
        assert len(obj) == len(x) and tuple(int(i) for i in obj.data) == x
        assert all(int(obj[i]) == x[i] for i in range(-len(x), len(x)))
        return x
    raise AssertionError(f"not an index object: {obj!r}")


class Refused(Exception):
    def __init__(self, *types):
        self.types = types


SKIP = object()


def expected(op, a, b):
    """Apply a binary arithmetic operator to models."""
    f = ARITHMETIC[op]
    many = isinstance(a, tuple) or isinstance(b, tuple)
    la = len(a) if isinstance(a, tuple) else None
    lb = len(b) if isinstance(b, tuple) else None
    if la is not None and lb is not None and la != lb:
        raise Refused(TypeError, ValueError)
    n = la if la is not None else lb if lb is not None else 1
    xs = a if isinstance(a, tuple) else (a,) * n
    ys = b if isinstance(b, tuple) else (b,) * n
    if op == '**' and any(y < 0 for y in (b if isinstance(b, tuple) else (b,))):
        raise Refused(ValueError)
    if op in ('//', '%') and any(y == 0 for y in ys):
        if many:
            return SKIP
        raise Refused(ZeroDivisionError)
    out = tuple(f(x, y) for x, y in zip(xs, ys))
    if any(abs(v) > 10 ** 9 for v in out):
        return SKIP
    return out if many else out[0]


STARTS = [0, 1, 3, -2, (2,), (0, 1), (3, -1), (1, 2, 3), ()]
OPERANDS = [0, 1, 2, -1, (1,), (2,), (0, 2), (2, -1), (1, 0, 2)]
FOREIGN = {
    'float': lambda: 1.5, 'integral float': lambda: 2.0, 'text': lambda: '2', 'none': lambda: None,
    'list': lambda: [1, 2], 'complex': lambda: 1j,
}


def representations(y):
    """Ways of passing an operand: as an index object or as a plain number."""
    out = {'index': build}
    if isinstance(y, int):
        out['int'] = int
        out['numpy'] = numpy.int64
        if y in (0, 1):
            out['bool'] = bool
    return out


def run_operations(shard, cx):
    depth = BOUNDS[shard['tier']]['operations']
    frontier = [(s, ()) for i, s in enumerate(STARTS)]
    steps = list(itertools.product(ARITHMETIC, OPERANDS))
    mine = steps[shard['block']::8]
    seen = set(STARTS)
    for level in range(depth):
        nxt = []
        for x, path in frontier:
            # The first level is explored by all shards, the last one is shared.
            for op, y in (mine if level == depth - 1 else steps):
                for result in step(cx, x, path, op, y):
                    if result not in seen and all(abs(v) < 50 for v in (result if isinstance(result, tuple) else (result,))):
                        seen.add(result)
                        nxt.append((result, (*path, (op, y))))
        if shard['block'] == 0:
            for x, path in frontier:
                single(cx, x, path)
        frontier = nxt
    for x in sorted(seen, key=repr):
        cx.state(x)


def step(cx, x, path, op, y):
    f = ARITHMETIC[op]
    out = []
    for label, rep in representations(y).items():
        for swapped in (False, True):
            if swapped and label == 'numpy':
                continue # numpy decides
            case = {'start': x, 'after': [list(p) for p in path], 'operator': op, 'operand': y, 'as': label, 'swapped': swapped}
            with cx.case(case):
                cx.step()
                obj, other = build(x), rep(y)
                pair, names = ((other, obj), (y, x)) if swapped else ((obj, other), (x, y))
                try:
                    want = expected(op, *names)
                except Refused as r:
                    if label == 'numpy' and op in ('//', '%'):
                        continue # numpy only warns about a division by zero
                    status, got = attempt(lambda: f(*pair))
                    cx.require(status == 'error' and isinstance(got, r.types), case, f'expected {r.types}, got {got!r}')
                    continue
                if want is SKIP:
                    continue
                got = f(*pair)
                cx.require(model(got) == want, case, f'{got!r}, expected {want}')
                cx.require(model(obj) == x, case, 'the first operand changed')
                cx.require(label != 'index' or model(other) == y, case, 'the second operand changed')
                cx.outcome(want)
                out.append(want)
    return out


def single(cx, x, path):
    """Unary operators, comparisons, foreign operands and subscripts of one object."""
    for name, f in UNARY.items():
        case = {'start': x, 'after': [list(p) for p in path], 'operator': name}
        with cx.case(case):
            cx.step()
            obj = build(x)
            want = tuple(f(v) for v in x) if isinstance(x, tuple) else f(x)
            cx.require(model(f(obj)) == want, case, f'{f(obj)!r}, expected {want}')
            cx.require(model(obj) == x, case, 'the operand changed')
    for name, f in COMPARE.items():
        for y in OPERANDS:
            for label, rep in representations(y).items():
                if label == 'numpy':
                    continue
                case = {'start': x, 'operator': name, 'operand': y, 'as': label}
                with cx.case(case):
                    cx.step()
                    a, b = build(x), rep(y)
                    la, lb = (len(v) if isinstance(v, tuple) else None for v in (x, y))
                    if la is not None and lb is not None and la != lb:
                        status, got = attempt(lambda: f(a, b))
                        if name == '==':
                            cx.require(status == 'ok' and got is False, case, f'{got!r}')
                        elif name == '!=':
                            cx.require(status == 'ok' and got is True, case, f'{got!r}')
                        else:
                            cx.require(status == 'error', case, f'{got!r}')
                        continue
                    n = la if la is not None else lb if lb is not None else 1
                    xs = x if la is not None else (x,) * n
                    ys = y if lb is not None else (y,) * n
                    want = [f(u, v) for u, v in zip(xs, ys)]
                    got = f(a, b)
                    if la is None and lb is None:
                        cx.require(bool(got) is want[0], case, f'{got!r}')
                    else:
                        cx.require([bool(g) for g in got] == want, case, f'{got!r}, expected {want}')
                    cx.outcome([name, want])
    for label, make in FOREIGN.items():
        for name, f in {**ARITHMETIC, **COMPARE}.items():
            case = {'start': x, 'operator': name, 'foreign operand': label}
            with cx.case(case):
                cx.step()
                for pair in ((build(x), make()), (make(), build(x))):
                    if name == '%' and isinstance(pair[0], str):
                        continue # formats the text
                    status, got = attempt(lambda: f(*pair))
                    if name == '==':
                        cx.require(status == 'ok' and got is False, case, f'{got!r}')
                    elif name == '!=':
                        cx.require(status == 'ok' and got is True, case, f'{got!r}')
                    else:
                        cx.require(status == 'error', case, f'{got!r}')
    if isinstance(x, tuple):
        obj = build(x)
        parts = [slice(a, b, c) for a in (None, 0, 1, -1) for b in (None, 0, 2, -1) for c in (None, 2, -1)]
        for s in parts:
            case = {'start': x, 'slice': str(s)}
            with cx.case(case):
                cx.step()
                cx.require(model(obj[s]) == x[s], case, f'{obj[s]!r}')
        for s in ([0], [0, -1], [1, 0]):
            case = {'start': x, 'subscript': s}
            with cx.case(case):
                status, got = attempt(lambda: obj[s])
                if all(-len(x) <= i < len(x) for i in s):
                    cx.require(status == 'ok' and model(got) == tuple(x[i] for i in s), case, f'{got!r}')
                else:
                    cx.require(status == 'error', case, f'{got!r}')
        for i in (len(x), -len(x) - 1, 10):
            case = {'start': x, 'subscript': i}
            with cx.case(case):
                cx.require(attempt(lambda: obj[i])[0] == 'error', case, 'accepted')


def run_shifts(shard, cx):
    limits = [None, -2, 0, 1, 2, 5]
    for x in [-3, 0, 1, 4, (), (0,), (0, 1, 2), (-2, 3, 0), (4, 4)]:
        for by, lo, hi in itertools.product((-4, -1, 0, 1, 3), limits, limits):
            if lo is not None and hi is not None and lo > hi:
                continue
            case = {'index': x, 'shift': by, 'floor': lo, 'ceil': hi}
            with cx.case(case):
                cx.step()

                def want(v):
                    v += by
                    v = v if lo is None else max(v, lo)
                    return v if hi is None else min(v, hi)
                obj = build(x)
                kw = {k: v for k, v in (('floor', lo), ('ceil', hi)) if v is not None}
                got = obj.shift(by, **kw)
                w = tuple(want(v) for v in x) if isinstance(x, tuple) else want(x)
                cx.require(model(got) == w, case, f'{got!r}, expected {w}')
                cx.require(model(obj) == x, case, 'the object changed')
                cx.outcome([w, lo, hi])
                again = got.shift(-by)
                back = tuple(v - by for v in w) if isinstance(w, tuple) else w - by
                cx.require(model(again) == back, case, f'shifted back to {again!r}')


def run_factories(shard, cx):
    from eprempy import measured, numeric, physical
    from fractions import Fraction
    I = numeric.index
    dtypes = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')
    one = {
        'int': 3, 'numpy int': numpy.int32(3), 'numpy uint': numpy.uint8(3), 'text': '3', 'padded text': ' 3 ',
        'bytes': b'3', 'array': numpy.array(3), 'array 1-D': numpy.array([3]), 'array 2-D': numpy.array([[3]]),
        'list': [3], 'tuple': (3,), 'range': range(3, 4), 'texts': ['3'], 'numpy list': [numpy.int64(3)],
        'measured': measured.value(3), 'measured float': measured.value(3.0), 'measured sequence': measured.sequence([3]),
        'scalar': physical.scalar(3), 'value': I.value(3), 'sequence': I.sequence([3]),
        **{f'array {d}': numpy.array([3], dtype=d) for d in dtypes},
    }
    many = {
        'list': [3, 4], 'tuple': (3, 4), 'range': range(3, 5), 'texts': ['3', '4'], 'array': numpy.array([3, 4]),
        'row': numpy.array([[3, 4]]), 'column': numpy.array([[3], [4]]), 'numpy list': [numpy.int8(3), numpy.int64(4)],
        'measured': measured.sequence([3, 4]), 'measured floats': measured.sequence([3.0, 4.0]),
        'vector': physical.vector([3, 4]), 'sequence': I.sequence([3, 4]), 'slice of a sequence': I.sequence([2, 3, 4])[1:],
        **{f'array {d}': numpy.array([3, 4], dtype=d) for d in dtypes},
    }
    none = {
        'float': 3.0, 'fraction': Fraction(7, 2), 'half': 3.5, 'text float': '3.5', 'word': 'three', 'none': None,
        'set': {3}, 'mapping': {3: 'a'}, 'slice': slice(1, 2), 'float array': numpy.array([3.0]), 'floats': [3.0],
        'mixed': [3, '4'], 'matrix': numpy.array([[3, 4], [5, 6]]), 'measured half': measured.value(3.5),
        'measured halves': measured.sequence([3.5, 4]), 'with unit': measured.value(3, unit='m'),
        'sequence with unit': measured.sequence([3, 4], unit='m'), 'scalar with unit': physical.scalar(3, unit='m'),
        'half scalar': physical.scalar(3.5), 'half vector': physical.vector([3, 3.5]), 'nan': float('nan'), 'ellipsis': ...,
    }
    for label, x in one.items():
        case = {'source': label}
        with cx.case(case):
            cx.step(2)
            cx.require(model(I.value(x)) == 3 and isinstance(I.value(x), I.Value), case, 'value')
            cx.require(model(I.sequence(x)) == (3,) and isinstance(I.sequence(x), I.Sequence), case, 'sequence')
            cx.outcome(label)
    for label, x in many.items():
        case = {'sources': label}
        with cx.case(case):
            cx.step(2)
            cx.require(model(I.sequence(x)) == (3, 4), case, 'sequence')
            status, got = attempt(lambda: I.value(x))
            cx.require(status == 'error' and isinstance(got, TypeError), case, f'value: {got!r}')
            cx.outcome(label)
    for label, x in none.items():
        case = {'not indices': label}
        with cx.case(case):
            cx.step(2)
            for f in (I.value, I.sequence):
                status, got = attempt(lambda: f(x))
                cx.require(status == 'error' and isinstance(got, (TypeError, ValueError)), case, f'{got!r}')
            cx.outcome(label)
    for empty in ([], (), range(0), numpy.array([], dtype=int), I.sequence([])):
        case = {'empty': type(empty).__name__}
        with cx.case(case):
            cx.require(model(I.sequence(empty)) == (), case, 'sequence')
            status, got = attempt(lambda: I.value(empty))
            cx.require(status == 'error' and isinstance(got, TypeError), case, f'value: {got!r}')
    case = 'independence'
    with cx.case(case):
        a = numpy.array([3, 4])
        s = I.sequence(a)
        t = I.sequence(s)
        u = s.shift(1)
        a[0] = 9
        cx.require(model(s) == (3, 4) and model(t) == (3, 4) and model(u) == (4, 5), case, f'{s!r} {t!r}')


# -- index expressions --------------------------------------------------------


def forms(n):
    """Index forms for an axis of length n: (label, object, kind, positions)."""
    from eprempy import numeric
    out = [
        ('0', 0, 'int', [0]), ('-1', -1, 'int', [n - 1]),
        (':', slice(None), 'slice', list(range(n))),
        ('1:', slice(1, None), 'slice', list(range(n))[1:]),
        ('::-1', slice(None, None, -1), 'slice', list(range(n))[::-1]),
        ('0:0', slice(0, 0), 'slice', []),
        ('-1:0:-1', slice(-1, 0, -1), 'slice', list(range(n))[-1:0:-1]),
        (':9:2', slice(None, 9, 2), 'slice', list(range(n))[:9:2]),
        ('[0]', [0], 'many', [0]), ('[-1,0]', [-1, 0], 'many', [n - 1, 0]),
        ('(0,0)', (0, 0), 'many', [0, 0]), ('range', range(n), 'many', list(range(n))),
        ('array', numpy.array([n - 1, 0]), 'many', [n - 1, 0]),
        ('mask', numpy.array([True] + [False] * (n - 1)), 'many', [0]),
        ('sequence', numeric.index.sequence([0, n - 1]), 'many', [0, n - 1]),
        ('beyond', [n], 'many', None), ('int beyond', n, 'int', None),
    ]
    return out


SHAPES = {1: (3,), 2: (2, 3), 3: (2, 3, 2), 4: (2, 1, 3, 2)}


def run_expressions(shard, cx):
    from eprempy import numeric
    I = numeric.index
    limit = BOUNDS[shard['tier']]['index tuple']
    for ndim, shape in SHAPES.items():
        if ndim > limit:
            continue
        a = numpy.arange(numpy.prod(shape)).reshape(shape)
        axes = [forms(n) for n in shape]
        if ndim == 4:
            keep = ('0', ':', '::-1', '[-1,0]', 'array', 'sequence')
            axes = [[f for f in x if f[0] in keep] for x in axes]
        count = 0
        for nargs in range(1, ndim + 1):
            for where in (None, *range(nargs + 1)):
                # Without an ellipsis the forms apply to the first axes.
                if where is None:
                    use = list(range(nargs))
                else:
                    use = [*range(where), *range(ndim - (nargs - where), ndim)]
                for combo in itertools.product(*[axes[i] for i in use]):
                    count += 1
                    if count % 8 != shard['block']:
                        continue
                    expression(cx, I, a, combo, use, where)


def expression(cx, I, a, combo, use, where):
    args = [f[1] for f in combo]
    if where is not None:
        args.insert(where, Ellipsis)
    args = tuple(args)
    case = {'shape': list(a.shape), 'index': [f[0] for f in combo], 'ellipsis': where}
    with cx.case(case):
        cx.step()
        kinds = {f[2] for f in combo}
        full = where is not None and where < len(combo) == a.ndim
        if full or any(f[3] is None for f in combo):
            if not full and any(f[0] == '0:0' for f in combo):
                return # numpy does not check the bounds of an empty selection
            status, got = attempt(lambda: a[I.resolve(a.shape, args)])
            cx.require(status == 'error' and isinstance(got, IndexError), case, f'{got!r}')
            return
        want = a
        for f, axis in zip(combo, use):
            want = numpy.take(want, f[3], axis=axis) if f[3] else want.take([], axis=axis).astype(a.dtype)
        if 'many' not in kinds:
            drop = tuple(axis for f, axis in zip(combo, use) if f[2] == 'int')
            want = want.reshape([n for i, n in enumerate(want.shape) if i not in drop])
        for name in ('resolve', 'normalize'):
            got = a[getattr(I, name)(a.shape, args)]
            cx.require(numpy.shape(got) == want.shape and numpy.array_equal(got, want), case,
                       f'{name}: {numpy.shape(got)} {got}, expected {want.shape} {want}')
        again = a[I.resolve(a.shape, I.resolve(a.shape, args))] if 'many' not in kinds else want
        cx.require(numpy.array_equal(again, want), case, 'resolving twice differs')
        if 'many' not in kinds:
            got = a[I.expand(a.ndim, args)]
            cx.require(numpy.array_equal(got, want), case, f'expand: {got}')
            if where is not None:
                cx.require(len(I.expand(a.ndim, args)) == a.ndim, case, 'expanded length')
        cx.outcome([str(want.shape), want.tolist()])
        cx.state(want.shape)


def run_expand(shard, cx):
    from eprempy import numeric
    I = numeric.index
    items = [0, -1, slice(None), slice(1, 2), [0, 1], numpy.array([0, 1])]
    for ndim in range(1, 5):
        for n in range(0, 6):
            for combo in itertools.product(range(len(items)), repeat=min(n, 4)):
                args = [items[i] for i in combo]
                for where in range(len(args) + 1):
                    for extra in (False, True):
                        given = list(args)
                        given.insert(where, ...)
                        if extra:
                            given.append(...)
                        case = {'ndim': ndim, 'args': [str(g) for g in given]}
                        with cx.case(case):
                            cx.step()
                            status, got = attempt(lambda: I.expand(ndim, tuple(given)))
                            if extra:
                                cx.require(status == 'error' and isinstance(got, IndexError), case, f'{got!r}')
                            elif len(args) > ndim:
                                if where == len(args):
                                    continue # the trailing ellipsis stands for nothing
                                cx.require(status == 'error' and isinstance(got, IndexError), case, f'{got!r}')
                            elif len(args) == ndim and where < len(args):
                                cx.require(
                                    status == 'error' and isinstance(got, IndexError)
                                    or same(got, args), case, f'{got!r}')
                            else:
                                full = args[:where] + [slice(None)] * (ndim - len(args)) + args[where:]
                                cx.require(status == 'ok' and same(got, full), case, f'{got!r}')
                                cx.outcome([ndim, where, len(args)])


def same(a, b):
    return len(a) == len(b) and all(
        x is y or (not isinstance(x, numpy.ndarray) and not isinstance(y, numpy.ndarray) and x == y)
        for x, y in zip(a, b))


# -- bounds of targets --------------------------------------------------------


def ascending(n, strict):
    values = range(0, 2 * n + 1)
    pick = itertools.combinations if strict else itertools.combinations_with_replacement
    for c in pick(values, n):
        yield [float(v) for v in c]


def check_bounds(cx, case, rows, targets, got):
    """The range encloses every target in every row, and is as tight as it can be."""
    n = len(rows[0])
    cx.require(isinstance(got, range) and got.step == 1, case, f'{got!r}')
    cx.require(len(got) > 0 and 0 <= got[0] and got[-1] < n, case, f'{got} of {n}')
    for row in rows:
        for t in targets:
            if row[0] <= t <= row[-1]:
                cx.require(row[got[0]] <= t <= row[got[-1]], case, f'{got} does not enclose {t} in {row}')
            elif t < row[0]:
                cx.require(got[0] == 0, case, f'{got} omits the start of {row}')
            else:
                cx.require(got[-1] == n - 1, case, f'{got} omits the end of {row}')
    lo = min(bound(row, t)[0] for row in rows for t in targets)
    hi = max(bound(row, t)[1] for row in rows for t in targets)
    if all(len(set(row)) == n for row in rows):
        cx.require((got[0], got[-1]) == (lo, hi), case, f'{got}, expected {lo}..{hi}')
    cx.outcome([got[0], got[-1]])


def bound(row, t):
    leq = [i for i, v in enumerate(row) if v <= t]
    geq = [i for i, v in enumerate(row) if v >= t]
    return (max(leq) if leq else 0), (min(geq) if geq else len(row) - 1)


def run_bounds(shard, cx):
    from eprempy import numeric
    f = numeric.index.restrict
    top = BOUNDS[shard['tier']]['array length']
    for n in range(1, top + 1):
        targets = [v / 2 for v in range(-2, 4 * n + 4, 1 if n < 4 else 3)]
        for strict in (True, False):
            for row in ascending(n, strict):
                if not strict and len(set(row)) == n:
                    continue
                groups = [(t,) for t in targets]
                if n <= 3:
                    groups += itertools.combinations(targets[::3], 2)
                for g in groups:
                    case = {'array': row, 'targets': list(g)}
                    with cx.case(case):
                        cx.step()
                        a = numpy.array(row)
                        check_bounds(cx, case, [row], g, f(a, *g, axis=0))
                        if len(g) > 1:
                            cx.require(f(a, *g[::-1], axis=-1) == f(a, *g, axis=0), case, 'order of targets')
    case = 'no targets'
    with cx.case(case):
        status, got = attempt(lambda: f(numpy.array([1.0, 2.0]), axis=0))
        cx.require(status == 'error' and isinstance(got, ValueError), case, f'{got!r}')


def run_bounds_2D(shard, cx):
    from eprempy import numeric
    f = numeric.index.restrict
    deep = shard['tier'] == 'thorough'
    for n in (2, 3):
        rows = list(ascending(n, True))
        rows = rows[::2] if not deep else rows
        for pair in itertools.product(rows, repeat=2):
            for extra in ((), (rows[-1],)):
                group = [*pair, *extra]
                for g in ((0.5,), (2.0,), (-1.0,), (9.0,), (1.0, 3.5)):
                    a = numpy.array(group)
                    for axis, b in ((1, a), (-1, a), (0, a.T)):
                        case = {'rows': group, 'targets': list(g), 'axis': axis}
                        with cx.case(case):
                            cx.step()
                            check_bounds(cx, case, group, g, f(b, *g, axis=axis))


# -- dimensions ---------------------------------------------------------------

KINDS = {
    'dimensions': lambda D, names: D(*names), 'list': lambda D, names: list(names),
    'tuple': lambda D, names: tuple(names), 'name': lambda D, names: names[0],
}


def collections(n):
    names = ['time', 'shell', 'mu', 'ab'][:n]
    out = []
    for k in range(0, n + 1):
        out += list(itertools.permutations(names, k))
    return out


def merged(a, b):
    """Whether the orders of two collections are compatible."""
    common = [x for x in a if x in b]
    return common == [x for x in b if x in a]


def keeps(order, names):
    return [x for x in order if x in names] == list(names)


def run_dimensions(shard, cx):
    from eprempy import numeric
    D = numeric.dimensions
    pool = collections(BOUNDS[shard['tier']]['dimension names'])
    for i, a in enumerate(pool):
        if i % 8 != shard['block']:
            continue
        for b in pool:
            for kind, make in KINDS.items():
                if kind == 'name' and len(b) != 1:
                    continue
                binary(cx, D, a, b, kind, make)
            for c in pool:
                compose(cx, D, a, b, c)
        for c in ('a', 'tim', 'timeshell', 'time shell', ''):
            case = {'dimensions': list(a), 'text': c}
            with cx.case(case):
                cx.step()
                cx.require((D(*a) == c) is False and (D(*a) != c) is True and c not in D(*a), case, 'equal')
        for junk in (1, None, 1.5, [1, 2], object()):
            case = {'dimensions': list(a), 'operand': str(type(junk))}
            with cx.case(case):
                cx.step()
                cx.require((D(*a) == junk) is False, case, 'equal')
                for f in (operator.and_, operator.or_, operator.sub, operator.xor, operator.lt, operator.ge):
                    cx.require(attempt(lambda: f(D(*a), junk))[0] == 'error', case, f'{f.__name__} accepted')


def binary(cx, D, a, b, kind, make):
    case = {'a': list(a), 'b': list(b), 'as': kind}
    with cx.case(case):
        cx.step()
        x, y = D(*a), make(D, b)
        A, B = set(a), set(b)
        cx.require(tuple(x) == a and len(x) == len(a) and set(x) == A, case, f'{x}')
        cx.require((x == y) is (a == b) and (x != y) is (a != b), case, 'equality')
        for sign, f in (('<', operator.lt), ('<=', operator.le), ('>', operator.gt), ('>=', operator.ge)):
            cx.require(f(x, y) is f(A, B), case, f'{sign} is {f(x, y)}')
        r = x & y
        cx.require(tuple(r) == tuple(n for n in a if n in B), case, f'& is {r}')
        r = x - y
        cx.require(tuple(r) == tuple(n for n in a if n not in B), case, f'- is {r}')
        status, r = attempt(lambda: x | y)
        if merged(a, b):
            cx.require(status == 'ok' and len(r) == len(set(r)) and set(r) == A | B, case, f'| is {r}')
            cx.require(keeps(r, a) and keeps(r, b), case, f'| is {r}')
        else:
            cx.require(status == 'error' and isinstance(r, ValueError), case, f'| is {r}')
        r = x ^ y
        cx.require(set(r) == A ^ B and len(r) == len(set(r)), case, f'^ is {r}')
        cx.require(keeps(r, [n for n in a if n not in B]) and keeps(r, [n for n in b if n not in A]), case, f'^ is {r}')
        status, r = attempt(lambda: x.mismatch(y if kind != 'name' else [y]))
        cx.require((status == 'ok' and r is None) if A == B else (status == 'error' and isinstance(r, ValueError)), case,
                   f'mismatch: {r!r}')
        if kind in ('list', 'tuple'):
            r = y & x
            cx.require(tuple(r) == tuple(n for n in b if n in A), case, f'reverse & is {r}')
            status, r = attempt(lambda: y | x)
            cx.require((status == 'ok' and set(r) == A | B and keeps(r, a) and keeps(r, b)) if merged(a, b)
                       else isinstance(r, ValueError), case, f'reverse | is {r}')
            cx.require(set(y ^ x) == A ^ B, case, f'reverse ^ is {y ^ x}')
            for sign, f in (('&', operator.and_), ('|', operator.or_), ('^', operator.xor)):
                same = attempt(lambda: tuple(f(D(*b), x))), attempt(lambda: tuple(f(y, x)))
                cx.require(repr(same[0]) == repr(same[1]), case, f'reverse {sign} is {same[1]}, not {same[0]}')
        for r in (x & y, x - y, x ^ y, x.copy()):
            cx.require(type(r) is type(x), case, f'type {type(r).__name__}')
        cx.require(tuple(x) == a and x == x.copy() and hash(x) == hash(x.copy()), case, 'changed')
        cx.require(kind != 'list' or y == list(b), case, 'operand changed')
        cx.state([list(a), list(b)])
        cx.outcome([sorted(A & B), sorted(A - B)])


def compose(cx, D, a, b, c):
    """Laws of three collections."""
    case = {'a': list(a), 'b': list(b), 'c': list(c)}
    with cx.case(case):
        cx.step()
        cx.trace()
        x, y, z = D(*a), D(*b), D(*c)
        cx.require(tuple((x - y) - z) == tuple(n for n in a if n not in b and n not in c), case, '(a - b) - c')
        cx.require(tuple((x & y) & z) == tuple(n for n in a if n in b and n in c), case, '(a & b) & c')
        cx.require(set((x & y) ^ z) == (set(a) & set(b)) ^ set(c), case, '(a & b) ^ c')
        if merged(a, b) and merged(a, c) and merged(b, c):
            status, r = attempt(lambda: (x | y) | z)
            if status == 'ok':
                cx.require(set(r) == {*a, *b, *c} and all(keeps(r, n) for n in (a, b, c)), case, f'(a | b) | c is {r}')
            else:
                cx.require(isinstance(r, ValueError), case, f'{r!r}')
            cx.require(tuple((x | y) - y) == tuple(n for n in a if n not in b), case, '(a | b) - b')
            cx.require(tuple((x | y) & x) == a, case, '(a | b) & a')


def run_permute(shard, cx):
    from eprempy import numeric
    D = numeric.dimensions
    for names in collections(4):
        n = len(names)
        x = D(*names)
        for k in range(0, n + 2):
            for order in itertools.product(range(-n, n + 1), repeat=min(k, 4)):
                if len(order) != k or (n == 4 and order and order[0] < -1):
                    continue
                valid = k == n and all(-n <= i < n for i in order) and len({i % n for i in order} if n else ()) == n
                calls = {'list': lambda: x.permute(list(order)), 'keyword': lambda: x.permute(order=order)}
                calls['array'] = lambda: x.permute(numpy.array(order, dtype=int))
                calls['iterator'] = lambda: x.permute(iter(order))
                if order == tuple(range(k)):
                    calls['range'] = lambda: x.permute(range(k))
                if k:
                    calls['arguments'] = lambda: x.permute(*order)
                for label, f in calls.items():
                    case = {'dimensions': list(names), 'order': list(order), 'as': label}
                    with cx.case(case):
                        cx.step()
                        status, got = attempt(f)
                        if valid:
                            want = tuple(names[i] for i in order)
                            cx.require(status == 'ok' and tuple(got) == want, case, f'{got!r}')
                            cx.outcome(want)
                        else:
                            cx.require(status == 'error' and isinstance(got, ValueError), case, f'{got!r}')
                        cx.require(tuple(x) == names, case, 'changed')
        case = {'dimensions': list(names)}
        with cx.case(case):
            for old, new in itertools.product(('time', 'shell', 'none'), ('new',)):
                got = x.replace(old, new)
                cx.require(tuple(got) == tuple(new if m == old else m for m in names), case, f'replace: {got}')
            for i in (None, *range(-n, n + 1)):
                want = list(names)
                want.insert(len(want) if i is None else i, 'new')
                got = x.insert('new', i) if i is not None else x.insert('new')
                cx.require(list(got) == want, case, f'insert at {i}: {got}')
            for i in range(-n, n):
                cx.require(x[i] == names[i] and x.index(names[i]) == i % n, case, 'subscript')
            cx.require(attempt(lambda: x[n])[0] == 'error', case, 'subscript')
            cx.require(attempt(lambda: x.permute())[0] == 'error', case, 'permute nothing')
            cx.require(attempt(lambda: x.permute([0], order=[0]))[0] == 'error', case, 'permute twice')
            for same_ in (D(names), D(list(names)), D(*names, *names), D(D(*names)), D([names])):
                cx.require(same_ == x and hash(same_) == hash(x), case, f'{same_}')
            cx.require({x: 1}[D(*names)] == 1, case, 'key')
    for n in range(0, 5):
        case = {'default dimensions': n}
        with cx.case(case):
            d = D(n)
            cx.require(list(d) == [f'x{i}' for i in range(n)], case, f'{d}')
            cx.require(type(d) is type(D('a')) and tuple(d | D('x0')) == (tuple(d) or ('x0',)), case, f'{d!r}')
    for bad in ([1, 2], [['a'], ['b']], ['a', 1]):
        case = {'not names': str(bad)}
        with cx.case(case):
            cx.require(attempt(lambda: D(*bad))[0] == 'error', case, 'accepted')


def replay(case, cx):
    for shard in shards('quick'):
        run_shard(shard, cx)
