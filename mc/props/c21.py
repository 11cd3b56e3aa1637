"""C21: constants and defaults read from EPREM source have their C values.

Synthesized `baseTypes.h` and `configuration.c` files are parsed by the real
code and compared to values computed while the files were generated (C
arithmetic on the generating tree, never on the text).
"""

import itertools
import json
import math
import pathlib
import tempfile

ID = 'C21'
LEVEL = 'model_checking'
RULE = (
    "every definition of the grammar (numbers, names, + - * /, unary minus, "
    "parentheses, sqrt) up to the depth, in every spelling and order of the "
    "statements; non-trivial: distinct (form, value)"
)
BOUNDS = {
    'quick': {'expression depth': 3, 'dependent parameters': 3, 'orders': 'all'},
    'thorough': {'expression depth': 4, 'dependent parameters': 4, 'orders': 'all'},
}
ASSUMPTIONS = [
    "one statement per line; a macro that is a bare sum or difference is only "
    "used where textual and numerical substitution agree",
    "double arithmetic agrees with C up to 1e-12 relative",
]


# -- expressions ----------------------------------------------------------
class E:
    """A C expression: text, value, precedence (3 atom, 2 product, 1 sum)."""

    __slots__ = ('text', 'value', 'prec')

    def __init__(self, text, value, prec=3):
        self.text, self.value, self.prec = text, value, prec

    def paren(self, least):
        return self.text if self.prec >= least else f'({self.text})'


def div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    return a / b


OPS = {
    '*': (2, lambda a, b: a * b), '/': (2, div),
    '+': (1, lambda a, b: a + b), '-': (1, lambda a, b: a - b),
}


def binary(op, a, b, space):
    prec, f = OPS[op]
    if op == '/' and b.value == 0:
        return None
    # The right operand must bind tighter: left-associative operators.
    text = f'{a.paren(prec)}{space}{op}{space}{b.paren(prec + 1)}'
    return E(text, f(a.value, b.value), prec)


LITERALS = [
    E('2.0', 2.0), E('3', 3), E('1.5e-3', 1.5e-3), E('.25', .25), E('4.', 4.0),
    E('1E2', 1e2), E('6.02e+1', 60.2),
]
NAMES = [E('PI', 3.25), E('C', 7.0e3)]
BASE = ['#define PI 3.25', '#define C 7.0e3']


def closure(atoms, exprs, spaces=('', ' ')):
    """Expressions with one more operator."""
    for space in spaces:
        for op in OPS:
            for a, b in itertools.product(exprs, atoms):
                for x, y in ((a, b), (b, a)):
                    e = binary(op, x, y, space)
                    if e is not None:
                        yield e
    for a in exprs:
        if a.value >= 0:
            yield E(f'sqrt({a.text})', math.sqrt(a.value))
        yield E(f'-{a.paren(3)}', -a.value, 2)
        yield E(f'({a.text})', a.value)


def expressions(depth):
    atoms = LITERALS + NAMES
    level = list(atoms)
    out = list(level)
    for i in range(depth):
        small = [LITERALS[0], LITERALS[2], NAMES[0]] if i else atoms
        seen = {e.text for e in out}
        nxt = []
        for e in closure(small, level, (' ',) if i else ('', ' ')):
            if e.text not in seen:
                seen.add(e.text)
                nxt.append(e)
        out += nxt
        level = nxt if i + 1 < depth else []
        if i + 2 == depth and depth > 2:
            # the deepest level grows from products, sums and roots of names
            level = [e for e in nxt if 'PI' in e.text]
    return out


FLOATS = [
    'AU', 'DAY', 'DEG2RAD', 'EV', 'FCONVERT', 'GEV', 'HALF_PI', 'LARGEFLOAT',
    'MEV', 'MHD_B_NORM', 'MHD_DENSITY_NORM', 'MP', 'MZERO', 'OM', 'Q',
    'RAD2DEG', 'RSAU', 'RSUN', 'SMALLFLOAT', 'TAU', 'THRESH', 'TWO_PI', 'VOLT',
]
INTS = [
    'LARGEINT', 'MAX_STRING_SIZE', 'T', 'F', 'MHD_COUPLED', 'MHD_DEFAULT',
    'N_OF_OURS', # unknown to the package: has the type of its definition
]

COMMENTS = [
    '{}', '{}   // note', '{} /* note */', '  {}\t', '{} /* 3 * 4 */ // 5',
    '/* before */ {}',
]


def close(x, y):
    if x is None or y is None:
        return x is y
    return x == y or abs(x - y) <= 1e-12 * max(abs(x), abs(y))


class Sources:
    def __init__(self):
        self.tmp = tempfile.TemporaryDirectory()
        self.path = pathlib.Path(self.tmp.name)

    def header(self, lines):
        (self.path / 'baseTypes.h').write_text('\n'.join(lines) + '\n')

    def source(self, lines):
        (self.path / 'configuration.c').write_text('\n'.join(lines) + '\n')

    def close(self):
        self.tmp.cleanup()


# -- shards ---------------------------------------------------------------
def shards(tier):
    depth = BOUNDS[tier]['expression depth']
    out = [{'kind': 'macros', 'depth': depth, 'part': p, 'of': 6} for p in range(6)]
    out += [{'kind': 'defaults', 'depth': depth, 'part': p, 'of': 4} for p in range(4)]
    out += [{'kind': k} for k in ('forms', 'refused', 'package', 'fallback')]
    n = BOUNDS[tier]['dependent parameters']
    out += [{'kind': 'orders', 'n': n, 'part': p, 'of': 6} for p in range(6)]
    out += [{'kind': 'macroorders', 'n': n, 'part': p, 'of': 2} for p in range(2)]
    return out


def run_shard(shard, cx):
    src = Sources()
    try:
        globals()['run_' + shard['kind']](shard, cx, src)
    finally:
        src.close()


def batches(items, n):
    items = list(items)
    for i in range(0, len(items), n):
        yield items[i:i + n]


def run_macros(shard, cx, src):
    from eprempy import parameter
    exprs = expressions(shard['depth'])[shard['part']::shard['of']]
    for batch in batches(exprs, len(FLOATS)):
        # definitions first, used macros last: order must not matter
        lines = [f'#define {n} {e.text}' for n, e in zip(FLOATS, batch)]
        src.header(lines + BASE)
        got = parameter.BaseTypesH(src.path)
        for name, e in zip(FLOATS, batch):
            case = {'macro': f'#define {name} {e.text}'}
            with cx.case(case):
                cx.step()
                value = got[name]
                cx.require(
                    isinstance(value, float) and close(value, float(e.value)),
                    case, f'{value!r} instead of {float(e.value)!r}',
                )
                cx.outcome(round(value, 9))
    ints = [E('3', 3), E('0', 0), E('-7', -7, 2), E('(3)', 3), E('7 / 2', 3, 2), E('(2*3)', 6), E('2147483647', 2147483647), E('3 - 3', 0, 1), E('9007199254740993 / 1', 9007199254740993, 2), E('-9223372036854775807 / 2', -4611686018427387903, 2), E('-7 / -2', 3, 2), E('-1 / 2', 0, 2)]
    if shard['part'] == 0:
        for name, e, c in itertools.product(INTS, ints, COMMENTS):
            line = c.format(f'#define {name} {e.text}')
            case = {'macro': line}
            with cx.case(case):
                cx.step()
                src.header([line])
                value = parameter.BaseTypesH(src.path)[name]
                cx.require(type(value) is int and value == e.value, case, f'{value!r} instead of {e.value!r}')
        for e, c in itertools.product(exprs[:400:7], COMMENTS):
            line = c.format(f'#define AU {e.text}')
            case = {'macro': line}
            with cx.case(case):
                cx.step()
                src.header(BASE + [line])
                value = parameter.BaseTypesH(src.path)['AU']
                cx.require(close(value, e.value), case, f'{value!r} instead of {e.value!r}')


def statement(kind, name, default, lo, hi, form=0):
    """A line of configuration.c."""
    target = 'config.' + name if form % 2 == 0 else name
    eq = (' = ', '=', '\t=  ')[form % 3]
    comma = (', ', ',', ' , ')[form % 3]
    cast = '(char*)' if kind == 'readString' else ''
    if kind == 'readString':
        args = [f'"{name}"', default]
    elif kind == 'readDoubleArray':
        args = [f'"{name}"', '1', f'&config.{name}Size', default, lo, hi]
    else:
        args = [f'"{name}"', default, lo, hi]
    return f'{target}{eq}{cast}{kind}({comma.join(args)});'


def run_defaults(shard, cx, src):
    from eprempy import parameter
    members = [E('config.base', 1.25), E('config.zero', 0.0), E('PI', 3.25)]
    atoms = members + LITERALS[:3]
    level1 = list(closure(atoms, atoms))
    level2 = list(closure(members[:2] + [LITERALS[2]], level1, (' ',)))
    texts, items = set(), []
    for e in LITERALS + members + level1 + (level2 if shard['depth'] > 2 else level2[::5]):
        if e.text not in texts:
            texts.add(e.text)
            items.append(e)
    items = items[shard['part']::shard['of']]
    src.header(BASE)
    for batch in batches(items, 40):
        lines = ['  config.base = readDouble("base", 1.25, 0.0, 1.0);', '  config.zero = readDouble("zero", 0.0, 0.0, 1.0);']
        lines += ['  ' + statement('readDouble', f'p{i}', e.text, '0.0', 'LARGEFLOAT', i) for i, e in enumerate(batch)]
        src.source(lines)
        defaults = parameter.Defaults(src.path)
        for i, e in enumerate(batch):
            case = {'default': lines[i + 2]}
            with cx.case(case):
                cx.step()
                got = defaults[f'p{i}']
                cx.require(close(got, e.value), case, f'{got!r} instead of {e.value!r}')
                cx.outcome(round(got, 9))


STRINGS = ['', 'a.txt', 'a b', 'a,b', 'http://x/y', 'x=1;', 'dir/*.h', '(a)', 'T', 'config.p', '3']


def run_forms(shard, cx, src):
    """Spellings of statements: types, ranges, raw text, membership."""
    from eprempy import parameter
    src.header(BASE + ['#define T 1', '#define F 0', '#define LARGEINT 2147483647', '#define HALF_PI 1.5'])
    rows = []
    for form in range(6):
        for d, v in (('1', 1), ('0', 0), ('T', 1), ('F', 0), ('-1', -1), ('LARGEINT', 2147483647), ('N_PROCS', None), ('config.i', 4)):
            rows.append(('readInt', d, v, form))
        for d, v in (('0.0', 0.0), ('400.0e5', 4e7), ('1500e5', 1.5e8), ('-1.0 * PI', -3.25), ('third', 1 / 3), ('config.x', 0.5), ('HALF_PI', 1.5), ('config.x + config.x', 1.0), ('config.x - config.x', 0.0), ('config.x / config.x', 1.0), ('T', 1.0)):
            rows.append(('readDouble', d, v, form))
        for s in STRINGS:
            rows.append(('readString', f'"{s}"', s, form))
        for d, v in (('1.0', [1.0]), ('0.0', [0.0]), ('.5', [0.5]), ('3', [3]), ('config.x', [0.5]), ('config.i', [4])):
            rows.append(('readDoubleArray', d, v, form))
    types = {'readInt': int, 'readDouble': float, 'readString': str, 'readDoubleArray': list}
    fixed = ['config.i = readInt("i", 4, 0, 9);', 'config.x = readDouble("x", 0.5, 0.0, 9.0);']
    for (kind, d, v, form), c, late in itertools.product(rows, COMMENTS, (False, True)):
        lo, hi = ('0', 'LARGEINT') if kind == 'readInt' else ('-1.0 * LARGEFLOAT', 'config.x')
        head, raw = [], d
        if kind == 'readDoubleArray':
            head = [f'Scalar_t defaultV[1] = {{{d}}};' if form % 2 else f'  Scalar_t  defaultV[1]={{{d}}}; ']
            raw = f'[{d}]'
            line = statement(kind, 'v', 'defaultV', lo, hi, form)
        else:
            if late:
                continue
            raw = v if kind == 'readString' else d
            line = statement(kind, 'v', d, lo, hi, form)
        body = [c.format(line)]
        lines = fixed + ((body + head) if late else (head + body)) + ['  printf("%d", 3);', 'int i = 3;']
        case = {'lines': lines}
        with cx.case(case):
            cx.step()
            src.source(lines)
            ref = parameter.ConfigurationC(src.path)
            defaults = parameter.Defaults(src.path)
            problem = None
            if list(ref) != ['i', 'x', 'v'] or len(ref) != 3:
                problem = f'parameters {list(ref)}'
            elif list(defaults) != ['i', 'x', 'v'] or len(defaults) != 3:
                problem = f'defaults {list(defaults)}'
            elif ref['v'].get('type') is not types[kind]:
                problem = f"type {ref['v'].get('type')}"
            elif str(ref['v'].get('defaultVal')) != raw:
                problem = f"default text {ref['v'].get('defaultVal')!r} instead of {raw!r}"
            elif kind != 'readString' and (ref['v'].get('minVal'), ref['v'].get('maxVal')) != (lo, hi):
                problem = f"range {ref['v']}"
            else:
                got = defaults['v']
                if kind == 'readDoubleArray':
                    ok = isinstance(got, list) and len(got) == 1 and close(got[0], v[0])
                elif kind == 'readString':
                    ok = got == v
                else:
                    ok = close(got, v)
                if not ok:
                    problem = f'value {got!r} instead of {v!r}'
                elif ref.get('v', format='raw').get('mode') != kind:
                    problem = f"raw {ref.get('v', format='raw')}"
                elif pathlib.Path(ref.origin) != (src.path / 'configuration.c').resolve():
                    problem = f'origin {ref.origin}'
                elif 'w' in ref or 'w' in defaults:
                    problem = 'contains an undefined parameter'
            cx.require(problem is None, case, problem)
    # quotation marks and comment signs inside strings of other statements
    texts = ['/*', '//', '\\"/*\\"', '\\"//', 'a\\"b /* c', 'a\\\\', '\\\\\\"/*', "'", '*/', '/* \\" //']
    tails = ['', ' // "', ' /* " */', ' // \\"']
    last = 'config.y = readDouble("y", 2.5, 0.0, 9.0); /* end */'
    for text, tail, where, n in itertools.product(texts, tails, range(3), (1, 2)):
        lines = fixed + [last]
        lines[where:where] = [f'  printf("{text}");{tail}'] * n
        case = {'lines': lines}
        with cx.case(case):
            cx.step()
            src.source(lines)
            defaults = parameter.Defaults(src.path)
            got = {k: defaults[k] for k in defaults}
            cx.require(got == {'i': 4, 'x': 0.5, 'y': 2.5}, case, f'got {got}')
    # statements that are commented out, or are not statements at all
    for block in (['/*', 'X', '*/'], ['// X'], ['/* X */'], ['#if 0 /*', 'X', '*/']):
        for after in (False, True):
            x = 'config.x = readDouble("x", 9.0, 0.0, 1.0);'
            dead = [b.replace('X', x) for b in block]
            lines = fixed + dead if after else dead + fixed
            case = {'lines': lines}
            with cx.case(case):
                cx.step()
                src.source(lines)
                got = parameter.Defaults(src.path)['x']
                cx.require(got == 0.5, case, f'commented-out statement used: {got}')
            h = [b.replace('X', '#define PI 9.0') for b in block]
            case = {'header': h}
            with cx.case(case):
                cx.step()
                src.header(BASE + h if after else h + BASE)
                got = parameter.BaseTypesH(src.path)['PI']
                cx.require(got == 3.25, case, f'commented-out macro used: {got}')
            src.header(BASE)


def run_refused(shard, cx, src):
    """Unsupported definitions raise; they never yield a number."""
    from eprempy import parameter
    bad = [
        'NOPE', 'NOPE * PI', 'PI * NOPE', '2.0 * NOPE', 'PI + NOPE', 'sqrt(NOPE)', 'pow(2.0)', 'exp(PI)', '1.0 * (PI', '2.0 *',
        'PI PI', '1.0 2.0', 'sqrt(PI', 'AU * 2.0',
    ]
    for b in bad:
        for pre in (True, False):
            line = f'#define AU {b}'
            case = {'macro': line, 'first': pre}
            with cx.case(case):
                cx.step()
                src.header([line] + BASE if pre else BASE + [line])
                try:
                    got = parameter.BaseTypesH(src.path)['AU']
                except (KeyError, TypeError, ValueError, RecursionError):
                    pass
                else:
                    cx.fail(case, f'evaluates to {got!r}')
                ok = parameter.BaseTypesH(src.path)['C']
                cx.require(ok == 7.0e3, case, 'other macro not available')
    src.header(BASE)
    for b in bad[:-1] + ['config.nope', 'config.nope * 2.0', 'config.v', 'config.y + config.nope', '']:
        line = f'config.v = readDouble("v", {b}, 0.0, 1.0);'
        case = {'default': line}
        with cx.case(case):
            cx.step()
            src.source([line, 'config.y = readDouble("y", PI, 0.0, 1.0);'])
            d = parameter.Defaults(src.path)
            try:
                got = d['v']
            except (KeyError, TypeError, ValueError, RecursionError):
                pass
            else:
                cx.fail(case, f'evaluates to {got!r}')
            cx.require(d['y'] == 3.25, case, 'other parameter not available')
            for name in ('w', 'PI', 'third'):
                try:
                    got = d[name]
                except KeyError:
                    pass
                else:
                    cx.fail(case, f'{name} is not a parameter but has the value {got!r}')


def run_orders(shard, cx, src):
    """Parameters that refer to one another, in every order of lines."""
    from eprempy import parameter
    n = shard['n']
    names = [f'q{i}' for i in range(n)]

    def choices(i, values):
        yield '2.5', 2.5
        yield '0.0', 0.0
        yield 'PI', 3.25
        for j in range(i):
            m, v = f'config.q{j}', values[j]
            yield m, v
            yield f'{m} * 2.0', v * 2
            yield f'{m} - config.q0', v - values[0]
            yield f'PI + {m}', 3.25 + v
            if v:
                yield f'1.5 / {m}', 1.5 / v

    def programs(i, texts, values):
        if i == n:
            yield texts, values
            return
        for t, v in choices(i, values):
            yield from programs(i + 1, texts + [t], values + [v])

    src.header(BASE)
    count = 0
    for texts, values in programs(0, [], []):
        count += 1
        if count % shard['of'] != shard['part']:
            continue
        for order in itertools.permutations(range(n)) if count % 4 < 2 or cx.tier == 'quick' else (tuple(range(n))[::-1],):
            lines = [statement('readDouble', names[i], texts[i], '0.0', 'LARGEFLOAT', i) for i in order]
            case = {'lines': lines}
            with cx.case(case):
                cx.step()
                src.source(lines)
                d = parameter.Defaults(src.path)
                got = dict(d)
                cx.require(
                    list(got) == [names[i] for i in order] and all(close(got[m], v) for m, v in zip(names, values)),
                    case, f'{got} instead of {dict(zip(names, values))}',
                )
                cx.state((tuple(texts), order))


def run_macroorders(shard, cx, src):
    from eprempy import parameter
    names = ['AU', 'C', 'PI'][:3]
    forms = [
        lambda v: ('2.5', 2.5),
        lambda v: (f'({v[0][0]} * 2.0)', v[0][1] * 2.0),
        lambda v: (f'({v[0][0]} / {v[-1][0]})', v[0][1] / v[-1][1]),
        lambda v: (f'sqrt({v[-1][0]} * 4.0)', math.sqrt(v[-1][1] * 4.0)),
        lambda v: (f'( 1.0e30 / ({v[0][0]} * {v[-1][0]}) )', 1e30 / (v[0][1] * v[-1][1])),
        lambda v: (v[-1][0], v[-1][1]),
    ]
    for i, combo in enumerate(itertools.product(range(len(forms)), repeat=2)):
        if i % shard['of'] != shard['part']:
            continue
        defs = [('AU', 1.5)]
        texts = ['1.5']
        for name, f in zip(names[1:], combo):
            t, v = forms[f](defs)
            defs.append((name, v))
            texts.append(t)
        for order in itertools.permutations(range(3)):
            for access in itertools.permutations(range(3)):
                lines = [f'#define {defs[j][0]} {texts[j]}' for j in order]
                case = {'lines': lines, 'access': list(access)}
                with cx.case(case):
                    cx.step()
                    src.header(lines)
                    b = parameter.BaseTypesH(src.path)
                    for j in access:
                        cx.require(close(b[defs[j][0]], defs[j][1]), case, f'{defs[j][0]} = {b[defs[j][0]]}')
                    cx.require(list(b) == [defs[j][0] for j in order], case, f'{list(b)}')


def run_package(shard, cx, src):
    """The packaged defaults agree with their own definitions."""
    from eprempy import parameter
    db = json.loads(pathlib.Path(parameter.DB_PATH).read_text())
    spec = json.loads((pathlib.Path(__file__).parent.parent / 'spec' / 'package.json').read_text())
    b = parameter.BaseTypesH()
    with cx.case('baseTypes'):
        cx.require(set(b) == set(spec['basetypes']) == set(db['BASETYPES_H']), 'baseTypes', 'set of constants')
    for name, v in spec['basetypes'].items():
        case = {'constant': name}
        with cx.case(case):
            cx.step()
            cx.require(close(b[name], v) and type(b[name]) is type(v), case, f'{b[name]!r} instead of {v!r}')
            full = b.get(name, format='full')
            cx.require(close(full['value'], v), case, f'full: {full}')
            other = parameter.reference.BASETYPES_H[name]
            cx.require(close(other['value'], v) and other['type'] is type(v), case, f'reference: {other}')
            cx.require(other['unit'] == full['unit'], case, f'units differ: {other} {full}')
    d = parameter.defaults()
    with cx.case('defaults'):
        cx.require(set(d) == set(spec['defaults']) == set(db['CONFIGURATION_C']), 'defaults', 'set of parameters')
    for name, v in spec['defaults'].items():
        case = {'parameter': name}
        with cx.case(case):
            cx.step()
            got = d[name]
            ok = got == v if isinstance(v, (str, list)) else close(got, v)
            cx.require(ok and type(got) is type(v), case, f'{got!r} instead of {v!r}')
            ref = parameter.reference.CONFIGURATION_C[name]
            attrs = parameter.ConfigurationC()[name]
            cx.require(
                all(attrs.get(k) == ref.get(k) for k in ('type', 'defaultVal', 'minVal', 'maxVal')),
                case, f'reference {ref} and database {attrs} differ',
            )
    for cls, key in ((parameter.BaseTypesH, 'BASETYPES_H'), (parameter.ConfigurationC, 'CONFIGURATION_C')):
        for options in ({'mode': 'full'}, {'mode': 'full', 'sort': True}, {'mode': 'full', 'indent': 4}):
            case = {'tostring': key, 'options': options}
            with cx.case(case):
                cx.step()
                scope = {}
                exec(cls().tostring(**options), {'float': float, 'int': int, 'str': str, 'list': list}, scope)
                got = scope[key]
                want = getattr(parameter.reference, key)
                cx.require(set(got) == set(want), case, 'names differ')
                for k in want:
                    for a in ('type', 'value', 'defaultVal', 'minVal', 'maxVal'):
                        x, y = got[k].get(a), want[k].get(a)
                        cx.require(close(x, y) if isinstance(x, float) else x == y, case, f'{k}.{a}: {x!r} {y!r}')
        case = {'raw': key}
        with cx.case(case):
            cx.step()
            raw = cls().todict(mode='raw')
            cx.require(raw == db[key], case, 'raw definitions differ from the database')
            srt = cls().todict(mode='raw', sort=True)
            cx.require(list(srt) == sorted(db[key]) and srt == db[key], case, 'sorted')


def run_fallback(shard, cx, src):
    """Which definitions are used for which source directory."""
    from eprempy import parameter, paths
    src.header(BASE)
    db = pathlib.Path(parameter.DB_PATH)
    lines = ['config.eMin = readDouble("eMin", PI, 0.0, 1.0);']
    for has_c, has_h in itertools.product((False, True), repeat=2):
        with tempfile.TemporaryDirectory() as tmp:
            tmp = pathlib.Path(tmp).resolve()
            if has_c:
                (tmp / 'configuration.c').write_text('\n'.join(lines))
            if has_h:
                (tmp / 'baseTypes.h').write_text('\n'.join(BASE))
            for arg in (str(tmp), tmp):
                case = {'configuration.c': has_c, 'baseTypes.h': has_h, 'type': type(arg).__name__}
                with cx.case(case):
                    cx.step()
                    c, b = parameter.ConfigurationC(arg), parameter.BaseTypesH(arg)
                    cx.require(pathlib.Path(c.origin) == (tmp / 'configuration.c' if has_c else db), case, f'origin {c.origin}')
                    cx.require(pathlib.Path(b.origin) == (tmp / 'baseTypes.h' if has_h else db), case, f'origin {b.origin}')
                    d = parameter.Defaults(arg)
                    pi = 3.25 if has_h else math.pi
                    cx.require(close(d['eMin'], pi if has_c else 1.0), case, f"eMin {d['eMin']}")
                    cx.require(len(d) == (1 if has_c else 119), case, f'{len(d)} parameters')
                    if not has_c and not has_h:
                        i = parameter.interface(srcdir=arg)
                        cx.require(close(float(i['eMin']), 1.0), case, 'interface')
    case = 'missing directory'
    with cx.case(case):
        try:
            parameter.ConfigurationC('/nonexistent/eprem/src')
        except (paths.NonExistentPathError, FileNotFoundError, ValueError):
            pass
        else:
            cx.fail(case, 'accepted')
    for cls in (parameter.ConfigurationC, parameter.BaseTypesH):
        with cx.case(cls.__name__):
            try:
                cls()['nope']
            except KeyError:
                pass
            else:
                cx.fail(cls.__name__, 'unknown name accepted')
            cx.require(cls().get('nope', 3) == 3, cls.__name__, 'get default')
