"""C10: a symbolic expression means what its text says, and so does its algebra.

Every text up to a length over an alphabet of the grammar's characters, every
level of operands and operators up to a width, every nesting of groups up to a
depth, is read by the package and by an independent reader of the documented
grammar: same monomial, or an error from both.  Then every product, ratio, power,
comparison and spelling of expressions against the same arithmetic on monomials.
"""

from fractions import Fraction as F
import itertools

from .. import symref as S

ID = 'C10'
LEVEL = 'model_checking'
RULE = (
    "all texts of length <= `length` over 10 characters; all levels of `width` "
    "operands; all groups nested to `depth`; all pairs of expressions under each "
    "operation; non-trivial: distinct monomials"
)
BOUNDS = {
    'quick': {'length': 5, 'width': 3, 'full': 2, 'depth': 2},
    'thorough': {'length': 6, 'width': 4, 'full': 3, 'depth': 3},
}
ASSUMPTIONS = [
    "operators apply to the operand that follows, as documented for the default "
    "order of operators",
    "numbers are compared as floating-point values",
]

ALPHABET = 'a2 */^()-.'
ATOMS = ['a', 'b', 'c1', '_x', 'μ', '2', '1/3', '2a', '.5b', '-3c', 'a^2', 'b^-1',
         'a^3/2', 'b^-5/12', '2a^2', '1e3a', '2^3', '4^1/2', 'a^0', '1', 'sqrt(a)',
         '3(a)^2', '(b/a)', 'a^2.5']
FEW = ['a', 'b', '2', '3a', 'b^-1/2', 'c^10/3', '4(a)']
OPS = ['*', ' * ', ' / ', '/', ' ']
WRAPS = ['({})', '({})^2', '({})^-3/2', '2({})^-1', 'sqrt({})', '({})^0', '1/4({})']


def fits(left, op, right):
    """False if this text would be read as a single number or name."""
    if right[0] in '0123456789.-(':
        # '3/2', 'a^2/3' and 'a^2(b)' are other things.
        if op == '/' and left[-1] in '0123456789':
            return False
    if op == ' ' and right[0] == '-':
        return False
    return True


def levels(atoms, width, ops=OPS):
    """All texts of exactly this many operands."""
    if width == 1:
        yield from atoms
        return
    for left in levels(atoms, width - 1, ops):
        for op, right in itertools.product(ops, atoms):
            if fits(left, op, right):
                yield left + op + right


def groups(depth):
    """All texts of groups nested to this depth."""
    if depth == 0:
        yield from levels(FEW, 2, [' * ', ' / ', ' '])
        return
    for inner in groups(depth - 1):
        for wrap in WRAPS:
            yield wrap.format(inner)


def got(text):
    """The monomial of the package's expression, or None if it refuses."""
    from eprempy import symbolic
    try:
        return monomial(symbolic.expression(text))
    except (symbolic.ParsingValueError, ValueError, ZeroDivisionError, TypeError):
        return None


def monomial(e):
    c, p = 1, {}
    for term in e:
        c *= term.coefficient
        if term.base != '1':
            assert term.base not in p, 'repeated base'
            p[term.base] = term.exponent
    return c, p


def want(text):
    try:
        return S.read(text)
    except (S.Malformed, ZeroDivisionError):
        return None


def close(x, y):
    if x is None or y is None:
        return x is y
    a, b = float(x[0]), float(y[0])
    if abs(a - b) > 1e-9 * max(abs(a), abs(b)):
        return False
    return set(x[1]) == set(y[1]) and all(
        abs(float(x[1][k]) - float(y[1][k])) < 1e-9 for k in x[1])


def check_text(cx, text, kind):
    case = {'kind': kind, 'text': text}
    with cx.case(case):
        cx.step()
        w, g = want(text), got(text)
        if not close(w, g):
            cx.fail(case, f"{text!r} means {show(g)}, expected {show(w)}")
            return
        cx.outcome('refused' if w is None else show(w))


def show(m):
    if m is None:
        return 'nothing'
    return f"{float(m[0]):.9g} {sorted((k, str(v)) for k, v in m[1].items())}"


def shards(tier):
    n = 16
    out = [{'kind': 'text', 'part': [i, n], 'tier': tier} for i in range(n)]
    out += [{'kind': 'level', 'first': i, 'tier': tier} for i in range(len(ATOMS))]
    out += [{'kind': 'group', 'part': [i, n], 'tier': tier} for i in range(n)]
    out += [{'kind': 'algebra', 'part': [i, 8], 'tier': tier} for i in range(8)]
    out += [{'kind': 'term', 'base': i, 'tier': tier} for i in range(len(BASES))]
    out += [{'kind': 'tokens', 'tier': tier}, {'kind': 'order', 'tier': tier}]
    return out


def run_shard(shard, cx):
    kind, b = shard['kind'], BOUNDS[shard['tier']]
    if kind == 'text':
        k, n = shard['part']
        i = 0
        for length in range(1, b['length'] + 1):
            for chars in itertools.product(ALPHABET, repeat=length):
                i += 1
                if i % n == k:
                    text = ''.join(chars)
                    if text.strip() and '()' not in text.replace(' ', ''):
                        check_text(cx, text, kind)
    elif kind == 'level':
        first = ATOMS[shard['first']]
        check_level(cx, first)
        for width in range(1, b['width']):
            atoms = ATOMS if width < b['full'] else FEW
            ops = OPS if width < b['full'] else [' * ', ' / ', ' ']
            for op, rest in itertools.product(ops, levels(atoms, width, ops)):
                if fits(first, op, rest):
                    check_level(cx, first + op + rest)
    elif kind == 'group':
        k, n = shard['part']
        i = 0
        for depth in range(1, b['depth'] + 1):
            for text in groups(depth):
                i += 1
                if i % n != k:
                    continue
                check_level(cx, text)
                if depth == 1:
                    for wrap in WRAPS:
                        check_level(cx, wrap.format(f'x / {text}'))
                        check_level(cx, wrap.format(f'{text} * x'))
                else:
                    check_level(cx, f'x / {text}')
                    check_level(cx, f'{text} a')
    elif kind == 'algebra':
        k, n = shard['part']
        pairs = list(itertools.product(EXPRESSIONS, repeat=2))
        for x, y in pairs[k::n]:
            check_algebra(cx, x, y)
    elif kind == 'term':
        for c, b, e in terms():
            if b == BASES[shard['base']]:
                check_term(cx, c, b, e)
        for x in [*EXPRESSIONS, *ATOMS][shard['base']::len(BASES)]:
            check_update(cx, x)
    elif kind == 'tokens':
        for text in itertools.chain(ATOMS, levels(FEW, 2), groups(1)):
            check_tokens(cx, text)
    else:
        for length in (2, 3, 4, 5):
            for ops in itertools.product('*/', repeat=length - 1):
                for grouped in (None, *range(length)):
                    check_order(cx, ops, grouped)


def check_level(cx, text):
    """A text, the text of its expression, and its TeX format."""
    from eprempy import symbolic
    case = {'kind': 'level', 'text': text}
    with cx.case(case):
        cx.step()
        w = want(text)
        if w is None:
            cx.require(got(text) is None, case, f"{text!r} was accepted")
            return
        e = symbolic.expression(text)
        g = monomial(e)
        if not close(w, g):
            cx.fail(case, f"{text!r} means {show(g)}, expected {show(w)}")
            return
        again = symbolic.expression(str(e))
        if not close(monomial(again), w) or not (again == e and e == text):
            cx.fail(case, f"{text!r} became {str(e)!r}, then {str(again)!r}")
            return
        parts = [str(term) for term in e]
        cx.require(symbolic.expression(parts) == e, case, f"parts {parts} differ")
        cx.require(' '.join(parts) == str(e), case, f"parts {parts} of {e}")
        order = [term.exponent for term in e if term.base != '1']
        cx.require(order == sorted(order, reverse=True), case, f"order of {e}")
        tex = e.format('tex')
        for term in e:
            if term.base != '1':
                cx.require(f'\\mathrm{{{term.base}}}' in tex, case, f"format {tex}")
                if term.exponent != 1:
                    cx.require(f'^{{{term.exponent}}}' in tex, case, f"format {tex}")
        cx.state(show(w))
        cx.outcome(show(w))


EXPRESSIONS = [
    'a', 'b', 'a b', 'b a', 'a * b', 'a / b', 'b / a', 'a^2', 'a^-1', 'a^1/2', '2',
    '1', '2a', '1/2 a', '3 a / b', '(a b)^2', 'a^2 b^2', 'sqrt(a)', 'a b c', 'c / (a b)',
    'c^-3/2 a', '2 b^-1', '0.25', 'a^0', 'aa', 'a1', '-2a', '8 a^3', 'c^2 / c', '4^1/2',
]
NUMBERS = [2, 0.5, 0.1, 1e-6, 1e20, -3e-7, 2.5e16, 1.6022e-19, 10**25, F(1, 3), -4]
POWERS = [1, 2, -1, 0.5, -1.5, 3, F(1, 3), F(-7, 10)]


def well_formed(result):
    """True if a computed expression is as good as the same one read from text."""
    from eprempy import symbolic
    bases = [t.base for t in result]
    if len(set(bases)) < len(bases):
        return False
    again = symbolic.expression(str(result))
    return again == result and str(again) == str(result) and hash(again) == hash(result)


def check_algebra(cx, x, y):
    from eprempy import symbolic
    case = {'kind': 'algebra', 'x': x, 'y': y}
    a, b = want(x), want(y)
    with cx.case(case):
        cx.step()
        ex, ey = symbolic.expression(x), symbolic.expression(y)
        results = {
            'x * y': (ex * ey, S.mul(a, b)), 'x * text': (ex * y, S.mul(a, b)),
            'text * y': (x * ey, S.mul(a, b)), 'x / y': (ex / ey, S.mul(a, S.power(b, -1))),
            'x / text': (ex / y, S.mul(a, S.power(b, -1))),
            'text / y': (x / ey, S.mul(a, S.power(b, -1))),
            'product': (symbolic.product(x, ey), S.mul(a, b)),
            'ratio': (symbolic.ratio(ex, y), S.mul(a, S.power(b, -1))),
            'list': (symbolic.expression([x, y]), S.mul(a, b)),
            'reduce': (symbolic.expression(symbolic.reduce(ex, ey)), S.mul(a, b)),
        }
        for name, (result, w) in results.items():
            if not (well_formed(result) and close(monomial(result), w)):
                cx.fail(case, f"{name}: {result}, expected {show(w)}")
                return
        same = close(a, b)
        hash(ex)
        for name, answer in (('==', ex == ey), ('== text', ex == y), ('text ==', x == ey),
                             ('!=', not ex != ey), ('equality', symbolic.equality(x, y))):
            cx.require(answer is same, case, f"{name}: {answer}, expected {same}")
        if same and str(ex) == str(ey):
            cx.require(hash(ex) == hash(ey), case, "equal but with different hashes")
        both = ex.difference(ey, split=True)
        cx.require(set.union(*both) == ex.difference(ey, symmetric=True), case,
                   "split and symmetric differences disagree")
        cx.require(ex.difference(y) == both[0], case, "difference with text disagrees")
        # The operands are as they were.
        cx.require(close(monomial(ex), a) and close(monomial(ey), b), case,
                   "an operand changed")
        if y == 'a':
            for p in POWERS:
                if float(a[0]) < 0 and p != int(p):
                    continue
                w = S.power(a, F(p))
                for name, result in (('**', ex ** p), ('power', symbolic.power(x, p))):
                    if not (well_formed(result) and close(monomial(result), w)):
                        cx.fail(case, f"{name} {p}: {result}, expected {show(w)}")
                        return
            for n in NUMBERS:
                c = (F(n), {})
                inverse = S.mul(c, S.power(a, -1))
                for name, result, w in (
                    ('x * n', ex * n, S.mul(a, c)), ('n * x', n * ex, S.mul(a, c)),
                    ('x / n', ex / n, S.mul(a, (1 / F(n), {}))), ('n / x', n / ex, inverse),
                    ('[n, x]', symbolic.expression([n, x]), S.mul(a, c)),
                    ('n', symbolic.expression(n), c),
                    ('term', symbolic.expression([symbolic.term(coefficient=n), x]),
                     S.mul(a, c)),
                ):
                    if not (well_formed(result) and close(monomial(result), w)):
                        cx.fail(case, f"{name}, n = {n!r}: {result}, expected {show(w)}")
                        return
        cx.outcome([show(monomial(ex * ey)), same])


COEFFICIENTS = [1, 2, -3, 0.25, 8, F(1, 3), F(-5, 2)]
BASES = ['1', 'a', 'c1', '_x', '#', 'μ']
EXPONENTS = [1, 2, -1, 0.5, F(-3, 2), F(1, 3)]
NOT_BASES = ['a b', '2a', 'a^2', '(a)', 'a-b', 'a/b', 'a*b', ' a', 'a ', '1 ', 'a1b', '']


def terms():
    for c, b, e in itertools.product(COEFFICIENTS, BASES, EXPONENTS):
        if b != '1' or e == 1:
            yield F(c), b, F(e)


def check_term(cx, c, b, e):
    """One term: how it is made, read, shown, compared, multiplied, evaluated."""
    from eprempy import symbolic
    case = {'kind': 'term', 'term': [str(c), b, str(e)]}
    m = (c, {b: e} if b != '1' else {})

    def one(term):
        return term.coefficient, ({term.base: term.exponent} if term.base != '1' else {})

    def refused(call, error, what):
        try:
            result = call()
        except error:
            return
        cx.fail(case, f"{what} gave {result!r}")

    with cx.case(case):
        cx.step()
        t = symbolic.term(c, b, e)
        made = [t, symbolic.term(coefficient=c, base=b, exponent=e),
                symbolic.term(exponent=e, base=b, coefficient=c)]
        if c == e == 1:
            made.append(symbolic.term(b))
        if e == 1 and b != '1':
            made.append(c * symbolic.term(b))
        for x in made:
            cx.require(close(one(x), m) and x == t and hash(x) == hash(t), case,
                       f"made {x!r}")
        text = str(t)
        cx.require(close(want(text), m), case, f"its text is {text!r}")
        # A grouped coefficient is not the text of a simple term.
        cx.require(t == text or '(' in text, case, f"not equal to its text {text!r}")
        for x in (symbolic.expression([t]), symbolic.expression(text),
                  symbolic.expression(t)):
            cx.require(close(monomial(x), m), case, f"its expression is {x}")
        for other in terms():
            cx.require((symbolic.term(*other) == t) is (other == (c, b, e)), case,
                       f"== {other}")
        for n in (2, -1, 0.5, F(2, 3)):
            for x in (t * n, n * t):
                cx.require(close(one(x), S.mul(m, (F(n), {}))), case, f"times {n}: {x}")
        for p in POWERS:
            if c > 0 or p == int(p):
                x = t ** p
                cx.require(close(one(x), S.power(m, F(p))), case, f"to {p}: {x}")
        cx.require(close(one(t), m) and str(t) == text, case, "it changed")
        if b == '1':
            cx.require(float(t) == float(c) and int(t) == int(c), case,
                       f"cast to {float(t)} and {int(t)}")
            cx.require(t == float(c) and not t == float(c) + 1, case, "== number")
            refused(lambda: t(2), TypeError, "its value at 2")
        else:
            for v in (1, 2, 0.25, 9, F(4, 9)):
                x = t(v)
                right = float(c) * float(v) ** float(e)
                cx.require(x.base == '1' and abs(float(x) - right) <= 1e-9 * abs(right),
                           case, f"at {v}: {x}, expected {right}")
            for cast in (int, float):
                refused(lambda: cast(t), TypeError, f"as {cast.__name__}")
            for v in ('2', None, 2j, [2]):
                refused(lambda: t(v), TypeError, f"its value at {v!r}")
        if c == 1 and e == 1:
            for name in NOT_BASES:
                refused(lambda: symbolic.term(name), ValueError, f"term({name!r})")
                refused(lambda: symbolic.term(2, name, 3), ValueError, f"{name!r}")
                refused(lambda: symbolic.term(base=name), ValueError, f"{name!r}")
            refused(lambda: symbolic.term(2, b), TypeError, "two positions")
            refused(lambda: symbolic.term(b, exponent=2), TypeError, "mixed arguments")
        cx.state([str(c), b, str(e)])
        cx.outcome(show(m))


UPDATES = [{}, {'a': 'b', 'b': 'a'}, {'a': 'x y^-1'}, {'a': 'x^2', 'b': 'x^-1'},
           {'a': '3x', 'b': '1/2 x'}, {'a': 'b', 'c': 'b'}]


def check_update(cx, x):
    """An expression as a sequence of terms, joined, and with updated bases."""
    from eprempy import symbolic
    case = {'kind': 'update', 'x': x}
    a = want(x)
    with cx.case(case):
        cx.step()
        e = symbolic.expression(x)
        parts = list(e)
        n = len(parts)
        cx.require(len(e) == n and bool(e) is (n > 0), case, f"length {len(e)}")
        for i in range(-n - 3, n + 3):
            try:
                part = e[i]
            except IndexError:
                cx.require(not -n <= i < n, case, f"[{i}] is refused")
            else:
                cx.require(-n <= i < n and part == parts[i], case, f"[{i}] is {part}")
            cx.require(list(e[i:]) == parts[i:] and list(e[:i]) == parts[:i], case,
                       f"slices at {i}")
        cx.require(list(reversed(e)) == parts[::-1], case, "reversed")
        for i, part in enumerate(parts):
            cx.require(part in e and e.index(part) == i and e.count(part) == 1, case,
                       f"position of {part}")
        for separator in (' * ', '*', ' '):
            text = e.format(separator=separator)
            cx.require(text.split(separator) == [str(p) for p in parts], case,
                       f"joined by {separator!r}: {text!r}")
            cx.require(close(want(text), a), case, f"joined by {separator!r}: {text!r}")
        cx.require(close(monomial(symbolic.expression(e)), a), case, "copied")
        for update in UPDATES:
            w = (a[0], {})
            for base, exponent in a[1].items():
                new = want(update.get(base, base))
                w = S.mul(w, S.power(new, exponent))
            result = e.apply(lambda base: symbolic.expression(update.get(base, base)))
            if not (well_formed(result) and close(monomial(result), w)):
                cx.fail(case, f"updated by {update}: {result}, expected {show(w)}")
        cx.require(close(monomial(e), a), case, "it changed")
        cx.outcome(show(a))


def check_tokens(cx, text):
    """Alternative tokens only respell the expression."""
    from eprempy import symbolic
    for options in (
        {'multiply': '@'}, {'divide': '|'}, {'opening': '[', 'closing': ']'},
        {'raising': '~'}, {'multiply': '&', 'divide': ';', 'opening': '{',
                           'closing': '}', 'raising': '!'},
    ):
        spelled = text
        plain = {'multiply': '*', 'divide': '/', 'opening': '(', 'closing': ')',
                 'raising': '^'}
        case = {'kind': 'tokens', 'text': text, 'options': options}
        # The '/' of a rational number is not an operator.
        if 'divide' in options and any(c.isdigit() and d == '/' for c, d in
                                       zip(text, text[1:])):
            continue
        for name, token in options.items():
            spelled = spelled.replace(plain[name], token)
        with cx.case(case):
            cx.step()
            w = want(text)
            g = monomial(symbolic.expression(spelled, **options))
            if not close(w, g):
                cx.fail(case, f"{spelled!r} means {show(g)}, expected {show(w)}")
            cx.state([sorted(options), show(w)])


def check_order(cx, ops, grouped):
    """Ambiguous sequences of operators are errors on demand."""
    from eprempy import symbolic
    names = 'abcde'
    level = names[0] + ''.join(f' {op} {n}' for op, n in zip(ops, names[1:]))
    text = level
    if grouped is not None:
        # The sequence is inside of a group next to another operand.
        text = [f'({level})', f'x * ({level})', f'({level})^2', f'x / ({level})',
                f'sqrt({level})'][grouped]
    error = None
    for first, second in zip(ops, ops[1:]):
        if first == '/':
            error = symbolic.RatioError if second == '/' else symbolic.ProductError
            break
    case = {'kind': 'order', 'ops': list(ops), 'grouped': grouped}
    with cx.case(case):
        cx.step()
        try:
            result = symbolic.expression(text, operator_order='error')
        except (symbolic.RatioError, symbolic.ProductError) as err:
            cx.require(type(err) is error, case, f"{text!r}: {type(err).__name__}")
        else:
            cx.require(error is None, case, f"{text!r} gave {result}")
            cx.require(close(monomial(result), want(text)), case, f"{text!r} gave {result}")
        cx.require(close(got(text), want(text)), case, f"{text!r} ignoring order")
        cx.outcome(str(error))


def replay(case, cx):
    kind = case['kind']
    if kind == 'text':
        check_text(cx, case['text'], kind)
    elif kind == 'level':
        check_level(cx, case['text'])
    elif kind == 'algebra':
        check_algebra(cx, case['x'], case['y'])
    elif kind == 'tokens':
        check_tokens(cx, case['text'])
    elif kind == 'term':
        c, b, e = case['term']
        check_term(cx, F(c), b, F(e))
    elif kind == 'update':
        check_update(cx, case['x'])
    else:
        check_order(cx, tuple(case['ops']), case['grouped'])
