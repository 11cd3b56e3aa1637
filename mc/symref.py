"""A reference reading of symbolic expressions: text to monomial.

A monomial is (coefficient, {base: exponent}).  The grammar, from the documentation
of `symbolic.Operand` and `symbolic.Parser`:

    level   := [op] operand (op operand)*     op := '*' | '/' | adjacency
    operand := 'sqrt' operand
             | [number] name ['^' number]     the number multiplies the power
             | number ['^' number]
             | [number] '(' [level] ')' ['^' number]
    number  := [sign] digits '/' digits | [sign] decimal [exponent]

Each operator applies to the operand that follows it, whatever comes before.
"""

from fractions import Fraction as F
import re

NUMBER = re.compile(r'[-+]?(?:\d+/\d+|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)')
NAME = re.compile(r'[a-zA-ZμΩ#_]+\d*')
BLANK = re.compile(r'\s*')


class Malformed(Exception):
    """The text is not a symbolic expression."""


def number(text):
    if '/' in text:
        n, d = text.split('/')
        if int(d) == 0:
            raise Malformed(text)
        return F(int(n), int(d))
    return F(text)


def mul(x, y):
    (c, p), (d, q) = x, y
    out = dict(p)
    for k, v in q.items():
        out[k] = out.get(k, F(0)) + v
    return c * d, {k: v for k, v in out.items() if v}


def power(x, e):
    c, p = x
    if c == 0 and e < 0:
        raise Malformed('division by zero')
    if e == int(e):
        c = c ** int(e)
    else:
        if c < 0:
            raise Malformed('root of a negative number')
        c = float(c) ** float(e)
    return c, {k: v * e for k, v in p.items() if v * e}


class Reader:
    def __init__(self, text):
        self.text, self.pos = text, 0

    def blank(self):
        self.pos = BLANK.match(self.text, self.pos).end()

    def peek(self):
        return self.text[self.pos:self.pos + 1]

    def take(self, pattern):
        m = pattern.match(self.text, self.pos)
        if m:
            self.pos = m.end()
            return m.group()
        return None

    def exponent(self):
        if self.peek() != '^':
            return F(1)
        self.pos += 1
        n = self.take(NUMBER)
        if n is None:
            raise Malformed('exponent')
        return number(n)

    def operand(self):
        if self.text.startswith('sqrt', self.pos):
            self.pos += 4
            self.blank()
            return power(self.operand(), F(1, 2))
        start = self.pos
        n = self.take(NUMBER)
        coefficient = F(1) if n is None else number(n)
        name = self.take(NAME)
        if name:
            return coefficient, {k: v for k, v in ((name, self.exponent()),) if v}
        if self.peek() == '(':
            self.pos += 1
            inside = self.level()
            if self.peek() != ')':
                raise Malformed('closing')
            self.pos += 1
            return mul((coefficient, {}), power(inside, self.exponent()))
        if n is None:
            raise Malformed(f'operand at {start}')
        return power((coefficient, {}), self.exponent())

    def level(self):
        total = (F(1), {})
        count = 0
        while True:
            self.blank()
            c = self.peek()
            if c in ('', ')'):
                if c == '' and not count:
                    raise Malformed('nothing')
                return total
            count += 1
            if c in '*/':
                self.pos += 1
                self.blank()
            this = self.operand()
            total = mul(total, power(this, -1) if c == '/' else this)


def read(text):
    """The monomial that a text means, or Malformed."""
    r = Reader(text)
    out = r.level()
    if r.pos != len(text):
        raise Malformed(text)
    return out
