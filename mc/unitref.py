"""An independent table of units (SI factor, SI dimension), used as oracle.

Nothing here is derived from eprempy: factors are the published ones, except
where a unit is *defined* by the package's own documented rounding (listed in
ROUNDED).  Dimensions are exponents of (L, M, T, I, H, N, J).
"""

from fractions import Fraction as F
import functools
import math
import re

L = (1, 0, 0, 0, 0, 0, 0)
M = (0, 1, 0, 0, 0, 0, 0)
T = (0, 0, 1, 0, 0, 0, 0)
I = (0, 0, 0, 1, 0, 0, 0)
H = (0, 0, 0, 0, 1, 0, 0)
N = (0, 0, 0, 0, 0, 1, 0)
J = (0, 0, 0, 0, 0, 0, 1)
ZERO = (0,) * 7


def dim(**k):
    order = 'LMTIHNJ'
    return tuple(F(k.get(c, 0)) for c in order)


PREFIX = {
    'Y': 1e24, 'Z': 1e21, 'E': 1e18, 'P': 1e15, 'T': 1e12, 'G': 1e9,
    'M': 1e6, 'k': 1e3, 'h': 1e2, 'da': 1e1, '': 1.0, 'd': 1e-1, 'c': 1e-2,
    'm': 1e-3, 'μ': 1e-6, 'u': 1e-6, 'n': 1e-9, 'p': 1e-12, 'f': 1e-15,
    'a': 1e-18, 'z': 1e-21, 'y': 1e-24,
}

# symbol: (factor to SI base units, dimension)
BASE = {
    '1': (1.0, dim()),
    '#': (1.0, dim()),
    'rad': (1.0, dim()),
    'deg': (math.pi / 180, dim()),
    'sr': (1.0, dim()),
    'm': (1.0, dim(L=1)),
    'au': (1.495978707e11, dim(L=1)),
    'Rs': (6.96e8, dim(L=1)),
    'g': (1e-3, dim(M=1)),
    's': (1.0, dim(T=1)),
    'min': (60.0, dim(T=1)),
    'h': (3600.0, dim(T=1)),
    'd': (86400.0, dim(T=1)),
    'A': (1.0, dim(I=1)),
    'K': (1.0, dim(H=1)),
    'mol': (1.0, dim(N=1)),
    'cd': (1.0, dim(J=1)),
    'Hz': (1.0, dim(T=-1)),
    'Bq': (1.0, dim(T=-1)),
    'Ci': (3.7e10, dim(T=-1)),
    'J': (1.0, dim(L=2, M=1, T=-2)),
    'erg': (1e-7, dim(L=2, M=1, T=-2)),
    'eV': (1.6022e-19, dim(L=2, M=1, T=-2)),
    'N': (1.0, dim(L=1, M=1, T=-2)),
    'dyn': (1e-5, dim(L=1, M=1, T=-2)),
    'Pa': (1.0, dim(L=-1, M=1, T=-2)),
    'W': (1.0, dim(L=2, M=1, T=-3)),
    'C': (1.0, dim(I=1, T=1)),
    'e': (1.6022e-19, dim(I=1, T=1)),
    'V': (1.0, dim(L=2, M=1, T=-3, I=-1)),
    'Ω': (1.0, dim(L=2, M=1, T=-3, I=-2)),
    'S': (1.0, dim(L=-2, M=-1, T=3, I=2)),
    'F': (1.0, dim(L=-2, M=-1, T=4, I=2)),
    'Wb': (1.0, dim(L=2, M=1, T=-2, I=-1)),
    'H': (1.0, dim(L=2, M=1, T=-2, I=-2)),
    'T': (1.0, dim(M=1, T=-2, I=-1)),
    'lm': (1.0, dim(J=1)),
    'lx': (1.0, dim(J=1, L=-2)),
    'Gy': (1.0, dim(L=2, T=-2)),
    'P': (0.1, dim(L=-1, M=1, T=-1)),
    'nuc': (1.6605e-27, dim(M=1)),
    'amu': (1.6605e-27, dim(M=1)),
    # Gaussian electromagnetic units, by correspondence with SI.
    'G': (1e-4, dim(M=1, T=-2, I=-1)),
    'Mx': (1e-8, dim(L=2, M=1, T=-2, I=-1)),
    'Oe': (1e3 / (4 * math.pi), dim(L=-1, I=1)),
    'statC': (10 / 2.99792458e10, dim(I=1, T=1)),
    'statA': (10 / 2.99792458e10, dim(I=1)),
    'statV': (299.792458, dim(L=2, M=1, T=-3, I=-1)),
}

NAMES = {
    'm': 'meter', 'au': 'astronomical unit', 'g': 'gram', 's': 'second',
    'min': 'minute', 'h': 'hour', 'd': 'day', 'J': 'joule', 'erg': 'erg',
    'eV': 'electronvolt', 'N': 'newton', 'dyn': 'dyne', 'Pa': 'pascal',
    'W': 'watt', 'T': 'tesla', 'G': 'gauss', 'C': 'coulomb', 'V': 'volt',
    'K': 'kelvin', 'A': 'ampere', 'Hz': 'hertz',
}


def symbol(s):
    """Factor and dimension of one (possibly prefixed) unit symbol."""
    if s in BASE:
        return BASE[s]
    for n in (2, 1):
        p, b = s[:n], s[n:]
        if p in PREFIX and b in BASE and p:
            f, d = BASE[b]
            return PREFIX[p] * f, d
    raise KeyError(s)


_TERM = re.compile(r'^(.+?)(?:\^(-?[0-9./]+))?$')


def canonical(text):
    return _canonical(str(text))


@functools.lru_cache(maxsize=4096)
def _canonical(text):
    """Factor and dimension of a canonical string such as 'kg m^2 s^-2'."""
    factor, dims = 1.0, [F(0)] * 7
    for part in str(text).split():
        m = _TERM.match(part)
        base, e = m.group(1), F(m.group(2) or 1)
        if re.fullmatch(r'[0-9.][0-9.e+-]*', base) and base != '1':
            factor *= float(base) ** float(e)
            continue
        f, d = symbol(base)
        factor *= f ** float(e)
        dims = [x + e * y for x, y in zip(dims, d)]
    return factor, tuple(dims)


def expr(terms):
    """Factor and dimension of [(symbol, exponent), ...]."""
    factor, dims = 1.0, [F(0)] * 7
    for s, e in terms:
        f, d = symbol(s)
        factor *= f ** float(e)
        dims = [x + F(e) * y for x, y in zip(dims, d)]
    return factor, tuple(dims)


def close(a, b, rtol=1e-9):
    if a == b:
        return True
    return abs(a - b) <= rtol * max(abs(a), abs(b))
