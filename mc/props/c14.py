"""C14: subscripting an observable selects, or interpolates to, what was asked.

Every observable of a synthetic observer file under every combination of index
forms on up to two (thorough: three) of its dimensions at once -- positions,
slices, lists, coordinates on and off the grid in several units, radii, chemical
symbols -- against plain numpy selection and linear interpolation of the file's
numbers, including the labels of every axis of the result.
"""

import itertools
import pathlib
import tempfile
import warnings

import numpy as np

from .. import eprem_data as D
from .. import eprem_ref as R
from .. import unitref as U

ID = 'C14'
LEVEL = 'model_checking'
RULE = (
    "every observable x every combination of index forms on at most `all` of "
    "its dimensions, and of the core forms on at most `core` of them (others "
    "whole); non-trivial: distinct result values"
)
BOUNDS = {
    # 'shifted': times on both sides of 0, decreasing pitch-angle cosines, shells from 3
    'quick': {'all': 1, 'core': 2, 'datasets': ['dist/mks'],
              'single': ['flux/cgs', 'dist/mks/shifted']},
    'thorough': {'all': 2, 'core': 3, 'datasets': ['dist/mks', 'flux/cgs'],
                 'single': ['dist/cgs', 'flux/mks', 'dist/mks/shifted', 'flux/cgs/shifted']},
}
ASSUMPTIONS = [
    "observer files have EPREM's variables, dimensions and unit spellings",
    "r increases with shell at every time",
]

SPECIES = ('H+', 'He++')
SIZES = {'nt': 4, 'ns': 5, 'species': SPECIES, 'ne': 4, 'nm': 3}
DAY, AU, MEV = D.DAY, D.AU, 1e6 * D.EV
BAD = 'refuse'


def options(raw):
    """Index forms per dimension: (encoded index, selection), [0] the default."""
    t, e, mu, r = raw['time'], raw['egrid'], raw['mu'], raw['R']
    tm = [(t[0] + t[1]) / 2, t[2] + 0.03, (t[2] + t[3]) / 2]
    em = [e[0] * 1.7, e[1] * 1.3, e[2] * 2.1]
    rr = [0.52, 0.71, float(r[1, 2])]
    s = 'slice'
    val = lambda f, *v: ['val', [x * f for x in v]]
    out = lambda f, *v: ['outside', [x * f for x in v]]
    return {
        'time': [
            ([s, None, None, None], ['all']),
            (1, ['idx', [1]]),
            (-1, ['idx', [3]]),
            (['list', 2, 0], ['idx', [2, 0]]),
            ([s, 1, 3, None], ['idx', [1, 2]]),
            ([s, -3, None, 2], ['idx', [1, 3]]),
            ([s, 2, 2, None], ['idx', []]),
            (['tuple', t[2], 'day'], ['idx', [2]]),
            (['tuple', t[3] * 24, t[0] * 24, 'h'], ['idx', [3, 0]]),
            (['tuple', tm[0], 'day'], val(DAY, tm[0])),
            (['tuple', tm[1] * 24, tm[0] * 24, 'h'], val(DAY, tm[1], tm[0])),
            (['tuple', t[1], tm[2], 'day'], val(DAY, t[1], tm[2])),
            (['tuple', t[0], tm[0], t[3], 'day'], val(DAY, t[0], tm[0], t[3])),
            (['array', 0, 2], ['idx', [0, 2]]),
            (4, BAD), (-5, BAD), (['tuple', t[3] * 1.5, 'day'], out(DAY, t[3] * 1.5)),
            (['tuple', 1.0, 'm'], BAD), ('H+', BAD),
        ],
        'shell': [
            ([s, None, None, None], ['all']),
            (2, ['idx', [2]]),
            (0, ['idx', [0]]),
            (-2, ['idx', [3]]),
            (['list', 3, 1], ['idx', [3, 1]]),
            ([s, 1, 4, None], ['idx', [1, 2, 3]]),
            ([s, None, -3, None], ['idx', [0, 1]]),
            ([s, 3, 1, None], ['idx', []]),
            (['tuple', rr[0], 'au'], ['rad', [rr[0] * AU]]),
            (['tuple', rr[1] * AU / 1e9, rr[0] * AU / 1e9, 'Gm'],
             ['rad', [rr[1] * AU, rr[0] * AU]]),
            (['tuple', rr[2], 'au'], ['rad', [rr[2] * AU]]),
            (['array', 0, 3], ['idx', [0, 3]]),
            (7, BAD), (['tuple', 99.0, 'au'], BAD), (['tuple', 1.0, 's'], BAD),
            (['tuple', 0.05, 'au'], BAD),
        ],
        'species': [
            ([s, None, None, None], ['all']),
            (1, ['idx', [1]]),
            ('He++', ['idx', [1]]),
            ([s, 0, 1, None], ['idx', [0]]),
            (['list', 1, 0], ['idx', [1, 0]]),
            (['list', 'He++', 'H+'], ['idx', [1, 0]]),
            ('Xe', BAD), (2, BAD), (['tuple', 1.0, 'm'], BAD),
        ],
        'energy': [
            ([s, None, None, None], ['all']),
            (1, ['idx', [1]]),
            (-1, ['idx', [3]]),
            (['list', 3, 0], ['idx', [3, 0]]),
            ([s, 1, 3, None], ['idx', [1, 2]]),
            (['tuple', e[1], 'MeV'], ['idx', [1]]),
            (['tuple', e[2] * 1e3, e[0] * 1e3, 'keV'], ['idx', [2, 0]]),
            (['tuple', em[1], 'MeV'], val(MEV, em[1])),
            (['tuple', em[2], em[0], 'MeV'], val(MEV, em[2], em[0])),
            (['tuple', e[0], em[1], 'MeV'], val(MEV, e[0], em[1])),
            (9, BAD), (['tuple', 1e5, 'MeV'], out(MEV, 1e5)), (['tuple', 1.0, 's'], BAD),
        ],
        'mu': [
            ([s, None, None, None], ['all']),
            (1, ['idx', [1]]),
            (-1, ['idx', [2]]),
            (['list', 2, 0], ['idx', [2, 0]]),
            ([s, 1, None, None], ['idx', [1, 2]]),
            (['tuple', mu[1], '1'], ['idx', [1]]),
            (['tuple', mu[1] + 0.25, '1'], val(1, mu[1] + 0.25)),
            (['tuple', -0.5, 0.25, '1'], val(1, -0.5, 0.25)),
            (['tuple', mu[0], 0.375, mu[1], '1'], val(1, mu[0], 0.375, mu[1])),
            (5, BAD), (['tuple', 1.5, '1'], out(1, 1.5)), (['tuple', 0.5, 'm'], BAD),
        ],
        'minimum energy': [
            (['tuple', e[0] * 2, 'MeV'], [e[0] * 2 * MEV]),
            (['tuple', e[1], 'MeV'], [e[1] * MEV]),
            (['tuple', e[0] * 500, e[1] * 1500, 'keV'],
             [e[0] * 0.5 * MEV, e[1] * 1.5 * MEV]),
            (['list', e[2], e[0] * 1.1, 'MeV'], [e[2] * MEV, e[0] * 1.1 * MEV]),
            (['tuple', 1.0, 'm'], BAD),
            # no minimum energy: the running integral from the lowest energy
            ([s, None, None, None], 'running'),
        ],
    }


POINTWISE = ('time', 'energy', 'v', 'mu', 'rigidity', 'mfp')


def is_bad(pick):
    return pick[1] == BAD or pick[1][0] == 'outside'


def decode(x):
    if isinstance(x, list):
        kind, *v = x
        return {
            'slice': lambda: slice(*v), 'list': lambda: list(v),
            'tuple': lambda: tuple(v), 'array': lambda: np.array(v),
        }[kind]()
    return x


def names():
    return [n for n in R.TABLE]


CORE = {
    'time': (2, 3, 4, 8, 10, 12), 'shell': (3, 4, 5, 9, 10),
    'species': (2, 4), 'energy': (3, 4, 6, 8, 9), 'mu': (3, 4, 6, 7),
    'minimum energy': (1, 2, 3),
}
"""Numbers of the index forms that combine on the most dimensions."""


def shards(tier):
    b = BOUNDS[tier]
    out = []
    for ds in b['datasets']:
        for n in names():
            many = len(R.TABLE[n][0]) >= 3
            parts = 1
            if many:
                parts = 2 if tier == 'quick' else 12
            if n == 'ar':
                parts *= 2
            for k in range(parts):
                out.append({'ds': ds, 'name': n, 'order': [b['all'], b['core']],
                            'part': [k, parts]})
    for ds in b['single']:
        for n in names():
            out.append({'ds': ds, 'name': n, 'order': [1, 1], 'part': [0, 1]})
    out.sort(key=lambda s: -len(R.TABLE[s['name']][0]) * s['order'][1])
    return out


def combos(dims, opts, order):
    """Option numbers per dimension: `order` bounds the non-default ones."""
    full, core = order
    for k in range(core + 1):
        for which in itertools.combinations(range(len(dims)), k):
            forms = [
                range(1, len(opts[dims[i]])) if k <= full else CORE[dims[i]]
                for i in which
            ]
            for picks in itertools.product(*forms):
                c = [0] * len(dims)
                for i, p in zip(which, picks):
                    c[i] = p
                yield c


def expected_axes(model, name, sel, emin, dims):
    out = []
    for d in dims:
        s = sel.get(d, ['all'])
        if d == 'minimum energy' and isinstance(emin, str):
            out.append(('energy', list(model.labels['energy'])))
        elif d == 'minimum energy':
            out.append((d, emin))
        elif s[0] == 'rad':
            out.append(('radius', s[1]))
        elif s[0] == 'all':
            out.append((d, list(model.labels[d])))
        elif s[0] == 'idx':
            out.append((d, [model.labels[d][i] for i in s[1]]))
        else:
            out.append((d, s[1]))
    return out


def compare(got, want, axes, dim, species=SPECIES, floor=0):
    """Explain the difference between a result and its reference, or None."""
    factor, gd = U.canonical(got.unit)
    if [float(a - b) for a, b in zip(gd, dim)] == [-0.5, -0.5, 1, 1]:
        # A Gaussian magnetic field: 1 G = 1 g^1/2 cm^-1/2 s^-1 is 1e-4 T.
        factor, gd = float(factor) * 1e-4 / 0.1**0.5, (*dim, *gd[4:])
    if tuple(gd[:4]) != tuple(dim) or any(gd[4:]):
        return f"unit {got.unit}"
    if tuple(got.dimensions) != tuple(n for n, _ in axes):
        return f"dimensions {tuple(got.dimensions)}, expected {tuple(n for n, _ in axes)}"
    data = np.array(got, float) * factor
    if data.shape != want.shape or tuple(got.shape) != want.shape:
        return f"shape {tuple(got.shape)} (data {data.shape}), expected {want.shape}"
    scale = np.max(abs(want)) if want.size else 0
    if not np.allclose(data, want, rtol=RTOL, atol=scale * 1e-9 + floor):
        return f"values {data.ravel()[:6].tolist()}.., expected {want.ravel()[:6].tolist()}.."
    for n, labels in axes:
        axis = got.axes[n]
        if n == 'species':
            ok = list(axis) == [species[i] for i in labels]
        else:
            f = U.canonical(axis.unit)[0] if hasattr(axis, 'unit') else 1.0
            a = np.array(axis, float) * f
            ok = a.shape == np.shape(labels) and np.allclose(
                a, np.array(labels, float), rtol=1e-6, atol=1e-12)
        if not ok:
            return f"axis {n!r} labels {axis}, expected {labels}"
    return None


RTOL = 3e-4
"""The package's documented physical constants have four or five digits."""


def run_shard(shard, cx):
    warnings.simplefilter('ignore')
    from eprempy import observable
    which, system, *pattern = shard['ds'].split('/')
    name = shard['name']
    if name == 'f' and which == 'flux':
        return
    with tempfile.TemporaryDirectory(prefix='c14-') as tmp:
        tmp = pathlib.Path(tmp)
        raw = D.make(tmp / 'obs000000.nc', which, pattern=''.join(pattern), **SIZES)
        D.config(tmp / 'eprem.cfg')
        model = R.Model(raw)
        opts = options(raw)
        dims, dim = R.TABLE[name]
        here = [d for d in dims]
        quantities = observable.quantities(
            tmp / 'obs000000.nc', tmp / 'eprem.cfg', system)
        k, n = shard['part']
        for i, c in enumerate(combos(here, opts, shard['order'])):
            if i % n != k:
                continue
            picks = [opts[d][j] for d, j in zip(here, c)]
            bad = [d for d, p in zip(here, picks) if is_bad(p)]
            if len(bad) > 1:
                continue
            args = [p[0] for p in picks]
            case = {'ds': shard['ds'], 'name': name, 'index': args}
            with cx.case(case):
                check(cx, case, quantities, model, name, here, dim, picks, bad)


def check(cx, case, quantities, model, name, dims, dim, picks, bad):
    index = tuple(decode(p[0]) for p in picks)
    index = index if len(index) > 1 else index[0]
    cx.step()
    if bad:
        try:
            got = quantities[name][index]
        except (ValueError, TypeError, IndexError, KeyError, LookupError,
                ArithmeticError) as err:
            cx.outcome(['refused', type(err).__name__, bad])
            return
        except Exception as err:
            cx.outcome(['refused', type(err).__name__, bad])
            return
        if name in POINTWISE and all(is_bad(p) != 'refuse' for p in picks):
            # A function of the coordinate alone may be evaluated anywhere.
            picks = [
                (p[0], ['val', p[1][1]]) if is_bad(p) else p for p in picks
            ]
            return good(cx, case, got, model, name, dims, dim, picks)
        cx.fail(case, f"an invalid {bad[0]} index gave {got.shape} values")
        return
    sel, emin = selection(dims, picks)
    want = np.asarray(model.observe(name, sel, emin), float)
    if np.isnan(want).any():
        # The radius lies outside the observer's range at some time.
        try:
            quantities[name][index]
        except ValueError:
            cx.outcome('outside')
            return
        cx.fail(case, "a radius outside the observer's range was accepted")
        return
    good(cx, case, quantities[name][index], model, name, dims, dim, picks)


def selection(dims, picks):
    sel = {d: p[1] for d, p in zip(dims, picks) if d != 'minimum energy'}
    return sel, picks[-1][1] if dims[-1] == 'minimum energy' else None


def good(cx, case, got, model, name, dims, dim, picks):
    sel, emin = selection(dims, picks)
    want = np.asarray(model.observe(name, sel, emin), float)
    if message := compare(got, want, expected_axes(
            model, name, sel, emin, dims), dim):
        cx.fail(case, message)
        return
    cx.state([case['name'], want.round(9).tolist()])
    cx.outcome([case['name'], want.shape])


def replay(case, cx):
    dims = R.TABLE[case['name']][0]
    found = []
    with tempfile.TemporaryDirectory(prefix='c14-') as tmp:
        from eprempy import observable
        tmp = pathlib.Path(tmp)
        which, system, *pattern = case['ds'].split('/')
        raw = D.make(tmp / 'obs000000.nc', which, pattern=''.join(pattern), **SIZES)
        D.config(tmp / 'eprem.cfg')
        opts = options(raw)
        model = R.Model(raw)
        quantities = observable.quantities(
            tmp / 'obs000000.nc', tmp / 'eprem.cfg', system)
        for d, a in zip(dims, case['index']):
            found.append(next(o for o in opts[d] if repr(o[0]) == repr(a)))
        bad = [d for d, p in zip(dims, found) if is_bad(p)]
        with cx.case(case):
            check(cx, case, quantities, model, case['name'], dims,
                  R.TABLE[case['name']][1], found, bad)
