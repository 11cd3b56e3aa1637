"""C15: what an observable reports does not depend on how the file is written.

Every observable of synthetic observer files over every deviation (quick), or
every pair of deviations (thorough), from a base file: sizes of each dimension,
species, one- or two-dimensional energy grids, flux or distribution output,
spelling and unit of every variable, metric system, run parameters, and special
arrangements of the fields.  The same documented formula, in SI, must result.
"""

import itertools
import pathlib
import tempfile
import warnings

import numpy as np

from .. import eprem_data as D
from .. import eprem_ref as R
from . import c14

ID = 'C15'
LEVEL = 'model_checking'
RULE = (
    "every file and configuration with at most `deviations` deviations from "
    "the base x both metric systems x every observable x its request forms; "
    "non-trivial: distinct results"
)
BOUNDS = {'quick': {'deviations': 1}, 'thorough': {'deviations': 2}}
ASSUMPTIONS = list(c14.ASSUMPTIONS) + [
    "energy grids with a species dimension describe a single species",
]

BASE = {
    'which': 'dist', 'system': 'mks', 'nt': 3, 'ns': 4, 'ne': 4, 'nm': 3,
    'species': ('H+',), 'egrid_ndim': 1, 'attr': 'units', 'pattern': None,
}

RAD = 57.29577951308232
SPELLINGS = {
    'R': [('cm', D.AU * 100), ('km', D.AU / 1e3), ('m', D.AU),
          ('Gm', D.AU / 1e9)],
    'time': [('day', 1), ('s', 86400.0), ('h', 24.0), ('min', 1440.0)],
    'T': [('deg', RAD)],
    'P': [('deg', RAD), ('mrad', 1e3)],
    'Vr': [('km s^-1', 1), ('cm/s', 1e5), ('m / s', 1e3)],
    'Vp': [('Mm/h', 3.6)],
    'Br': [('G', 1e-5), ('T', 1e-9), ('gauss', 1e-5), ('uT', 1e-3)],
    'Bt': [('mG', 1e-2)],
    'Rho': [('m^-3', 1e6), ('1/cm^3', 1), ('km^-3', 1e15)],
    'Dist': [('s^3/cm^6', 1e-30), ('s^3 m^-6', 1e-18), ('ms^3/km^6', 1e9)],
    'flux': [('# / (cm^2 s sr MeV)', 1), ('cm^-2 s^-1 sr^-1 MeV^-1', 1),
             ('# / (m^2 s sr keV)', 10.0)],
    'egrid': [('keV', 1e3), ('J', 1e6 * D.EV), ('erg', 1e13 * D.EV)],
    'vgrid': [('m/s', 1e3), ('cm / s', 1e5)],
    'mass': [('nuc', 1), ('amu', 1), ('kg', D.AMU), ('g', D.AMU * 1e3)],
    'charge': [('e', 1), ('C', D.EV)],
    'mu': [('1', 1)],
}

DEVIATIONS = (
    [('which', 'flux'), ('system', 'cgs'), ('egrid_ndim', 2), ('attr', 'unit')]
    + [('nt', n) for n in (1, 2, 5)] + [('ns', n) for n in (1, 2, 6)]
    + [('ne', n) for n in (1, 2, 3, 7)] + [('nm', n) for n in (1, 2, 8)]
    + [('species', s) for s in (('He++',), ('H+', 'He++'), ('He+', 'H+'))]
    + [('pattern', p) for p in sorted(D.PATTERNS)]
    + [('unit', k, i) for k, v in SPELLINGS.items() for i in range(len(v))]
    + [('parameter', k, v) for k, v in (
        ('lamo', 0.5), ('lamo', 2.0), ('mfpRadialPower', 0.0),
        ('mfpRadialPower', 1.5), ('rigidityPower', 1.0),
        ('rigidityPower', 0.0), ('kperxkpar', 0.0), ('kperxkpar', 1.0),
    )]
)
PARAMETERS = {'lamo': 'lambda0', 'kperxkpar': 'kper_kpar'}


def build(devs):
    """The file, parameter and system settings of some deviations, or None."""
    out = {**BASE, 'units': {}, 'parameters': {}}
    seen = set()
    for kind, *v in devs:
        key = (kind, v[0]) if kind in ('unit', 'parameter') else kind
        if key in seen:
            return None
        seen.add(key)
        if kind == 'unit':
            out['units'][v[0]] = SPELLINGS[v[0]][v[1]]
        elif kind == 'parameter':
            out['parameters'][v[0]] = v[1]
        else:
            out[kind] = tuple(v[0]) if kind == 'species' else v[0]
    if out['egrid_ndim'] == 2 and len(out['species']) > 1:
        return None
    absent = 'flux' if out['which'] == 'dist' else 'Dist'
    if absent in out['units']:
        return None
    return out


def space(tier):
    for n in range(BOUNDS[tier]['deviations'] + 1):
        for devs in itertools.combinations(DEVIATIONS, n):
            # Spellings of two variables cannot interact beyond the formulas
            # that combine them, which the metric systems already exercise.
            if all(d[0] == 'unit' for d in devs) and len(devs) > 1:
                continue
            for extra in ([], [('system', 'cgs')]):
                if extra and (n > 1 or ('system', 'cgs') in devs):
                    continue
                every = [*devs, *extra]
                if build(every) is not None:
                    yield every
    # Unit spellings only matter to a flux file when it holds fluxes.
    for i in range(len(SPELLINGS['flux'])):
        for extra in ([], [('system', 'cgs')]):
            if BOUNDS[tier]['deviations'] == 1:
                yield [('which', 'flux'), ('unit', 'flux', i), *extra]
    # Every variable in another spelling at once: no spelling of one variable
    # may settle how another is read.
    for which, absent in (('dist', 'flux'), ('flux', 'Dist')):
        for i in range(max(map(len, SPELLINGS.values()))):
            every = [('unit', k, i % len(v)) for k, v in SPELLINGS.items()
                     if k != absent]
            for extra in ([], [('system', 'cgs')]):
                yield [*([('which', which)] if which == 'flux' else []),
                       *every, *extra]


def shards(tier):
    n = len(list(space(tier)))
    size = 2 if tier == 'quick' else 24
    return [{'from': i, 'to': min(i + size, n), 'tier': tier}
            for i in range(0, n, size)]


def requests(name, s):
    """(index, selection, minimum energies) of each observed form."""
    dims = R.TABLE[name][0]
    whole = [slice(None) for _ in dims]
    out = []
    emins = [None]
    raw = s['raw']
    # A radius between the innermost and the outermost shell at all times.
    inner, outer = raw['R'][:, 0].max(), raw['R'][:, -1].min()
    radius = 0.43 if inner < 0.43 < outer else (inner + outer) / 2
    e = raw['egrid'].ravel()
    if name == 'intflux':
        emins = ([[e[0] * 1.3], [e[0] * 0.1, e[-2] * 1.1]] if len(e) > 1
                 else [[e[0] * 0.1]])
    for emin in emins:
        index = list(whole)
        if emin:
            index[-1] = (*emin, 'MeV')
        out.append((index, {}))
        for d, k, sel in (
            ('time', (raw['time'][:2].mean(), 'day'),
             ['val', [raw['time'][:2].mean() * D.DAY]]),
            ('energy', (e[:2].mean(), 'MeV'), ['val', [e[:2].mean() * 1e6 * D.EV]]),
            ('shell', [-1], ['idx', [s['ns'] - 1]]),
            ('shell', (radius, 'au'), ['rad', [radius * D.AU]]),
        ):
            if d not in dims:
                continue
            if sel[0] == 'val' and s['n' + d[0]] == 1:
                continue
            if sel[0] == 'rad' and (s['ns'] < 4 or inner >= outer):
                continue
            changed = list(index)
            changed[dims.index(d)] = k
            out.append((changed, {d: sel}))
    emins = [x for x in emins for _ in range(len(out) // len(emins))]
    return [
        (tuple(i) if len(i) > 1 else i[0], sel,
         None if m is None else [x * 1e6 * D.EV for x in m])
        for (i, sel), m in zip(out, emins)
    ]


def undefined(name, s):
    """Whether the file is too small for the observable."""
    if name == 'divu' and s['nt'] < 2:
        return True
    if name in ('energy_density', 'average_energy') and s['ne'] < 2:
        return True
    if name == 'f' and s['which'] == 'flux':
        return True
    return name == 'ar' and s['pattern'] in ('perpendicular',) and False


def run_shard(shard, cx):
    cases = itertools.islice(space(shard['tier']), shard['from'], shard['to'])
    for devs in cases:
        observe_all(devs, cx, shard['tier'])


def scale(name, model):
    """The magnitude against which rounding of a result is measured."""
    if name in ('uperp', 'upara', 'ur', 'utheta', 'uphi'):
        return np.max(model.observe('umag'))
    if name in ('br', 'btheta', 'bphi'):
        return np.max(model.observe('bmag'))
    if name == 'udotb':
        return np.max(model.observe('ubmag'))
    if name in ('angle', 'theta', 'phi'):
        return 1.0
    if name in ('x', 'y', 'z'):
        return np.max(model.observe('r'))
    if name == 'divu':
        return 1e-3 / np.min(np.diff(model.time))
    if name == 'ar':
        return 1e-3 * np.max(model.observe('umag')) ** 2 / np.min(
            np.abs(model.observe('mfp')))
    return 0.0


def observe_all(devs, cx, tier, only=None):
    warnings.simplefilter('ignore')
    from eprempy import observable
    s = build(devs)
    with tempfile.TemporaryDirectory(prefix='c15-') as tmp:
        tmp = pathlib.Path(tmp)
        raw = s['raw'] = D.make(
            tmp / 'obs000000.nc',
            **{k: s[k] for k in ('which', 'nt', 'ns', 'ne', 'nm', 'species',
                                 'egrid_ndim', 'attr', 'units', 'pattern')})
        D.config(tmp / 'eprem.cfg', **s['parameters'])
        model = R.Model(raw, **{
            PARAMETERS.get(k, k): v for k, v in s['parameters'].items()})
        quantities = observable.quantities(
            tmp / 'obs000000.nc', tmp / 'eprem.cfg', s['system'])
        for name in R.TABLE:
            if only and name != only[0] or undefined(name, s):
                continue
            for number, (index, sel, emin) in enumerate(requests(name, s)):
                if only and number != only[1]:
                    continue
                # Partial requests are equally exhaustive in mks, and those of
                # two deviations are the whole and the interpolated ones.
                if number and s['system'] == 'cgs' and tier == 'quick':
                    continue
                if number and len(devs) > 1 and not any(
                    v[0] == 'rad' for v in sel.values()
                ):
                    continue
                case = {'deviations': devs, 'name': name, 'request': number,
                        'index': repr(index)}
                with cx.case(case):
                    cx.step()
                    check(cx, case, quantities, model, name, index, sel, emin, s)


def check(cx, case, quantities, model, name, index, sel, emin, s):
    dims, dim = R.TABLE[name]
    want = np.asarray(model.observe(name, sel, emin), float)
    if np.isnan(want).any():
        return
    quantity = quantities[name]
    got = quantity[index]
    cx.require(
        str(got.unit) == str(quantity.unit), case,
        f"observed in {got.unit}, announced in {quantity.unit}")
    cx.require(
        len(quantity.dimensions) == want.ndim, case,
        f"announced dimensions {quantity.dimensions}")
    message = c14.compare(
        got, want, c14.expected_axes(model, name, sel, emin, dims), dim,
        species=s['species'], floor=1e-6 * scale(name, model))
    if message:
        cx.fail(case, message)
        return
    cx.state([name, want.round(12).tolist()])
    cx.outcome([name, want.shape])


def replay(case, cx):
    observe_all([tuple(d) for d in case['deviations']], cx, 'thorough',
                only=(case['name'], case['request']))
