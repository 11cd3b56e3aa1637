"""Synthetic EPREM observer files, and the reference physics read from them.

`make` writes a netCDF observer file in the layout EPREM writes (variable
names, dimension names and unit spellings); `Ref` holds the same numbers in SI
and evaluates every documented observable from its textbook formula with plain
numpy.  Nothing here calls eprempy.
"""

import math

import numpy as np

AU = 1.495978707e11
EV = 1.6022e-19
AMU = 1.6605e-27
DAY = 86400.0

UNITS = {
    'phiOffset': ('s', 1.0),
    'time': ('julian date', DAY),
    'shell': ('shell', 1.0),
    'mu': ('cos(mu)', 1.0),
    'mass': ('nucleon', None),
    'charge': ('e-', None),
    'egrid': ('MeV', 1e6 * EV),
    'vgrid': ('km/s', 1e3),
    'R': ('au', AU),
    'T': ('rad', 1.0),
    'P': ('rad', 1.0),
    'Br': ('nT', 1e-9),
    'Bt': ('nT', 1e-9),
    'Bp': ('nT', 1e-9),
    'Vr': ('km/s', 1e3),
    'Vt': ('km/s', 1e3),
    'Vp': ('km/s', 1e3),
    'Rho': ('cm^-3', 1e6),
    'Dist': ('s^3/km^6', 1e-18),
    'flux': ('# / cm^2 s sr MeV', None),
}

DIMS = {
    'phiOffset': ('time',),
    'time': ('time',),
    'shell': ('shell',),
    'mu': ('mu',),
    'mass': ('species',),
    'charge': ('species',),
    'egrid': ('energy',),
    'vgrid': ('energy',),
    'Dist': ('time', 'shell', 'species', 'energy', 'mu'),
    'flux': ('time', 'shell', 'species', 'energy'),
}
for _k in ('R', 'T', 'P', 'Br', 'Bt', 'Bp', 'Vr', 'Vt', 'Vp', 'Rho'):
    DIMS[_k] = ('time', 'shell')

SPECIES = {'H+': (1.0, 1.0), 'He++': (4.0, 2.0), 'He+': (4.0, 1.0)}


def values(nt=4, ns=5, species=('H+',), ne=4, nm=3, which='dist', egrid_ndim=1):
    """Raw numbers of every variable, in file units (deterministic, generic)."""
    t = np.array([0.1 * (i + 1) + 0.01 * i * i for i in range(nt)])
    s = np.arange(ns)
    e = np.array([0.5 * 3.0 ** i for i in range(ne)])
    # A non-uniform pitch-angle grid spanning [-1, 1].
    mu = np.linspace(-1, 1, nm) if nm > 1 else np.array([0.0])
    m = np.array([SPECIES[k][0] for k in species])
    q = np.array([SPECIES[k][1] for k in species])
    T, S = np.meshgrid(np.arange(nt), s, indexing='ij')
    out = {
        'phiOffset': 0.25 * np.arange(nt),
        'time': t, 'shell': s, 'mu': mu, 'mass': m, 'charge': q,
        'egrid': e,
        'vgrid': np.sqrt(2 * e * 1e6 * EV / AMU) * 1e-3,
        'R': 0.1 + 0.2 * S + 0.09 * T + 0.007 * S * S,
        'T': 1.2 + 0.05 * S - 0.03 * T + 0.004 * S * T,
        'P': 0.4 + 0.11 * S + 0.07 * T,
        'Br': 5.0 - 0.7 * S + 0.3 * T,
        'Bt': -1.0 + 0.21 * S * T,
        'Bp': -2.0 + 0.4 * S - 0.13 * T * T,
        'Vr': 400.0 + 13.0 * S - 7.0 * T,
        'Vt': 10.0 - 3.0 * T + 2.0 * S,
        'Vp': -20.0 + 1.5 * S * S + 4.0 * T,
        'Rho': 8.0 / (1 + S) + 0.9 * T - 0.05 * T * T * S,
    }
    if egrid_ndim == 2:
        out['egrid'] = np.repeat(e[None, :], len(species), axis=0)
        out['vgrid'] = np.repeat(out['vgrid'][None, :], len(species), axis=0)
    shape = (nt, ns, len(species), ne, nm)
    i = np.indices(shape).astype(float)
    dist = (
        3.0 + 0.5 * i[0] + 0.31 * i[1] + 0.7 * i[2] + 0.17 * i[4]
        + 0.05 * i[0] * i[1] * (1 + i[4])
    ) * np.exp(-1.1 * i[3]) * (1 + 0.02 * i[3] * i[0])
    if which == 'dist':
        out['Dist'] = dist * 1e-3
    else:
        out['flux'] = dist[..., 0] * 10.0
    return out


def _radial(raw):
    for k in ('Bt', 'Bp', 'Vt', 'Vp'):
        raw[k] = 0 * raw[k]


def _parallel(raw):
    for b, v in (('Br', 'Vr'), ('Bt', 'Vt'), ('Bp', 'Vp')):
        raw[b] = raw[v] * 0.0137


def _antiparallel(raw):
    for b, v in (('Br', 'Vr'), ('Bt', 'Vt'), ('Bp', 'Vp')):
        raw[b] = raw[v] * -0.00731


def _perpendicular(raw):
    raw['Br'], raw['Bt'], raw['Bp'] = -raw['Vt'], 1.0 * raw['Vr'], 0 * raw['Vp']


def _inward(raw):
    raw['Br'] = -raw['Br']
    raw['T'] = raw['T'] + 1.1
    raw['P'] = raw['P'] + 3.3


def _steady(raw):
    for k in ('Rho', 'Vr', 'Vt', 'Vp', 'Br', 'Bt', 'Bp'):
        raw[k] = np.repeat(raw[k][:1], len(raw['time']), axis=0)


def _shifted(raw):
    raw['time'] = raw['time'] - raw['time'][1]
    raw['mu'] = raw['mu'][::-1].copy()
    raw['shell'] = raw['shell'] + 3


PATTERNS = {
    'shifted': _shifted,
    'radial': _radial, 'parallel': _parallel, 'antiparallel': _antiparallel,
    'perpendicular': _perpendicular, 'inward': _inward, 'steady': _steady,
}


def make(path, which='dist', egrid_ndim=1, attr='units', scalars=True,
         units=None, pattern=None, **sizes):
    """Write the observer file; return the raw values.

    units: {variable: (spelling, how many of it make one default unit)}
    pattern: the name of a special arrangement of the fields, from PATTERNS
    """
    import netCDF4
    raw = values(which=which, egrid_ndim=egrid_ndim, **sizes)
    if pattern:
        PATTERNS[pattern](raw)
    units = units or {}
    data = netCDF4.Dataset(str(path), 'w')
    try:
        shape = {
            'time': len(raw['time']), 'shell': len(raw['shell']),
            'species': len(raw['mass']), 'energy': raw['egrid'].shape[-1],
            'mu': len(raw['mu']),
        }
        for k, n in shape.items():
            data.createDimension(k, n)
        for k, v in raw.items():
            dims = DIMS[k]
            if k in ('egrid', 'vgrid') and egrid_ndim == 2:
                dims = ('species', 'energy')
            kind = 'i4' if k == 'shell' else 'f8'
            var = data.createVariable(k, kind, dims)
            spelling, scale = units.get(k, (UNITS[k][0], 1))
            setattr(var, attr, spelling)
            var[:] = v * scale if k in units else v
        if scalars:
            var = data.createVariable('preEruption', 'f8', ())
            setattr(var, attr, 'julian date')
            var[...] = 1.5
    finally:
        data.close()
    return raw


def config(path, **parameters):
    with open(path, 'w') as fp:
        for k, v in parameters.items():
            fp.write(f"{k} = {v}\n")
