"""Reference physics of an EPREM observer, in SI, with plain numpy.

`Model(raw, parameters)` evaluates every documented observable for a selection
of each axis.  A selection is one of

    ('all',)            the whole axis
    ('idx', [i, ...])   positions (negative positions count from the end)
    ('val', [v, ...])   coordinate values in SI; the result is interpolated
                        linearly along that axis unless every one is a grid
                        point
    ('rad', [v, ...])   radii in metres in place of 'shell': linear
                        interpolation over r(time, shell), time by time

Intermediate quantities are selected (or interpolated) before a derived
quantity is formed from them, except for the quantities that need a whole axis
(a derivative or an integral over it), which are formed first.
"""

import numpy as np

from . import eprem_data as D

C_LIGHT = 2.99792458e8
M_PROTON = 1.6726e-27
E_CHARGE = 1.6022e-19

AXES = ('time', 'shell', 'species', 'energy', 'mu')

TS = ('time', 'shell')
TSPE = ('time', 'shell', 'species', 'energy')

# observable: (dimensions, exponents of (L, M, T, I))
TABLE = {
    'time': (('time',), (0, 0, 1, 0)),
    'energy': (('energy',), (2, 1, -2, 0)),
    'v': (('energy',), (1, 0, -1, 0)),
    'mu': (('mu',), (0, 0, 0, 0)),
    'mass': (('species',), (0, 1, 0, 0)),
    'charge': (('species',), (0, 0, 1, 1)),
    'r': (TS, (1, 0, 0, 0)),
    'theta': (TS, (0, 0, 0, 0)),
    'phi': (TS, (0, 0, 0, 0)),
    'br': (TS, (0, 1, -2, -1)),
    'btheta': (TS, (0, 1, -2, -1)),
    'bphi': (TS, (0, 1, -2, -1)),
    'ur': (TS, (1, 0, -1, 0)),
    'utheta': (TS, (1, 0, -1, 0)),
    'uphi': (TS, (1, 0, -1, 0)),
    'rho': (TS, (-3, 0, 0, 0)),
    'f': (AXES, (-6, 0, 3, 0)),
    'x': (TS, (1, 0, 0, 0)),
    'y': (TS, (1, 0, 0, 0)),
    'z': (TS, (1, 0, 0, 0)),
    'bmag': (TS, (0, 1, -2, -1)),
    'umag': (TS, (1, 0, -1, 0)),
    'ubmag': (TS, (1, 1, -3, -1)),
    'udotb': (TS, (1, 1, -3, -1)),
    'angle': (TS, (0, 0, 0, 0)),
    'upara': (TS, (1, 0, -1, 0)),
    'uperp': (TS, (1, 0, -1, 0)),
    'divu': (TS, (0, 0, -1, 0)),
    'rigidity': (('species', 'energy'), (1, 1, -2, -1)),
    'mfp': (TSPE, (1, 0, 0, 0)),
    'ar': (TSPE, (0, 0, -1, 0)),
    'energy_density': (('time', 'shell', 'species'), (-1, 1, -2, 0)),
    'average_energy': (('time', 'shell', 'species'), (2, 1, -2, 0)),
    'flux': (TSPE, (-4, -1, 1, 0)),
    'fluence': (TSPE, (-4, -1, 2, 0)),
    'intflux': (('time', 'shell', 'species', 'minimum energy'),
                (-2, 0, -1, 0)),
}

PRIMARY = {
    'r': 'R', 'theta': 'T', 'phi': 'P', 'br': 'Br', 'btheta': 'Bt',
    'bphi': 'Bp', 'ur': 'Vr', 'utheta': 'Vt', 'uphi': 'Vp', 'rho': 'Rho',
}

DEFAULTS = {
    'lambda0': 1.0, 'mfpRadialPower': 2.0, 'rigidityPower': 1.0 / 3.0,
    'kper_kpar': 0.01,
}


class Model:
    def __init__(self, raw, **parameters):
        self.raw = raw
        self.par = {**DEFAULTS, **parameters}
        f = {k: u[1] for k, u in D.UNITS.items()}
        self.time = raw['time'] * f['time']
        self.mu = np.array(raw['mu'], float)
        self.energy = np.atleast_2d(raw['egrid'])[0] * f['egrid']
        self.v = np.atleast_2d(raw['vgrid'])[0] * f['vgrid']
        self.mass = raw['mass'] * D.AMU
        self.charge = raw['charge'] * D.EV
        self.p = {k: raw[v] * f[v] for k, v in PRIMARY.items()}
        self.hasflux = 'flux' in raw
        if self.hasflux:
            self.file_flux = raw['flux'] * 1e4 / (1e6 * D.EV)
        else:
            self.f = raw['Dist'] * f['Dist']
        self.labels = {
            'time': self.time, 'shell': raw['shell'],
            'energy': self.energy, 'mu': self.mu,
            'species': np.arange(len(self.mass)),
        }

    # -- selection of one axis -------------------------------------------

    def _axis(self, array, k, dim, sel, rows=None):
        """Select along axis k (dimension dim)."""
        grid = self.labels[dim]
        if sel[0] == 'all':
            return array
        if sel[0] == 'idx':
            return np.take(array, sel[1], axis=k, mode='raise')
        idx = [np.argmin(abs(grid - v)) for v in sel[1]]
        if all(abs(grid[i] - v) <= 1e-9 * max(abs(v), 1e-30)
               for i, v in zip(idx, sel[1])):
            return np.take(array, idx, axis=k)
        moved = np.moveaxis(array, k, 0)
        if grid[0] > grid[-1]:
            grid, moved = grid[::-1], moved[::-1]
        out = []
        for v in sel[1]:
            j = int(np.searchsorted(grid, v)) - 1
            j = min(max(j, 0), len(grid) - 2)
            w = (v - grid[j]) / (grid[j+1] - grid[j])
            out.append((1 - w) * moved[j] + w * moved[j+1])
        return np.moveaxis(np.array(out), 0, k)

    def select(self, array, dims, sel):
        """Select along every axis of a (time, shell, ...) array."""
        array = np.asarray(array, float)
        dims = list(dims)
        if sel.get('shell', ('all',))[0] == 'rad' and 'shell' in dims:
            kt, ks = dims.index('time'), dims.index('shell')
            assert (kt, ks) == (0, 1)
            rows = []
            for row, r in zip(array, self.p['r']):
                these = []
                for R in sel['shell'][1]:
                    j = int(np.searchsorted(r, R)) - 1
                    if not (0 <= j < len(r) - 1):
                        these.append(np.full(row.shape[1:], np.nan))
                        continue
                    w = (R - r[j]) / (r[j+1] - r[j])
                    these.append((1 - w) * row[j] + w * row[j+1])
                rows.append(these)
            array = np.array(rows)
        for k, d in enumerate(dims):
            s = sel.get(d, ('all',))
            if s[0] == 'rad' or d not in self.labels:
                continue
            array = self._axis(array, k, d, s)
        return array

    def coordinate(self, dim, sel):
        s = sel.get(dim, ('all',))
        grid = {'time': self.time, 'energy': self.energy, 'mu': self.mu}[dim]
        if s[0] == 'all':
            return grid
        if s[0] == 'idx':
            return grid[s[1]]
        return np.array(s[1], float)

    def ongrid(self, dim, sel):
        s = sel.get(dim, ('all',))
        if s[0] != 'val':
            return True
        grid = self.labels[dim]
        return all(min(abs(grid - v)) <= 1e-9 * max(abs(v), 1e-30)
                   for v in s[1])

    def spec(self, array, sel):
        s = sel.get('species', ('all',))
        return array if s[0] == 'all' else array[s[1]]

    # -- observables -------------------------------------------------------

    def observe(self, name, sel=None, emin=None):
        """Evaluate the observable: an SI array over its dimensions."""
        sel = sel or {}
        get = getattr(self, '_' + name, None)
        if name in PRIMARY:
            return self.select(self.p[name], TS, sel)
        if name == 'intflux':
            return self._intflux(sel, emin)
        return get(sel)

    def _time(self, sel):
        return self.coordinate('time', sel)

    def _energy(self, sel):
        return self.coordinate('energy', sel)

    def _mu(self, sel):
        return self.coordinate('mu', sel)

    def _v(self, sel):
        if self.ongrid('energy', sel):
            return self._axis(self.v, 0, 'energy',
                              sel.get('energy', ('all',)))
        return np.sqrt(2 * self.coordinate('energy', sel) / M_PROTON)

    def _mass(self, sel):
        return self.spec(self.mass, sel)

    def _charge(self, sel):
        return self.spec(self.charge, sel)

    def _f(self, sel):
        return self.select(self.f, AXES, sel)

    def _x(self, sel):
        r, t, p = (self.observe(k, sel) for k in ('r', 'theta', 'phi'))
        return r * np.sin(t) * np.cos(p)

    def _y(self, sel):
        r, t, p = (self.observe(k, sel) for k in ('r', 'theta', 'phi'))
        return r * np.sin(t) * np.sin(p)

    def _z(self, sel):
        r, t = (self.observe(k, sel) for k in ('r', 'theta'))
        return r * np.cos(t)

    def _vec(self, c, sel):
        return [self.observe(c + k, sel) for k in ('r', 'theta', 'phi')]

    def _bmag(self, sel):
        return np.sqrt(sum(b * b for b in self._vec('b', sel)))

    def _umag(self, sel):
        return np.sqrt(sum(u * u for u in self._vec('u', sel)))

    def _ubmag(self, sel):
        return self._umag(sel) * self._bmag(sel)

    def _udotb(self, sel):
        return sum(a * b for a, b in
                   zip(self._vec('u', sel), self._vec('b', sel)))

    def _angle(self, sel):
        c = self._udotb(sel) / self._ubmag(sel)
        return np.arccos(np.clip(c, -1, 1))

    def _upara(self, sel):
        return self._udotb(sel) / self._bmag(sel)

    def _uperp(self, sel):
        b = self._vec('b', sel)
        u = self._vec('u', sel)
        cross = (
            (u[1]*b[2] - u[2]*b[1])**2
            + (u[2]*b[0] - u[0]*b[2])**2
            + (u[0]*b[1] - u[1]*b[0])**2
        )
        return np.sqrt(cross) / self._bmag(sel)

    def _divu(self, sel):
        rho = self.p['rho']
        full = -np.gradient(rho, self.time, axis=0) / rho
        return self.select(full, TS, sel)

    def _rg(self, energy, mass, charge):
        mc2 = mass[:, None] * C_LIGHT**2
        total = energy[None, :] + mc2
        p = np.sqrt(total**2 - mc2**2) / C_LIGHT
        return p / charge[:, None]

    def _rigidity(self, sel):
        return self._rg(self.coordinate('energy', sel),
                        self._mass(sel), self._charge(sel))

    def _mfp(self, sel, dims=True):
        r = self.observe('r', sel)
        rg = self._rigidity(sel)
        rg0 = self._rg(np.array([1e6 * D.EV]),
                       self._mass(sel), self._charge(sel))
        rterm = (r / D.AU) ** self.par['mfpRadialPower']
        gterm = (rg / rg0) ** self.par['rigidityPower']
        return (self.par['lambda0'] * D.AU
                * rterm[:, :, None, None] * gterm[None, None, :, :])

    def _ar(self, sel):
        n = len(self.raw['shell'])
        s = np.arange(n)
        s1, s2 = np.minimum(s + 1, n - 1), np.maximum(s - 1, 0)
        u = [self.p[k] for k in ('ur', 'utheta', 'uphi')]
        umag = self._umag({})
        dot = sum(a[:, s1] * a[:, s2] for a in u)
        u1 = umag[:, s1]
        du = u1 * abs(1 - dot / (u1 * u1))
        a = self._angle({})
        k = self.par['kper_kpar']
        kxx = (self._mfp({}) * self.v[None, None, None, :] / 3
               * (np.cos(a)**2 + k * np.sin(a)**2)[:, :, None, None])
        kxu = kxx / umag[:, :, None, None]
        dx = kxu[:, s1] + kxu[:, s2]
        return self.select(du[:, :, None, None] / dx, TSPE, sel)

    def _fiso(self):
        if self.hasflux:
            return (0.5 * self.file_flux * self.mass[:, None]**2
                    / self.energy)
        return self.f.mean(axis=-1)

    def _edens(self):
        dv = np.gradient(self.v)
        return self.mass * np.sum(self.v**4 * self._fiso() * dv, axis=-1)

    def _energy_density(self, sel):
        return self.select(self._edens(), TSPE[:3], sel)

    def _average_energy(self, sel):
        dv = np.gradient(self.v)
        norm = np.sum(self.v**2 * self._fiso() * dv, axis=-1)
        return self.select(0.5 * self._edens() / norm, TSPE[:3], sel)

    def _fullflux(self):
        if self.hasflux:
            return self.file_flux
        return 2 * self._fiso() * self.energy / self.mass[:, None]**2

    def _flux(self, sel):
        return self.select(self._fullflux(), TSPE, sel)

    def _fluence(self, sel):
        dt = np.diff(self.time, prepend=self.time[0])
        full = np.cumsum(self._fullflux() * dt[:, None, None, None], axis=0)
        return self.select(full, TSPE, sel)

    def _intflux(self, sel, emin):
        """Simpson's rule from each minimum energy to the top of the grid.

        A minimum energy between two grid points starts from the power-law
        interpolation of flux between them.  Without a minimum energy, the
        sums run over the energies from the lowest one.
        """
        from scipy import integrate
        flux, e = self._fullflux(), self.energy
        if emin == 'running':
            full = np.cumsum(flux * np.diff(e, prepend=e[0]), axis=-1)
            return self.select(full, ('time', 'shell', 'species', 'energy'), sel)
        out = []
        for m in emin:
            if m <= e[0]:
                y, x = flux, e
            else:
                j = int(np.searchsorted(e, m, side='right')) - 1
                j = min(j, len(e) - 2)
                beta = (np.log(flux[..., j+1] / flux[..., j])
                        / np.log(e[j+1] / e[j]))
                f0 = flux[..., j] * (m / e[j])**beta
                y = np.concatenate([f0[..., None], flux[..., j+1:]], axis=-1)
                x = np.concatenate([[m], e[j+1:]])
            out.append(integrate.simpson(y, x=x, axis=-1))
        full = np.stack(out, axis=-1)
        return self.select(full, ('time', 'shell', 'species', 'emin'), sel)
