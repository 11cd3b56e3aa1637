"""C27: constants, elements and names of quantities mean what they say.

Every physical constant in both metric systems, with all walks of unit
conversions from it; every chemical element with every charge through both
directions of the species interface, singly and in all ordered pairs; every
name and alias of every quantity in every table of reference information.
"""


import contextlib
import io
import itertools
import math
import re


import numpy

from .. import unitref as U

ID = 'C27'
LEVEL = 'model_checking'
RULE = (
    "constants: system x name x all unit walks; elements: element x charge x "
    "representation of both, and all ordered pairs; names: all pairs of "
    "aliases in all tables; non-trivial: distinct (value, unit) or symbol"
)
BOUNDS = {
    'quick': {'unit walk': 2, 'charges': '-8..8', 'pairs of species': 'all elements, charge by position'},
    'thorough': {'unit walk': 4, 'charges': '-30..30', 'pairs of species': 'all elements x charges -1..2'},
}
ASSUMPTIONS = [
    "values of constants are compared with the published ones to 5e-4 and "
    "between the two metric systems and with each other to 1e-4",
    "weights of elements after uranium are not compared with published ones",
    "electromagnetic constants in cgs are Gaussian",
]

# SI value, SI dimension (independent of the package)
_E = U.dim(L=2, M=1, T=-2)
CONSTANTS = {
    'pi': (math.pi, U.dim()),
    'k': (1.380649e-23, U.dim(L=2, M=1, T=-2, H=-1)),
    'e': (1.602176634e-19, U.dim(I=1, T=1)),
    'me': (9.1093837e-31, U.dim(M=1)),
    'mp': (1.67262192e-27, U.dim(M=1)),
    'G': (6.67430e-11, U.dim(L=3, T=-2, M=-1)),
    'g': (9.80665, U.dim(L=1, T=-2)),
    'h': (6.62607015e-34, U.dim(L=2, M=1, T=-1)),
    'c': (299792458.0, U.dim(L=1, T=-1)),
    'epsilon0': (8.8541878e-12, U.dim(L=-3, M=-1, T=4, I=2)),
    'mu0': (4e-7 * math.pi, U.dim(L=1, M=1, T=-2, I=-2)),
    'Rinfinity': (1.0973731568e7, U.dim(L=-1)),
    'a0': (5.29177211e-11, U.dim(L=1)),
    're': (2.81794033e-15, U.dim(L=1)),
    'alpha': (7.2973525693e-3, U.dim()),
    'c1': (3.741771852e-16, U.dim(L=4, M=1, T=-3)),
    'c2': (1.438776877e-2, U.dim(L=1, H=1)),
    'sigma': (5.670374419e-8, U.dim(M=1, T=-3, H=-4)),
    'eV': (1.602176634e-19, _E),
    'amu': (1.66053907e-27, U.dim(M=1)),
    'au': (1.495978707e11, U.dim(L=1)),
    'H+': (13.6 * 1.602176634e-19, _E),
    'MeV': (1.602176634e-13, _E),
}
GAUSSIAN_UNITY = ('epsilon0', 'mu0')

# Units of the same dimension to walk through, by constant.
WALKS = {
    'k': ['J / K', 'erg / K', 'eV / K', 'kg m^2 s^-2 K^-1'],
    'e': ['C', 'A s', 'mC'],
    'me': ['kg', 'g', 'mg'],
    'mp': ['kg', 'g', 'nuc'],
    'amu': ['kg', 'g', 'nuc'],
    'G': ['m^3 / (s^2 * kg)', 'dyn * cm^2 / g^2', 'N m^2 / kg^2'],
    'g': ['m / s^2', 'cm / s^2', 'km / h^2'],
    'h': ['J s', 'erg s', 'eV s', 'J / Hz'],
    'c': ['m / s', 'cm / s', 'km / h', 'au / day'],
    'epsilon0': ['F / m', 'C / (V m)'],
    'mu0': ['H / m', 'N / A^2'],
    'Rinfinity': ['1 / m', '1 / cm', '1 / au'],
    'a0': ['m', 'cm', 'au', 'nm'],
    're': ['m', 'cm', 'fm'],
    'c1': ['W m^2', 'erg cm^2 / s', 'J m^2 / s'],
    'c2': ['m K', 'cm K', 'mK km'],
    'sigma': ['W / (m^2 * K^4)', 'erg / (s cm^2 K^4)', 'J / (s m^2 K^4)'],
    'eV': ['J', 'erg', 'eV', 'MeV'],
    'H+': ['J', 'erg', 'eV', 'MeV'],
    'MeV': ['J', 'erg', 'eV', 'MeV'],
    'au': ['m', 'cm', 'au', 'km'],
}
# Units whose meaning this module knows without parsing.
EXPR = {
    'J / K': [('J', 1), ('K', -1)], 'erg / K': [('erg', 1), ('K', -1)], 'eV / K': [('eV', 1), ('K', -1)],
    'kg m^2 s^-2 K^-1': [('kg', 1), ('m', 2), ('s', -2), ('K', -1)],
    'C': [('C', 1)], 'A s': [('A', 1), ('s', 1)], 'mC': [('mC', 1)],
    'kg': [('kg', 1)], 'g': [('g', 1)], 'mg': [('mg', 1)], 'nuc': [('nuc', 1)],
    'm^3 / (s^2 * kg)': [('m', 3), ('s', -2), ('kg', -1)],
    'dyn * cm^2 / g^2': [('dyn', 1), ('cm', 2), ('g', -2)],
    'N m^2 / kg^2': [('N', 1), ('m', 2), ('kg', -2)],
    'm / s^2': [('m', 1), ('s', -2)], 'cm / s^2': [('cm', 1), ('s', -2)], 'km / h^2': [('km', 1), ('h', -2)],
    'J s': [('J', 1), ('s', 1)], 'erg s': [('erg', 1), ('s', 1)], 'eV s': [('eV', 1), ('s', 1)],
    'J / Hz': [('J', 1), ('Hz', -1)],
    'm / s': [('m', 1), ('s', -1)], 'cm / s': [('cm', 1), ('s', -1)], 'km / h': [('km', 1), ('h', -1)],
    'au / day': [('au', 1), ('d', -1)],
    'F / m': [('F', 1), ('m', -1)], 'C / (V m)': [('C', 1), ('V', -1), ('m', -1)],
    'H / m': [('H', 1), ('m', -1)], 'N / A^2': [('N', 1), ('A', -2)],
    '1 / m': [('m', -1)], '1 / cm': [('cm', -1)], '1 / au': [('au', -1)],
    'm': [('m', 1)], 'cm': [('cm', 1)], 'au': [('au', 1)], 'nm': [('nm', 1)], 'fm': [('fm', 1)], 'km': [('km', 1)],
    'W m^2': [('W', 1), ('m', 2)], 'erg cm^2 / s': [('erg', 1), ('cm', 2), ('s', -1)],
    'J m^2 / s': [('J', 1), ('m', 2), ('s', -1)],
    'm K': [('m', 1), ('K', 1)], 'cm K': [('cm', 1), ('K', 1)], 'mK km': [('mK', 1), ('km', 1)],
    'W / (m^2 * K^4)': [('W', 1), ('m', -2), ('K', -4)],
    'erg / (s cm^2 K^4)': [('erg', 1), ('s', -1), ('cm', -2), ('K', -4)],
    'J / (s m^2 K^4)': [('J', 1), ('s', -1), ('m', -2), ('K', -4)],
    'J': [('J', 1)], 'erg': [('erg', 1)], 'eV': [('eV', 1)], 'MeV': [('MeV', 1)],
}

ELEMENTS = """
H Hydrogen 1.008;He Helium 4.0026;Li Lithium 6.94;Be Beryllium 9.0122;B Boron 10.81;C Carbon 12.011;
N Nitrogen 14.007;O Oxygen 15.999;F Fluorine 18.998;Ne Neon 20.180;Na Sodium 22.990;Mg Magnesium 24.305;
Al Aluminum 26.982;Si Silicon 28.085;P Phosphorus 30.974;S Sulfur 32.06;Cl Chlorine 35.45;Ar Argon 39.95;
K Potassium 39.098;Ca Calcium 40.078;Sc Scandium 44.956;Ti Titanium 47.867;V Vanadium 50.942;Cr Chromium 51.996;
Mn Manganese 54.938;Fe Iron 55.845;Co Cobalt 58.933;Ni Nickel 58.693;Cu Copper 63.546;Zn Zinc 65.38;
Ga Gallium 69.723;Ge Germanium 72.630;As Arsenic 74.922;Se Selenium 78.971;Br Bromine 79.904;Kr Krypton 83.798;
Rb Rubidium 85.468;Sr Strontium 87.62;Y Yttrium 88.906;Zr Zirconium 91.224;Nb Niobium 92.906;Mo Molybdenum 95.95;
Tc Technetium 98;Ru Ruthenium 101.07;Rh Rhodium 102.91;Pd Palladium 106.42;Ag Silver 107.87;Cd Cadmium 112.41;
In Indium 114.82;Sn Tin 118.71;Sb Antimony 121.76;Te Tellurium 127.60;I Iodine 126.90;Xe Xenon 131.29;
Cs Cesium 132.91;Ba Barium 137.33;La Lanthanum 138.91;Ce Cerium 140.12;Pr Praseodymium 140.91;Nd Neodymium 144.24;
Pm Promethium 145;Sm Samarium 150.36;Eu Europium 151.96;Gd Gadolinium 157.25;Tb Terbium 158.93;Dy Dysprosium 162.50;
Ho Holmium 164.93;Er Erbium 167.26;Tm Thulium 168.93;Yb Ytterbium 173.05;Lu Lutetium 174.97;Hf Hafnium 178.49;
Ta Tantalum 180.95;W Tungsten 183.84;Re Rhenium 186.21;Os Osmium 190.23;Ir Iridium 192.22;Pt Platinum 195.08;
Au Gold 196.97;Hg Mercury 200.59;Tl Thallium 204.38;Pb Lead 207.2;Bi Bismuth 208.98;Po Polonium 209;
At Astatine 210;Rn Radon 222;Fr Francium 223;Ra Radium 226;Ac Actinium 227;Th Thorium 232.04;
Pa Protactinium 231.04;U Uranium 238.03
"""
HEAVY = (
    "Np Neptunium;Pu Plutonium;Am Americium;Cm Curium;Bk Berkelium;Cf Californium;Es Einsteinium;Fm Fermium;"
    "Md Mendelevium;No Nobelium;Lr Lawrencium;Rf Rutherfordium;Db Dubnium;Sg Seaborgium;Bh Bohrium;Hs Hassium;"
    "Mt Meitnerium"
)


def table():
    out = {}
    for part in ELEMENTS.replace('\n', '').split(';'):
        s, n, w = part.split()
        out[s] = (n, float(w))
    for part in HEAVY.split(';'):
        s, n = part.split()
        out[s] = (n, None)
    return out


# quantity: (canonical names as users type them, SI dimension)
_V = U.dim(L=1, T=-1)
_B = U.dim(M=1, T=-2, I=-1)
_F = U.dim(L=-2, T=-1)
QUANTITIES = {
    'phiOffset': ([], U.dim()),
    'time': (['t', 'times'], U.dim(T=1)),
    'shell': (['shells'], U.dim()),
    'mu': (['pitch angle', 'pitch-angle', 'pitch-angle cosine', 'pitch angles', 'pitch-angles', 'pitch-angle cosines'], U.dim()),
    'mass': (['m'], U.dim(M=1)),
    'charge': (['q'], U.dim(I=1, T=1)),
    'energy': (['energies', 'E', 'egrid'], _E),
    'v': (['speed', 'vgrid'], _V),
    'r': (['radius', 'R'], U.dim(L=1)),
    'theta': (['T'], U.dim()),
    'phi': (['P'], U.dim()),
    'br': (['Br'], _B),
    'btheta': (['bt', 'Btheta', 'Bt'], _B),
    'bphi': (['bp', 'Bphi', 'Bp'], _B),
    'ur': (['Ur', 'Vr', 'vr'], _V),
    'utheta': (['ut', 'Utheta', 'Ut', 'Vtheta', 'Vt'], _V),
    'uphi': (['up', 'Uphi', 'Up', 'Vphi', 'Vp'], _V),
    'rho': (['Rho'], U.dim(L=-3)),
    'f': (['dist', 'Dist'], U.dim(L=-6, T=3)),
    'flux': (['Flux', 'J', 'J(E)', 'j', 'j(E)'], U.dim(L=-4, M=-1, T=1)),
    'x': (['X'], U.dim(L=1)),
    'y': (['Y'], U.dim(L=1)),
    'z': (['Z'], U.dim(L=1)),
    'bmag': (['B', 'b', '|B|', '|b|', 'b_mag', 'b mag'], _B),
    'umag': (['U', 'u', '|U|', '|u|', 'u_mag', 'u mag'], _V),
    'upara': (['Upara', 'u_para'], _V),
    'uperp': (['Uperp', 'u_perp'], _V),
    'angle': (['flow_angle', 'flow angle'], U.dim()),
    'divu': (['div_u', 'divU', 'div U', 'div u', 'div(U)', 'div(u)'], U.dim(T=-1)),
    'rigidity': (['Rg', 'R_g'], U.dim(L=1, M=1, T=-2, I=-1)),
    'mfp': (['mean_free_path', 'mean free path'], U.dim(L=1)),
    'ar': (['acceleration_rate', 'acceleration rate'], U.dim(T=-1)),
    'energy_density': (['energy density'], U.dim(L=-1, M=1, T=-2)),
    'average_energy': (['average energy'], _E),
    'fluence': ([], U.dim(L=-4, M=-1, T=2)),
    'intflux': (['integral_flux', 'integral flux'], _F),
}


def shards(tier):
    out = [{'part': 'constant', 'name': n} for n in CONSTANTS]
    out += [{'part': 'identities'}, {'part': 'catalogue'}]
    out += [{'part': 'species', 'block': i} for i in range(8)]
    out += [{'part': 'pairs', 'block': i, 'tier': tier} for i in range(8)]
    out += [{'part': 'histories'}, {'part': 'calls'}, {'part': 'names'}]
    return [dict(s, tier=tier) for s in out]


def run_shard(shard, cx):
    globals()[f"run_{shard['part']}"](shard, cx)


def si(obj):
    f, d = U.canonical(obj.unit)
    return float(obj) * f, d


def close(a, b, rtol):
    return abs(a - b) <= rtol * max(abs(a), abs(b))


def refused(f):
    try:
        f()
    except Exception:
        return True
    return False


# -- constants ----------------------------------------------------------------




def run_constant(shard, cx):
    from eprempy import physical, universal
    name, tier = shard['name'], shard['tier']
    want, dim = CONSTANTS[name]
    depth = BOUNDS[tier]['unit walk']
    objects = {
        'mks': universal.MKS, 'cgs': universal.CGS,
        'new mks': universal.Constants('mks'), 'new CGS': universal.Constants('CGS'),
    }
    info = {}
    for label, group in objects.items():
        gaussian = 'cgs' in label.lower() and name in GAUSSIAN_UNITY
        ref, rdim = (1.0, U.dim()) if gaussian else (want, dim)
        case = {'constants': label, 'name': name}
        with cx.case(case):
            cx.step()
            c = group[name]
            v, d = si(c)
            cx.outcome((str(c.unit), float(c)))
            cx.require(close(v, ref, 5e-4), case, f'value {float(c)} {c.unit}: {v} in SI, expected {ref}')
            cx.require(d == rdim, case, f'dimension of {c.unit}')
            cx.require(int(c) == int(float(c)), case, 'int')
            s = c.asscalar
            cx.require(isinstance(s, physical.Scalar) and si(s) == (v, d), case, f'as a scalar: {s}')
            cx.require(float(c.data) == float(c), case, 'data')
            info[label] = (c.quantity, c.info)
            cx.require(c == group[name], case, 'not equal to itself')
            for other in objects.values():
                o = other[name]
                if str(o.unit) == str(c.unit):
                    cx.require(float(o) == float(c), case, 'one unit, two values')
                if not (name in GAUSSIAN_UNITY):
                    cx.require(close(si(o)[0], v, 1e-4), case, f'{float(o)} {o.unit} is not {float(c)} {c.unit}')
        if gaussian or name in ('pi', 'alpha') or (name == 'e' and 'cgs' in label.lower()):
            continue
        units = WALKS[name]
        for n in range(1, depth + 1):
            for walk in itertools.product(units, repeat=n):
                case = {'constants': label, 'name': name, 'walk': list(walk)}
                with cx.case(case):
                    cx.step()
                    cx.trace()
                    c0 = c = group[name]
                    before = (float(c0), str(c0.unit))
                    for u in walk:
                        old, c = c, c.withunit(u)
                        f, d = U.expr(EXPR[u])
                        cx.require(close(float(c) * f, v, 1e-4), case, f'{u}: {float(c)}')
                        cx.require(U.canonical(c.unit)[1] == d, case, f'unit {c.unit}')
                        cx.require(close(U.canonical(c.unit)[0], f, 1e-9), case, f'unit {c.unit} for {u}')
                        cx.require(close(float(c.asscalar), float(c), 1e-12), case, 'as a scalar')
                        cx.require(type(c) is type(c0), case, f'type {type(c).__name__}')
                        cx.require((c.quantity, c.info) == info[label], case, 'metadata')
                        cx.outcome((u, float(c)))
                        cx.state((name, u, float(c)))
                    cx.require((float(c0), str(c0.unit)) == before, case, 'the source changed')
                    g = group[name]
                    cx.require((float(g), str(g.unit)) == before, case, 'the mapping changed')
                    s = group[name].asscalar
                    for u in walk:
                        s = s.withunit(u)
                    cx.require(close(float(s), float(c), 1e-9), case, 'the scalar converts differently')
        for u, terms in EXPR.items():
            if U.expr(terms)[1] == dim:
                continue
            case = {'constants': label, 'name': name, 'inconsistent unit': u}
            with cx.case(case):
                cx.step()
                c = group[name]
                cx.require(refused(lambda: c.withunit(u)), case, 'accepted')
                cx.require(si(c) == (v, d_of(c)), case, 'changed')
    case = {'name': name, 'metadata': True}
    with cx.case(case):
        cx.require(len(set(info.values())) == 1, case, f'{info}')
        cx.require(all(isinstance(x, str) and x for x in info['mks']), case, 'empty metadata')
        from eprempy import metric
        q = info['mks'][0]
        for system in ('mks', 'cgs'):
            u = metric.system(system).get_unit(quantity=q)
            got = U.canonical(u)[1]
            c = objects[system][name]
            if system == 'cgs' and name in GAUSSIAN_UNITY:
                continue
            cx.require(got == si(c)[1], case, f'{system}: declared quantity {q!r} has unit {u}, the constant has {c.unit}')
            cx.step()


def d_of(c):
    return U.canonical(c.unit)[1]


def run_identities(shard, cx):
    from eprempy import universal
    for label, group in (('mks', universal.MKS), ('cgs', universal.CGS)):
        v = {k: float(group[k]) for k in CONSTANTS}
        pi, a = math.pi, v['alpha']
        coulomb = v['e'] ** 2 / (4 * pi * v['epsilon0']) if label == 'mks' else v['e'] ** 2
        hbar = v['h'] / (2 * pi)
        ids = {
            'c1': (v['c1'], 2 * pi * v['h'] * v['c'] ** 2),
            'c2': (v['c2'], v['h'] * v['c'] / v['k']),
            'alpha': (a, coulomb / (hbar * v['c'])),
            'sigma': (v['sigma'], 2 * pi ** 5 * v['k'] ** 4 / (15 * v['h'] ** 3 * v['c'] ** 2)),
            'a0': (v['a0'], hbar / (v['me'] * v['c'] * a)),
            're': (v['re'], a ** 2 * v['a0']),
            'Rinfinity': (v['Rinfinity'], a ** 2 * v['me'] * v['c'] / (2 * v['h'])),
            'H+': (v['H+'], 13.6 * v['eV']),
            'MeV': (v['MeV'], 1e6 * v['eV']),
            'amu': (1.00728, v['mp'] / v['amu']),
        }
        if label == 'mks':
            ids['light'] = (v['epsilon0'] * v['mu0'] * v['c'] ** 2, 1.0)
            ids['eV'] = (v['eV'], v['e'])
        else:
            ids['light'] = (v['epsilon0'] * v['mu0'], 1.0)
        for k, (x, y) in ids.items():
            case = {'system': label, 'identity': k}
            with cx.case(case):
                cx.step()
                cx.outcome((label, k, x))
                cx.require(close(x, y, 2e-4), case, f'{x} is not {y}')


def run_catalogue(shard, cx):
    from eprempy import atomic, metric, universal
    for label, group in (('mks', universal.MKS), ('cgs', universal.CGS)):
        case = {'constants': label}
        with cx.case(case):
            cx.step()
            cx.require(set(CONSTANTS) <= set(group), case, f'missing {set(CONSTANTS) - set(group)}')
            cx.require(len(group) == len(list(group)), case, 'length')
            cx.require(all(k in group for k in group), case, 'membership')
            for k in ('zz', 'C', 'EV', '', 'pi '):
                cx.require(k not in group and group.get(k) is None, case, f'{k!r} found')
                cx.require(refused(lambda: group[k]), case, f'{k!r} found')
            cx.require(all(si(group[k]) == si(c) for k, c in group.items()), case, 'items')
            cx.require(set(dict(group)) == set(group), case, 'as a dictionary')
    case = {'constants': 'shown'}
    with cx.case(case):
        cx.step()
        text = io.StringIO()
        with contextlib.redirect_stdout(text):
            universal.show()
        numbers = re.compile(r'(mks|cgs): *([^ \n]+)(?: \[(.*)\])?')
        seen = set()
        for block in text.getvalue().strip().split('\n\n'):
            head, *rest = block.splitlines()
            names = {k for k in CONSTANTS if repr(k) in head.split(': ')[0] or head.split(': ')[0] == k}
            cx.require(len(names) >= 1, case, f'unknown entry {head!r}')
            seen |= names
            found = [numbers.search(r).groups() for r in rest]
            cx.require([f[0] for f in found] == ['mks', 'cgs'], case, f'systems of {head!r}')
            for k in names:
                for label, value, unit in found:
                    c = {'mks': universal.MKS, 'cgs': universal.CGS}[label][k]
                    cx.require(
                        float(value) == float(c) and metric.unit(unit or '1') == c.unit, case,
                        f'{k} is shown as {value} [{unit}] but is {c}')
                    cx.require(c.info in head, case, f'{k} is shown as {head!r}')
        cx.require(seen == set(CONSTANTS), case, f'missing {set(CONSTANTS) - seen}')
    rows = {e['symbol']: e for e in atomic.ELEMENTS}
    ref = table()
    case = {'elements': 'all'}
    with cx.case(case):
        cx.step()
        cx.require(len(rows) == len(list(atomic.ELEMENTS)), case, 'repeated symbols')
        cx.require(set(ref) <= set(rows), case, f'missing {set(ref) - set(rows)}')
        for s, (n, w) in ref.items():
            case = {'element': s}
            with cx.case(case):
                cx.step()
                e = rows[s]
                cx.require(e['name'] == n, case, f"{e['name']}, expected {n}")
                cx.require(w is None or abs(e['mass'] - w) <= 0.1, case, f"{e['mass']}, expected {w}")


# -- species ------------------------------------------------------------------


def symbol(base, q):
    return base + ('+' if q > 0 else '-') * abs(q)


def charges(tier):
    n = 8 if tier == 'quick' else 30
    return range(-n, n + 1)


MASS_FORMS = {
    'float': float,
    'numpy float': numpy.float64,
    'array': lambda m: numpy.array([m]),
    'list': lambda m: [m],
    'tuple': lambda m: (m,),
}
ROUND_FORMS = {
    'int': int,
    'integral float': float,
    'numpy int': numpy.int32,
    'array': lambda m: numpy.array([m]),
    'just below': lambda m: m - 1e-7,
    'just above': lambda m: m + 1e-7,
}
CHARGE_FORMS = {
    'int': int,
    'float': float,
    'numpy int': numpy.int64,
    'float32': numpy.float32,
    'array': lambda q: numpy.array([q], dtype=float),
    'list': lambda q: [q],
    'just below': lambda q: q - 1e-7,
    'just above': lambda q: q + 1e-7,
}


def run_species(shard, cx):
    from eprempy import atomic
    masses = {e['symbol']: e['mass'] for e in atomic.ELEMENTS}
    nucleons = {s: round(m) for s, m in masses.items()}
    ref = table()
    names = sorted(masses)
    for base in names[shard['block']::8]:
        m = masses[base]
        same = {s for s, x in masses.items() if x == m}
        near = {s for s, x in nucleons.items() if x == nucleons[base]}
        for q in charges(shard['tier']):
            text = symbol(base, q)
            case = {'symbol': text}
            with cx.case(case):
                cx.step()
                for label, s in (
                    ('by symbol', atomic.species(text)),
                    ('by name', atomic.species(symbol(ref[base][0], q)) if base in ref else None),
                    ('directly', atomic.Species(text)),
                ):
                    if s is None:
                        continue
                    cx.require(float(s.mass) == m and s.m == m, case, f'{label}: mass {s.mass}')
                    cx.require(float(s.charge) == q and s.q == q, case, f'{label}: charge {s.charge}')
                    cx.require(type(s.q) is int and type(s.m) is float, case, f'{label}: types')
                    if label != 'by name':
                        cx.require(s.symbol == text, case, f'{label}: symbol {s.symbol}')
                    cx.require(close(float(s.mass.withunit('kg')), m * 1.66054e-27, 1e-4), case, f'{label}: mass in kg')
                    cx.require(close(float(s.charge.withunit('C')), q * 1.60218e-19, 1e-4), case, f'{label}: charge in C')
                    cx.require(d_of(s.mass) == U.dim(M=1) and d_of(s.charge) == U.dim(I=1, T=1), case, f'{label}: units')
                cx.outcome(text)
            for mf, mform in MASS_FORMS.items():
                for qf, qform in CHARGE_FORMS.items():
                    case = {'element': base, 'charge': q, 'mass as': mf, 'charge as': qf}
                    with cx.case(case):
                        cx.step()
                        cx.trace()
                        got = atomic.elements(mass=mform(m), charge=qform(q))
                        cx.require(len(got) == 1 and isinstance(got, list), case, f'{got}')
                        # An integral tabulated mass is as good as a nucleon number.
                        ok = near if m == nucleons[base] else same
                        cx.require(got[0] in {symbol(s, q) for s in ok}, case, f'{got}')
                        s = atomic.species(mass=mform(m), charge=qform(q))
                        cx.require(s.symbol == got[0] and s.q == q, case, f'{s}')
                        cx.outcome(got[0])
                        cx.state((got[0], mf, qf))
            for mf, mform in ROUND_FORMS.items():
                for qf, qform in CHARGE_FORMS.items():
                    case = {'nucleons': nucleons[base], 'charge': q, 'mass as': mf, 'charge as': qf}
                    with cx.case(case):
                        cx.step()
                        got = atomic.elements(mass=mform(nucleons[base]), charge=qform(q))
                        cx.require(got[0] in {symbol(s, q) for s in near}, case, f'{got}')
                        cx.require(got == atomic.elements(mass=mform(nucleons[base]), charge=qform(q)), case, 'differs when repeated')
    if shard['block'] == 0:
        for n in range(-2, 300):
            if n in nucleons.values():
                continue
            for form in (int, float, lambda x: [4, x], lambda x: numpy.array([x])):
                case = {'no element': n}
                with cx.case(case):
                    cx.step()
                    k = 2 if isinstance(form(n), list) else 1
                    cx.require(refused(lambda: atomic.elements(mass=form(n), charge=[1] * k)), case, 'accepted')


def run_pairs(shard, cx):
    from eprempy import atomic
    masses = {e['symbol']: e['mass'] for e in atomic.ELEMENTS}
    ambiguous = {s for s in masses if sum(1 for m in masses.values() if round(m) == round(masses[s])) > 1 and masses[s] == round(masses[s])}
    names = [s for s in sorted(masses) if s not in ambiguous]
    qs = [None] if shard['tier'] == 'quick' else list(itertools.product(range(-1, 3), repeat=2))
    for i in range(shard['block'], len(names), 8):
        for j in range(len(names)):
            for q in qs:
                q = q or ((i + j) % 5 - 1, (i * 2 + j) % 4 - 1)
                pair = (names[i], names[j])
                case = {'species': [symbol(s, x) for s, x in zip(pair, q)]}
                with cx.case(case):
                    cx.step()
                    mass = [masses[s] for s in pair]
                    got = atomic.elements(mass=mass, charge=list(q))
                    cx.require(got == case['species'], case, f'{got}')
                    if (i + j) % 7 == 0:
                        got = atomic.elements(mass=numpy.array(mass), charge=numpy.array(q, dtype=float))
                        cx.require(got == case['species'], case, f'arrays: {got}')
                    cx.outcome(tuple(got))


def run_histories(shard, cx):
    """The order of reading the properties of a species does not matter."""
    from eprempy import atomic
    reads = {
        'mass': lambda s: ('M', float(s.mass), str(s.mass.unit)),
        'charge': lambda s: ('Q', float(s.charge), str(s.charge.unit)),
        'm': lambda s: ('m', s.m),
        'q': lambda s: ('q', s.q),
        'symbol': lambda s: ('s', s.symbol),
        'in kg': lambda s: ('kg', round(float(s.mass.withunit('kg')) * 1e30, 3)),
        'in C': lambda s: ('C', round(float(s.charge.withunit('C')) * 1e22, 3)),
        'str': lambda s: ('str', str(s)),
    }
    depth = 3 if shard['tier'] == 'quick' else 4
    for text in ('H', 'H+', 'He++', 'Fe+++', 'C-', 'Cl', 'Cr+'):
        alone = {k: r(atomic.species(text)) for k, r in reads.items()}
        for hist in itertools.product(reads, repeat=depth):
            case = {'symbol': text, 'history': list(hist)}
            with cx.case(case):
                cx.step()
                cx.trace()
                a, b = atomic.species(text), atomic.species('O++')
                for h in hist:
                    reads[h](b)
                    got = reads[h](a)
                    cx.require(got == alone[h], case, f'{h}: {got}, alone {alone[h]}')
                cx.outcome((text, hist[-1]))


def run_calls(shard, cx):
    from eprempy import atomic
    sp = atomic.species
    bad = {
        'nothing': lambda: sp(),
        'two symbols': lambda: sp('H', 'He'),
        'symbol and mass': lambda: sp('H', mass=1),
        'symbol and both': lambda: sp('H', mass=1, charge=1),
        'mass only': lambda: sp(mass=1),
        'charge only': lambda: sp(charge=1),
        'unknown keyword': lambda: sp(mass=1, charge=1, name='H'),
        'unknown mass': lambda: sp(mass=2, charge=0),
        'lengths': lambda: atomic.elements(mass=[1, 4], charge=[1]),
        'lengths 2': lambda: atomic.elements(mass=[1], charge=[1, 2]),
        'lengths 3': lambda: atomic.elements(mass=1, charge=[1, 2]),
        'no mass': lambda: atomic.elements(charge=1),
        'unknown symbol': lambda: sp('X').mass,
        'unknown symbol, m': lambda: sp('Qq++').m,
        'lower case': lambda: sp('h+').mass,
        'empty': lambda: sp('').mass,
        'charge alone': lambda: sp('++').mass,
        'nan mass': lambda: sp(mass=float('nan'), charge=1),
        'nan charge': lambda: atomic.elements(mass=1, charge=float('nan')),
        'text mass': lambda: sp(mass='1', charge=1),
    }
    for k, f in bad.items():
        case = {'call': k}
        with cx.case(case):
            cx.step()
            cx.outcome(k)
            cx.require(refused(f), case, 'accepted')
    case = {'call': 'no species'}
    with cx.case(case):
        cx.require(atomic.elements(mass=[], charge=[]) == [], case, 'not empty')
    table_ = atomic.ELEMENTS
    for i, (s, (n, _)) in enumerate(table().items()):
        case = {'find': s}
        with cx.case(case):
            cx.step()
            a, b = table_.find(s, unique=True), table_.find(n, unique=True)
            cx.require(a['symbol'] == s and a['name'] == n and dict(a) == dict(b), case, f'{a} {b}')


# -- names of quantities ------------------------------------------------------


def run_names(shard, cx):
    from eprempy import reference, eprem
    owner = {}
    for k, (aliases, _) in QUANTITIES.items():
        for a in (k, *aliases):
            owner[a] = k
    tables = {
        'quantities': reference.QUANTITIES, 'units': reference.UNITS, 'dimensions': reference.DIMENSIONS,
    }
    for a, k in owner.items():
        case = {'name': a, 'quantity': k}
        with cx.case(case):
            cx.step()
            cx.outcome(a)
            dim = QUANTITIES[k][1]
            for t, m in tables.items():
                cx.require(a in m, case, f'not in {t}')
            q = reference.QUANTITIES[a]
            cx.require(q == reference.QUANTITIES[k], case, f'quantity {q}')
            for system in ('mks', 'cgs'):
                u = reference.UNITS[a][system]
                f, d = U.canonical(u)
                cx.require(d == dim, case, f'{system}: unit {u}')
                f0, _ = U.canonical(reference.UNITS[k][system])
                cx.require(f == f0, case, f'{system}: unit {u} is not that of {k}')
                if system == 'mks':
                    cx.require(close(f, 1.0, 1e-12), case, f'unit {u} is not an SI unit')
                cx.require(str(reference.DIMENSIONS[a][system]) == str(reference.DIMENSIONS[k][system]), case, 'dimension')
            cx.require(a in reference.ALIASES[k] and k in reference.ALIASES[a], case, f'aliases {reference.ALIASES[k]}')
            cx.require(set(reference.ALIASES[a]) == {x for x, y in owner.items() if y == k}, case, f'aliases {set(reference.ALIASES[a])}')
            cx.require(reference.OBSERVABLES.names[a] == k, case, f'canonical name {reference.OBSERVABLES.names[a]}')
            cx.require(set(reference.OBSERVABLES.aliases[a]) == set(reference.ALIASES[k]), case, 'observable aliases')
    for a, b in itertools.combinations(owner, 2):
        case = {'names': [a, b]}
        with cx.case(case):
            cx.step()
            same = owner[a] == owner[b]
            cx.require((b in reference.ALIASES[a]) is same, case, 'aliases')
            cx.require((reference.OBSERVABLES.names[a] == reference.OBSERVABLES.names[b]) is same, case, 'canonical names')
    stored = {
        'arrays': (reference.ARRAYS, {
            'phiOffset': 'phiOffset', 'time': 'time', 'shell': 'shell', 'mu': 'mu', 'mass': 'mass', 'charge': 'charge',
            'energy': 'egrid', 'v': 'vgrid', 'r': 'R', 'theta': 'T', 'phi': 'P', 'br': 'Br', 'btheta': 'Bt', 'bphi': 'Bp',
            'ur': 'Vr', 'utheta': 'Vt', 'uphi': 'Vp', 'rho': 'Rho', 'f': 'Dist', 'flux': 'flux',
        }),
        'scalars': (reference.SCALARS, {'preEruption': 'preEruption'}),
        'axes': (reference.AXES, {'time': 'time', 'shell': 'shell', 'species': 'species', 'energy': 'energy', 'mu': 'mu'}),
    }
    for label, (subset, names) in stored.items():
        for k, file in names.items():
            group = QUANTITIES[k][0] if k in QUANTITIES else []
            got = {a: subset.names[a] for a in (k, *group) if a in subset.names}
            case = {'table': label, 'name': k}
            with cx.case(case):
                cx.step()
                cx.require(set(got) == {k, *group}, case, f'known as {sorted(got)}')
                cx.require(set(got.values()) == {file}, case, f'stored as {set(got.values())}')
                for a in (k, *group):
                    cx.require(set(subset.aliases[a]) == {k, *group}, case, f'aliases of {a}')
        for a, k in owner.items():
            case = {'table': label, 'foreign name': a}
            with cx.case(case):
                cx.require((a in subset.names) is (k in names), case, 'membership')
    case = {'built': 'subsets'}
    with cx.case(case):
        for r in (1, 2):
            for combo in itertools.permutations(['r', 'br', 'flux', 'E', 'nothing'], r):
                cx.step()
                sub = reference.build(*combo)
                for k in combo:
                    members = set(reference.ALIASES[k]) if k in reference.ALIASES else {k}
                    cx.require(set(sub.aliases[k]) == members, case, f'{combo}: aliases of {k}')
                    cx.require(all(sub.names[m] == k for m in members), case, f'{combo}: name of {k}')
                cx.require('ur' not in sub.names, case, f'{combo}: extra names')


def replay(case, cx):
    for shard in shards('quick'):
        run_shard(shard, cx)
