"""C17: views of a datafile are what the file contains.

Every file with at most `deviations` deviations from a base file (variables
absent or added, attributes, number types, formats, sizes, packing, suffixes),
every unit spelling of every variable in both metric systems, every ordered pair
of accesses, and every history of views, against the numbers that were written.
"""

import itertools
import os
import pathlib
import tempfile
import warnings

import numpy as np

from .. import eprem_data as D
from .. import unitref as U
from . import c08
from . import c15

ID = 'C17'
LEVEL = 'model_checking'
RULE = (
    "all files with <= `deviations` deviations; all unit spellings x metric systems; "
    "all ordered pairs of accesses; all histories of <= `length` views; non-trivial: "
    "distinct contents"
)
BOUNDS = {
    'quick': {'deviations': 1, 'length': 2},
    'thorough': {'deviations': 2, 'length': 3},
}
ASSUMPTIONS = [
    "a file is not changed while it is being viewed, except in the listed finding",
    "variables have the dimensions that the simulation gives them",
    "values in single precision stay within its range in the requested system",
]

ARRAYS = tuple(D.DIMS)
SCALARS = ('preEruption',)
AXES = ('time', 'shell', 'species', 'energy', 'mu')
# property: (variable, SI factor of the default unit, mks size, cgs size, SI dimension)
MEV = 1e6 * D.EV
PROPERTIES = {
    'time': ('time', D.DAY, 1, 1, 'T'),
    'energy': ('egrid', MEV, 1, 1e-7, 'L2MT-2'),
    'v': ('vgrid', 1e3, 1, 1e-2, 'LT-1'),
    'mu': ('mu', 1, 1, 1, ''),
    'mass': ('mass', D.AMU, 1, 1e-3, 'M'),
    'charge': ('charge', D.EV, 1, 10 / 2.99792458e10, 'IT'),
    'r': ('R', D.AU, 1, 1e-2, 'L'),
    'theta': ('T', 1, 1, 1, ''), 'phi': ('P', 1, 1, 1, ''),
    'br': ('Br', 1e-9, 1, 1e-4, 'MT-2I-1'), 'btheta': ('Bt', 1e-9, 1, 1e-4, 'MT-2I-1'),
    'bphi': ('Bp', 1e-9, 1, 1e-4, 'MT-2I-1'),
    'ur': ('Vr', 1e3, 1, 1e-2, 'LT-1'), 'utheta': ('Vt', 1e3, 1, 1e-2, 'LT-1'),
    'uphi': ('Vp', 1e3, 1, 1e-2, 'LT-1'),
    'rho': ('Rho', 1e6, 1, 1e6, 'L-3'),
    'f': ('Dist', 1e-18, 1, 1e6, 'T3L-6'),
    'flux': ('flux', 1e4 / MEV, 1, 1e11, 'L-4M-1T1'),
}
UNITS = {
    # The units in which each system represents each property.
    'mks': {'time': 's', 'energy': 'J', 'v': 'm s^-1', 'mu': '1', 'mass': 'kg',
            'charge': 'C', 'r': 'm', 'theta': 'rad', 'phi': 'rad', 'br': 'T',
            'ur': 'm s^-1', 'rho': 'm^-3', 'f': 's^3 m^-6',
            'flux': 'J^-1 m^-2 s^-1 sr^-1'},
    'cgs': {'time': 's', 'energy': 'erg', 'v': 'cm s^-1', 'mu': '1', 'mass': 'g',
            'charge': 'statC', 'r': 'cm', 'theta': 'rad', 'phi': 'rad', 'br': 'G',
            'ur': 'cm s^-1', 'rho': 'cm^-3', 'f': 's^3 cm^-6',
            'flux': 'erg^-1 cm^-2 s^-1 sr^-1'},
}
for _s in UNITS.values():
    _s.update(btheta=_s['br'], bphi=_s['br'], utheta=_s['ur'], uphi=_s['ur'])

# Every way in which a file may differ from the base file.
DEVIATIONS = (
    [('absent', k) for k in (*D.DIMS, *SCALARS)]
    + [('attr', k, v) for k in ('unit', 'both', 'none', 'empty')
       for v in ('R', 'time', 'Dist', 'preEruption', '*')
       if (k, v) not in (('none', '*'), ('empty', '*'))]
    + [('type', k, v) for k, v in (
        ('i4', 'time'), ('f4', 'R'), ('f4', '*'), ('>f8', '*'), ('i8', 'shell'),
        ('i2', 'mass'), ('f8', 'shell'), ('>i4', 'charge'), ('i4', 'preEruption'),
        ('f4', 'preEruption'), ('u8', 'preEruption'), ('u4', 'preEruption'),
        ('i8', 'preEruption'), ('u1', 'preEruption'), ('u2', 'charge'))]
    + [('size', k, n) for k in AXES for n in (1, 4)]
    + [('format', f) for f in ('NETCDF3_CLASSIC', 'NETCDF3_64BIT_OFFSET', 'NETCDF4_CLASSIC')]
    + [('unlimited', 'time'), ('packed', 'R'), ('packed', 'Dist'), ('both', 'flux'),
       ('flux', ''), ('egrid', 2), ('extra', 'unknown'), ('extra', 'dimension'),
       ('suffix', '.nc4'), ('suffix', ''), ('group', 'sub')]
)
# Scalars that a floating-point number of the same size cannot represent.
BIG = {'u8': np.uint64(2 ** 63 + 1), 'i8': np.int64(-2 ** 53 - 1), 'u4': np.uint32(2 ** 32 - 3)}
SPECIES = ['H+', 'He++', 'He+', 'H+']


def settings(devs):
    """The file of some deviations, or None if they exclude each other."""
    kinds = [d[:1] if d[0] in ('size',) else d[:2] for d in devs]
    if len(set(d[0] for d in devs)) < len(devs) and not all(
            d[0] in ('absent', 'size', 'extra', 'type', 'attr', 'packed') for d in devs):
        return None
    if len({d[0] + str(d[1]) for d in devs if d[0] == 'size'}) < sum(
            d[0] == 'size' for d in devs):
        return None
    names = [set(dev_names(d)) for d in devs]
    for a, b in itertools.combinations(range(len(devs)), 2):
        if names[a] & names[b] or '*' in (names[a] | names[b]) and names[a] and names[b]:
            return None
    formats = [d[1] for d in devs if d[0] == 'format']
    if formats and any(d[0] == 'type' and d[1] in ('i8', 'u8', 'u4', 'u2', 'u1') or d[0] == 'group' for d in devs):
        return None
    sizes = {d[1]: d[2] for d in devs if d[0] == 'size'}
    if any(d[0] == 'egrid' for d in devs) and sizes.get('species', 1) > 1:
        return None
    del kinds
    return devs


def dev_names(d):
    if d[0] in ('absent', 'packed'):
        return [d[1]]
    if d[0] in ('attr', 'type'):
        return [d[2]]
    if d[0] in ('both', 'flux'):
        return ['Dist', 'flux']
    if d[0] == 'egrid':
        return ['egrid', 'vgrid']
    return []


def write(path, devs, units=None):
    """Write the file; return {variable: (values, unit, dimensions)}, sizes, scalar."""
    import netCDF4
    kinds = {}
    for d in devs:
        kinds.setdefault(d[0], []).append(d[1:])
    sizes = {'time': 3, 'shell': 4, 'species': 1, 'energy': 3, 'mu': 2}
    for k, n in kinds.get('size', []):
        sizes[k] = n
    species = SPECIES[:sizes['species']]
    common = dict(nt=sizes['time'], ns=sizes['shell'], species=species,
                  ne=sizes['energy'], nm=sizes['mu'],
                  egrid_ndim=2 if 'egrid' in kinds else 1)
    raw = D.values(which='flux' if 'flux' in kinds else 'dist', **common)
    if 'both' in kinds:
        raw['flux'] = D.values(which='flux', **common)['flux']
    absent = [k for (k,) in kinds.get('absent', [])]
    data = netCDF4.Dataset(str(path), 'w', format=kinds.get('format', [('NETCDF4',)])[0][0])
    content = {}
    try:
        for k, n in sizes.items():
            data.createDimension(k, None if ('unlimited' in kinds and k == 'time') else n)
        types = {v: k for k, v in kinds.get('type', [])}
        attrs = {v: k for k, v in kinds.get('attr', [])}
        for k, v in [*raw.items(), ('preEruption', np.array(1.5))]:
            if k == 'preEruption' and types.get(k) in BIG:
                v = np.array(BIG[types[k]])
            if k in absent:
                continue
            dims = D.DIMS.get(k, ())
            if k in ('egrid', 'vgrid') and 'egrid' in kinds:
                dims = ('species', 'energy')
            kind = types.get(k, types.get('*', 'i4' if k == 'shell' else 'f8'))
            unit, scale = (units or {}).get(k, (D.UNITS.get(k, ('julian date',))[0], 1))
            exact = k == 'shell' or v.dtype.kind in 'iu'
            v = v.astype(kind) if exact else np.asarray(v * scale).astype(kind)
            packed = (k,) in kinds.get('packed', [])
            var = data.createVariable(k, 'i2' if packed else kind, dims)
            attr = attrs.get(k, attrs.get('*', 'units'))
            if attr == 'both':
                var.unit, var.units = unit, 'nonsense'
            elif attr == 'empty':
                var.units = unit = ''
            elif attr != 'none':
                setattr(var, attr, unit)
            if packed:
                var.scale_factor, var.add_offset = float(np.max(np.abs(v))) / 2e4, 0.0
            if dims:
                var[:] = v
            else:
                var[...] = v
            content[k] = (v, None if attr == 'none' else unit, dims, packed)
        for (what,) in kinds.get('extra', []):
            if what == 'unknown':
                var = data.createVariable('mystery', 'f8', ('time',))
                var[:] = 0.0
                var.units = 'm'
            else:
                data.createDimension('width', 2)
        if 'group' in kinds:
            data.createGroup('sub')
    finally:
        data.close()
    return content, sizes, species


def space(tier):
    for n in range(BOUNDS[tier]['deviations'] + 1):
        for devs in itertools.combinations(DEVIATIONS, n):
            if settings(devs) is not None:
                yield devs


SPELLINGS = {k: [(D.UNITS[k][0], 1), *v] for k, v in c15.SPELLINGS.items()}
for _p, _f in U.PREFIX.items():
    SPELLINGS['R'].append((f'{_p}m', D.AU / _f))
    SPELLINGS['egrid'].append((f'{_p}eV', 1e6 / _f))
    SPELLINGS['time'].append((f'{_p}s', D.DAY / _f))
    SPELLINGS['Br'].append((f'{_p}T', 1e-9 / _f))
    SPELLINGS['Bp'] = SPELLINGS.get('Bp', []) + [(f'{_p}G', 1e-5 / _f)]
    SPELLINGS['Vt'] = SPELLINGS.get('Vt', []) + [(f'{_p}m/s', 1e3 / _f)]
    SPELLINGS['Rho'].append((f'{_p}m^-3', 1e6 * _f ** 3))
    SPELLINGS['mass'].append((f'{_p}g', D.AMU * 1e3 / _f))


def shards(tier):
    n = len(list(space(tier)))
    step = 8 if tier == 'quick' else 80
    out = [{'kind': 'files', 'from': i, 'to': i + step, 'tier': tier}
           for i in range(0, n, step)]
    out += [{'kind': 'units', 'variable': k, 'tier': tier} for k in SPELLINGS]
    out += [{'kind': 'order', 'system': s, 'tier': tier} for s in ('mks', 'cgs')]
    out += [{'kind': 'history', 'first': i, 'tier': tier} for i in range(len(EVENTS))]
    return out


def run_shard(shard, cx):
    warnings.simplefilter('ignore')
    with tempfile.TemporaryDirectory(prefix='c17-') as tmp:
        tmp = pathlib.Path(tmp).resolve()
        kind, tier = shard['kind'], shard['tier']
        if kind == 'files':
            every = itertools.islice(space(tier), shard['from'], shard['to'])
            for i, devs in enumerate(every):
                check_file(cx, tmp / str(i), devs)
        elif kind == 'units':
            for i in range(len(SPELLINGS[shard['variable']])):
                check_unit(cx, tmp / str(i), shard['variable'], i)
        elif kind == 'order':
            check_order(cx, tmp, shard['system'])
        else:
            histories(cx, tmp, BOUNDS[tier]['length'], shard['first'])


def filename(devs):
    suffix = [d[1] for d in devs if d[0] == 'suffix']
    return 'obs000000' + (suffix[0] if suffix else '.nc')


def check_file(cx, tmp, devs):
    from eprempy import datafile
    tmp.mkdir()
    case = {'kind': 'files', 'devs': devs}
    with cx.case(case):
        path = tmp / filename(devs)
        content, sizes, species = write(path, devs)
        before = path.read_bytes()
        if path.suffix != '.nc':
            check_hint(cx, case, path)
        else:
            for hint in (None, 'nope'):
                check_view(cx, case, datafile.view(path, hint=hint), path, content, sizes)
        view = datafile.view(path, hint='netcdf')
        check_view(cx, case, view, path, content, sizes)
        if path.suffix == '.nc' and not any(
                d[:2] in (('attr', 'none'), ('attr', 'empty')) for d in devs):
            for system in ('mks', 'cgs'):
                check_converted(cx, case, path, content, species, system)
        cx.require(path.read_bytes() == before, case, "the file changed")
        cx.state(repr(sorted((k, v[0].tolist(), v[1]) for k, v in content.items())))


def check_hint(cx, case, path):
    from eprempy import datafile
    for hint in (None, 'nope'):
        try:
            datafile.view(path, hint=hint).arrays
        except Exception:
            pass
        else:
            cx.fail(case, f"{path.name} was read with hint={hint!r}")
    for hint in ('netcdf', 'NetCDF', 'NETCDF', '.nc'):
        cx.require('R' in datafile.view(path, hint=hint).arrays, case, f"hint={hint!r}")


def check_view(cx, case, view, path, content, sizes):
    names = [k for k in ARRAYS if k in content]
    cx.step()
    for again in range(2):
        for attr, want in (('arrays', names), ('axes', AXES),
                           ('scalars', [k for k in SCALARS if k in content]),
                           ('sizes', AXES)):
            got = getattr(view, attr)
            cx.require(set(got) == set(want) and view[attr] is got, case,
                       f"{attr}: {sorted(got)}, not {sorted(want)}")
    for k in names:
        values, unit, dims, packed = content[k]
        a = view.arrays[k]
        cx.require(a.unit == unit and tuple(a.dimensions) == tuple(dims), case,
                   f"{k}: {a.unit!r} {a.dimensions}, not {unit!r} {dims}")
        for form, got in (('data', np.array(a.data[...])), ('array', np.array(a)),
                          ('float', np.array(a, dtype=float)), ('item', np.array(a[:]))):
            same = got.shape == values.shape and (
                np.array_equal(got, values) if not packed
                else np.allclose(got, values, rtol=0, atol=np.max(np.abs(values)) / 2e4))
            cx.require(same, case, f"{k} as {form} is {got.tolist()}")
        first = (0,) * len(dims)
        cx.require(packed or a[first] == values[first], case, f"{k}[{first}] is {a[first]}")
        cx.require(packed or np.array_equal(a[-1], values[-1]), case, f"{k}[-1] is {a[-1]}")
    for k in SCALARS:
        if k in content:
            values, unit, _, _ = content[k]
            s = view.scalars[k]
            integer = np.issubdtype(values.dtype, np.integer)
            cx.require(s.unit == unit and s.value == values and float(s) == values
                       and int(s) == int(values)
                       and isinstance(s.value, int if integer else float), case,
                       f"{k} is {s!r}")
    for k in AXES:
        cx.require(view.axes[k].size == view.sizes[k] == sizes[k], case,
                   f"{k}: {view.axes[k].size}, {view.sizes[k]}, not {sizes[k]}")
    units = {k: v[1] for k, v in content.items() if v[1] is not None}
    cx.require(view.units == units, case, f"units: {view.units}, not {units}")
    cx.require(str(view) == str(view.source) == str(path), case, f"{view} views {path}")
    for bad in ('nope', 'Arrays'):
        try:
            got = view[bad]
        except KeyError:
            pass
        else:
            cx.fail(case, f"view[{bad!r}] is {got!r}")


def sizeof(text):
    """The size of a unit, in SI for its own electromagnetic units."""
    f = 1.0
    from .. import symref as S
    for s, e in S.read(text)[1].items():
        if s == 'nuc':
            continue
        f *= U.symbol(s)[0] ** float(e)
    return f


def close(got, want, rtol=1e-9):
    scale = np.max(np.abs(want)) if want.size else 0
    return got.shape == want.shape and np.allclose(
        got, want, rtol=rtol, atol=1e-3 * rtol * scale)


def check_one(cx, case, name, got, content, system):
    """One property of the interface, in its unit."""
    variable, factor, *_ = PROPERTIES[name]
    values, unit, dims, packed = content[variable]
    want = UNITS[system][name]
    cx.require(terms(str(got.unit)) == terms(want), case,
               f"{name} is in {got.unit}, expected {want}")
    scale = case.get('scale', {}).get(variable, 1)
    expected = np.asarray(values, float) / scale * factor / sizeof(want)
    if variable in ('egrid', 'vgrid') and expected.ndim == 2:
        expected, dims = expected[0], ('energy',)
    array = np.array(got, dtype=float)
    rtol = 1e-9 if values.dtype.itemsize > 4 or values.dtype.kind != 'f' else 1e-6
    ok = close(array, expected, rtol) if not packed else np.allclose(
        array, expected, rtol=0, atol=np.max(np.abs(expected)) / 1e4)
    cx.require(ok, case, f"{name} is {array.tolist()}, expected {expected.tolist()}")
    return dims


def terms(text):
    from .. import symref as S
    return S.read(text)[1]


def raises(f):
    try:
        return None if f() is None else 'value'
    except KeyError:
        return 'KeyError'


def check_converted(cx, case, path, content, species, system):
    from eprempy import datafile
    case = {**case, 'system': system}
    arrays = datafile.arrays(path, system)
    axes = datafile.axes(path, system)
    grid = datafile.grid(path, system)
    cx.step()
    for x in (arrays, axes, grid):
        cx.require(x.source == path and x.system == system, case, f"{x}")
    cx.require(arrays.hasdist is ('Dist' in content) and
               arrays.hasflux is ('flux' in content), case,
               f"hasdist={arrays.hasdist} hasflux={arrays.hasflux}")
    symbols = 'mass' in content and 'charge' in content
    available = {k: PROPERTIES[v][0] in content for k, v in (
        ('time', 'time'), ('energy', 'energy'), ('mu', 'mu'))}
    available |= {'shell': 'shell' in content, 'species': symbols}
    for name, (variable, *_) in PROPERTIES.items():
        def get(name=name):
            return getattr(arrays, name)
        if variable not in content:
            # Distribution and flux are alternatives.
            want = (None if (name == 'f' and 'flux' in content) or name == 'flux'
                    else 'KeyError')
            cx.require(raises(get) == want, case, f"{name}: {raises(get)}, not {want}")
            continue
        dims = content[variable][2]
        if name == 'f' and 'flux' in content:
            cx.require(get() is None, case, "distribution of a flux file")
            continue
        if not all(available[d] for d in dims):
            cx.require(raises(get) == 'KeyError', case,
                       f"{name} without the values of an axis: {raises(get)}")
            continue
        got = get()
        cx.require(get() is got, case, f"{name} was computed twice")
        dims = check_one(cx, case, name, got, content, system)
        cx.require(tuple(got.dimensions) == tuple(dims), case,
                   f"{name} has dimensions {tuple(got.dimensions)}, not {dims}")
        for d in dims:
            check_axis(cx, case, d, got.axes[d], content, species, system)
        if name in ('r', 'theta', 'phi'):
            same = np.array_equal(np.array(getattr(grid, name)), np.array(got))
            cx.require(same, case, f"the grid has another {name}")
    cx.require(list(axes) == list(AXES) and len(axes) == len(AXES), case, f"{list(axes)}")
    for d in AXES:
        if available[d]:
            check_axis(cx, case, d, axes[d], content, species, system)
            cx.require(d in axes and axes[d] is axes[d] is getattr(axes, d), case,
                       f"axis {d} was created twice")
        else:
            cx.require(raises(lambda d=d: axes[d]) == 'KeyError', case, f"axis {d}")
    for bad in ('nope', 'source', 'system', 'view', 'radius', '_time'):
        cx.require(bad not in axes and raises(lambda bad=bad: axes[bad]) == 'KeyError',
                   case, f"{bad!r} is an axis")
    if available['shell']:
        cx.require(np.array_equal(np.array(arrays.shell[:]), content['shell'][0]), case,
                   f"shells are {arrays.shell[:]}")
    if symbols:
        cx.require(list(arrays.species) == species, case, f"species {arrays.species}")
    cx.outcome([sorted(k for k, v in available.items() if v), system])


def check_axis(cx, case, d, axis, content, species, system):
    if d == 'species':
        cx.require(list(axis) == list(species), case, f"species are {list(axis)}")
    elif d == 'shell':
        cx.require([int(x) for x in axis] == content['shell'][0].tolist(), case,
                   f"shells are {list(axis)}")
    else:
        check_one(cx, case, d, axis.data, content, system)
    cx.require(len(axis) == {'time': len(content.get('time', [[]])[0]),
                             'shell': len(content.get('shell', [[]])[0]),
                             'species': len(species),
                             'energy': content['egrid'][0].shape[-1] if 'egrid' in content
                             else 0,
                             'mu': len(content.get('mu', [[]])[0])}[d], case,
               f"axis {d} has length {len(axis)}")


def check_unit(cx, tmp, variable, i):
    """One spelling of the unit of one variable, in both systems."""
    tmp.mkdir()
    spelling, scale = SPELLINGS[variable][i]
    devs = (('flux', ''),) if variable == 'flux' else ()
    case = {'kind': 'units', 'variable': variable, 'i': i, 'spelling': spelling}
    with cx.case(case):
        path = tmp / 'obs000000.nc'
        content, _, species = write(path, devs, {variable: (spelling, scale)})
        case['scale'] = {variable: scale}
        for system in ('mks', 'cgs'):
            check_converted(cx, case, path, content, species, system)
        cx.state([variable, spelling])


def check_order(cx, tmp, system, only=None):
    """No access changes what another gives."""
    from eprempy import datafile
    names = [('arrays', k) for k in PROPERTIES if k != 'flux']
    names += [('arrays', 'species'), ('arrays', 'shell'), ('arrays', 'hasflux')]
    names += [('axes', k) for k in AXES]
    path = tmp / 'obs000000.nc'
    write(path, ())

    def show(interfaces, which):
        got = getattr(interfaces[which[0]], which[1])
        if hasattr(got, 'unit'):
            return str(got.unit), np.array(got).tolist()
        data = getattr(got, 'data', got)
        return str(getattr(data, 'unit', '')), np.array(data).tolist()

    def fresh():
        return {'arrays': datafile.arrays(path, system), 'axes': datafile.axes(path, system)}
    alone = {n: show(fresh(), n) for n in names}
    for first, then in itertools.product(names, repeat=2):
        case = {'kind': 'order', 'system': system, 'first': first, 'then': then}
        if only and [first, then] != only:
            continue
        with cx.case(case):
            cx.step()
            interfaces = fresh()
            for n in (first, then, first):
                got = show(interfaces, n)
                cx.require(got == alone[n], case, f"{n} is {got}, alone {alone[n]}")
            cx.state([first, then])


# Views of two files of the same name, in any way, from any directory.
EVENTS = ['view a', 'view b', 'view ./', 'view link', 'axes a', 'arrays b cgs', 'cd a',
          'cd b', 'hint a', 'replace c']


def histories(cx, tmp, length, start, only=None):
    roots = itertools.count()
    for n in range(1, length + 1):
        for events in itertools.product(range(len(EVENTS)), repeat=n):
            if events[0] != start or only and list(events) != only:
                continue
            run_history(cx, tmp / str(next(roots)), events)


def run_history(cx, root, events):
    from eprempy import datafile
    case = {'kind': 'history', 'events': list(events)}
    home = os.getcwd()
    for d in 'abc':
        (root / d).mkdir(parents=True)
    contents = {
        'a': write(root / 'a/obs000000.nc', ())[0],
        'b': write(root / 'b/obs000000.nc', (('size', 'time', 4),))[0],
        'c': write(root / 'c/obs000000.nc', (('size', 'shell', 1),))[0],
    }
    os.symlink(root / 'b', root / 'link')
    seen = {}
    replaced = 0
    try:
        os.chdir(root / 'a')
        where = 'a'
        with cx.case(case):
            for e in events:
                cx.step()
                what, *rest = EVENTS[e].split()
                if what == 'cd':
                    where = rest[0]
                    os.chdir(root / where)
                elif what == 'view':
                    name = {'./': where, 'link': 'b'}.get(rest[0], rest[0])
                    text = {'./': './obs000000.nc', 'link': root / 'link/obs000000.nc'}.get(
                        rest[0], root / name / 'obs000000.nc')
                    v = datafile.view(text)
                    shape = np.array(v.arrays['R']).shape
                    want = contents[name]['R'][0].shape
                    cx.require(shape == want, case, f"{EVENTS[e]}: shape {shape}, {want}")
                    cx.require(seen.setdefault(name, v) is v, case, f"two views of {name}")
                elif what == 'hint':
                    v = datafile.view(root / 'a/obs000000.nc', hint='netcdf')
                    shape = np.array(v.arrays['R']).shape
                    cx.require(shape == contents['a']['R'][0].shape, case, f"hint: {shape}")
                elif what == 'axes':
                    n = len(datafile.axes(root / 'a/obs000000.nc')['time'])
                    cx.require(n == 3, case, f"axes: {n}")
                elif what == 'arrays':
                    a = datafile.arrays(root / 'b/obs000000.nc', 'cgs')
                    cx.require(a.r.shape == (4, 4) and str(a.r.unit) == 'cm', case, f"{a.r}")
                else:
                    # The file is written anew after it has been viewed.
                    path = root / 'c/obs000000.nc'
                    first = np.array(datafile.view(path).arrays['R']).shape
                    path.unlink()
                    replaced += 1
                    want = write(path, (('size', 'shell', 1 + replaced),))[0]['R'][0].shape
                    got = np.array(datafile.view(path).arrays['R']).shape
                    cx.require(got == want, case, f"shape {first}, rewritten {want}, now "
                               f"{got}", 'replaced-file')
            cx.state(list(events))
    finally:
        os.chdir(home)


def replay(case, cx):
    with tempfile.TemporaryDirectory(prefix='c17-') as tmp:
        tmp = pathlib.Path(tmp).resolve()
        kind = case['kind']
        if kind == 'files':
            check_file(cx, tmp / '0', tuple(tuple(d) for d in case['devs']))
        elif kind == 'units':
            check_unit(cx, tmp / '0', case['variable'], case['i'])
        elif kind == 'order':
            check_order(cx, tmp, case['system'],
                        [tuple(case['first']), tuple(case['then'])])
        else:
            run_history(cx, tmp / '0', case['events'])
