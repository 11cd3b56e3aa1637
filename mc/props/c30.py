"""C30: a plot of an array shows its values, against the axis, in the units of its labels.

Explicit-state search.  A state is a physical array together with an independent
description (values in SI, named axes with their labels in SI).  The transitions
are conversions, subscripts, transpositions and scalings; plotting is a
transition that must leave the array as it was.  In every state the check makes
the whole product of plot requests (what is on the x axis, the unit, the labels,
options of the plot and of the axes, shown or saved) and looks at the figure at
the moment it is shown or saved.  The judgement is semantic: the numbers on the
curve times the unit written on the label are the physical values.
"""

import pathlib
import re
import tempfile

import numpy as np

from .. import phys, unitref as U

ID = 'C30'
LEVEL = 'model_checking'
RULE = (
    "every plot request (x: nothing, each dimension, an unknown name, measured "
    "sequence, coordinates, vector, array, list, numpy array, too short, wrong type; "
    "unit: none, consistent, inconsistent; labels: none, given; options: none, "
    "format string, line and axes options; shown or saved) in every state reached "
    "from every array of the catalogue by conversions, subscripts, transpositions, "
    "scalings and earlier plots up to the depth bound; non-trivial: distinct "
    "(curve, labels) or refusals"
)
BOUNDS = {
    'quick': {'depth': 2, 'requests at the last level': 'all units, by the dimensions and 3 other forms of x'},
    'thorough': {'depth': 3, 'requests at the last level': 'all'},
}
ASSUMPTIONS = [
    "matplotlib draws what it is given; the figure is read when it is shown, saved or closed",
    "an array that is not logically one-dimensional, an unknown name and an x of "
    "another length or type must be refused; the type of error is not prescribed",
    "the label of an explicit x without a name may be empty; if it has a unit, it "
    "must be the unit of the numbers",
]

COORD = ('c', 'd', (0.0, 1.0, 4.0))
SHORT = ('c', 'km', (2.0, 5.0))
ONE = ('c', 'au', (1.5,))
P3 = ('p', None, (4, 7, 9))
S3 = ('s', None, ('H+', 'He++', 'O'))
S1 = ('s', None, ('H+',))

ARRAYS = {
    'line': ('m s^-1', (('time', COORD),)),
    'points': ('km', (('n', P3),)),
    'symbols': ('1', (('species', S3),)),
    'last': ('J', (('species', S1), ('time', COORD))),
    'first': ('nT', (('time', COORD), ('species', S1), ('r', ONE))),
    'middle': ('cm^-3', (('r', ONE), ('n', P3), ('species', S1))),
    'plane': ('km s^-1', (('r', SHORT), ('time', COORD))),
    'flux': ('cm^-2 s^-1 sr^-1 MeV^-1 nuc', (('time', COORD), ('r', ONE))),
    'single': ('m', (('r', ONE),)),
    'deep': ('m', (('r', SHORT), ('species', S1), ('n', P3))),
}
OTHER = {
    'm s^-1': ('km s^-1', 'au d^-1'), 'km': ('m', 'au'), '1': ('1', '#'), 'J': ('MeV', 'erg'),
    'nT': ('T', 'uT'), 'cm^-3': ('m^-3', 'km^-3'), 'km s^-1': ('cm s^-1', 'm h^-1'),
    'cm^-2 s^-1 sr^-1 MeV^-1 nuc': ('m^-2 s^-1 sr^-1 J^-1 nuc', 'km^-2 h^-1 sr^-1 keV^-1 nuc'),
    'm': ('cm', 'au'),
}
WRONG = 'kg'


class S:
    """Values in `unit`, and named axes."""

    def __init__(self, values, unit, axes, home):
        self.values, self.unit, self.axes, self.home = values, unit, axes, home

    @property
    def line(self):
        return sum(n > 1 for n in self.values.shape) == 1

    def key(self):
        return (self.unit, self.axes, self.values.tolist())


def start(name):
    unit, axes = ARRAYS[name]
    shape = [len(a[2]) for _, a in axes]
    values = (np.arange(float(np.prod(shape))) * 1.25 + 0.5).reshape(shape)
    values.flat[-1] *= -1
    return S(values, unit, axes, unit)


def axis(a):
    from eprempy import measured, physical
    kind, unit, labels = a
    if kind == 'c':
        return physical.coordinates(measured.sequence(list(labels), unit))
    if kind == 'p':
        return physical.points(list(labels))
    return physical.symbols(list(labels))


def make(s):
    from eprempy import physical
    axes = physical.axes(**{n: axis(a) for n, a in s.axes})
    return physical.array(s.values.copy(), unit=s.unit, axes=axes)


def moves(s):
    out = [('unit', u) for u in (s.home, *OTHER[s.home]) if u != s.unit]
    out += [('take', i, k) for i, n in enumerate(s.values.shape) if n > 1
            for k in ('first', 'tail')]
    if s.values.ndim > 1:
        out.append(('turn',))
    out += [('scale',), ('plot',)]
    return out


def step(x, s, move):
    """The array after the move and its description."""
    if move[0] == 'unit':
        r = float(U.canonical(s.unit)[0]) / float(U.canonical(move[1])[0])
        return x.withunit(move[1]), S(s.values * r, move[1], s.axes, s.home)
    if move[0] == 'take':
        i = move[1]
        sub = slice(0, 1) if move[2] == 'first' else slice(1, None)
        full = [slice(None)] * s.values.ndim
        full[i] = sub
        axes = tuple((n, (a[0], a[1], a[2][sub]) if j == i else a)
                     for j, (n, a) in enumerate(s.axes))
        return x[tuple(full)], S(s.values[tuple(full)], s.unit, axes, s.home)
    if move[0] == 'turn':
        names = [n for n, _ in s.axes][::-1]
        return x.transpose(*names), S(s.values.transpose(), s.unit, s.axes[::-1], s.home)
    if move[0] == 'scale':
        return x * -2.0, S(s.values * -2.0, s.unit, s.axes, s.home)
    draw(x, {}, (), None)
    return x, s


class Spy:
    """Reads every figure when it is shown, saved or closed."""

    def __enter__(self):
        import matplotlib.figure
        import matplotlib.pyplot as plt
        self.plt, self.figure = plt, matplotlib.figure.Figure
        self.old = plt.show, plt.close, self.figure.savefig
        self.seen, self.shown, self.saved = None, 0, 0
        spy = self

        def show(*args, **kwargs):
            spy.read()
            spy.shown += 1

        def close(*args, **kwargs):
            spy.read()
            return spy.old[1](*args, **kwargs)

        def savefig(this, *args, **kwargs):
            spy.read(this)
            spy.saved += 1
            return spy.old[2](this, *args, **kwargs)

        plt.show, plt.close, self.figure.savefig = show, close, savefig
        return self

    def __exit__(self, *args):
        self.plt.show, self.plt.close, self.figure.savefig = self.old
        self.left = len(self.plt.get_fignums())
        self.plt.close('all')

    def read(self, figure=None):
        if self.seen is not None:
            return
        if figure is None:
            if not self.plt.get_fignums():
                return
            figure = self.plt.gcf()
        self.seen = [
            {
                'xlabel': a.get_xlabel(), 'ylabel': a.get_ylabel(), 'title': a.get_title(),
                'xscale': a.get_xscale(),
                'lines': [
                    (list(l.get_xdata()), list(l.get_ydata()), l.get_color(), l.get_label(), l.get_linewidth())
                    for l in a.lines
                ],
            } for a in figure.axes
        ]


def draw(x, kwargs, args, path):
    """Plot; the figure, or the error."""
    with Spy() as spy:
        try:
            if path is not None:
                kwargs = dict(kwargs, path=path)
            x.plot(*args, **kwargs)
        except Exception as err:  # noqa: BLE001
            return {'error': type(err).__name__, 'text': str(err)[:100]}
    return {'figure': spy.seen, 'shown': spy.shown, 'saved': spy.saved, 'left': spy.left}


def xs(s):
    """name -> (x of the plot, expected labels, unit, name on the label) or None if refused."""
    from eprempy import measured, physical
    n = max(s.values.shape, default=1)
    numbers = [3.0 + 2 * i for i in range(n)]
    out = {}
    if s.line:
        name, a = next(p for p in s.axes if len(p[1][2]) > 1)
        out['default'] = (None, a[2], a[1], name)
    else:
        out['default'] = (None, None)
    for d, a in s.axes:
        out[f'dimension {d}'] = (d, a[2], a[1], d) if s.line and len(a[2]) == n else (d, None)
    out['unknown'] = ('no such dimension', None)
    out['sequence'] = (measured.sequence(numbers, 'km'), numbers, 'km', None)
    out['converted'] = (measured.sequence(numbers, 'km').withunit('m'),
                        [1e3 * i for i in numbers], 'm', None)
    out['coordinates'] = (physical.coordinates(measured.sequence(numbers, 'h')), numbers, 'h', None)
    out['vector'] = (physical.vector(numbers, unit='kg'), numbers, 'kg', None)
    out['column'] = (physical.array(np.array(numbers).reshape(n, 1), unit='s'), numbers, 's', None)
    out['list'] = (list(numbers), numbers, None, None)
    out['numpy'] = (np.array(numbers), numbers, None, None)
    out['short'] = (measured.sequence(numbers + [1.0], 'km'), None)
    out['number'] = (3.0, None)
    if not s.line:
        out = {k: (v[0], None) for k, v in out.items()}
    return out


LABELS = ({}, {'xlabel': 'along'}, {'ylabel': 'up'}, {'xlabel': 'along', 'ylabel': 'up'})
OPTIONS = (
    ((), {}),
    (('k',), {}),
    (('r--',), {'label': 'mine', 'linewidth': 3.5}),
    ((), {'title': 'A title', 'xscale': 'log', 'color': 'g'}),
)


def requests(s, full):
    """Every plot request: (x, unit, labels, options, saved)."""
    units = (None, *OTHER[s.home], WRONG)
    names = [n for n in xs(s) if full or n in ('default', 'coordinates', 'list')
             or n.startswith('dimension')]
    for name in names:
        for u in range(len(units)):
            yield name, u, 0, 0, 0
        if not full:
            yield name, 1, 3, 2, 0
            continue
        yield name, 0, 0, 0, 1
        for l in range(1, len(LABELS)):
            for o in range(len(OPTIONS)):
                yield name, l % 2, l, o, 0
        for o in range(1, len(OPTIONS)):
            yield name, 0, 0, o, 0


TEX = re.compile(r'\\mathrm\{([^{}]*)\}')


def unit_of(label):
    """The unit between the brackets of a label as (factor, dimension), or None."""
    found = re.search(r'\[(.*)\]', label)
    if not found:
        return None
    text = found.group(1).replace('$', ' ')
    text = TEX.sub(r'\1', text)
    text = text.replace('\\#', '#')
    text = re.sub(r'\^\{([^{}]*)\}', r'^\1', text)
    text = ' '.join(text.split())
    return U.canonical(text or '1')


def same(a, b):
    """The same unit, up to the rounding of its factor."""
    return a is not None and a[1] == b[1] and abs(a[0] - b[0]) <= 1e-12 * abs(b[0])


def close(a, b):
    return len(a) == len(b) and np.allclose(
        np.array(a, float), np.array(b, float), rtol=1e-9, atol=0.0)


def judge(cx, case, x, s, request, scratch):
    with cx.case(case):
        _judge(cx, case, x, s, request, scratch)


def _judge(cx, case, x, s, request, scratch):
    name, u, l, o, saved = request
    unit = (None, *OTHER[s.home], WRONG)[u]
    this, *want = xs(s)[name]
    args, options = OPTIONS[o]
    kwargs = dict(LABELS[l], **options)
    if this is not None:
        kwargs['x'] = this
    if unit is not None:
        kwargs['unit'] = unit
    path = pathlib.Path(scratch) / 'figure.png' if saved else None
    if path is not None and path.exists():
        path.unlink()
    got = draw(x, kwargs, args, path)
    cx.step()
    if want == [None] or unit == WRONG:
        cx.require('error' in got, case, f"this plot must be refused: {got}", 'refused')
        return
    if 'error' in got:
        cx.fail(case, f"the plot was refused: {got}", 'error')
        return
    labels, xunit, xname = want
    figure = got['figure']
    if not figure or len(figure) != 1 or len(figure[0]['lines']) != 1:
        cx.fail(case, f"not a figure of one curve: {figure}", 'figure')
        return
    cx.require(got['left'] == 0, case, "the figure stays open", 'open')
    if saved:
        ok = path.exists() and path.read_bytes()[:4] == b'\x89PNG'
        cx.require(ok and not got['shown'], case, "the figure was not saved (only)", 'saved')
    else:
        cx.require(got['shown'] == 1 and not got['saved'], case, "the figure was not shown (once)", 'shown')
    axes = figure[0]
    px, py, color, label, width = axes['lines'][0]
    # What the curve and its labels say.
    si = s.values.ravel() * float(U.canonical(s.unit)[0])
    into = float(U.canonical(unit or s.unit)[0])
    try:
        cx.require(close(py, si / into), case, f"the curve is {py}, not {(si / into).tolist()}", 'values')
        if isinstance(labels[0], str):
            cx.require([str(i) for i in px] == list(labels), case, f"x is {px}, not {labels}", 'x')
        else:
            cx.require(all(isinstance(i, (int, float, np.number)) for i in px), case,
                       f"x has things that are not numbers: {[type(i).__name__ for i in px]}", 'x type')
            cx.require(close(px, labels), case, f"x is {px}, not {labels}", 'x')
    except (TypeError, ValueError) as err:
        cx.fail(case, f"the curve is {px}, {py}: {err}", 'values')
        return
    given = LABELS[l]
    if 'ylabel' in given:
        cx.require(axes['ylabel'] == given['ylabel'], case, f"y label {axes['ylabel']!r}", 'given label')
    else:
        cx.require(same(unit_of(axes['ylabel']), U.canonical(unit or s.unit)), case,
                   f"the values are in {unit or s.unit!r}, the label says {axes['ylabel']!r}", 'y unit')
    text = axes['xlabel']
    if 'xlabel' in given:
        cx.require(text == given['xlabel'], case, f"x label {text!r}", 'given label')
    else:
        if xname is not None:
            cx.require(text.lower().split('[')[0].strip() == xname, case,
                       f"x is {xname!r}, the label says {text!r}", 'x name')
        if xname is not None and xunit is not None or '[' in text:
            cx.require(xunit is not None and same(unit_of(text), U.canonical(xunit)), case,
                       f"x is in {xunit!r}, the label says {text!r}", 'x unit')
    cx.require(axes['title'] == options.get('title', ''), case, f"title {axes['title']!r}", 'option')
    if not isinstance(labels[0], str):
        cx.require(axes['xscale'] == options.get('xscale', 'linear'), case, f"scale {axes['xscale']}", 'option')
    if args or 'color' in options:
        from matplotlib.colors import to_rgba
        given = args[0][0] if args else options['color']
        cx.require(to_rgba(color) == to_rgba(given), case, f"color {color}", 'option')
    if 'label' in options:
        cx.require((label, width) == ('mine', 3.5), case, f"{label!r}, {width}", 'option')
    cx.outcome((s.key(), px if isinstance(labels[0], str) else tuple(map(float, px)), tuple(py), text, axes['ylabel']))


def unchanged(cx, case, x, s):
    """The array is what its description says, and so is its squeezed form."""
    now = np.array(x, float)
    cx.require(now.shape == s.values.shape and np.allclose(now, s.values, rtol=1e-9, atol=0.0)
               and same(U.canonical(x.unit), U.canonical(s.unit)), case,
               f"the array is {now.tolist()} {x.unit}", 'array')
    cx.require(list(x.dimensions) == [n for n, _ in s.axes], case, f"dimensions {x.dimensions}", 'array')
    flat = x.squeezed
    cx.require(isinstance(flat, np.ndarray) and flat.shape == s.values.squeeze().shape
               and np.allclose(flat, s.values.squeeze(), rtol=1e-9, atol=0.0), case,
               f"squeezed gives {flat!r}", 'squeezed')
    for n, a in s.axes:
        want = a[2] if a[0] != 'c' else tuple(
            round(i * float(U.canonical(a[1])[0]), 12) for i in a[2])
        got = phys.labels_of(x.axes[n])
        cx.require(list(got) == list(want) or close(got, want), case, f"labels {n}: {got}", 'array')


def explore(cx, case, x, s, depth, scratch, full=True):
    if not cx.state(s.key()):
        return
    unchanged(cx, case, x, s)
    for request in requests(s, full or depth > 0):
        judge(cx, case + [['request', *request]], x, s, request, scratch)
    unchanged(cx, case, x, s)
    if depth == 0:
        return
    for move in moves(s):
        new = step(x, s, move)
        if move[0] == 'plot':
            unchanged(cx, case + [list(move)], *new)
            continue
        explore(cx, case + [list(move)], *new, depth - 1, scratch, full)


def shards(tier):
    return [{'array': n, 'move': m, 'depth': BOUNDS[tier]['depth'], 'full': tier == 'thorough'}
            for n in ARRAYS for m in [None, *range(len(moves(start(n))))]]


def run_shard(shard, cx):
    s = start(shard['array'])
    case = [shard['array']]
    with tempfile.TemporaryDirectory() as scratch:
        if shard['move'] is None:
            explore(cx, case, make(s), s, 0, scratch)
            return
        move = moves(s)[shard['move']]
        x, s = step(make(s), s, move)
        explore(cx, case + [list(move)], x, s, shard['depth'] - 1, scratch, shard['full'])


def replay(case, cx):
    s = start(case[0])
    x = make(s)
    with tempfile.TemporaryDirectory() as scratch:
        for move in case[1:]:
            if move[0] == 'request':
                judge(cx, case, x, s, tuple(move[1:]), scratch)
            else:
                x, s = step(x, s, tuple(move))
        unchanged(cx, case, x, s)
