"""C25: a project command line does exactly what the same method call does.

Every sub-command of the project command line and of the script that each
project carries, with every combination of its flags, from every base state:
same effect on disk, log and interface as the reference model of the named
operation, silent unless asked to be verbose, refused without any effect when
the command is malformed.
"""

import contextlib
import copy
import io
import itertools
import os
import pathlib
import runpy
import sys

from .. import projects as P
from .c22 import LAYOUTS
from . import c23

ID = 'C25'
LEVEL = 'model_checking'
RULE = (
    "every sub-command x every combination of options x base state x layout, "
    "through the argument parser; non-trivial: distinct (command, resulting "
    "tree)"
)
BOUNDS = {
    'quick': {'layouts': 'branched', 'base states': 1, 'option combinations': 'all'},
    'thorough': {'layouts': 3, 'base states': 3, 'option combinations': 'all'},
}
ASSUMPTIONS = [
    "mpirun and eprem are stand-ins given with -m and -e",
    "an operation that fails without --force ends with an exception or a "
    "non-zero exit status",
]


def flags(*groups):
    """All combinations of one choice from each group of argument lists."""
    for combo in itertools.product(*groups):
        yield [a for part in combo for a in part]


F = ([], ['-f'])
V = ([], ['--verbose'])


def script_commands(layout):
    br = ([],) if layout == 'plain' else ([], ['-b', 'A'], ['-b', 'B', 'A'], ['-b', 'Z'])
    out = []
    for cfg in ('c.cfg', 'bad.cfg', 'ext/e.cfg', 'missing.cfg'):
        for opts in flags((['-t', 'r1'], ['--target', 'r3']), br, ([], ['-n', '2']), F, V):
            out.append(['run', cfg, *opts])
    for opts in flags(br, F, V):
        out.append(['run', 'c.cfg', *opts])
    for names in (['r1', 'r3'], ['r1', 'r2'], ['r9', 'r1']):
        for opts in flags(br, F, V):
            out.append(['mv', *names, *opts])
    for name in ('r1', 'r*', 'r9'):
        for opts in flags(br, F, V):
            out.append(['rm', name, *opts])
    out += [[], ['nothing'], ['run'], ['mv', 'r1'], ['rm'], ['run', 'c.cfg', '-n', 'x'], ['rm', 'r1', '--unknown']]
    return out


def project_commands():
    out = []
    opts = [
        ([], ['-b', 'X', 'Y']), ([], ['-c', 'my.cfg']), ([], ['-i', 'cfgs']), ([], ['-o', 'out.log']),
        ([], ['-d', 'sims']), ([], ['-l', 'history']), V,
    ]
    for o in flags(*opts):
        out.append(['create', 'N', *o])
        if len(o) <= 3:
            out.append(['create', 'N', '--copy', 'P', *o])
    out += [['create', 'P', '-c', 'x.cfg'], ['create', 'P', '-b', 'A'], ['create', 'sub/N', '-v'], ['create']]
    for o in flags(F, V):
        out += [['reset', 'P', *o], ['rename', 'P', 'Q', *o], ['rename', 'P', 'other', *o], ['remove', 'P', *o]]
    out += [['show', 'P'], ['show', 'P', '-r', 'r1'], ['show', 'P', '-r', 'r1', '-r', 'r2'], ['show', 'P', '-a'],
            ['show', 'P', '-r', 'nobody'], ['show'], ['rename', 'P'], []]
    return out


def invoke(world, argv, script):
    """Run the command in a child; return {status, out}."""
    def body():
        text = io.StringIO()
        status = 0
        sys.argv = ['prog', *argv]
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            try:
                if script:
                    runpy.run_path('P', run_name='__main__')
                else:
                    from eprempy import project
                    project.cli.run()
            except SystemExit as err:
                status = err.code or 0
            except Exception as err:
                status = f"{type(err).__name__}: {err}"
        return {'status': status, 'out': text.getvalue()}
    return c23.in_child(body)


def option(argv, *names, n=1):
    for name in names:
        if name in argv:
            i = argv.index(name) + 1
            if n == 1:
                return argv[i]
            vals = []
            while i < len(argv) and not argv[i].startswith('-'):
                vals.append(argv[i])
                i += 1
            return vals
    return None


def as_operation(argv):
    """The library operation a command line stands for, or None if malformed."""
    if not argv or argv[0] in ('nothing', 'show') or '--unknown' in argv:
        return None
    pos = []
    for a in argv[1:]:
        if a.startswith('-'):
            break
        pos.append(a)
    errors = '-f' not in argv
    branches = option(argv, '-b', n=2)
    kind = argv[0]
    need = {'run': 1, 'mv': 2, 'rm': 1, 'reset': 1, 'rename': 2, 'remove': 1}
    if len(pos) < need.get(kind, 0):
        return None
    if kind == 'run':
        n = option(argv, '-n')
        if n is not None and not n.isdigit():
            return None
        return ['run', option(argv, '-t', '--target'), pos[0], branches, int(n) if n else None, errors]
    if kind == 'mv':
        return ['mv', *pos[:2], branches, errors]
    if kind == 'rm':
        return ['rm', pos[0], branches, errors]
    if kind in ('reset', 'remove'):
        return [kind]
    if kind == 'rename':
        return ['rename', pos[1]]
    return None


def check(world, layout, base, argv, script, cx):
    case = [layout, base, argv, script]
    with cx.case(case):
        model, why = c23.prepare(world, layout, base)
        if not cx.require(why is None, case, lambda: f"before: {why}"):
            return
        env = world.environment
        full = list(argv)
        if script and argv[:1] == ['run'] and len(argv) > 1:
            full += ['-m', env['mpirun'], '-e', env['eprem']]
        others = outside(world)
        code, answer = invoke(world, full, script)
        cx.step()
        if not cx.require(code == 0 and 'escaped' not in answer, case, lambda: f"child: {code} {answer}"):
            return
        if not script and argv[:1] in (['create'], ['show']):
            special(world, case, argv, model, answer, cx)
        else:
            ordinary(world, case, argv, model, answer, cx)
        cx.require(others == outside(world), case, "files outside of the project changed")
        cx.outcome((argv, sorted(P.tree(world.path, skip=('tools',)))))
        cx.state(sorted(P.tree(world.path, skip=('tools',))))
        cx.trace()


def outside(world):
    t = world.bystanders()
    return {k: v for k, v in t.items() if pathlib.Path(k).parts[0] not in ('P', 'Q', 'N', 'sub')}


def verify(world, case, m, cx):
    from eprempy import project
    h = project.Interface(m.name)
    why = P.disk_problem(m, world.environment) or P.log_problem(h, m) or P.handle_problem(h, m)
    return cx.require(why is None, case, lambda: why)


def ordinary(world, case, argv, model, answer, cx):
    op = as_operation(argv)
    bad = answer['status'] not in (0, None)
    verbose = '--verbose' in argv
    if op is None:
        cx.require(bad, case, f"the malformed command was accepted: {answer}")
        verify(world, case, model, cx)
        return
    if op[0] == 'remove':
        cx.require(not (world.path / 'P').exists(), case, "the project was not removed")
        cx.require(bool(answer['out']) == verbose, case, f"printed {answer['out']!r}")
        return
    trial = copy.deepcopy(model)
    if op[0] == 'run' and op[1] is None:
        # the name comes from the clock: adopt it, once for all branches
        areas = model.select(op[3])
        new = {}
        for b, d in model.dirs().items():
            names = {p.name for p in d.iterdir()} - set(model.runs[b])
            cx.require(len(names) == (b in areas), case, f"new runs {names} in {d}")
            for n in names:
                new[b] = n
        cx.require(len(set(new.values())) <= 1, case, f"new runs {new}")
        op[1] = next(iter(new.values()), 'none')
    failed, refused = 0, False
    if op[0] == 'rename':
        refused = op[1] == 'other'
        trial.name = 'P' if refused else op[1]
    else:
        try:
            failed = P.run_model(trial, op)
        except P.Refused:
            trial, refused = model, True
    errors = op[-1] is True
    want = refused or failed and errors
    cx.require(bad == bool(want), case, f"status {answer['status']!r}, expected {'failure' if want else 'success'}")
    if not verbose and not bad:
        cx.require(answer['out'] == '', case, f"printed {answer['out']!r} without --verbose")
    if verbose and not bad and op[0] in ('run', 'mv', 'reset', 'rename'):
        touched = trial.runs != model.runs or trial.name != model.name
        cx.require(bool(answer['out']) or not touched, case, "printed nothing with --verbose")
    verify(world, case, trial, cx)


def special(world, case, argv, model, answer, cx):
    bad = answer['status'] not in (0, None)
    out = answer['out']
    if argv[0] == 'show':
        if len(argv) < 2:
            cx.require(bad, case, "accepted")
            return
        cx.require(not bad, case, f"show failed: {answer}")
        words = out.split()
        if len(argv) == 2:
            for b, rs in model.runs.items():
                for name in [*rs, *([b] if b else [])]:
                    cx.require(name in words, case, f"{name} is not shown in {out!r}")
        else:
            named = [a for a in argv[2:] if not a.startswith('-')]
            if '-a' in argv:
                named = sorted({r for rs in model.runs.values() for r in rs})
            want = {str(d / r) for b, d in model.dirs().items() for r in named if r in model.runs[b]}
            have = {line for line in out.splitlines() if line.startswith('/')}
            cx.require(have == want, case, f"showed {sorted(have)}, expected {sorted(want)}")
        verify(world, case, model, cx)
        return
    verify(world, case, model, cx)
    if len(argv) < 2 or argv[1] == 'P':
        cx.require(bad, case, f"accepted: {answer}")
        return
    cx.require(not bad, case, f"create failed: {answer}")
    cx.require(bool(out) == ('-v' in argv or '--verbose' in argv), case, f"printed {out!r}")
    source = model if '--copy' in argv else None
    base = dict(config=source.config, inputs=source.inputs, output=source.output, rundir=source.rundir,
                logname=source.logname) if source else {}
    for key, name in (('config', '-c'), ('inputs', '-i'), ('output', '-o'), ('rundir', '-d'), ('logname', '-l')):
        v = option(argv, name)
        if v is not None:
            base[key] = v
    branches = option(argv, '-b', n=2) or (source.branches if source else ())
    m = P.Project(argv[1], branches, **base)
    m.files = dict(source.files) if source else {}
    from eprempy import project
    h = project.Interface(argv[1])
    name, m_name = m.name, pathlib.Path(m.name).name
    why = P.disk_problem(m, world.environment) or P.log_problem(h, m)
    cx.require(why is None, case, lambda: why)
    cx.require(h.name == m_name and set(h.branches) == set(branches), case, f"{h!r} {h.branches}")
    # the attributes must be in force: a run uses the declared names
    P.seed_inputs(h, m)
    op = ['run', 'r1', 'c.cfg', None, None, False]
    P.run_model(m, op)
    P.run_real(h, op, world.environment)
    why = P.disk_problem(m, world.environment) or P.log_problem(h, m)
    cx.require(why is None, case, lambda: f"after a run: {why}")


DEFAULTS = {'config': 'eprem.cfg', 'inputs': 'inputs', 'output': 'eprem.log', 'rundir': 'runs', 'logname': 'runs.json', 'branches': ()}
SOURCES = [
    {}, {'branches': ['A', 'B'], 'config': 'x.cfg', 'logname': 'history', 'rundir': 'sims'},
    {'branches': ['A'], 'inputs': 'cfgs', 'output': 'out.log'},
]
CHANGES = {
    'config': (None, '', 'new.cfg', 'x.cfg'), 'inputs': (None, '', 'files'), 'output': (None, '', 'new.log'),
    'rundir': (None, '', 'new'), 'logname': (None, '', 'names'), 'branches': (None, [], '', ['B', 'C'], ['A', 'B'], 'A'),
}


def copies(world, shard, cx):
    """Copies of projects, with every pair of attributes given anew."""
    from eprempy import project
    source = SOURCES[shard['source']]
    given = []
    for a, b in itertools.combinations(CHANGES, 2):
        given += [{a: x, b: y} for x in CHANGES[a] for y in CHANGES[b]]
    given += [{a: x} for a in CHANGES for x in CHANGES[a]]
    for opts in [{}, *given]:
        case = {'source': source, 'copy with': opts}
        with cx.case(case):
            cx.step()
            world.reset()
            old = P.Project('P', source.get('branches', ()), **{k: v for k, v in source.items() if k != 'branches'})
            h = project.Interface('P', **source)
            P.seed_inputs(h, old)
            op = ['run', 'r1', 'c.cfg', None, None, False]
            P.run_model(old, op)
            P.run_real(h, op, world.environment)
            attrs = {**DEFAULTS, **source}
            for k, v in opts.items():
                if v is not None:
                    attrs[k] = v or DEFAULTS[k]
            branches = attrs.pop('branches')
            new = P.Project('N', [branches] if isinstance(branches, str) else branches, **attrs)
            new.files = dict(old.files)
            made = project.Interface('N', copy='P', **opts)
            for model, handle in ((new, made), (new, project.Interface('N')), (old, h), (old, project.Interface('P'))):
                why = P.disk_problem(model, world.environment) or P.log_problem(handle, model) or P.handle_problem(handle, model)
                cx.require(why is None, case, lambda: why)
            cx.outcome([sorted(os.listdir('N')), list(made.branches)])


def shards(tier):
    out = [{'copies': True, 'source': i} for i in range(len(SOURCES))]
    layouts = ('branched',) if tier == 'quick' else tuple(LAYOUTS)
    bases = ('failed',) if tier == 'quick' else tuple(c23.BASES)
    for lay in layouts:
        for base in bases:
            n = len(script_commands(lay))
            out += [{'layout': lay, 'base': base, 'script': True, 'lo': i, 'hi': i + 20} for i in range(0, n, 20)]
            n = len(project_commands())
            out += [{'layout': lay, 'base': base, 'script': False, 'lo': i, 'hi': i + 20} for i in range(0, n, 20)]
    return out


def run_shard(shard, cx):
    world = P.World()
    try:
        if 'copies' in shard:
            copies(world, shard, cx)
            return
        menu = script_commands(shard['layout']) if shard['script'] else project_commands()
        for argv in menu[shard['lo']:shard['hi']]:
            check(world, shard['layout'], shard['base'], argv, shard['script'], cx)
    finally:
        world.close()


def replay(case, cx):
    world = P.World()
    try:
        if isinstance(case, dict):
            copies(world, {'source': SOURCES.index(case['source'])}, cx)
            return
        check(world, *case, cx)
    finally:
        world.close()
