"""C22: project histories -- disk, log and interface always agree.

Every operation sequence (run / mv / rm / reset / rename / remove / create /
copy / reopen / switch handle / make an empty run directory by hand) up to a
depth, on unbranched, branched, prefix-named and fully customized projects,
executed on a real scratch directory with a stand-in
for the simulation executable.  After every step the directory tree, the run
log, the handle, and a freshly opened handle are compared with a reference
model; everything outside of the project must be untouched.
"""

import copy
import itertools
import pathlib

from .. import projects as P

ID = 'C22'
LEVEL = 'model_checking'
RULE = (
    "every operation sequence up to the depth from the alphabet on every "
    "project layout, and short histories with a stray file among the run "
    "directories; non-trivial: distinct (tree, log, handle) state reached"
)
BOUNDS = {
    'quick': {'depth': '3 on the branched layout, 2 on the others', 'layouts': 4, 'alphabet': '23 to 26 operations'},
    'thorough': {'depth': '4 on the branched layout, 3 on the others', 'layouts': 4, 'alphabet': '23 to 26 operations'},
}
ASSUMPTIONS = [
    "mpirun and eprem are replaced with stand-ins that record their arguments",
    "two handles on one project are used alternately, not after one of them "
    "renamed or removed the project",
]
LAYOUTS = {
    'plain': ((), {}),
    'branched': (('A', 'B'), {}),
    'nested': (('A', 'AB', 'B'), {}),
    'custom': (('A', 'B'), {
        'config': 'my.cfg', 'inputs': 'cfgs', 'output': 'out.log',
        'rundir': 'sims', 'logname': 'history.json',
    }),
}

ASKED = ('nested', 'custom')
"""Layouts in which every open project is also asked after every operation."""


def alphabet(layout):
    a, b = ('A', 'B') if layout != 'plain' else (None, None)
    ops = [
        ['run', 'r1', 'c.cfg', None, None, False],
        ['run', 'r10', 'c.cfg', a, 2, False],
        ['run', 'r1', 'bad.cfg', b, None, False],
        ['run', 'r10', 'ext/e.cfg', None, 3, True],
        ['run', 'r1', 'missing.cfg', None, None, False],
        ['mv', 'r1', 'r10', None, False],
        ['mv', 'r1', 'r3', a, False],
        ['mv', 'r10', 'r1', b, True],
        ['rm', 'r1', None, False],
        ['rm', 'r*', b, False],
        ['rm', 'nothing', None, True],
        ['reset'],
        ['rename', 'Q'],
        ['rename', 'P'],
        ['rename', 'other'],
        ['rename', 'sub/Q'],
        ['reopen'],
        ['swap'],
        ['copy', 'C', {}],
        ['remove'],
        ['create'],
        ['mkdir', 'r10', a],
    ]
    if layout != 'plain':
        ops += [
            ['run', 'r3', 'c.cfg', ['B', 'A'], None, False],
            ['mv', 'r1', 'r10', 'Z', False],
        ]
        if layout == 'nested':
            ops += [
                ['run', 'r1', 'c.cfg', 'AB', None, False],
                ['mv', 'r1', 'r10', ['AB'], False],
                ['rm', 'r1*', 'AB', False],
            ]
    else:
        ops += [['copy', 'C', {'branches': ['X', 'Y'], 'config': 'new.cfg'}], ['mv', 'r10', 'r1', None, True]]
    return ops


def last(layout):
    """Operations that are only explored at the end of a history."""
    a = 'A' if layout != 'plain' else None
    return [
        # names that lead out of the run directories, or deeper into them
        ['run', '../x', 'c.cfg', a, None, False],
        ['run', 's/t', 'c.cfg', a, None, False],
        ['run', '..', 'c.cfg', None, None, True],
        ['mv', 'r1', '../x', a, False],
        ['mv', 'r1', 'r10/x', None, False],
        ['mv', '../runs/r1', 'r3', None, False],
        ['mv', '..', 'r3', a, True],
        ['rm', '..', a, False],
        ['rm', '../*', None, False],
        ['rm', '**', a, False],
        ['rm', 'r1/*', None, False],
        ['rm', '../../other' if layout == 'plain' else '../../../other', None, False],
        # a process that is killed
        ['run', 'r3', 'dead.cfg', None, None, True],
        ['rename', 'P/inner'],
        ['rename', 'nodir/Q'],
        ['rename', '.'],
    ]


class Run:
    """One history: real handles next to the model."""

    def __init__(self, world, layout):
        self.world = world
        world.reset()
        self.layout = layout
        self.env = world.environment
        self.branches, self.opts = LAYOUTS[layout]
        self.model = P.Project('P', self.branches, **self.opts)
        self.handle = P.construct('P', self.branches, self.opts)
        P.seed_inputs(self.handle, self.model)
        self.second = None
        self.copy = None
        self.alive = True
        self.outside = self.bystanders()

    def bystanders(self):
        skip = {('P',), ('Q',), ('C',)}
        t = self.world.bystanders()
        return {
            k: v for k, v in t.items()
            if pathlib.Path(k).parts[:1] not in skip and pathlib.Path(k).parts[:2] != ('sub', 'Q')
        }

    def enabled(self, op):
        if op[0] == 'swap':
            return self.alive and self.second is not None
        if op[0] == 'copy':
            return self.alive and self.copy is None
        if op[0] == 'create':
            return True
        return self.alive

    def apply(self, op):
        """Apply one operation; return a problem or None."""
        from eprempy import project
        m = self.model
        kind = op[0]
        if kind == 'reopen':
            self.second, self.handle = self.handle, project.Interface(m.name)
        elif kind == 'swap':
            self.second, self.handle = self.handle, self.second
        elif kind == 'copy':
            name, opts = op[1], dict(op[2])
            new = project.Interface(name, copy=m.name, **opts)
            c = m.clone(name)
            if opts:
                c = P.Project(name, opts.get('branches', m.branches), **{
                    **dict(config=m.config, output=m.output, rundir=m.rundir, logname=m.logname, inputs=m.inputs),
                    **{k: v for k, v in opts.items() if k != 'branches'},
                })
                c.files = dict(m.files)
            self.copy = c
            self.copied = new
        elif kind == 'create':
            opts = dict(self.opts) or {'config': 'eprem.cfg'}
            try:
                new = P.construct(m.name, self.branches, opts)
            except project.ProjectExistsError:
                return "refused to create a removed project" if not self.alive else None
            if self.alive:
                return "recreated an existing project"
            self.handle = new
            self.model = P.Project(m.name, self.branches, **opts)
            P.seed_inputs(new, self.model)
            self.second = None
            self.alive = True
        else:
            trial = copy.deepcopy(m)
            try:
                failed = P.run_model(trial, op)
                refuse = False
            except P.Refused:
                refuse, failed, trial = True, 0, m
            errors = op[-1] is True
            try:
                P.run_real(self.handle, op, self.env)
            except Exception as err:
                if not refuse and not (failed and errors):
                    return f"{op} raised {type(err).__name__}: {err}"
            else:
                if refuse or failed and errors:
                    return f"{op} should have been refused"
            if kind == 'rename' and not refuse:
                self.second = None
            self.model = trial
            if kind == 'remove':
                self.alive = False
                self.second = None
        return None

    def problem(self):
        """Compare everything with the model."""
        from eprempy import project
        m = self.model
        if not self.alive:
            if m.path.exists():
                return "the removed project still exists"
            if bool(self.handle):
                return "a removed project says it is valid"
        else:
            why = (
                P.disk_problem(m, self.env) or P.log_problem(self.handle, m)
                or P.handle_problem(self.handle, m)
            )
            if why:
                return why
            fresh = project.Interface(m.name)
            why = P.handle_problem(fresh, m) or P.log_problem(fresh, m) or P.disk_problem(m, self.env)
            if why:
                return f"after reopening: {why}"
            if not (fresh == self.handle):
                return "two handles of the same project are not equal"
            if self.second is not None:
                why = P.handle_problem(self.second, m) or P.log_problem(self.second, m)
                if why:
                    return f"other handle: {why}"
        if self.copy is not None:
            why = (
                P.disk_problem(self.copy, self.env) or P.log_problem(self.copied, self.copy)
                or P.handle_problem(self.copied, self.copy)
            )
            if why:
                return f"copy: {why}"
            if self.alive and self.copied == self.handle:
                return "a project and its copy are equal"
        for name in ('P', 'Q', 'C', 'sub/Q'):
            expected = self.alive and m.name == name or self.copy is not None and name == 'C'
            if (self.world.path / name).exists() and not expected:
                return f"stray directory {name}"
        now = self.bystanders()
        if now != self.outside:
            diff = sorted(k for k in set(now) | set(self.outside) if now.get(k, 0) != self.outside.get(k, 0))
            return f"files outside of the project changed: {diff}"
        return None

    def ask(self):
        """Ask the open handles what they hold; a problem or None."""
        pairs = [(self.handle, self.model)] if self.alive else []
        if self.alive and self.second is not None:
            pairs.append((self.second, self.model))
        if self.copy is not None:
            pairs.append((self.copied, self.copy))
        for handle, model in pairs:
            why = P.handle_problem(handle, model) or P.log_problem(handle, model)
            if why:
                return f"when asked in between: {why}"
        return None

    def key(self):
        m = self.model
        return (
            m.name, self.alive, self.copy is not None, self.second is not None,
            sorted((str(b), r, rec['cfg'], rec['np'], rec['logged']) for b, rs in m.runs.items() for r, rec in rs.items()),
        )


def stray(world, layout, what, ops, when, cx):
    """Files among the run directories are not runs, and stay."""
    from eprempy import project
    case = [layout, ['stray', what, when, ops]]
    with cx.case(case):
        run = Run(world, layout)
        placed = []
        why = None
        for i in range(len(ops) + 1):
            if i == when:
                for d in run.model.dirs().values():
                    path = d / STRAY[what]
                    placed.append(STRAY[what])
                    path.symlink_to('nowhere') if what == 'link' else path.write_text('mine')
            if i < len(ops):
                why = run.apply(ops[i])
            m = run.model
            for handle in (run.handle, project.Interface(m.name)):
                why = why or P.handle_problem(handle, m) or P.log_problem(handle, m)
            cx.step()
            if not cx.require(why is None, case, lambda: f"after {ops[:i + 1]}: {why}"):
                return
        left = [
            (d / n).is_symlink() if what == 'link' else (d / n).read_text() == 'mine'
            for d in run.model.dirs().values() for n in placed[:1]
        ]
        cx.require(all(left), case, lambda: f"the stray file is gone")
        cx.trace()
        cx.outcome((layout, what, when, str(ops)))


STRAY = {'file': 'notes.txt', 'hidden': '.r9', 'link': 'r9'}
STRAYED = [
    [],
    [['run', 'r1', 'c.cfg', None, None, True]],
    [['run', 'r1', 'c.cfg', None, None, True], ['mv', 'r1', 'r2', None, True]],
    [['run', 'r1', 'c.cfg', None, None, True], ['rm', 'r1', None, True]],
    [['run', 'r1', 'c.cfg', None, None, True], ['rename', 'Q']],
]


def shards(tier):
    return [{'layout': lay, 'stray': what} for lay in LAYOUTS for what in STRAY] + [
        {'layout': lay, 'first': i, 'second': j, 'depth': depth(lay, tier)}
        for lay in LAYOUTS
        for i in range(len(alphabet(lay)))
        for j in (range(-1, len(alphabet(lay))) if depth(lay, tier) > 2 else [None])
    ]


def depth(layout, tier):
    return (2 if tier == 'quick' else 3) + (layout == 'branched')


def execute(world, layout, history, cx):
    """Replay a history; report; return (run, ok)."""
    case = [layout, history]
    run = None
    with cx.case(case):
        run = Run(world, layout)
        for i, op in enumerate(history):
            if not run.enabled(op):
                return None
            why = run.apply(op)
            last = i == len(history) - 1
            if why is None and last:
                why = run.problem()
            elif why is None and layout in ASKED:
                why = run.ask()
            cx.step()
            if not cx.require(why is None, case, lambda: f"after {history[:i + 1]}: {why}"):
                return None
        cx.trace()
        k = (layout, run.key())
        cx.outcome(k)
        cx.state(k)
        return run
    return None


def run_shard(shard, cx):
    world = P.World()
    ops = alphabet(shard['layout'])
    try:
        if 'stray' in shard:
            for history in STRAYED:
                for when in range(len(history) + 1):
                    stray(world, shard['layout'], shard['stray'], history, when, cx)
            return
        head = [ops[shard['first']]]
        if shard['second'] == -1:
            execute(world, shard['layout'], head, cx)
        else:
            head += [] if shard['second'] is None else [ops[shard['second']]]
            explore(world, shard['layout'], head, ops, shard['depth'], cx)
    finally:
        world.close()


def explore(world, layout, history, ops, depth, cx):
    if execute(world, layout, history, cx) is None:
        return
    if len(history) == depth:
        return
    if len(history) == depth - 1:
        ops = ops + last(layout)
    for op in ops:
        explore(world, layout, history + [op], ops, depth, cx)


def replay(case, cx):
    world = P.World()
    try:
        if case[1] and case[1][0] == 'stray':
            stray(world, case[0], case[1][1], case[1][3], case[1][2], cx)
        else:
            execute(world, case[0], case[1], cx)
    finally:
        world.close()
