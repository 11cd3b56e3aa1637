"""C23: a crash or an I/O failure during a project operation loses nothing else.

Every operation, from every base state, is executed in a child process that is
killed (or whose file operation fails) at the k-th file-system mutation, for
every k until the operation completes.  The interpreter's audit events are the
fault points, so the enumeration follows what the code really does.  After each
fault the project must open again, runs and log entries the operation was not
about must be intact, nothing may appear or vanish outside of the project, and
repeating the operation must succeed.
"""

import contextlib
import copy
import errno
import io
import json
import os
import pathlib
import resource
import signal
import sys

from .. import projects as P
from .c22 import LAYOUTS

ID = 'C23'
LEVEL = 'model_checking'
RULE = (
    "every file-system mutation of every operation from every base state as a "
    "crash point and as a failing call; non-trivial: distinct directory tree "
    "left behind"
)
BOUNDS = {
    'quick': {'base states': 3, 'faults per operation': 1, 'layouts': 3},
    'thorough': {'base states': 3, 'faults per operation': '2 (the second during the repeated operation)', 'layouts': 3},
}
ASSUMPTIONS = [
    "buffered data that was not flushed when the process dies is lost; a "
    "rename is atomic",
    "the interrupted run itself may be left incomplete and unlogged; an "
    "interrupted creation or removal may leave a directory that is refused",
]
BASES = {
    'empty': [],
    'runs': [['run', 'r1', 'c.cfg', None, None, False], ['run', 'r2', 'c.cfg', 'first', None, False]],
    'failed': [['run', 'r2', 'c.cfg', None, None, False], ['run', 'r1', 'bad.cfg', 'first', None, False]],
}
OPS = [
    ['run', 'r3', 'c.cfg', None, None, False],
    ['run', 'r1', 'c.cfg', None, None, False],
    ['mv', 'r1', 'r3', None, False],
    ['mv', 'r2', 'r3', 'first', False],
    ['rm', 'r1', None, False],
    ['rm', 'r*', 'first', False],
    ['reset'],
    ['rename', 'Q'],
    ['copy'],
    ['remove'],
    ['create'],
]
MODES = ('crash', 'error', 'torn:0', 'torn:40', 'full:0', 'full:40')
MUTATIONS = {'os.mkdir', 'os.rename', 'os.remove', 'os.rmdir', 'os.truncate', 'subprocess.Popen', 'os.link', 'os.symlink'}


def concrete(op, layout):
    """Fill in the branch selection."""
    first = 'A' if layout != 'plain' else None
    return [first if x == 'first' else x for x in op]


class Fault:
    """Kill the process, or fail the call, at the k-th mutation."""

    def __init__(self, root, k, mode):
        self.root, self.k, self.mode = str(root), k, mode
        self.n = 0
        self.on = False

    def __call__(self, event, args):
        if not self.on:
            return
        if event == 'open':
            path, mode, flags = args
            writing = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
            if not writing:
                return
        elif event not in MUTATIONS:
            return
        elif event == 'subprocess.Popen':
            path = self.root
        else:
            path = args[0]
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if isinstance(path, (str, os.PathLike)):
            path = os.fspath(path)
            if os.path.isabs(path) and not path.startswith(self.root):
                return
        elif event == 'open':
            return
        if self.mode not in ('crash', 'error') and event != 'open':
            return
        self.n += 1
        if self.n == self.k:
            if self.mode == 'crash':
                os._exit(77)
            if self.mode == 'error':
                raise OSError(errno.ENOSPC, 'No space left on device')
            # From here on, no file can grow beyond a few bytes: the file that
            # is being opened is torn, by a crash or by a failing write.
            kind, size = self.mode.split(':')
            if kind == 'torn':
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
            resource.setrlimit(resource.RLIMIT_FSIZE, (int(size), hard))

    def stop(self):
        self.on = False
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        hard = resource.getrlimit(resource.RLIMIT_FSIZE)[1]
        resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))


def in_child(body):
    """Run `body()` in a forked child; return (exit code, JSON answer)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = body()
            os.write(w, json.dumps(out, default=repr).encode())
            os._exit(0)
        except BaseException as err:  # noqa: the child must never return
            with contextlib.suppress(BaseException):
                os.write(w, json.dumps({'escaped': repr(err)}).encode())
            os._exit(78)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    text = b''.join(chunks).decode()
    return os.waitstatus_to_exitcode(status), json.loads(text) if text else None


def perform(h, op, layout, env):
    from eprempy import project
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if op[0] == 'copy':
            project.Interface('C', copy='P')
        elif op[0] == 'create':
            P.construct('N', *LAYOUTS[layout])
        else:
            P.run_real(h, op, env)


def faulted(world, op, layout, k, mode, root):
    """Perform `op` on the project `root` in a child with fault k."""
    env = world.environment

    def body():
        from eprempy import project
        h = project.Interface(root)
        str(h), h.runs
        fault = Fault(world.path, k, mode)
        sys.addaudithook(fault)
        fault.on = True
        raised = None
        try:
            perform(h, op, layout, env)
        except Exception as err:
            raised = f"{type(err).__name__}: {err}"
        fault.stop()
        out = {'raised': raised, 'events': fault.n, 'reached': fault.n >= k}
        if raised and op[0] not in ('remove', 'create', 'copy'):
            # the handle must still describe what is on disk
            try:
                out['root'] = str(h.root)
                out['runs'] = {r: sorted(b) for r, b in h.runs.items()}
                out['log'] = sorted(h.log)
            except Exception as err:
                out['broken'] = f"{type(err).__name__}: {err}"
        return out

    return in_child(body)


def prepare(world, layout, base):
    """Build the base state; return its model."""
    world.reset()
    branches, opts = LAYOUTS[layout]
    m = P.Project('P', branches, **opts)
    h = P.construct('P', branches, opts)
    P.seed_inputs(h, m)
    for op in BASES[base]:
        op = concrete(op, layout)
        P.run_model(m, op)
        P.run_real(h, op, world.environment)
    why = P.disk_problem(m, world.environment) or P.log_problem(h, m)
    return m, why


def targets(m, op):
    """(branch, run) pairs the operation is about."""
    import fnmatch
    if op[0] in ('run',):
        return {(b, op[1]) for b in m.select(op[3])}
    if op[0] == 'mv':
        return {(b, r) for b in m.select(op[3]) for r in op[1:3]}
    if op[0] == 'rm':
        return {(b, r) for b in m.select(op[2]) for r in fnmatch.filter(list(m.runs[b]), op[1])}
    if op[0] in ('reset', 'remove'):
        return {(b, r) for b in m.runs for r in m.runs[b]}
    return set()


def outside(world):
    t = world.bystanders()
    return {k: v for k, v in t.items() if pathlib.Path(k).parts[0] not in ('P', 'Q', 'C', 'N')}


def intact(world, before, after, op, snapshot, strict_log=True):
    """Invariants right after the fault; (message or None, project name)."""
    here = [n for n in ('P', 'Q') if (world.path / n).exists()]
    if op[0] == 'remove' and len(here) < 1:
        return None, None
    if len(here) != 1:
        return f"project directories: {here}", None
    name = here[0]
    if name == 'Q' and op[0] != 'rename':
        return "the project moved", None
    if op[0] != 'create' and (world.path / 'N').exists() or op[0] != 'copy' and (world.path / 'C').exists():
        return "a stray project appeared", None
    root = world.path / name
    now = P.tree(root)
    about = targets(before, op)
    old = copy.deepcopy(before)
    old.name = name
    for b, d in old.dirs().items():
        for r in old.runs[b]:
            if (b, r) in about:
                continue
            rel = os.path.relpath(d / r, root)
            want = {k: v for k, v in snapshot.items() if k == rel or k.startswith(rel + '/')}
            have = {k: v for k, v in now.items() if k == rel or k.startswith(rel + '/')}
            if want != have:
                return f"run {rel} changed, which the operation was not about", name
        if op[0] == 'remove':
            continue
        extra = {p.name for p in d.iterdir()} - set(old.runs[b]) - {r for c, r in about if c == b}
        if extra:
            return f"unexpected runs {extra}", name
    if op[0] == 'mv':
        for b, d in old.dirs().items():
            a, t = op[1:3]
            if (b, a) in about and a in before.runs[b] and t not in before.runs[b]:
                if (d / a).exists() == (d / t).exists():
                    return f"renaming {a} left {sorted(p.name for p in d.iterdir())}", name
    if op[0] == 'remove':
        return None, name
    for f, text in before.files.items():
        if now.get(f"{before.inputs}/{f}") != text:
            return f"input file {f} was lost", name
    if now.get('__main__.py') != snapshot['__main__.py']:
        return "the script of the project changed", name
    # The log can be read, and no entry was lost.
    try:
        log = json.loads((root / before.logname).read_text())
    except (OSError, ValueError) as err:
        return f"the log cannot be read: {err}", name
    first = json.loads(snapshot[before.logname])
    for key, entry in first.items():
        if not isinstance(entry, dict):
            if log.get(key) != entry:
                return f"log entry {key!r} was lost", name
            continue
        p = pathlib.Path(key)
        rel = p.relative_to(before.path)
        b = rel.parts[0] if before.branches else None
        alias = {key, str(world.path / 'Q' / rel)} if op[0] == 'rename' else {key}
        if op[0] == 'mv' and p.name == op[1]:
            alias.add(str(p.with_name(op[2])))
        if op[0] in ('rm', 'reset') and (b, p.name) in about:
            continue
        if not any(log.get(a) == entry for a in alias):
            return f"the log entry of {rel} was lost", name
    return None, name


def explore(world, layout, base, op, mode, second, cx):
    op = concrete(op, layout)
    k = 0
    while True:
        k += 1
        case = [layout, base, op, mode, k]
        done = one(world, case, cx, second)
        if done is not False:
            return


def one(world, case, cx, second=False):
    """One fault; false if there are more fault points behind it."""
    layout, base, op, mode, k, *more = case
    with cx.case(case):
        before, why = prepare(world, layout, base)
        if not cx.require(why is None, case, lambda: f"before the fault: {why}"):
            return None
        snapshot = P.tree(before.path)
        bystanders = outside(world)
        after = copy.deepcopy(before)
        if op[0] not in ('copy', 'create', 'remove'):
            P.run_model(after, op)
        code, answer = faulted(world, op, layout, k, mode, 'P')
        cx.step()
        if code == 78:
            cx.fail(case, f"child failed: {answer}")
            return None
        completed = code == 0 and not answer['reached']
        if completed:
            cx.require(answer['raised'] is None, case, lambda: f"without a fault: {answer}")
        why, name = intact(world, before, after, op, snapshot)
        if not cx.require(why is None, case, lambda: f"after {mode} {k} of {op}: {why}"):
            return True if completed else False
        now = outside(world)
        cx.require(now == bystanders, case, lambda: f"files outside changed: {sorted(set(now) ^ set(bystanders))}")
        cx.state((layout, P.tree(world.path, skip=('tools',)).keys()))
        cx.outcome((layout, op, mode, sorted(P.tree(world.path, skip=('tools',)))))
        if mode != 'crash' and answer and answer['raised'] and 'runs' in answer:
            m = copy.deepcopy(before)
            m.name = name
            disk = {}
            for b, d in m.dirs().items():
                for p in d.iterdir():
                    disk.setdefault(p.name, set()).update({b} if b else ())
            cx.require(answer['root'] == str(m.path), case,
                       lambda: f"after the failure the handle is at {answer['root']}, the project at {m.path}")
            cx.require({r: set(b) for r, b in answer['runs'].items()} == disk, case,
                       lambda: f"after the failure the handle shows {answer['runs']}, the disk has {disk}")
        if mode != 'crash' and answer:
            cx.require('broken' not in answer, case, lambda: f"after the failure the handle is broken: {answer}")
        if more:
            return repeat(world, case, before, after, op, layout, name, more[0], cx)
        final(world, case, before, after, op, layout, name, cx, snapshot)
        cx.trace()
        if second and not completed and op[0] not in ('create', 'copy', 'remove'):
            j = 0
            while True:
                j += 1
                if one(world, [layout, base, op, mode, k, j], cx) is not False:
                    break
        return completed
    return True


def repeat(world, case, before, after, op, layout, name, j, cx):
    """A second crash, while the operation is repeated."""
    if op[0] == 'rename' and name == 'Q':
        return True
    snap = P.tree(world.path / name)
    if before.logname not in snap:
        return True
    code, answer = faulted(world, op, layout, j, 'crash', name)
    cx.step()
    cx.trace()
    here = [n for n in ('P', 'Q') if (world.path / n).exists()]
    if not cx.require(len(here) == 1, case, f"project directories: {here}"):
        return True
    final(world, case, before, after, op, layout, here[0], cx, snap)
    return code == 0


def final(world, case, before, after, op, layout, name, cx, snapshot):
    """Reopen, repeat the operation, and compare with the intended outcome."""
    from eprempy import project
    if op[0] in ('remove', 'create'):
        return
    m = copy.deepcopy(before)
    m.name = name
    try:
        h = project.Interface(name)
        dict(h.log)
    except Exception as err:
        cx.fail(case, f"the project cannot be opened again: {type(err).__name__}: {err}")
        return
    if op[0] == 'copy':
        why = P.disk_problem(m, world.environment) or P.log_problem(h, m) or P.handle_problem(h, m)
        cx.require(why is None, case, lambda: f"the copied project: {why}")
        return
    if not (op[0] == 'rename' and name == op[1]):
        try:
            perform(h, op, layout, world.environment)
        except Exception as err:
            cx.fail(case, f"repeating {op}: {type(err).__name__}: {err}")
            return
    want = copy.deepcopy(after)
    h = project.Interface(want.name)
    have = {b: {p.name for p in d.iterdir()} for b, d in want.dirs().items()}
    names = {b: set(r) for b, r in want.runs.items()}
    cx.require(have == names, case, lambda: f"repeating {op} leaves runs {have}, expected {names}")
    cx.require({b: set(r) for b, r in h.branches.items()} == {b: r for b, r in names.items() if b}, case, "branches")
    cx.require(len(h.log) >= 2, case, "the log lost its common entries")


def shards(tier):
    return [
        {'layout': lay, 'base': b, 'op': i, 'mode': mode, 'second': tier == 'thorough'}
        for lay in ('branched', 'plain', 'custom')
        for b in BASES
        for i in range(len(OPS))
        for mode in MODES
    ]


def run_shard(shard, cx):
    world = P.World()
    try:
        explore(world, shard['layout'], shard['base'], OPS[shard['op']], shard['mode'], shard['second'], cx)
    finally:
        world.close()


def replay(case, cx):
    world = P.World()
    try:
        one(world, case, cx)
    finally:
        world.close()
