"""A scratch world of projects on disk, and the reference model of it."""

import contextlib
import fnmatch
import io
import json
import os
import pathlib
import shutil
import sys
import tempfile

TOOL = '''#!/bin/sh
echo "$@" > ran
for last; do :; done
test -f "$last" || exit 3
if grep -q fail "$last"; then echo failed; if grep -q 9 "$last"; then
case $(cat /proc/$PPID/comm) in sh|dash) kill -9 $PPID;; esac; kill -9 $$; fi; exit 1; fi
echo finished
'''

FILES = {'c.cfg': 'numNodes = 3\n', 'bad.cfg': 'fail = 1\n', 'dead.cfg': 'fail = 9\n', 'ext/e.cfg': 'aMin = 2\n', 'e.cfg': 'aMin = 5\n'}


def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return pathlib.Path(tempfile.mkdtemp(prefix='mc-prj-', dir=base)).resolve()


class World:
    """A scratch directory with fake executables and bystanders."""

    def __init__(self):
        self.path = scratch()
        self.home = os.getcwd()
        self.syspath = list(sys.path)
        self.reset()

    def reset(self):
        os.chdir(self.path)
        for p in self.path.iterdir():
            if p.is_dir():
                shutil.rmtree(p)
            else:
                p.unlink()
        (self.path / 'tools').mkdir()
        for name in ('mpirun', 'eprem'):
            p = self.path / 'tools' / name
            p.write_text(TOOL)
            p.chmod(0o755)
        (self.path / 'other' / 'runs').mkdir(parents=True)
        (self.path / 'other' / 'keep.txt').write_text('keep')
        (self.path / 'sub').mkdir()
        (self.path / 'ext').mkdir()
        (self.path / 'ext' / 'e.cfg').write_text(FILES['ext/e.cfg'])
        # not what is meant by a name that is in the inputs
        (self.path / 'c.cfg').write_text('numNodes = 99\n')
        sys.path[:] = self.syspath

    def close(self):
        os.chdir(self.home)
        sys.path[:] = self.syspath
        shutil.rmtree(self.path)

    @property
    def environment(self):
        return {n: str(self.path / 'tools' / n) for n in ('mpirun', 'eprem')}

    def bystanders(self):
        """What lies outside of the projects, as {relative path: content}."""
        return tree(self.path, skip=('tools',))


def tree(root, skip=()):
    """{relative path: text, or None for a directory} below `root`."""
    out = {}
    stack = [pathlib.Path(root)]
    while stack:
        d = stack.pop()
        for e in os.scandir(d):
            rel = os.path.relpath(e.path, root)
            if rel in skip:
                continue
            if e.is_dir(follow_symlinks=False):
                out[rel] = None
                stack.append(pathlib.Path(e.path))
            else:
                out[rel] = pathlib.Path(e.path).read_text(errors='replace')
    return out


class Project:
    """The reference model of one project."""

    def __init__(self, name, branches=(), **opts):
        self.name = name
        self.branches = tuple(branches)
        self.config = opts.get('config') or 'eprem.cfg'
        self.output = opts.get('output') or 'eprem.log'
        self.rundir = opts.get('rundir') or 'runs'
        self.logname = str(pathlib.Path(opts.get('logname') or 'runs').with_suffix('.json'))
        self.inputs = opts.get('inputs') or 'inputs'
        self.files = {}
        # branch -> run -> {'cfg', 'np', 'entry'}
        self.runs = {b: {} for b in self.branches or (None,)}

    def dirs(self):
        return {b: self.path / b / self.rundir if b else self.path / self.rundir for b in self.runs}

    @property
    def path(self):
        return pathlib.Path(os.getcwd()) / self.name

    def select(self, branches):
        """The run areas that a `branches` argument selects."""
        if not branches:
            return list(self.runs)
        chosen = [branches] if isinstance(branches, str) else list(branches)
        if not self.branches:
            # an unbranched project lives in its own root
            return [None] if self.name in chosen else []
        return [b for b in self.branches if b in chosen]

    def clone(self, name):
        new = Project(
            name, self.branches, config=self.config, output=self.output,
            rundir=self.rundir, logname=self.logname, inputs=self.inputs,
        )
        new.files = dict(self.files)
        return new

    def logged(self):
        out = {}
        for b, d in self.dirs().items():
            for r, rec in self.runs[b].items():
                if rec['logged']:
                    out[str(d / r)] = rec
        return out


class Refused(Exception):
    """The model expects the operation to be refused."""


def construct(name, branches, opts):
    """Create or open the project through the public interface."""
    from eprempy import project
    kw = dict(opts or {})
    if branches:
        kw['branches'] = list(branches)
    return project.Interface(name, **kw)


def seed_inputs(h, model):
    """Put the configuration files into the inputs directory."""
    for f in ('c.cfg', 'bad.cfg', 'dead.cfg', 'e.cfg'):
        p = model.path / model.inputs / f
        p.parent.mkdir(exist_ok=True)
        p.write_text(FILES[f])
        model.files[f] = FILES[f]


def content(model, cfg):
    return model.files.get(cfg) or FILES.get(cfg)


def run_real(h, op, env):
    """Apply a project operation to the handle."""
    kind = op[0]
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == 'run':
            _, name, cfg, branches, np_, errors = op
            h.run(cfg, name, branches=branches, nproc=np_, environment=env, errors=errors, silent=True)
        elif kind == 'mv':
            _, a, b, branches, errors = op
            h.mv(a, b, branches=branches, errors=errors, silent=True)
        elif kind == 'rm':
            _, pat, branches, errors = op
            h.rm(pat, branches=branches, errors=errors, silent=True)
        elif kind == 'mkdir':
            for d in h.directories:
                if op[2] is None or d.parent.name == op[2]:
                    (d / op[1]).mkdir(exist_ok=True)
        elif kind == 'reset':
            h.reset(silent=True)
        elif kind == 'rename':
            h.rename(op[1], silent=True)
        elif kind == 'remove':
            h.remove(silent=True)
        else:
            raise KeyError(kind)


def isname(text):
    """True if the text names a directory right below another one."""
    return text not in ('', '.', '..') and '/' not in text


def run_model(m, op):
    """Apply the operation to the model.

    Returns the list of (branch, run) areas it may touch; raises Refused when
    the operation must be refused *before anything happens*.
    """
    kind = op[0]
    failed = 0
    if kind == 'run':
        _, name, cfg, branches, np_, errors = op
        text = content(m, cfg)
        if text is None or not isname(name):
            raise Refused
        for b in m.select(branches):
            if name in m.runs[b]:
                failed += 1
                if errors:
                    break
            else:
                m.runs[b][name] = {'cfg': text, 'np': np_ or 1, 'logged': 'fail' not in text, 'entry': None}
    elif kind == 'mv':
        _, a, t, branches, errors = op
        if not (isname(a) and isname(t)):
            raise Refused
        for b in m.select(branches):
            if a in m.runs[b] and t not in m.runs[b]:
                m.runs[b][t] = m.runs[b].pop(a)
            else:
                failed += 1
                if errors:
                    break
    elif kind == 'rm':
        _, pat, branches, errors = op
        for b in m.select(branches):
            for r in fnmatch.filter(list(m.runs[b]), pat):
                del m.runs[b][r]
    elif kind == 'mkdir':
        # a directory that the user made by hand: an unlogged, empty run
        for b in m.runs:
            if op[2] in (None, b):
                m.runs[b].setdefault(op[1], {'cfg': None, 'np': None, 'logged': False, 'entry': None})
    elif kind == 'reset':
        for b in m.runs:
            m.runs[b].clear()
    elif kind == 'rename':
        new = os.path.abspath(op[1])
        if os.path.exists(new) or not os.path.isdir(os.path.dirname(new)) or new.startswith(f"{m.path}/"):
            raise Refused
        m.name = op[1]
    return failed


# -- comparison -----------------------------------------------------------
def disk_problem(m, env):
    """Compare the project on disk with its model; a message or None."""
    if not m.path.is_dir():
        return f"{m.name} does not exist"
    for b, d in m.dirs().items():
        if not d.is_dir():
            return f"run directory {d} does not exist"
        have = {p.name for p in d.iterdir()}
        if have != set(m.runs[b]):
            return f"runs in {d}: {sorted(have)}, expected {sorted(m.runs[b])}"
        for r, rec in m.runs[b].items():
            t = tree(d / r)
            if rec['cfg'] is None:
                if t:
                    return f"run {d / r} contains {sorted(t)}, expected nothing"
                continue
            if not {m.config, m.output, 'ran'} <= set(t):
                return f"run {d / r} contains {sorted(t)}"
            if t[m.config] != rec['cfg']:
                return f"config of {d / r} is {t[m.config]!r}, expected {rec['cfg']!r}"
            args = t['ran'].split()
            if '-n' not in args or args[args.index('-n') + 1] != str(rec['np']):
                return f"{d / r} ran with {args}"
            if args[-2:] != [env['eprem'], m.config]:
                return f"{d / r} ran {args[-2:]}"
            if t[m.output].split('\n')[0].strip() != ('finished' if rec['logged'] else 'failed'):
                return f"output of {d / r} is {t[m.output]!r}"
    inputs = tree(m.path / m.inputs)
    if inputs != m.files:
        return f"inputs of {m.name}: {inputs}"
    if not (m.path / '__main__.py').is_file():
        return f"{m.name} has no script"
    extra = {p.name for p in m.path.iterdir() if not p.name.startswith('.')}
    known = {m.inputs, '__main__.py', m.logname, '__pycache__'} | (set(m.branches) or {m.rundir})
    if extra - known:
        return f"unexpected files in {m.name}: {sorted(extra - known)}"
    return None


def log_problem(h, m):
    """Compare the run log with the model; a message or None."""
    try:
        log = json.loads((m.path / m.logname).read_text())
    except (OSError, ValueError) as err:
        return f"log of {m.name} cannot be read: {err}"
    want = m.logged()
    have = {k: v for k, v in log.items() if isinstance(v, dict)}
    if set(have) != set(want):
        return f"log of {m.name} has runs {sorted(have)}, expected {sorted(want)}"
    for k, rec in want.items():
        entry = have[k]
        if 'command' not in entry or 'time' not in entry:
            return f"log entry {k}: {entry}"
        if rec['entry'] is None:
            rec['entry'] = entry
        if entry != rec['entry']:
            return f"log entry of {k} changed from {rec['entry']} to {entry}"
    common = {k: v for k, v in log.items() if not isinstance(v, dict)}
    if common != {'config': m.config, 'output': m.output}:
        return f"common log entries {common}"
    if h is not None:
        if dict(h.log) != log or len(h.log) != len(log):
            return "the log of the handle differs from the log file"
        for k in want:
            if h.log[k] != log[k] or k not in h.log:
                return f"log lookup of {k}"
    return None


def handle_problem(h, m):
    """Compare a handle with the model; a message or None."""
    runs = {}
    for b, rs in m.runs.items():
        for r in rs:
            runs.setdefault(r, set()).update({b} if b else ())
    if pathlib.Path(h.root) != m.path:
        return f"root {h.root}, expected {m.path}"
    if h.name != m.path.name or str(h) != m.path.name:
        return f"name {h.name}, expected {m.name}"
    if not bool(h):
        return "the project says it is not valid"
    if {k: set(v) for k, v in h.runs.items()} != runs:
        return f"runs {h.runs}, expected {runs}"
    branches = {b: set(rs) for b, rs in m.runs.items() if b}
    if {k: set(v) for k, v in h.branches.items()} != branches:
        return f"branches {h.branches}, expected {branches}"
    dirs = sorted(map(str, h.directories))
    if dirs != sorted(map(str, m.dirs().values())):
        return f"directories {dirs}"
    return None
