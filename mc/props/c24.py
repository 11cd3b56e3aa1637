"""C24: the run log is a faithful persistent mapping.

Every sequence of log operations up to a depth against a dictionary, with a
second instance opened on the same file, failing operations, and a move of the
directory; after each step the file, the instance, a second instance that has
existed all along, and a fresh instance must all show the same mapping.
"""

import json
import os
import pathlib
import shutil

from .. import projects as P

ID = 'C24'
LEVEL = 'model_checking'
RULE = (
    "every sequence of log operations up to the depth; non-trivial: distinct "
    "(log contents, refusals) reached"
)
BOUNDS = {'quick': {'depth': 3, 'alphabet': 23}, 'thorough': {'depth': 4, 'alphabet': 23}}
ASSUMPTIONS = ["run names are absolute paths below the log directory, or plain strings"]

OPS = [
    ['create', 'a', {'x': 1, 'y': [1, {'z': None}]}],
    ['create', 'ab', {}],
    ['create*', '@/runs/r', {'command': 'go', 'n': 2}],
    ['create2', 'a'],
    ['create', '@/runs/@/r', {'deep': 'é'}],
    ['createbad', 'a'],
    ['append', 'a', 'k', 'v'],
    ['append', 'a', 'k', {'again': 0}],
    ['append', '@/runs/r', 'n', [1, 2]],
    ['create', '@x/runs/r', {'sibling': True}],
    ['appendbad', 'a'],
    ['append', 'nobody', 'k', 1],
    ['mv', 'a', 'ab'],
    ['mv', '@/runs/r', '@/runs/s'],
    ['mv', 'nobody', 'a'],
    ['mv', 'a', 'a'],
    ['rm', 'a'],
    ['rm', '@/runs/r'],
    ['rm', 'nobody'],
    ['load', 'c', 'e.json', None],
    ['load', 'a', 'e.txt', 'json'],
    ['load', 'b', 'E.JSON', None],
    ['load', 'a', 'e.txt', '.Json'],
    ['load', 'a', 'e.txt', None],
    ['move'],
    ['reopen'],
]
ENTRY = {'from': 'file', 'n': [1]}


class Session:
    def __init__(self, world):
        from eprempy import project
        world.reset()
        self.world = world
        self.dir = world.path / 'd0'
        self.dir.mkdir()
        (world.path / 'e.json').write_text(json.dumps(ENTRY))
        (world.path / 'E.JSON').write_text(json.dumps(ENTRY))
        (world.path / 'e.txt').write_text(json.dumps(ENTRY))
        self.log = project.RunLog(self.dir / 'log.json', config='c', output='o')
        self.other = project.RunLog(self.dir / 'log.json')
        self.model = {'config': 'c', 'output': 'o'}
        self.moves = 0

    def key(self, k, d=None):
        return k.replace('@', str(d or self.dir), 1) if k.startswith('@') else k

    def apply(self, op):
        """Apply; return a problem or None."""
        from eprempy import project
        m, log = self.model, self.log
        kind = op[0]
        expect = None
        if kind in ('create', 'create*'):
            k, v = self.key(op[1]), op[2]
            act = (lambda: log.create(k, v)) if kind == 'create' else (lambda: log.create(pathlib.Path(k), **v))
            m[k] = v
        elif kind == 'create2':
            act, expect = lambda: log.create('a', {'x': 1}, y=2), TypeError
        elif kind == 'createbad':
            act, expect = lambda: log.create('a', {'x': object()}), TypeError
        elif kind == 'append':
            k = self.key(op[1])
            act = lambda: log.append(k, op[2], op[3])
            if k in m:
                m[k] = {**m[k], op[2]: op[3]}
            else:
                expect = project.LogKeyError
        elif kind == 'appendbad':
            act = lambda: log.append('a', 'bad', object())
            expect = TypeError if 'a' in m else project.LogKeyError
        elif kind == 'mv':
            a, b = map(self.key, op[1:])
            act = lambda: log.mv(a, b)
            if a in m:
                m[b] = m.pop(a)
            else:
                expect = project.LogKeyError
        elif kind == 'rm':
            k = self.key(op[1])
            act = lambda: log.rm(k)
            m.pop(k, None)
        elif kind == 'load':
            _, k, f, t = op
            act = lambda: log.load(k, self.world.path / f, *([t] if t else []))
            if f.lower().endswith('json') or t:
                m[k] = ENTRY
            else:
                expect = ValueError
        elif kind == 'move':
            self.moves += 1
            new = self.world.path / f'd{self.moves}'
            old = self.dir

            def act():
                old.rename(new)
                log.update_directory(new)
            inside = str(old) + '/'
            self.model = {
                (str(new) + k[len(str(old)):] if k.startswith(inside) else k): v for k, v in m.items()
            }
            self.dir = new
            self.other = None
        elif kind == 'reopen':
            try:
                project.RunLog(log.path, config='other')
            except TypeError:
                pass
            else:
                return "changed the common attributes of an existing log"
            self.other, self.log = log, project.RunLog(self.dir / 'log.json')
            return None
        try:
            act()
        except Exception as err:
            if expect is None or not isinstance(err, expect):
                return f"{op} raised {type(err).__name__}: {err}"
        else:
            if expect is not None:
                return f"{op} was not refused"
        return None

    def problem(self):
        from eprempy import project
        path = self.dir / 'log.json'
        try:
            disk = json.loads(path.read_text())
        except (OSError, ValueError) as err:
            return f"the log cannot be read: {err}"
        if disk != self.model:
            return f"the file has {disk}, expected {self.model}"
        handles = {'this instance': self.log, 'a new instance': project.RunLog(path)}
        if self.other is not None:
            handles['another instance'] = self.other
        for name, log in handles.items():
            if pathlib.Path(log.path) != path or log.name != 'log.json':
                return f"{name} is at {log.path}"
            if dict(log) != self.model or len(log) != len(self.model) or set(log) != set(self.model):
                return f"{name} shows {dict(log)}, expected {self.model}"
            for k, v in self.model.items():
                if log[k] != v or k not in log:
                    return f"{name}[{k!r}] is {log[k]!r}"
            try:
                log['nobody']
            except KeyError as err:
                if not isinstance(err, project.LogKeyError):
                    return f"{name} raises {err!r} for an unknown run"
            else:
                return f"{name} has an entry for an unknown run"
            if log.get('nobody', 5) != 5:
                return f"{name}.get"
        stray = {p.name for p in self.dir.iterdir() if not p.name.startswith('.')} - {'log.json'}
        if stray:
            return f"stray files {stray}"
        return None


def execute(world, history, cx):
    with cx.case(history):
        s = Session(world)
        for i, op in enumerate(history):
            cx.step()
            why = s.apply(op)
            if why is None and i == len(history) - 1:
                why = s.problem()
            if not cx.require(why is None, history, lambda: f"after {history[:i + 1]}: {why}"):
                return False
        cx.trace()
        k = sorted((a.replace(str(s.dir), '@'), repr(b)) for a, b in s.model.items())
        cx.state((k, s.moves))
        cx.outcome((k, s.moves, s.other is None))
        return True
    return False


def shards(tier):
    return [{'head': [i, j], 'depth': 3 if tier == 'quick' else 4} for i in range(len(OPS)) for j in range(len(OPS))]


def run_shard(shard, cx):
    world = P.World()
    try:
        i, j = shard['head']
        if j == 0:
            execute(world, [OPS[i]], cx)
        explore(world, [OPS[i], OPS[j]], shard['depth'], cx)
    finally:
        world.close()


def explore(world, history, depth, cx):
    if execute(world, history, cx) and len(history) < depth:
        for op in OPS:
            explore(world, history + [op], depth, cx)


def replay(case, cx):
    world = P.World()
    try:
        execute(world, case, cx)
    finally:
        world.close()
