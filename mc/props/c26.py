"""C26: paths and files are located where the user means, and nowhere else.

All small file trees (files, directories, links that resolve, that do not, and
that form chains) in two directories, seen from every working directory, with
every form of path; each against a resolver that walks a model of the tree.
All short texts with every set of comment symbols; all histories of
constructions of path-based objects; all local names of project parts.
"""

import contextlib
import itertools
import os
import pathlib
import shutil
import tempfile
import warnings

ID = 'C26'
LEVEL = 'model_checking'
RULE = (
    "trees: contents of two slots x working directory x form of path, and lists of "
    "searched directories; texts: all strings x comment symbols; path-based objects: "
    "histories of constructions; non-trivial: distinct results"
)
BOUNDS = {
    'quick': {'slots': 2, 'searched directories': 2, 'text length': 4, 'constructions': 3},
    'thorough': {'slots': 2, 'searched directories': 3, 'text length': 6, 'constructions': 4},
}
ASSUMPTIONS = [
    "the file system has no loops of links and does not change during a call",
    "POSIX paths",
]

KINDS = ('absent', 'file', 'directory', 'link', 'link up', 'link to directory', 'chain', 'broken', 'executable')


def shards(tier):
    out = [{'part': 'trees', 'block': i} for i in range(9)]
    out += [{'part': 'texts', 'block': i} for i in range(4)]
    out += [{'part': 'files'}, {'part': 'instances'}, {'part': 'local'}]
    out += [{'part': 'spelled', 'name': x} for x in SPELLINGS]
    out += [{'part': 'runs', 'layout': x, 'vary': y} for x in ('plain', 'branched') for y in ('eprem', 'mpirun')]
    return [dict(s, tier=tier) for s in out]


def run_shard(shard, cx):
    warnings.simplefilter('ignore')
    globals()['run_' + shard['part']](shard, cx)


def attempt(f):
    try:
        return 'ok', f()
    except Exception as err:
        return 'error', err


@contextlib.contextmanager
def scratch():
    """A nested scratch directory that becomes the home directory."""
    top = os.path.realpath(tempfile.mkdtemp(prefix='c26-'))
    cwd = os.getcwd()
    saved = {k: os.environ.get(k) for k in ('HOME', 'PATH')}
    root = os.path.join(top, 'l1', 'l2', 'root')
    os.makedirs(root)
    try:
        os.environ['HOME'] = root
        os.environ['PATH'] = os.path.join(root, 'bin')
        os.chdir(root)
        yield root
    finally:
        os.chdir(cwd)
        for k, v in saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(top, ignore_errors=True)


# -- a model of a file tree ---------------------------------------------------
# A node is 'file', {'name': node} or ('link', text).


def plant(tree, path):
    """Create the model on disk."""
    for name, node in tree.items():
        p = os.path.join(path, name)
        if isinstance(node, dict):
            os.mkdir(p)
            plant(node, p)
        elif isinstance(node, tuple):
            os.symlink(node[1], p)
        else:
            with open(p, 'w') as f:
                f.write(node)
            os.chmod(p, 0o755 if node == 'executable' else 0o644)


def slot(kind):
    return {
        'file': 'file', 'directory': {'inner': 'file'}, 'link': ('link', '../target'), 'link up': ('link', '..'),
        'link to directory': ('link', '../tdir'), 'chain': ('link', '../alias'), 'broken': ('link', '../nowhere/x'),
        'executable': 'executable',
    }[kind]


def make(kinds):
    tree = {
        'a': {}, 'b': {}, 'bin': {'tool': 'executable', 'plain': 'file'}, 'target': 'file', 'tdir': {'inner': 'file'},
        'alias': ('link', 'tdir/inner'),
    }
    for d, kind in zip('ab', kinds):
        if kind != 'absent':
            tree[d]['x'] = slot(kind)
    return tree


class Model:
    """Resolution of paths in a model of a file tree."""

    def __init__(self, tree, root):
        self.tree = tree
        self.base = tuple(root.strip('/').split('/'))

    def get(self, parts):
        """The node at resolved `parts`, or None."""
        if parts[:len(self.base)] != self.base:
            return {} if parts == self.base[:len(parts)] else None
        node = self.tree
        for p in parts[len(self.base):]:
            if not isinstance(node, dict) or p not in node:
                return None
            node = node[p]
        return node

    def resolve(self, text, cwd):
        if text == '~' or text.startswith('~/'):
            text = '/' + '/'.join(self.base) + text[1:]
        at = () if text.startswith('/') else cwd
        for c in text.split('/'):
            if c in ('', '.'):
                continue
            if c == '..':
                at = at[:-1]
                continue
            node = self.get((*at, c))
            if isinstance(node, tuple):
                at = self.resolve(node[1], at)
            else:
                at = (*at, c)
        return at

    def exists(self, text, cwd):
        return self.get(self.resolve(text, cwd)) is not None


def path(parts):
    return pathlib.Path('/' + '/'.join(parts))


class Like:
    """An object that only represents a path."""

    def __init__(self, text):
        self.text = text

    def __fspath__(self):
        return self.text


FORMS = (
    'x', './x', 'a/x', 'b/x', 'a/../b/x', '../a/x', '../b/./x', 'a//x', 'x/inner', 'a/x/inner', '~', '~/a/x', '~/a/x/..',
    '~/b/../a/x', '.', '..', 'a/', 'x/..', 'x/../x', '~/alias', '~/tdir/../alias', 'none/x', 'none/../a/x', '../../l2/root/a/x',
    'a/~/x', '~/none',
)


def run_trees(shard, cx):
    from eprempy import paths
    for kinds in itertools.product(KINDS, repeat=2):
        if KINDS.index(kinds[0]) != shard['block']:
            continue
        with scratch() as root:
            tree = make(kinds)
            plant(tree, root)
            m = Model(tree, root)
            for where in ('', 'a', 'b'):
                os.chdir(os.path.join(root, where))
                cwd = (*m.base, where) if where else m.base
                world = {'slots': kinds, 'directory': where or 'root'}
                cx.state(world)
                resolve_forms(cx, paths, m, cwd, world, root)
                locate_forms(cx, paths, m, cwd, world)
                search_forms(cx, paths, m, cwd, world, shard['tier'])


def resolve_forms(cx, paths, m, cwd, world, root):
    for text in (*FORMS, root + '/a/x', root + '/a/../b/x/'):
        rel = text.replace(root, 'ROOT')
        for rep in (str, pathlib.Path, Like):
            case = {**world, 'path': rel, 'as': rep.__name__}
            with cx.case(case):
                cx.step()
                want = m.resolve(text, cwd)
                for name in ('fullpath', 'normalize'):
                    got = getattr(paths, name)(rep(text))
                    cx.require(isinstance(got, pathlib.Path) and got == path(want), case, f'{name}: {got}')
                status, got = attempt(lambda: paths.fullpath(rep(text), strict=True))
                if m.get(want) is not None:
                    cx.require(status == 'ok' and got == path(want), case, f'strict: {got!r}')
                else:
                    cx.require(
                        status == 'error' and isinstance(got, paths.NonExistentPathError)
                        and 'does not exist' in str(got), case, f'strict: {got!r}')
                again = paths.fullpath(path(want), strict=False)
                cx.require(again == path(want), case, f'resolving twice gives {again}')
                cx.outcome([rel, path(want).name])
                # Local names.
                last = [c for c in text.split('/') if c not in ('', '.')]
                last = last[-1] if last else ''
                status, got = attempt(lambda: paths.localize(rep(text)))
                if last == '..':
                    cx.require(status == 'error', case, f'local: {got!r}')
                else:
                    cx.require(status == 'ok' and got == pathlib.Path(last), case, f'local: {got!r}')
                got = paths.localize(rep(text), normalized=True)
                cx.require(got == pathlib.Path(want[-1]), case, f'local, normalized: {got}')
                cx.require(len(got.parts) == 1 and not got.is_absolute(), case, f'not local: {got}')


def locate_forms(cx, paths, m, cwd, world):
    from_env = (None, '', 'a/x', '~/b/x', '../alias', 'none/y', '~', '/'.join(('', *m.base, 'a', 'x')))
    for name, value in itertools.product(('x', 'tool', 'plain', 'inner', 'unknown'), from_env):
        for directory in ('a', '~/tdir', '.', 'none'):
            case = {**world, 'locate': name, 'environment': value and value.replace('/'.join(('', *m.base)), 'ROOT'), 'in': directory}
            with cx.case(case):
                cx.step()
                env = {'other': 'target'} if value is None else {name: value, 'other': 'target'}
                given = pathlib.Path(directory)
                got = paths.locate(name, given, env)
                want = m.resolve(value or f'{directory}/{name}', cwd)
                if m.get(want) is not None:
                    want = path(want)
                elif name == 'tool':
                    want = path((*m.base, 'bin', 'tool'))
                else:
                    want = pathlib.Path(name)
                cx.require(got == want, case, f'{got}, expected {want}')
                cx.require(given == pathlib.Path(directory), case, 'changed')
                cx.outcome(['locate', name, got.name, got.is_absolute()])


STUB = '#!/bin/sh\nfor last; do :; done\necho "$0" "$@" > ran\ntest -f "$last"\n'


def run_runs(shard, cx):
    """Which executables each run of a project uses."""
    from eprempy import project
    vary, branched = shard['vary'], shard['layout'] == 'branched'
    fixed = 'eprem' if vary == 'mpirun' else 'mpirun'
    given = (None, 'ROOT/env/{}', 'env/{}', '~/env/{}', 'env/none')
    places = (None, 'file', 'link')
    with scratch() as root:
        os.environ['PATH'] = os.path.join(root, 'bin') + ':/usr/bin:/bin'

        def put(*where, kind='file'):
            target = os.path.join(root, *where)
            os.makedirs(os.path.dirname(target), exist_ok=True)
            if kind == 'link':
                os.symlink(os.path.join(root, 'env', 'real'), target)
                return
            with open(target, 'w') as fp:
                fp.write(STUB)
            os.chmod(target, 0o755)

        put('env', 'real')
        put('env', 'eprem')
        put('env', 'mpirun')
        with open('c.cfg', 'w') as fp:
            fp.write('numNodes = 3\n')
        number = 0
        homes = {'A': ('A',), 'B': ('B',)} if branched else {None: ()}
        for env, here, there, system, other in itertools.product(
                given, places, places[:2] if branched else (None,), (False, True), range(3)):
            if vary == 'mpirun' and not system:
                continue # nothing may be able to run
            number += 1
            name = f'p{number}'
            case = {'vary': vary, 'environment': env, 'in A or root': here, 'in B': there, 'on the path': system,
                    fixed: ('path', 'environment', 'first directory')[other], 'layout': shard['layout']}
            with cx.case(case):
                cx.step()
                for e in os.listdir('bin') if os.path.isdir('bin') else ():
                    os.unlink(os.path.join('bin', e))
                handle = project.Interface(name, branches=('A', 'B') if branched else None)
                first = next(iter(homes.values()))
                put('bin', fixed)
                if system:
                    put('bin', vary)
                for kind, home in zip((here, there), homes.values()):
                    if kind:
                        put(name, *home, vary, kind=kind)
                environment = {'unrelated': 'env/none'}
                if env:
                    environment[vary] = env.format(vary).replace('ROOT', root)
                if other == 1:
                    environment[fixed] = os.path.join(root, 'env', fixed)
                elif other == 2:
                    put(name, *first, fixed)
                handle.run('c.cfg', 'r1', environment=environment, silent=True)
                for b, home in homes.items():
                    kind = here if home == first else there
                    local = os.path.join(root, name, *home)
                    known = {
                        vary: (
                            os.path.join(root, 'env', vary) if env and 'none' not in env
                            # a file that is named but does not exist: the system path
                            else os.path.join(root, 'bin', vary) if env and system
                            else vary if env
                            else os.path.join(local, vary) if kind == 'file'
                            else os.path.join(root, 'env', 'real') if kind
                            else os.path.join(root, 'bin', vary) if system
                            else vary
                        ),
                        fixed: (
                            os.path.join(root, 'env', fixed) if other == 1
                            else os.path.join(local, fixed) if other == 2 and home == first
                            else os.path.join(root, 'bin', fixed)
                        ),
                    }
                    with open(os.path.join(local, 'runs', 'r1', 'ran')) as fp:
                        words = fp.read().split()
                    got = {'mpirun': words[0], 'eprem': words[-2]}
                    cx.require(got == known, case, f'branch {b} ran {got}, expected {known}')
                    entry = [v for k, v in handle.log.items() if k == os.path.join(local, 'runs', 'r1')]
                    ok = len(entry) == 1 and all(v in entry[0]['command'].split() for v in known.values())
                    cx.require(ok, case, f'log of branch {b}: {entry}')
                    cx.outcome([vary, env, kind, system, other, str(b)])
                shutil.rmtree(os.path.join(root, name))


LISTING = '#!/bin/sh\nfor last; do :; done\nfor x in "$0" "$@"; do printf "%s\\n" "$x"; done > ran\ntest -f "$last"\n'
SPELLINGS = ('a b', "a'b", 'a"b', 'a$HOME', 'a;b', 'a&b', '(a)', '#a', 'a~', 'a=b', 'a|b', 'a>b', 'a\\b', 'a!', '{a,b}', 'ä')


def run_spelled(shard, cx):
    """Runs of projects whose names contain characters of other meanings."""
    from eprempy import project
    fields = ('parent', 'project', 'branch', 'run', 'config', 'output', 'rundir', 'tools')
    with scratch() as root:
        os.environ['PATH'] = os.path.join(root, 'bin') + ':/usr/bin:/bin'
        os.makedirs('bin')
        with open('c.cfg', 'w') as fp:
            fp.write('numNodes = 3\n')

        def put(*where):
            target = os.path.join(*where)
            os.makedirs(os.path.dirname(target), exist_ok=True)
            with open(target, 'w') as fp:
                fp.write(LISTING)
            os.chmod(target, 0o755)

        k = SPELLINGS.index(shard['name'])
        others = (None, shard['name'], SPELLINGS[(k + 1) % len(SPELLINGS)])
        number = 0
        for first, second in itertools.combinations(fields, 2):
            for value, tools in itertools.product(others if cx.tier == 'thorough' else others[:2], ('environment', 'branch', 'path')):
                if value and {first, second} == {'config', 'output'}:
                    continue # one file cannot be both
                number += 1
                at = {first: shard['name'], second: value}
                case = {k: v for k, v in at.items() if v} | {'tools in': tools}
                where = {f: at.get(f) or f for f in fields}
                home = os.path.join(root, f'top{number}', where['parent'], where['project'])
                with cx.case(case):
                    cx.step()
                    handle = project.Interface(
                        home, branches=[where['branch']], config=where['config'],
                        output=where['output'], rundir=where['rundir'],
                    )
                    environment, place = None, os.path.join(root, 'bin')
                    if tools == 'environment':
                        place = os.path.join(root, f'top{number}', where['tools'])
                        environment = {x: os.path.join(place, x) for x in ('mpirun', 'eprem')}
                    elif tools == 'branch':
                        place = os.path.join(home, where['branch'])
                    for x in ('mpirun', 'eprem'):
                        put(place, x)
                    handle.run('c.cfg', where['run'], environment=environment, silent=True)
                    run = os.path.join(home, where['branch'], where['rundir'], where['run'])
                    have = sorted(os.listdir(run))
                    cx.require(have == sorted(['ran', where['config'], where['output']]), case, f'the run has {have}')
                    if 'ran' in have:
                        with open(os.path.join(run, 'ran')) as fp:
                            words = fp.read().splitlines()
                        ok = words[0] == os.path.join(place, 'mpirun') and words[-2:] == [os.path.join(place, 'eprem'), where['config']]
                        cx.require(ok, case, f'ran {words}')
                    cx.require([x for x in handle.log if os.path.isabs(x)] == [run], case, f'log: {list(handle.log)}')
                    cx.outcome([sorted(case), shard['name'], tools])
                shutil.rmtree(os.path.join(root, f'top{number}'))
                shutil.rmtree('bin')
                os.makedirs('bin')


def search_forms(cx, paths, m, cwd, world, tier):
    places = ('a', '~/b', '../tdir', 'a/x', '.', 'none', '~/target')
    for n in range(BOUNDS[tier]['searched directories'] + 1):
        for given in itertools.product(places, repeat=n):
            for name in ('x', 'inner', 'x/inner', 'absent'):
                case = {**world, 'search': name, 'in': given}
                with cx.case(case):
                    cx.step()
                    want = None
                    for p in (*given, '.'):
                        at = m.resolve(p, cwd)
                        node = m.get(at)
                        if node is None:
                            want = paths.NonExistentPathError
                            break
                        if isinstance(node, dict) and m.exists('/'.join(('', *at, name)), cwd):
                            want = path((*at, *name.split('/')))
                            break
                    for rep in (str, pathlib.Path):
                        status, got = attempt(lambda: paths.search(rep(name), *[rep(p) for p in given]))
                        if want is paths.NonExistentPathError:
                            cx.require(status == 'error' and isinstance(got, want), case, f'{got!r}')
                        else:
                            cx.require(status == 'ok' and got == want, case, f'{got!r}, expected {want}')
                    cx.outcome(['search', name, str(want)[-8:]])
    templates = [lambda n: f'{n}', lambda n: f'{n}/inner', lambda n: f'{n}.nc', lambda n: pathlib.Path('..') / 'tdir' / n]
    for k in range(0, 4):
        for order in itertools.permutations(range(4), k):
            for name in ('x', 'inner'):
                for directory in (None, 'a', '~/b', 'none'):
                    case = {**world, 'templates': order, 'name': name, 'in': directory}
                    with cx.case(case):
                        cx.step()
                        use = [templates[i] for i in order]
                        f = (lambda: paths.find_file_by_template(use, name)) if directory is None else (
                            lambda: paths.find_file_by_template(use, name, directory=directory))
                        status, got = attempt(f)
                        at = m.resolve(directory or '.', cwd)
                        if m.get(at) is None:
                            cx.require(status == 'error' and isinstance(got, paths.NonExistentPathError), case, f'{got!r}')
                            continue
                        found = [t for t in (str(t(name)) for t in use) if m.exists('/'.join(('', *at, t)), cwd)]
                        want = path(at) / found[0] if found else None
                        cx.require(status == 'ok' and got == want, case, f'{got!r}, expected {want}')


# -- texts --------------------------------------------------------------------


def run_texts(shard, cx):
    from eprempy import paths
    symbols = [(), ('#',), ('!', '#'), ('#', '!'), ('//',), ('/', '//'), ['//', '#'], {'!'}]
    count = 0
    for n in range(BOUNDS[shard['tier']]['text length'] + 1):
        for text in map(''.join, itertools.product('a \t#!/\n'[:7 if n < 6 else 6], repeat=n)):
            count += 1
            if count % 4 != shard['block']:
                continue
            for marks in symbols:
                case = {'text': text, 'comments': sorted(marks)}
                with cx.case(case):
                    cx.step()
                    cut = min([i for i in (text.find(c) for c in marks) if i >= 0], default=len(text))
                    got = paths.strip_inline_comments(text, marks)
                    cx.require(got == text[:cut].strip(), case, f'{got!r}')
                    cx.outcome(got)


def run_files(shard, cx):
    from eprempy import paths
    with scratch() as root:
        for n in range(0, 4):
            for lines in itertools.product(('k=1', 'k=2', 'm = 3', '', '# k=9'), repeat=n):
                for end in ('', '\n'):
                    text = '\n'.join(lines) + end
                    case = {'content': text}
                    with cx.case(case):
                        cx.step()
                        with open('file.txt', 'w') as f:
                            f.write(text)
                        want = [l for l in text.split('\n')]
                        want = want[:-1] if want[-1] == '' else want
                        t = paths.TextFile('file.txt')
                        cx.require([l.rstrip('\n') for l in t.lines] == want, case, f'{t.lines}')
                        cx.require(paths.file_lines('file.txt') == len(want), case, 'number of lines')
                        got = t.extract(lambda s: [p.strip() for p in s.split('=')] if '=' in s and '#' not in s else None, tuple)
                        model = {}
                        for l in want:
                            if '=' in l and '#' not in l:
                                k, v = l.split('=')
                                model[k.strip()] = v.strip()
                        cx.require(got == model, case, f'{got}')
                        cx.require(str(t) == os.path.join(root, 'file.txt') == str(t.path), case, f'{t}')
                        cx.outcome(model)


# -- path-based objects -------------------------------------------------------


def run_instances(shard, cx):
    from eprempy import paths

    class A(metaclass=paths.PathSet):
        def __init__(self, *args, **kwargs):
            self.made = (args, kwargs)

    class B(metaclass=paths.PathSet):
        def __init__(self, *args, **kwargs):
            self.made = (args, kwargs)

    class C(A):
        pass

    forms = {
        'p': (('p',), {}), 'q': (('q',), {}), 'Path p': ((pathlib.Path('p'),), {}), 'path=p': ((), {'path': 'p'}),
        'path=Path p': ((), {'path': pathlib.Path('p')}), 'p, 1': (('p', 1), {}), 'p, 2': (('p', 2), {}), 'p, n=1': (('p',), {'n': 1}),
        'p, n=2': (('p',), {'n': 2}), 'p, n=1, m=2': (('p',), {'n': 1, 'm': 2}), 'p, m=2, n=1': (('p',), {'m': 2, 'n': 1}),
        'n, path=p': (('n',), {'path': 'p'}), 'm, path=p': (('m',), {'path': 'p'}), 'p, m=1': (('p',), {'m': 1}),
    }

    def identity(cls, args, kwargs):
        """What makes an object unique: its type, its path and its other arguments."""
        kwargs = dict(kwargs)
        if 'path' in kwargs:
            p, rest = kwargs.pop('path'), args
        else:
            p, rest = args[0], args[1:]
        return cls.__name__, str(p), rest, tuple(sorted(kwargs.items()))

    calls = [(cls, f) for cls in (A, B, C) for f in forms]
    depth = BOUNDS[shard['tier']]['constructions']
    for h in itertools.product(calls, repeat=2):
        instances(cx, forms, identity, h)
    few = [c for c in calls if c[0] is not C and c[1] in ('p', 'Path p', 'p, 1', 'p, n=1', 'n, path=p', 'path=p')]
    for n in range(3, depth + 1):
        for h in itertools.product(few, repeat=n):
            instances(cx, forms, identity, h)
    for bad in ((), (1,), (None,)):
        case = {'arguments': str(bad)}
        with cx.case(case):
            cx.require(isinstance(attempt(lambda: A(*bad))[1], TypeError), case, 'accepted')


def instances(cx, forms, identity, history):
    case = {'history': [[c.__name__, f] for c, f in history]}
    with cx.case(case):
        cx.step()
        cx.trace()
        made = {}
        for cls, f in history:
            args, kwargs = forms[f]
            key = identity(cls, args, kwargs)
            obj = cls(*args, **kwargs)
            cx.require(type(obj) is cls, case, f'{type(obj).__name__} for {cls.__name__}')
            for k, other in made.items():
                cx.require((other is obj) is (k == key), case, f'{f}: {"same" if other is obj else "another"} object')
            made[key] = obj
        cx.outcome([len(made), len(history)])


# -- the parts of a project ---------------------------------------------------


def run_local(shard, cx):
    from eprempy import project
    names = ('parts', 'deep/parts', '../parts', '~/parts', './parts', 'a/../parts', '..', '../..', 'parts/..', 'ROOT/parts')
    for part, text in itertools.product(('inputs', 'output', 'rundir', 'logname'), names):
        with scratch() as root:
            given = text.replace('ROOT', root)
            os.mkdir('space')
            os.chdir('space')
            before = listing(os.path.dirname(os.path.dirname(os.path.dirname(root))), 'project')
            case = {'part': part, 'name': text}
            with cx.case(case):
                cx.step()
                status, got = attempt(lambda: project.Interface('project', **{part: given}))
                if status == 'ok':
                    status, got = attempt(lambda: got.name)
                after = listing(os.path.dirname(os.path.dirname(os.path.dirname(root))), 'project')
                cx.require(after == before, case, f'created outside the project: {sorted(after - before)}')
                if text.endswith('..'):
                    cx.require(status == 'error', case, 'accepted')
                else:
                    cx.require(status == 'ok', case, f'{got!r}')
                cx.outcome([part, status])


def listing(top, skip):
    out = set()
    for base, dirs, files in os.walk(top):
        dirs[:] = [d for d in dirs if d != skip]
        out |= {os.path.join(base, n)[len(top):] for n in (*dirs, *files)}
    return out
