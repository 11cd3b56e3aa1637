"""C12: aliased mappings stay consistent under every history of operations.

An explicit-state model, a set of disjoint groups of keys with one value each, is
explored breadth first: every operation in every state the mapping can reach
within the depth, with the real mapping rebuilt by replaying the shortest history.
After each transition everything a caller can see of the real mapping is compared
with the model, and so are the copies made before it.  The same is done for
collections of groups, and all forms of construction are enumerated.
"""

import itertools
import json
import os
import subprocess
import sys

ID = 'C12'
LEVEL = 'model_checking'
RULE = (
    "all operations in all states reachable within `depth` steps from each initial "
    "mapping, for text keys and for colliding integer keys; all ordered families of "
    "`families` groups over 3 keys; all partitions of `keys` keys in each form of "
    "construction; all pairs of groups over 4 keys; non-trivial: distinct states"
)
BOUNDS = {
    'quick': {'depth': 3, 'groups': 3, 'families': 2, 'keys': 4, 'seeds': 4},
    'thorough': {'depth': 4, 'groups': 4, 'families': 3, 'keys': 5, 'seeds': 12},
}
ASSUMPTIONS = [
    "two mappings that show the same keys, groups and values in the same order are "
    "taken to be in the same state beyond the first two operations",
    "keys are texts or integers; 3-4 keys show every way in which groups can overlap",
]

FLAVOURS = {'text': ['a', 'b', 'A', 'long name'], 'int': [0, 8, 16, 32]}
INITIAL = [
    (),
    (((0,), 1),),
    (((0, 2), 1), ((1,), 2)),
    (((0, 2), 1), ((1, 3), 2)),
]
UNKNOWN = 'unknown'


def shards(tier):
    out = [{'kind': 'history', 'flavour': f, 'initial': i, 'tier': tier}
           for f in FLAVOURS for i in range(len(INITIAL))]
    out += [{'kind': 'groups', 'flavour': f, 'initial': i, 'tier': tier}
            for f in FLAVOURS for i in range(len(INITIAL))]
    out += [{'kind': 'families', 'flavour': f, 'part': [i, 2], 'tier': tier}
            for f in FLAVOURS for i in range(2)]
    out += [{'kind': 'group', 'flavour': f, 'tier': tier} for f in FLAVOURS]
    out += [{'kind': 'forms', 'part': [i, 4], 'tier': tier} for i in range(4)]
    out += [{'kind': 'registries', 'tier': tier}]
    out += [{'kind': 'seed', 'seed': i, 'tier': tier} for i in range(BOUNDS[tier]['seeds'])]
    return out


def run_shard(shard, cx):
    kind, tier = shard['kind'], shard['tier']
    b = BOUNDS[tier]
    if kind == 'history':
        explore(cx, shard['flavour'], shard['initial'], b['depth'])
    elif kind == 'groups':
        explore_groups(cx, shard['flavour'], shard['initial'], b['groups'])
    elif kind == 'families':
        keys = FLAVOURS[shard['flavour']][:3]
        these = [c for n in (1, 2, 3) for c in itertools.combinations(keys, n)]
        i, n = shard['part']
        for size in range(1, b['families'] + 1):
            for family in itertools.islice(itertools.product(these, repeat=size), i, None, n):
                check_family(cx, list(family))
    elif kind == 'group':
        keys = FLAVOURS[shard['flavour']]
        these = [c for n in range(len(keys) + 1) for c in itertools.combinations(keys, n)]
        for x, y in itertools.product(these, repeat=2):
            if x:
                check_group(cx, x, y)
    elif kind == 'forms':
        i, n = shard['part']
        for p in itertools.islice(partitions('abcde'[:b['keys']]), i, None, n):
            check_forms(cx, p)
    elif kind == 'registries':
        for name in REGISTRIES:
            check_registry(cx, name)
    else:
        check_seed(cx, shard['seed'])


# -- mappings ---------------------------------------------------------------

class Model:
    """Disjoint groups of keys, each with a value, and named groups of keys."""

    def __init__(self, items=(), named=()):
        self.items = {frozenset(k): v for k, v in items}
        self.named = dict(named)

    def copy(self):
        return Model(self.items.items(), self.named)

    def find(self, key):
        return next((g for g in self.items if key in g), None)

    def flat(self):
        return {k: v for g, v in self.items.items() for k in g}

    def put(self, keys, value):
        group = frozenset(keys)
        for g in [g for g in self.items if g & group]:
            del self.items[g]
            group |= g
        self.items[group] = value


def operations(keys):
    """All operations on a mapping of these keys."""
    a, b, c, d = keys
    ops = [['set', k, v] for k in keys for v in (1, 2)]
    ops += [['set', (a, c), 3], ['set', (c, b), 3], ['set', (d,), 3]]
    ops += [['del', k] for k in keys]
    ops += [['alias', x, y] for x, y in itertools.permutations(keys, 2)]
    ops += [['alias', a, c, d], ['alias', a, c, b], ['alias', b, b], ['alias', UNKNOWN, d]]
    ops += [['pop', a], ['pop', d, 5], ['popitem'], ['clear']]
    ops += [['setdefault', b, 4], ['setdefault', d, 4]]
    ops += [['update', [[a, 6], [d, 7]]], ['updatefrom', [[[a, d], 6]]]]
    ops += [['or', [[[a], 8], [[d], 9]]], ['or', [[[c, d], 8]]], ['ror', [[[a], 8], [[b], 9]]]]
    ops += [['group', 'G', a, b], ['group', 'H', a], ['set', 'H', 5], ['freeze'], ['copy']]
    return ops


def apply(model, op):
    """The new model, or the error this operation must raise."""
    new = model.copy()
    kind, *rest = op
    if kind == 'set':
        key, value = rest
        new.put(key if isinstance(key, (tuple, list)) else [key], value)
    elif kind in ('del', 'pop'):
        group = model.find(rest[0])
        if group is not None:
            del new.items[group]
        elif kind == 'del' or len(rest) == 1:
            return KeyError
    elif kind == 'alias':
        key, *aliases = rest
        group = model.find(key)
        others = [a for a in aliases if a != key]
        if group is None or any(model.find(a) is not None for a in others):
            return KeyError
        new.items[group.union(others)] = new.items.pop(group)
    elif kind == 'popitem':
        if not model.items:
            return KeyError
        return 'any'
    elif kind == 'clear':
        new.items.clear()
    elif kind == 'setdefault':
        if model.find(rest[0]) is None:
            new.put([rest[0]], rest[1])
    elif kind == 'update':
        for k, v in rest[0]:
            new.put([k], v)
    elif kind == 'updatefrom':
        for keys, v in rest[0]:
            for k in keys:
                new.put([k], v)
    elif kind == 'or':
        new.named.clear()
        for keys, v in rest[0]:
            new.put(keys, v)
    elif kind == 'ror':
        new = Model([(k, v) for k, v in rest[0]])
        for g, v in model.items.items():
            new.put(g, v)
    elif kind == 'group':
        name, *keys = rest
        if model.find(name) is not None:
            return ValueError
        new.named[name] = tuple(keys)
    elif kind in ('freeze', 'copy'):
        new.named.clear()
    return new


def perform(m, op):
    """Run the operation on a real mapping: (mapping, result)."""
    from eprempy import aliased
    kind, *rest = op
    if kind == 'set':
        key, value = rest
        m[tuple(key) if isinstance(key, list) else key] = value
    elif kind == 'del':
        del m[rest[0]]
    elif kind == 'pop':
        return m, m.pop(*rest)
    elif kind == 'popitem':
        return m, m.popitem()
    elif kind == 'alias':
        m.alias(*rest)
    elif kind == 'clear':
        m.clear()
    elif kind == 'setdefault':
        return m, m.setdefault(*rest)
    elif kind == 'update':
        m.update(dict((k, v) for k, v in rest[0]))
    elif kind == 'updatefrom':
        m.update(aliased.Mapping({tuple(k): v for k, v in rest[0]}))
    elif kind == 'or':
        m = m | aliased.Mapping({tuple(k): v for k, v in rest[0]})
    elif kind == 'ror':
        m = aliased.MutableMapping({tuple(k): v for k, v in rest[0]}) | m
    elif kind == 'group':
        m.group(*rest)
    elif kind == 'freeze':
        m = aliased.MutableMapping(m.freeze())
    elif kind == 'copy':
        m = m.copy()
    return m, None


def build(keys, initial):
    from eprempy import aliased
    items = [([keys[i] for i in k], v) for k, v in INITIAL[initial]]
    return aliased.MutableMapping({tuple(k): v for k, v in items}), Model(items)


def look(m):
    """What distinguishes two mappings for a caller, in order."""
    return (list(m), list(m.values()), [list(g) for g in m.keys(aliased=True)])


def disagreement(m, model, keys):
    """What a caller can see that differs from the model, or None."""
    from eprempy import aliased
    flat = model.flat()
    if sorted(m, key=repr) != sorted(flat, key=repr):
        return f"keys {list(m)}, expected {list(flat)}"
    if len(m) != len(flat) or len(m.keys()) != len(flat) or len(m.items()) != len(flat):
        return f"length {len(m)}, expected {len(flat)}"
    if dict(m.items()) != flat or m.flat != flat:
        return f"items {list(m.items())}, expected {flat}"
    if sorted(m.values()) != sorted(flat.values()):
        return f"values {list(m.values())}"
    if list(zip(m.keys(), m.values())) != list(m.items()):
        return "keys, values and items are in different orders"
    groups = [frozenset(g) for g in m.keys(aliased=True)]
    if len(groups) != len(model.items) or set(groups) != set(model.items):
        return f"groups {groups}, expected {list(model.items)}"
    if {frozenset(g): v for g, v in m.items(aliased=True)} != model.items:
        return f"aliased items {list(m.items(aliased=True))}"
    if sorted(m.values(aliased=True)) != sorted(model.items.values()):
        return f"aliased values {list(m.values(aliased=True))}"
    for key in (*keys, UNKNOWN, *model.named):
        group = model.find(key)
        if (key in m) is not (group is not None) or (key in m.keys()) is not (key in m):
            return f"{key!r} in: {key in m}, expected {group is not None}"
        if group is None:
            if key in model.named:
                continue
            try:
                return f"[{key!r}]: {m[key]!r}, expected KeyError"
            except KeyError:
                pass
            if m.get(key, 'default') != 'default':
                return f"get({key!r}): {m.get(key)!r}"
            continue
        value = model.items[group]
        if m[key] != value or m.get(key) != value:
            return f"[{key!r}]: {m[key]!r}, expected {value!r}"
        if set(m.alias(key)) != group - {key}:
            return f"alias({key!r}): {set(m.alias(key))}, expected {set(group - {key})}"
        if set(m.alias(key, include=True)) != group:
            return f"alias({key!r}, include=True): {set(m.alias(key, include=True))}"
        for order in ([*group], [*group][::-1]):
            named = aliased.Group(*order)
            if named not in m or m[named] != value or named not in m.keys(aliased=True):
                return f"not found by its group {order}"
        if (key, value) not in m.items() or value not in m.values():
            return f"views lack {key!r}"
    for name, members in model.named.items():
        if model.find(name) is not None:
            continue
        if m.group(name) != members:
            return f"group {name!r}: {m.group(name)}, expected {members}"
        if all(k in flat for k in members):
            if tuple(m[name]) != tuple(flat[k] for k in members):
                return f"group {name!r}: {m[name]}"
    if m != flat or not m == m.copy():
        return "not equal to the same mapping"
    other = {**flat, UNKNOWN: 1}
    if m == other:
        return "equal to a different mapping"
    if flat:
        changed = dict(flat)
        changed[next(iter(flat))] = 'other'
        if m == changed or m == aliased.Mapping(changed):
            return "equal to a mapping with another value"
    return None


def transition(cx, flavour, initial, history, op, case=None):
    """Replay a history, apply the operation, compare: (look, model) or None."""
    from eprempy import aliased
    keys = FLAVOURS[flavour]
    case = case or {'kind': 'history', 'flavour': flavour, 'initial': initial,
                    'history': history, 'op': op}
    with cx.case(case):
        cx.step()
        m, model = build(keys, initial)
        for step in history:
            before = m
            m, result = perform(m, step)
            model = follow(model, step, result)
        frozen, copied, same = m.freeze(), m.copy(), aliased.Mapping(m)
        want = apply(model, op)
        error, result, old = None, None, m
        try:
            m, result = perform(m, op)
        except Exception as err:
            error = err
        if isinstance(want, type):
            if not isinstance(error, want):
                cx.fail(case, f"{op}: {error!r} / {result!r}, expected {want.__name__}")
                return None
            new = model
        else:
            if error is not None:
                cx.fail(case, f"{op}: {error!r}")
                return None
            new = follow(model, op, result)
            if new is None:
                cx.fail(case, f"{op} returned {result!r} from {model.items}")
                return None
            if op[0] in ('pop', 'setdefault'):
                source = model if op[0] == 'pop' else new
                w = source.flat().get(op[1], op[-1])
                cx.require(result == w, case, f"{op} returned {result!r}, expected {w!r}")
        wrong = disagreement(m, new, keys)
        if wrong:
            cx.fail(case, f"after {op}: {wrong}")
            return None
        if m is not old:
            wrong = mismatch(old, model, model.flat())
            cx.require(not wrong, case, f"{op} changed its operand: {wrong}")
        for name, other in (('freeze', frozen), ('copy', copied), ('Mapping', same)):
            plain = Model(model.items.items())
            wrong = mismatch(other, plain, plain.flat())
            cx.require(not wrong, case, f"{op} changed an earlier {name}: {wrong}")
        if all(k in new.flat() for members in new.named.values() for k in members):
            grouped = m.freeze(groups=True)
            want = {**{n: tuple(new.flat()[k] for k in members)
                       for n, members in new.named.items()}, **new.flat()}
            cx.require(dict(grouped.items()) == want, case,
                       f"frozen with groups: {grouped}, expected {want}")
            cx.require({frozenset(g) for g in grouped.keys(aliased=True)}
                       == {*new.items, *(frozenset([n]) for n in new.named
                                         if new.find(n) is None)},
                       case, f"frozen with groups: {grouped.keys(aliased=True)}")
        seen = (*look(m), sorted(map(repr, new.named.items())))
        cx.outcome([op[0], len(new.items)])
        return seen, new
    return None


def follow(model, op, result):
    """The model after an operation that gave this result."""
    if op[0] == 'popitem' and model.items:
        key, value = result
        if model.flat().get(key) != value:
            return None
        new = model.copy()
        del new.items[model.find(key)]
        return new
    new = apply(model, op)
    return model if isinstance(new, type) else new


def explore(cx, flavour, initial, depth):
    ops = operations(FLAVOURS[flavour])
    level = [[]]
    known = set()
    for d in range(depth):
        following = []
        for history in level:
            for op in ops:
                found = transition(cx, flavour, initial, history, op)
                if not found:
                    continue
                seen, _ = found
                key = repr(seen)
                new = key not in known
                known.add(key)
                cx.state([flavour, key])
                # The first two levels are not merged.
                if isinstance(apply(found[1], ['copy']), Model) and (new or d < 1):
                    if not failing(cx, flavour, initial, history, op):
                        following.append([*history, op])
        level = following
    cx.note(f'{flavour} states', len(known))


def failing(cx, flavour, initial, history, op):
    """True if this operation is refused here."""
    m, model = build(FLAVOURS[flavour], initial)
    for step in history:
        m, result = perform(m, step)
        model = follow(model, step, result)
    return isinstance(apply(model, op), type)


# -- families of overlapping groups -----------------------------------------

def joined(family):
    """The groups and values after each in turn joins those that it overlaps."""
    model = Model()
    for value, keys in enumerate(family):
        model.put(keys, value)
    return model


def check_family(cx, family):
    from eprempy import aliased
    case = {'kind': 'families', 'family': family}
    family = [tuple(k) for k in family]
    with cx.case(case):
        cx.step()
        keys = sorted({k for g in family for k in g}, key=repr)
        want = joined(family)
        cx.state(sorted(map(sorted, want.items)))
        one = aliased.Mapping({})
        for value, g in enumerate(family):
            one = one | aliased.Mapping({g: value})
        assigned = aliased.MutableMapping()
        for value, g in enumerate(family):
            assigned[g] = value
        made = [('|', one), ('assignment', assigned)]
        if len(set(family)) == len(family):
            made.append(('constructor', aliased.Mapping(
                {g: value for value, g in enumerate(family)})))
        for name, m in made:
            wrong = disagreement(m, want, keys)
            cx.require(not wrong, case, f"{name}: {wrong}")
        groups = aliased.Groups(family[0]).merge(*family[1:])
        cx.require(parts(groups) == sorted(map(sorted, want.items)), case,
                   f"merged groups {groups}, expected {list(want.items)}")
        updated = aliased.Groups(family[0])
        updated.update(*family[1:])
        cx.require(updated == groups, case, f"updated {updated}, merged {groups}")
        cx.outcome(len(want.items))


def parts(groups):
    return sorted(sorted(g) for g in groups)


# -- groups -----------------------------------------------------------------

def check_group(cx, x, y):
    from eprempy import aliased
    x, y = list(x), list(y)
    case = {'kind': 'group', 'x': x, 'y': y}
    with cx.case(case):
        cx.step()
        g = aliased.Group(*x)
        a, b = set(x), set(y)
        others = [tuple(y), list(y), set(y), y[::-1]]
        if y:
            others += [aliased.Group(*y), aliased.Group(*y[::-1])]
        if len(y) == 1:
            others += [y[0]]
        for other in others:
            for name, result, want in (
                ('|', g | other, a | b), ('&', g & other, a & b), ('-', g - other, a - b),
                ('^', g ^ other, a ^ b),
            ):
                cx.require(set(result) == want and len(result) == len(want), case,
                           f"{name} {other!r}: {result!r}, expected {want}")
                cx.require(isinstance(result, aliased.Group), case, f"{name}: {result!r}")
            for name, answer, want in (
                ('==', g == other, a == b), ('!=', g != other, a != b),
                ('isdisjoint', g.isdisjoint(other), a.isdisjoint(b)),
            ):
                cx.require(answer is want, case, f"{name} {other!r}: {answer}")
            if isinstance(other, aliased.Group):
                for name, answer, want in (
                    ('<=', g <= other, a <= b), ('<', g < other, a < b),
                    ('>=', g >= other, a >= b), ('>', g > other, a > b),
                ):
                    cx.require(answer is want, case, f"{name} {other!r}: {answer}")
                if a == b:
                    cx.require(hash(g) == hash(other), case, "equal with different hashes")
                    cx.require({g: 1}.get(other) == 1, case, "not found in a dict")
        cx.require(sorted(g) == sorted(a) and len(g) == len(a), case, f"members {list(g)}")
        for k in (*x, *y, UNKNOWN):
            cx.require((k in g) is (k in a), case, f"{k!r} in {g!r}: {k in g}")
        cx.outcome([len(a), len(b), len(a & b)])


def group_operations(keys):
    a, b, c, d = keys
    ops = [['add', [a]], ['add', [a, d]], ['add', [c, b]], ['add', [b, d]]]
    ops += [['discard', k] for k in (a, b, d)] + [['remove', k] for k in (a, c)]
    ops += [['update', [[a, d]]], ['update', [[c, b]]], ['update', [[a], [d]]],
            ['update', [[a, d], [c, d]]], ['update', [[d], [b, d]]], ['update', [[c, d]]]]
    ops += [['or', [[a], [d]]], ['and', [[a, c], [b]]], ['sub', [[a, c]]],
            ['xor', [[a, c], [d]]], ['or', [[a, c], [b]]]]
    ops += [['without', [a]], ['without', [b, d]], ['clear']]
    return ops


def apply_groups(groups, op):
    kind, *rest = op
    if kind == 'add':
        new = frozenset(rest[0])
        if any(g & new for g in groups):
            return ValueError
        return groups | {new}
    if kind in ('discard', 'remove'):
        found = {g for g in groups if rest[0] in g}
        return groups - found if found or kind == 'discard' else KeyError
    if kind == 'update':
        for this in rest[0]:
            new = frozenset(this)
            old = {g for g in groups if g & new}
            groups = (groups - old) | {new.union(*old)}
        return groups
    if kind == 'without':
        return frozenset(g for g in groups if not g & set(rest[0]))
    if kind == 'clear':
        return frozenset()
    other = frozenset(frozenset(g) for g in rest[0])
    return {'or': groups | other, 'and': groups & other, 'sub': groups - other,
            'xor': groups ^ other}[kind]


def perform_groups(g, op, form):
    import operator
    from eprempy import aliased
    kind, *rest = op
    if kind == 'add':
        one = len(rest[0]) == 1 and form == 'plain'
        g.add(rest[0][0] if one else tuple(rest[0]))
    elif kind in ('discard', 'remove'):
        getattr(g, kind)(rest[0])
    elif kind == 'update':
        these = [k[0] if len(k) == 1 else tuple(k) for k in rest[0]]
        if form == 'plain':
            g.update(*these)
        elif form == 'groups':
            for this in these:
                g.update(aliased.Groups(this))
        else:
            g = g.merge(*these)
    elif kind == 'without':
        g = g.without(*rest[0])
    elif kind == 'clear':
        g.clear()
    else:
        f = {'or': operator.or_, 'and': operator.and_, 'sub': operator.sub,
             'xor': operator.xor}[kind]
        g = f(g, aliased.Groups(*[tuple(k) for k in rest[0]]))
    return g


def disjoint(groups):
    return len({k for g in groups for k in g}) == sum(map(len, groups))


def check_groups(cx, flavour, initial, history, op, form):
    """Replay a history of groups, apply, compare: the new model or None."""
    from eprempy import aliased
    keys = FLAVOURS[flavour]
    case = {'kind': 'groups', 'flavour': flavour, 'initial': initial,
            'history': history, 'op': op, 'form': form}
    with cx.case(case):
        cx.step()
        these = [tuple(keys[i] for i in k) for k, _ in INITIAL[initial]]
        g, model = aliased.Groups(*these), frozenset(map(frozenset, these))
        for step in history:
            g, model = perform_groups(g, step, form), apply_groups(model, step)
        want = apply_groups(model, op)
        old = g
        try:
            g = perform_groups(g, op, form)
        except Exception as err:
            if isinstance(want, type) and isinstance(err, want):
                want = model
            else:
                cx.fail(case, f"{op}: {err!r}")
                return None
        else:
            if isinstance(want, type):
                cx.fail(case, f"{op}: expected {want.__name__}")
                return None
        if not disjoint(want):
            cx.require(parts(g) == sorted(map(sorted, want)), case, f"{op}: {g}")
            return None
        if g is not old:
            cx.require(parts(old) == sorted(map(sorted, model)), case, f"{op} changed {old}")
        cx.require(parts(g) == sorted(map(sorted, want)) and len(g) == len(want), case,
                   f"{op}: {g}, expected {[set(x) for x in want]}")
        cx.require(sorted(g.flat) == sorted(k for x in want for k in x), case, g.flat)
        for key in (*keys, UNKNOWN):
            found = next((x for x in want if key in x), None)
            cx.require((key in g) is (found is not None), case, f"{key!r} in {g}")
            got = g.get(key)
            cx.require((got is None and found is None) or set(got) == found, case,
                       f"get({key!r}): {got}, expected {found}")
            if found:
                cx.require(set(g[key]) == found, case, f"[{key!r}]: {g[key]}")
                cx.require(aliased.Group(*found) in g, case, f"{found} not in {g}")
            else:
                try:
                    cx.fail(case, f"[{key!r}]: {g[key]}, expected KeyError")
                except KeyError:
                    pass
        cx.require(g == aliased.Groups(*[tuple(x) for x in want]), case, "not equal")
        cx.require(g != aliased.Groups(*[tuple(x) for x in want], UNKNOWN), case, "equal")
        cx.outcome([op[0], len(want)])
        return want
    return None


def explore_groups(cx, flavour, initial, depth):
    ops = group_operations(FLAVOURS[flavour])
    for form in ('plain', 'groups', 'merge'):
        level, known = [([], None)], set()
        for d in range(depth):
            following = []
            for history, model in level:
                for op in ops:
                    want = check_groups(cx, flavour, initial, history, op, form)
                    if want is None or (model is not None
                                        and isinstance(apply_groups(model, op), type)):
                        continue
                    if d == 0 and isinstance(apply_groups(start(flavour, initial), op), type):
                        continue
                    cx.state([flavour, parts(want)])
                    if d == 0 or want not in known:
                        following.append(([*history, op], want))
                    known.add(want)
            level = following


def start(flavour, initial):
    keys = FLAVOURS[flavour]
    return frozenset(frozenset(keys[i] for i in k) for k, _ in INITIAL[initial])


# -- forms of construction --------------------------------------------------

def partitions(keys):
    """All partitions of these keys, with the first of each group as its name."""
    keys = list(keys)
    if not keys:
        yield []
        return
    first, rest = keys[0], keys[1:]
    for p in partitions(rest):
        yield [[first], *p]
        for i, g in enumerate(p):
            yield [*p[:i], [first, *g], *p[i + 1:]]


def check_forms(cx, partition):
    from eprempy import aliased
    case = {'kind': 'forms', 'partition': partition}
    with cx.case(case):
        for order in itertools.permutations(range(len(partition))):
            groups = [partition[i] for i in order]
            for turn in range(max(map(len, groups))):
                form(cx, case, [g[turn % len(g):] + g[:turn % len(g)] for g in groups])
        cx.state(partition)


def form(cx, case, groups):
    from eprempy import aliased
    cx.step()
    keys = [k for g in groups for k in g]
    values = {g[0]: {'n': i} for i, g in enumerate(groups)}
    want = Model([(g, {'n': i}) for i, g in enumerate(groups)])
    rest = {g[0]: g[1:] for g in groups}

    def inner(key, make):
        return {g[0]: {key: make(g[1:]), 'n': i} if len(g) > 1 or make is not tuple
                else {'n': i} for i, g in enumerate(groups)}

    made = {
        'tuples': aliased.Mapping({tuple(g): values[g[0]] for g in groups}),
        'texts': aliased.Mapping({g[0] if len(g) == 1 else tuple(g): values[g[0]]
                                  for g in groups}),
        'frozen sets': aliased.Mapping({frozenset(g): values[g[0]] for g in groups}),
        'groups as keys': aliased.Mapping({aliased.Group(*g): values[g[0]] for g in groups}),
        'aliases, list': aliased.Mapping(inner('aliases', list)),
        'aliases, tuple': aliased.Mapping(inner('aliases', tuple)),
        'aliases, set': aliased.Mapping(inner('aliases', set)),
        'explicit': aliased.Mapping(inner('aliases', list), aliases='aliases'),
        'other key': aliased.Mapping(inner('other', list), aliases='other'),
        'Groups': aliased.Mapping(values, aliases=aliased.Groups(*map(tuple, groups))),
        'dict': aliased.Mapping(values, aliases=rest),
        'Mapping': aliased.Mapping(values, aliases=aliased.Mapping(
            {tuple(g): None for g in groups})),
        'with unused': aliased.Mapping(values, aliases=aliased.Groups(
            *map(tuple, groups), (UNKNOWN, 'other'))),
    }
    if all(len(g) <= 2 for g in groups):
        made['aliases, text'] = aliased.Mapping({
            g[0]: {'aliases': g[1], 'n': i} if len(g) == 2 else {'n': i}
            for i, g in enumerate(groups)})
    for name, m in list(made.items()):
        made[f'{name}: copy'] = m.copy()
        made[f'{name}: mapping'] = aliased.Mapping(m)
        made[f'{name}: mutable'] = aliased.MutableMapping(m)
        made[f'{name}: |'] = m | aliased.Mapping({})
        made[f'{name}: | dict'] = m | {}
    mixed = {**inner('aliases', list), 'plain': 3}
    m = aliased.Mapping(mixed)
    cx.require(m.flat == {**want.flat(), 'plain': 3}, case, f"{groups}, mixed: {m.flat}")
    for name, m in (('mixed', aliased.Mapping.fromkeys(mixed, value=1)),
                    ('plain', aliased.Mapping.fromkeys({k: 2 for k in keys}, value=1))):
        w = {k: 1 for k in (*keys, 'plain')[:len(keys) + (name == 'mixed')]}
        cx.require(m.flat == w, case, f"{groups}, fromkeys {name}: {m.flat}")
    for strict in (True, False):
        empty = aliased.Mapping().squeeze(strict=strict)
        cx.require(len(empty) == 0 and not empty.flat, case, f"empty, squeezed: {empty}")
    # Values that look like declarations of aliases stay values.
    kept = aliased.Mapping({g[0]: {'aliases': 'kept', 'other': g[1:]} for g in groups},
                           aliases='other')
    for name, m in (('', kept), ('copy', kept.copy()), ('|', kept | aliased.Mapping({})),
                    ('mapping', aliased.Mapping(kept))):
        cx.require(m.flat == {k: {'aliases': 'kept'} for k in keys}, case,
                   f"{groups}, other key, {name}: {m.flat}")
    for name, m in made.items():
        wrong = mismatch(m, want, keys)
        cx.require(not wrong, case, f"{groups} from {name}: {wrong}")
    flat = {k: 1 for k in keys}
    for name, m in {
        'tuples': aliased.Mapping.fromkeys([tuple(g) for g in groups], value=1),
        'Groups': aliased.Mapping.fromkeys(aliased.Groups(*map(tuple, groups)), value=1),
        'mapping': aliased.Mapping.fromkeys(inner('aliases', list), value=1),
        'other key': aliased.Mapping.fromkeys(inner('other', list), key='other', value=1),
        'aliased': aliased.Mapping.fromkeys(made['tuples'], value=1),
    }.items():
        cx.require(m.flat == flat and {frozenset(g) for g in m.keys(aliased=True)}
                   == set(want.items), case, f"{groups}, fromkeys {name}: {m}")
    squeezed = made['tuples'].copy().squeeze(strict=True)
    cx.require(squeezed.flat == {k: want.items[want.find(k)]['n'] for k in keys}, case,
               f"{groups} squeezed: {squeezed}")
    names = {k: g[0] for g in groups for k in g}
    first = [g[0] for g in groups]
    for name, m in {
        'lists': aliased.NameMap(groups, first),
        'tuples, mapping': aliased.NameMap([tuple(g) for g in groups], dict.fromkeys(first)),
        'iterators': aliased.NameMap(iter(groups), iter(first)),
        'dict': aliased.NameMap(rest),
        'all of each group': aliased.NameMap({g[0]: g for g in groups}),
        'inner': aliased.NameMap(inner('aliases', list)),
        'other key': aliased.NameMap(inner('other', list), key='other'),
        'only aliases': aliased.NameMap([g for g in groups if len(g) > 1], first),
        'copy': aliased.NameMap(iter(groups), iter(first)).copy(),
    }.items():
        got = {k: m[k] for k in m}
        cx.require(got == names and len(m) == len(names), case,
                   f"{groups}, names from {name}: {got}")
        cx.require({frozenset(g) for g in m.keys(aliased=True)} == set(want.items), case,
                   f"{groups}, names from {name}: groups")
        cx.require(dict(m.items()) == names and sorted(m.values()) == sorted(names.values())
                   and list(m.keys()) == list(m), case, f"{groups}, names from {name}: views")
        cx.require({frozenset(g): v for g, v in m.items(aliased=True)} == {
            frozenset(g): g[0] for g in groups}, case, f"{groups}, names from {name}: aliased views")
        cx.require(sorted(m.values(aliased=True)) == sorted(first), case, f"{groups}, names from {name}: values")
        cx.require(UNKNOWN not in m and m.get(UNKNOWN) is None, case, f"{name}: unknown")
    cx.outcome([len(groups), len(keys)])


def mismatch(m, model, keys):
    flat = model.flat()
    if {k: m[k] for k in m} != flat or len(m) != len(flat):
        return f"{list(m.items())}"
    if {frozenset(g): v for g, v in m.items(aliased=True)} != model.items:
        return f"{list(m.items(aliased=True))}"
    if sorted(m.keys(), key=repr) != sorted(keys, key=repr):
        return f"keys {list(m.keys())}"
    for k in keys:
        if set(m.alias(k)) != model.find(k) - {k}:
            return f"alias({k!r}): {m.alias(k)}"
    return None


# -- the package's own registries -------------------------------------------

REGISTRIES = [
    'reference.QUANTITIES', 'reference.UNITS', 'reference.DIMENSIONS',
    'reference.OBSERVABLES.names', 'reference.ARRAYS.names', 'reference.SCALARS.names',
    'reference.AXES.names', 'parameter._metadata.METADATA', 'parameter._metadata.NAMES',
    'universal.CONSTANTS', 'datafile._viewers.VIEWERS',
]


def check_registry(cx, name):
    import importlib
    case = {'kind': 'registries', 'name': name}
    with cx.case(case):
        package, *rest = name.split('.')
        this = importlib.import_module(f'eprempy.{package}')
        for part in rest:
            try:
                this = getattr(this, part) if hasattr(this, part) else importlib.import_module(
                    f'{this.__name__}.{part}')
            except ImportError:
                return # not a registry of this version
        keys = list(this.keys())
        cx.require(len(set(keys)) == len(keys) == len(this), case, "a key appears twice")
        for g in this.keys(aliased=True):
            members = list(g)
            values = [this[k] for k in members]
            for k, v in zip(members, values):
                cx.step()
                cx.require(v is values[0] or v == values[0], case, f"{k!r} differs in {g}")
                cx.require(k in this, case, f"{k!r} not in {name}")
        cx.state([name, len(keys)])
        cx.outcome([name, len(keys)])


# -- independence of the hash seed ------------------------------------------

HELPER = r'''
import itertools, json, os, sys
sys.path.insert(0, os.environ['C12_SRC'])
from eprempy import aliased
bad = []
keys = ['a', 'b', 'A', 'first name', 'x1']
for n in range(1, 6):
    for order in itertools.permutations(keys, n):
        g, h = aliased.Group(*order), aliased.Group(*sorted(order))
        m = aliased.MutableMapping({order: 1})
        ok = g == h and hash(g) == hash(h) and h in m and m[h] == 1 and {g: 1}.get(h) == 1
        m[h] = 2
        ok = ok and m[order[0]] == 2 and len(m) == n
        m.alias(order[-1], 'new')
        ok = ok and m['new'] == 2 and len(m) == n + 1
        del m[order[0]]
        ok = ok and not len(m) and 'new' not in m
        if not ok:
            bad.append(order)
print(json.dumps(bad[:5]))
'''


def check_seed(cx, seed):
    import eprempy
    case = {'kind': 'seed', 'seed': seed}
    with cx.case(case):
        cx.step(325)
        env = dict(os.environ, PYTHONHASHSEED=str(seed),
                   C12_SRC=os.path.dirname(os.path.dirname(eprempy.__file__)))
        done = subprocess.run([sys.executable, '-W', 'ignore', '-c', HELPER], env=env,
                              capture_output=True, text=True, timeout=600)
        cx.require(done.returncode == 0, case, done.stderr[-500:])
        bad = json.loads(done.stdout or '[]')
        cx.require(not bad, case, f"with this hash seed: {bad}")
        cx.state(['seed', seed])
        cx.outcome(len(bad))


def replay(case, cx):
    kind = case['kind']
    if kind == 'history':
        transition(cx, case['flavour'], case['initial'], case['history'], case['op'])
    elif kind == 'groups':
        check_groups(cx, case['flavour'], case['initial'], case['history'], case['op'],
                     case['form'])
    elif kind == 'families':
        check_family(cx, case['family'])
    elif kind == 'group':
        check_group(cx, case['x'], case['y'])
    elif kind == 'forms':
        check_forms(cx, case['partition'])
    elif kind == 'registries':
        check_registry(cx, case['name'])
    else:
        check_seed(cx, case['seed'])
