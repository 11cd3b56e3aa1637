"""Shared machinery: sharded exhaustive enumeration with a reference oracle.

A property module in `mc.props` provides

    ID, LEVEL, RULE, ASSUMPTIONS (optional)
    shards(tier)         -> list of JSON-able shard descriptors
    run_shard(shard, cx) -> enumerates every case of the shard
    replay(case, cx)     -> (optional) re-run one recorded case

The modules never sample: a shard is a finite set of executions and all of them
are run.  `cx` (class `Context`) counts what was executed and records
violations; anything raised by the code under test inside `cx.case(...)` that
the module did not expect is itself a violation.
"""

import contextlib
import hashlib
import json
import multiprocessing
import os
import pathlib
import signal
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
SAMPLES = 6
MAX_FAILS = int(os.environ.get('MC_MAX_FAILS', 4))


class Hang(BaseException):
    """A single case exceeded its (very generous) time limit."""


class Stop(Exception):
    """Enough violations were collected in this shard."""


def digest(x) -> bytes:
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


def load_findings(pid):
    """Open findings of a property: {key: what fails}.

    Lines of known_findings.txt read
        known: property=<id> key=<key> -- <what fails>
        fixed: property=<id> <commit> <what failed>
    Only the first kind suppresses anything, and only its exact key.
    """
    path = ROOT / 'known_findings.txt'
    found = {}
    for line in path.read_text().splitlines() if path.exists() else []:
        head = f'known: property={pid} key='
        if line.startswith(head):
            key, _, what = line[len(head):].partition(' -- ')
            found[key.strip()] = what.strip()
    return found


class Context:
    """Counters, oracle helpers and violation records of one shard."""

    def __init__(self, pid, tier, limit=150.0):
        self.pid = pid
        self.tier = tier
        self.limit = limit
        self.known = load_findings(pid)
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.failures = []
        self.hits = {}
        self.notes = {}
        self._current = None

    # -- counting ---------------------------------------------------------
    def state(self, x):
        """Record a canonical state; true if it was new in this shard."""
        d = digest(x)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def outcome(self, x):
        self.outcomes.add(digest(x))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, x):
        if len(self.samples) < SAMPLES:
            self.samples.append(x)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    # -- verdicts ---------------------------------------------------------
    def fail(self, case, message, key=None):
        """Record a violation unless it is a listed finding."""
        key = key or json.dumps(case, default=repr)
        if key in self.known:
            self.hits[key] = self.known[key]
            return
        self.failures.append(
            {'case': case, 'key': key, 'message': str(message)[:2000]}
        )
        if len(self.failures) >= MAX_FAILS:
            raise Stop

    def require(self, cond, case, message, key=None):
        if not cond:
            if callable(message):
                message = message()
            self.fail(case, message, key)
        return bool(cond)

    @contextlib.contextmanager
    def case(self, case, key=None):
        """Run the body as one case of the enumeration."""
        self.evaluations += 1
        previous = self._current
        self._current = case
        if len(self.samples) < SAMPLES and _thin(self.evaluations):
            self.samples.append(case)
        if previous is None:
            signal.setitimer(signal.ITIMER_REAL, self.limit)
        try:
            yield
        except Stop:
            raise
        except Hang:
            self.fail(case, f"no answer within {self.limit} s", key)
        except Exception as err:
            tb = ''.join(traceback.format_exception(err)[-6:])
            self.fail(
                case,
                f"unexpected {type(err).__name__}: {err}\n{tb}",
                key,
            )
        finally:
            self._current = previous
            if previous is None:
                signal.setitimer(signal.ITIMER_REAL, 0)

    def result(self):
        return {
            'states': self.states,
            'outcomes': self.outcomes,
            'transitions': self.transitions,
            'traces': self.traces,
            'evaluations': self.evaluations,
            'samples': self.samples,
            'failures': self.failures,
            'hits': self.hits,
            'notes': self.notes,
        }


def _thin(n):
    return n in (1, 10, 100, 1000, 10000, 100000)


def _alarm(*_):
    raise Hang()


_MODULE = None


def _work(args):
    pid, tier, shard = args
    signal.signal(signal.SIGALRM, _alarm)
    cx = Context(pid, tier, getattr(_MODULE, 'CASE_LIMIT', 150.0))
    try:
        _MODULE.run_shard(shard, cx)
    except Stop:
        pass
    except Hang:
        cx.failures.append({
            'case': shard, 'key': 'hang', 'message': 'shard did not finish',
        })
    except Exception as err:
        # An escape outside `cx.case`: report it with its shard.
        tb = traceback.format_exc()
        cx.failures.append({
            'case': shard,
            'key': 'escape',
            'message': f"unexpected {type(err).__name__}: {err}\n{tb}",
        })
    return cx.result()


def _jobs():
    return max(1, min(8, len(os.sched_getaffinity(0))))


def run(module, tier, seed):
    """Explore every shard of `module`; return the process exit status."""
    global _MODULE
    _MODULE = module
    t0 = time.time()
    pid = module.ID
    shards = list(module.shards(tier))
    work = [(pid, tier, s) for s in shards]
    total = Context(pid, tier)
    if len(work) == 1 or _jobs() == 1:
        results = map(_work, work)
        pool = None
    else:
        pool = multiprocessing.get_context('fork').Pool(
            min(_jobs(), len(work)), maxtasksperchild=None
        )
        results = pool.imap_unordered(_work, work, chunksize=1)
    stopped = False
    try:
        for r in results:
            total.states |= r['states']
            total.outcomes |= r['outcomes']
            total.transitions += r['transitions']
            total.traces += r['traces']
            total.evaluations += r['evaluations']
            total.samples = (total.samples + r['samples'])[:SAMPLES]
            total.failures += r['failures']
            total.hits.update(r['hits'])
            for k, n in r['notes'].items():
                total.notes[k] = total.notes.get(k, 0) + n
            if len(total.failures) >= MAX_FAILS:
                stopped = True
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    if hasattr(module, 'finish') and not stopped:
        try:
            module.finish(total)
        except Stop:
            pass
    wall = time.time() - t0
    coverage = {
        'evaluations': total.evaluations,
        'distinct_nontrivial': len(total.outcomes),
        'rule': module.RULE,
        'samples': [json.loads(json.dumps(s, default=repr)) for s in total.samples],
        'shards': len(shards),
        'exhaustive': not stopped,
    }
    if module.LEVEL == 'model_checking':
        coverage.update(
            states=len(total.states),
            transitions=total.transitions,
            traces_validated_against_impl=total.traces,
        )
    if total.notes:
        coverage['breakdown'] = dict(sorted(total.notes.items()))
    if hasattr(module, 'BOUNDS'):
        coverage['bounds'] = module.BOUNDS[tier]
    evidence = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': module.LEVEL,
        'coverage': coverage,
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 3),
        'violations': len(total.failures),
    }
    out = ROOT / 'evidence'
    out.mkdir(exist_ok=True)
    (out / f'{pid}.json').write_text(json.dumps(evidence, indent=1, default=repr))
    for key, what in sorted(total.hits.items()):
        print(f"KNOWN-FINDING: property={pid} {what}")
    print(
        f"{pid} tier={tier} shards={len(shards)} cases={total.evaluations}"
        f" states={len(total.states)} transitions={total.transitions}"
        f" traces={total.traces} outcomes={len(total.outcomes)}"
        f" wall={wall:.1f}s"
    )
    folder = ROOT / 'replays' / pid
    folder.mkdir(parents=True, exist_ok=True)
    for old in folder.glob('*.json'):
        old.unlink()
    if total.failures:
        for i, f in enumerate(total.failures):
            path = folder / f'{i}.json'
            path.write_text(json.dumps({'property': pid, **f}, indent=1, default=repr))
            print(f"VIOLATION property={pid} replay={path}")
            print('  case:', json.dumps(f['case'], default=repr)[:600])
            print('  ' + f['message'][:1200].replace('\n', '\n  '))
        return 1
    return 0


def replay(module, path):
    """Re-run one recorded case."""
    global _MODULE
    _MODULE = module
    record = json.loads(pathlib.Path(path).read_text())
    signal.signal(signal.SIGALRM, _alarm)
    cx = Context(module.ID, 'replay')
    with contextlib.suppress(Stop):
        if hasattr(module, 'replay'):
            module.replay(record['case'], cx)
        else:
            print('this module re-explores the shard; run the check instead')
            return 2
    for f in cx.failures:
        print(f"VIOLATION property={module.ID} replay={path}")
        print('  ' + f['message'])
    return 1 if cx.failures else 0
