# -*- coding: utf-8 -*-
"""Bounded-exhaustive exploration engine

A check is a list of *spaces*.  A space enumerates a finite set of cases (each case is an input
configuration or an operation history); every case is executed on the real code under /repo and judged
against an independent reference model.  Nothing is sampled: a space is either enumerated to its end or
the run is reported as incomplete (exit 2).

Accounting (measured, never constant):

    states       distinct model states / input configurations visited
    transitions  operations of the real code executed from those states
    validated    comparisons "model says X" / "implementation did Y" which were made
"""

import collections
import hashlib
import itertools
import json
import multiprocessing
import os
import pathlib
import re
import signal
import sys
import time
import traceback
import warnings

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = '/repo'
CASE_TIMEOUT_S = 60   # processor time
CASE_WALL_S = 180
TIMED_OUT = f'the operation did not terminate within {CASE_TIMEOUT_S} s of processor time or {CASE_WALL_S} s'
ENDED = 'the process which executed this case was ended'
KNOWN_RE = re.compile(r'known: property=(\S+) space=(\S+) case=(.*?) # (.*)$')
MAX_SAMPLES = 3


class Violation(Exception):
    """The real code disagrees with the reference model"""


class CaseTimeout(BaseException):
    """Not an Exception: the library wraps these"""


class Stat:
    """Counters for one case; a case function receives it as the second argument"""

    __slots__ = ('transitions', 'validated', 'outcomes', 'states')

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.outcomes = collections.Counter()

    def state(self, key):
        """Counts a distinct state of the model (by hash); without it each case is one state"""
        self.states.add(hash(repr(key)))

    def op(self, n=1):
        self.transitions += n

    def seen(self, label):
        """Counts an observed outcome class (to show that an exploration was not vacuous)"""
        self.outcomes[label] += 1

    def check(self, cond, msg, *args):
        self.validated += 1
        if not cond:
            raise Violation(msg % args if args else msg)


class Space:
    """A finite space of cases

    name   : identifies the space in evidence and replays
    cases  : callable() -> iterable of cases (plain, JSON-able through repr/eval of literals)
    run    : callable(case, stat)
    bound  : text, says what was enumerated
    """

    def __init__(self, name, cases, run, bound):
        self.name = name
        self.cases = cases
        self.run = run
        self.bound = bound


def _alarm(signum, frame):
    raise CaseTimeout()


def quiet():
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')


def run_case(space, case, stat):
    """Runs one case; returns None or the message of a violation"""
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT_S)
    signal.alarm(CASE_WALL_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            space.run(case, stat)
        return None
    except Violation as err:
        return str(err)
    except CaseTimeout:
        return TIMED_OUT
    except RecursionError as err:
        return f'unexpected exception RecursionError: {err}'
    except Exception as err:  # the model allows every operation which a case executes unguarded
        tb = traceback.extract_tb(err.__traceback__)
        where = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb[-4:]))
        return f'unexpected exception {type(err).__name__}: {err} ({where})'
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def _worker(spaces, shard, shards, queue, stop, known, current):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    quiet()
    result = {}
    try:
        for k, sp in enumerate(spaces):
            stat = Stat()
            states = 0
            samples = []
            viol = None
            found = []
            for i, case in enumerate(sp.cases()):
                if i % shards != shard:
                    continue
                if viol is not None or stop.is_set():
                    break
                states += 1
                current[2 * shard], current[2 * shard + 1] = k, i
                msg = run_case(sp, case, stat)
                if len(samples) < MAX_SAMPLES and (states % 97 == 1):
                    samples.append(repr(case)[:300])
                if msg is not None:
                    if (sp.name, repr(case)) in known:
                        found.append((sp.name, repr(case)))
                        continue
                    viol = (i, case, msg)
            result[sp.name] = dict(states=states, hashes=stat.states, transitions=stat.transitions, validated=stat.validated,
                                   outcomes=dict(stat.outcomes), samples=samples, violation=viol, known=found)
            if viol is not None:
                stop.set()
                break
        queue.put((shard, result, None))
    except BaseException:
        queue.put((shard, result, traceback.format_exc()))


def explore(spaces, workers=None, known=None):
    if workers is None:
        workers = int(os.environ.get('MC_WORKERS', 0)) or min(8, os.cpu_count() or 1)

    ctx = multiprocessing.get_context('fork')
    queue = ctx.Queue()
    stop = ctx.Event()
    current = ctx.Array('l', [-1] * (2 * workers), lock=False)
    procs = [ctx.Process(target=_worker, args=(spaces, k, workers, queue, stop, known or {}, current), daemon=True)
             for k in range(workers)]
    for p in procs:
        p.start()

    results = {}
    errors = []
    dead = []
    import queue as queue_mod
    while len(results) < workers:
        try:
            shard, res, err = queue.get(timeout=5)
            results[shard] = res
            if err:
                errors.append(err)
        except queue_mod.Empty:
            dead = [k for k, p in enumerate(procs) if not p.is_alive() and k not in results]
            if dead:
                time.sleep(2)
                try:
                    while True:
                        shard, res, err = queue.get(timeout=1)
                        results[shard] = res
                        if err:
                            errors.append(err)
                except queue_mod.Empty:
                    pass
                dead = [k for k in dead if k not in results]
                if dead:
                    stop.set()
                    break
    for p in procs:
        p.join(timeout=10)
        if p.is_alive():
            p.terminate()

    merged = {}
    for sp in spaces:
        tot = dict(states=0, transitions=0, validated=0, outcomes=collections.Counter(), samples=[],
                   violation=None, known=[], hashes=set())
        for shard in sorted(results):
            r = results[shard].get(sp.name)
            if r is None:
                continue
            for k in ('states', 'transitions', 'validated'):
                tot[k] += r[k]
            tot['outcomes'].update(r['outcomes'])
            tot['samples'].extend(r['samples'])
            tot['known'].extend(r['known'])
            tot['hashes'] |= r['hashes']
            v = r['violation']
            if v is not None and (tot['violation'] is None or v[0] < tot['violation'][0]):
                tot['violation'] = v
        tot['cases'] = tot['states']
        if tot['hashes']:
            tot['states'] = len(tot['hashes'])
        merged[sp.name] = tot

    # the code under test has ended the process (memory, crash of the interpreter, exit)
    for shard in dead:
        k, i = current[2 * shard], current[2 * shard + 1]
        if k < 0:
            errors.append(f'worker {shard} ended without a result')
            continue
        case = next(itertools.islice(spaces[k].cases(), i, None))
        tot = merged[spaces[k].name]
        if tot['violation'] is None or i < tot['violation'][0]:
            tot['violation'] = (i, case, ENDED)
    return merged, errors


def write_replay(pid, space, case, msg, reproduced):
    d = ROOT / 'replay'
    d.mkdir(exist_ok=True)
    key = hashlib.sha1(repr((pid, space, case)).encode()).hexdigest()[:10]
    path = d / f'{pid}-{space}-{key}.json'
    path.write_text(json.dumps({
        'property': pid,
        'space': space,
        'case': repr(case),
        'message': msg,
        'reproduced_alone': reproduced,
        'replay_cmd': f'./check.sh {pid} --replay {path}',
    }, indent=1))
    return path


def load_known(pid):
    """Returns the open known findings of the property: {(space, case repr): text}

    The lines of KNOWN_FINDINGS.txt:
        known: property=<id> space=<name> case=<repr of the case> # <what fails>
        fixed: property=<id> <commit> <what failed>          (suppresses nothing)
    """
    path = ROOT / 'KNOWN_FINDINGS.txt'
    out = {}
    if path.exists():
        for line in path.read_text().splitlines():
            m = KNOWN_RE.match(line)
            if m and m.group(1) == pid:
                out[(m.group(2), m.group(3))] = m.group(4)
    return out


def main(pid, title, spaces, tier, seed, assumptions=(), level='model_checking'):
    t0 = time.time()
    known = load_known(pid)
    merged, errors = explore(spaces, known=known)

    violation = None
    for sp in spaces:
        v = merged[sp.name]['violation']
        if v is not None:
            violation = (sp, v[1], v[2])
            break

    cov_spaces = {}
    for sp in spaces:
        m = merged[sp.name]
        outcomes = dict(sorted(m['outcomes'].items(), key=lambda kv: (-kv[1], kv[0]))[:40])
        cov_spaces[sp.name] = {
            'bound': sp.bound,
            'cases': m['cases'],
            'states': m['states'],
            'transitions': m['transitions'],
            'validated': m['validated'],
            'distinct_outcomes': len(m['outcomes']),
            'outcomes': outcomes,
        }

    samples = []
    for sp in spaces:
        for s in merged[sp.name]['samples'][:MAX_SAMPLES]:
            samples.append(f'{sp.name}: {s}')

    complete = violation is None and not errors
    ev = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': level,
        'coverage': {
            'states': sum(m['states'] for m in merged.values()),
            'transitions': sum(m['transitions'] for m in merged.values()),
            'traces_validated_against_impl': sum(m['validated'] for m in merged.values()),
            'samples': samples or ['none'],
            'exhaustive': complete,
            'spaces': cov_spaces,
            'explanation': 'states: distinct model states visited (or, where a space has no own state, input '
                           'configurations enumerated); cases: units of enumeration; '
                           'transitions: operations of the real code executed from them; '
                           'traces_validated_against_impl: model-versus-implementation comparisons made.',
        },
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - t0, 2),
        'violations': 0 if violation is None else 1,
    }
    ev_dir = ROOT / 'evidence'
    ev_dir.mkdir(exist_ok=True)
    (ev_dir / f'{pid}.json').write_text(json.dumps(ev, indent=1))

    for name, c in cov_spaces.items():
        print(f"{pid} {name}: cases={c['cases']} states={c['states']} transitions={c['transitions']} "
              f"validated={c['validated']} outcomes={c['distinct_outcomes']}")

    for key in sorted({k for m in merged.values() for k in m['known']}):
        print(f'KNOWN-FINDING: property={pid} {known[key]} [{key[0]} {key[1]}]')

    if violation is not None:
        sp, case, msg = violation
        reproduced = [] if msg in (ENDED, TIMED_OUT) else [replay_once(sp, case) is not None for _ in range(2)]
        path = write_replay(pid, sp.name, case, msg, reproduced)
        print(f'{pid}: {title}')
        print(f'  space: {sp.name}')
        print(f'  case: {case!r}'[:2000])
        print(f'  violated: {msg}'[:2000])
        print(f'  reproduced alone: {reproduced}')
        print(f'VIOLATION property={pid} replay={path}', flush=True)
        return 1
    if errors:
        print('HARNESS ERROR', file=sys.stderr)
        for e in errors:
            print(e, file=sys.stderr)
        return 2
    print(f'{pid}: held on everything explored ({ev["wall_s"]} s)')
    return 0


def replay_once(space, case):
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    quiet()
    return run_case(space, case, Stat())
