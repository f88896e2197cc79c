"""Seeded search, isolation, shrinking, replay and evidence."""
import copy
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time

import numpy as np

from klangsim import boot, core
from klangsim.core import Context, Hang, HarnessError, SimCrash, StopRun, Violation

PERF = time.perf_counter  # Real clock. Bound before the seams are installed.
HANG_SECONDS = 40
CONFIRM_SECONDS = 100
BATCH = 40
MAX_STATES = 200000


def load_property(pid):
    import pkgutil
    from klangsim import props
    for info in pkgutil.iter_modules(props.__path__):
        if info.name.upper().startswith(pid.upper() + '_'):
            return importlib.import_module('klangsim.props.' + info.name).PROP
    raise HarnessError('no check for property %s' % pid)


def run_seed(prop, baseSeed, index):
    h = hashlib.sha256(('%s:%s:%d' % (prop.id, baseSeed, index)).encode()).digest()
    return int.from_bytes(h[:8], 'little')


def make_scenario(prop, baseSeed, index, tier):
    seed = run_seed(prop, baseSeed, index)
    rng = random.Random(seed)
    sc = prop.gen(rng, tier, index)
    sc.setdefault('seed', seed & 0x7fffffff)
    return json.loads(json.dumps(sc))  # exactly what a replay file holds


class Outcome:

    """Result of one run."""

    def __init__(self, key=None, msg='', digest='', ctx=None, harness=None):
        self.key = key
        self.msg = msg
        self.digest = digest
        self.ctx = ctx
        self.harness = harness


def _alarm(signum, frame):
    raise Hang()


def execute(prop, scenario, keepLog=False, watchdog=HANG_SECONDS):
    """One run: scenario -> outcome. The scenario decides everything."""
    from klangsim import seams
    ctx = Context(keepLog)
    seed = scenario.get('seed', 0)
    random.seed(seed)
    np.random.seed(seed & 0xffffffff)
    seams.ShuffleState.rng = random.Random(seed ^ 0x5eed) if scenario.get('shuffle', True) else None
    from klang.clock import ClockMixin
    ClockMixin.set_current_time(0.)
    world = core.World(ctx)
    key = None
    msg = ''
    harness = None
    old = signal.signal(signal.SIGALRM, _alarm)
    if watchdog:
        signal.setitimer(signal.ITIMER_REAL, watchdog)
    try:
        with core.activate(world):
            prop.execute(copy.deepcopy(scenario), ctx, world)
    except Violation as err:
        key, msg = err.key, err.msg
    except HarnessError as err:
        harness = core.short_tb(err, 12)
    except Hang:
        key, msg = 'hang', 'no progress within %d s of real time' % watchdog
    except (SimCrash, StopRun) as err:
        harness = 'simulator exception escaped: ' + core.short_tb(err, 12)
    except BaseException as err:  # What klang raises is a finding, see classify
        key, harness, msg = classify(err)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        seams.ShuffleState.rng = None
        core.CURRENT = None
        cleanup = getattr(world, 'cleanup', None)
        if cleanup:
            cleanup()
    ctx.log('outcome', key or 'ok', msg if key else '')
    return Outcome(key, msg, ctx.digest(), ctx, harness)


def classify(err):
    """Exceptions which come out of klang are violations (nothing the
    properties cover may raise), others are errors of the simulator."""
    if isinstance(err, KeyboardInterrupt) and not core.is_sim_fault(err):
        return None, 'interrupted', ''
    tb = err.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    fromKlang = any(os.path.abspath(f).startswith(boot.REPO + os.sep) for f in files)
    text = core.short_tb(err, 8)
    if fromKlang or core.is_sim_fault(err):
        return 'exception-' + type(err).__name__, None, text
    if not files or not os.path.abspath(files[-1]).startswith(boot.VERIF + os.sep):
        # numpy & co, fed with what klang gave out
        return 'exception-' + type(err).__name__, None, text
    if isinstance(err, (TypeError, ValueError, AttributeError, IndexError, KeyError, AssertionError,
                        ArithmeticError)):
        # The oracle stumbled over something klang gave out
        return 'exception-' + type(err).__name__, None, text
    return None, text, ''


# --- Isolation ---------------------------------------------------------------

def run_isolated(prop, scenarios, timeout, keepLog=False):
    """Run scenarios one after another in a forked child. Returns outcome dict
    of the last one (key may be 'crash' / 'hang')."""
    r, w = os.pipe()
    sys.__stdout__.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            limit_memory()
            out = None
            for sc in scenarios:
                out = execute(prop, sc, keepLog=keepLog, watchdog=timeout)
            data = pickle.dumps(dict(key=out.key, msg=out.msg, digest=out.digest, harness=out.harness,
                                     events=out.ctx.events, nEvents=out.ctx.nEvents,
                                     faults=out.ctx.faults))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException as err:  # pylint: disable=broad-except
            sys.__stderr__.write(core.short_tb(err, 12) + '\n')
            code = 99
        finally:
            sys.__stdout__.flush()
            sys.__stderr__.flush()
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = PERF() + timeout * max(1, min(len(scenarios), 3)) + 20
    killed = False
    while True:
        left = deadline - PERF()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            data = os.read(r, 1 << 16)
            if not data:
                break
            chunks.append(data)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if killed:
        return dict(key='hang', msg='no progress within %d s of real time (killed)' % timeout,
                    digest='hang', harness=None, events=[], nEvents=0, faults={})
    if os.WIFSIGNALED(status):
        sig = os.WTERMSIG(status)
        return dict(key='crash', msg='process died of signal %d' % sig, digest='crash-%d' % sig,
                    harness=None, events=[], nEvents=0, faults={})
    if os.WEXITSTATUS(status) != 0 or not chunks:
        if os.WEXITSTATUS(status) == 99:
            return dict(key=None, msg='', digest='', harness='isolated run failed', events=[], nEvents=0, faults={})
        return dict(key='crash', msg='process exited with status %d' % os.WEXITSTATUS(status),
                    digest='exit', harness=None, events=[], nEvents=0, faults={})
    return pickle.loads(b''.join(chunks))


def limit_memory(gb=6):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    except (ValueError, OSError):
        pass
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    except (ValueError, OSError):
        pass


# --- Search ------------------------------------------------------------------

class Totals:
    def __init__(self):
        self.runs = 0
        self.nontrivial = 0
        self.digests = set()
        self.states = set()
        self.faults = {}
        self.counts = {}
        self.simTime = 0.
        self.events = 0
        self.violations = []   # (index, key, msg)
        self.harness = []
        self.samples = []
        self.digestByIndex = {}

    def add(self, d):
        self.runs += d['runs']
        self.nontrivial += d['nontrivial']
        self.digests |= d['digests']
        if len(self.states) < MAX_STATES:
            self.states |= d['states']
        for name in ('faults', 'counts'):
            mine = getattr(self, name)
            for k, v in d[name].items():
                mine[k] = mine.get(k, 0) + v
        self.simTime += d['simTime']
        self.events += d['events']
        self.violations += d['violations']
        self.harness += d['harness']
        self.digestByIndex.update(d['byIndex'])


def new_batch():
    return dict(runs=0, nontrivial=0, digests=set(), states=set(), faults={}, counts={}, simTime=0.,
                events=0, violations=[], harness=[], byIndex={})


def worker_batch(prop, baseSeed, tier, indices, fd, shared, slot, deadline):
    """Child process: run a batch of seeds, send the aggregate."""
    limit_memory()
    batch = new_batch()
    for i in indices:
        if PERF() > deadline or shared[-1]:
            break
        shared[slot * 8:slot * 8 + 8] = struct.pack('<q', i)
        try:
            sc = make_scenario(prop, baseSeed, i, tier)
        except BaseException as err:  # pylint: disable=broad-except
            batch['harness'].append((i, core.short_tb(err, 12)))
            break
        out = execute(prop, sc)
        ctx = out.ctx
        batch['runs'] += 1
        h = struct.unpack('<q', bytes.fromhex(out.digest))[0]
        batch['byIndex'][i] = out.digest if i < 64 else None
        if i >= 64:
            del batch['byIndex'][i]
        if ctx.nontrivial:
            batch['nontrivial'] += 1
            batch['digests'].add(h)
        batch['states'] |= ctx.states
        for name in ('faults', 'counts'):
            for k, v in getattr(ctx, name).items():
                batch[name][k] = batch[name].get(k, 0) + v
        batch['simTime'] += ctx.simTime
        batch['events'] += ctx.nEvents
        if out.harness:
            batch['harness'].append((i, out.harness))
            shared[len(shared) - 1] = 1
            break
        if out.key:
            shared[len(shared) - 1] = 1
            batch['violations'].append((i, out.key, out.msg, list(indices[:indices.index(i) + 1])))
            break
    with os.fdopen(fd, 'wb') as f:
        f.write(pickle.dumps(batch))


def search(prop, baseSeed, tier, nRuns, seconds, nWorkers):
    """Run seeds 0..nRuns-1 in forked workers (fresh fork per batch)."""
    totals = Totals()
    shared = mmap.mmap(-1, 8 * nWorkers + 8)   # Runs in progress; flag: somebody found a violation
    start = PERF()
    deadline = start + seconds
    batchSize = max(1, min(getattr(prop, 'batch', BATCH), -(-nRuns // nWorkers)))
    batches = [list(range(a, min(a + batchSize, nRuns))) for a in range(0, nRuns, batchSize)]
    batches.reverse()
    running = {}  # fd -> (pid, slot, indices, chunks, lastIndex, lastTime)
    free = list(range(nWorkers))
    suspects = []
    gc.collect()
    stop = False
    while running or (batches and not stop):
        while batches and free and not stop and PERF() < deadline:
            indices = batches.pop()
            slot = free.pop()
            r, w = os.pipe()
            shared[slot * 8:slot * 8 + 8] = struct.pack('<q', -1)
            sys.__stdout__.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    worker_batch(prop, baseSeed, tier, indices, w, shared, slot, deadline)
                except BaseException as err:  # pylint: disable=broad-except
                    sys.__stderr__.write(core.short_tb(err, 12) + '\n')
                    sys.__stderr__.flush()
                    code = 99
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = [pid, slot, indices, [], -1, PERF()]
        if PERF() >= deadline:
            batches = []
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.)
        now = PERF()
        for fd in list(running):
            entry = running[fd]
            pid, slot, indices, chunks, lastIndex, lastTime = entry
            done = False
            if fd in ready:
                data = os.read(fd, 1 << 20)
                if data:
                    chunks.append(data)
                    entry[5] = now
                else:
                    done = True
            current = struct.unpack('<q', shared[slot * 8:slot * 8 + 8])[0]
            if current != lastIndex:
                entry[4], entry[5] = current, now
            elif not done and now - lastTime > HANG_SECONDS + 25:
                os.kill(pid, signal.SIGKILL)
                done = True
            if done:
                os.close(fd)
                _, status = os.waitpid(pid, 0)
                del running[fd]
                free.append(slot)
                if status == 0 and chunks:
                    batch = pickle.loads(b''.join(chunks))
                    totals.add(batch)
                    if batch['violations'] or batch['harness']:
                        stop = True
                else:
                    code = os.WEXITSTATUS(status) if os.WIFEXITED(status) else 0
                    if code == 99:
                        totals.harness.append((current, 'worker failed'))
                    else:
                        suspects.append((max(current, indices[0]), 'worker died (status %d)' % status, list(indices)))
                    stop = True
    totals.wall = PERF() - start
    for index, why, indices in suspects:
        totals.violations.append((index, 'crash', why, indices[:indices.index(index) + 1]))
    totals.violations.sort()
    return totals


# --- Shrinking ---------------------------------------------------------------

def list_paths(obj, path=()):
    """All paths of non-empty lists within a scenario, longest lists first."""
    found = []
    if isinstance(obj, dict):
        for k in sorted(obj):
            if not k.startswith('_'):
                found += list_paths(obj[k], path + (k,))
    elif isinstance(obj, list):
        if obj:
            found.append((path, len(obj)))
        for i, v in enumerate(obj):
            if isinstance(v, (dict, list)):
                found += list_paths(v, path + (i,))
    return found


def get_path(obj, path):
    for p in path:
        obj = obj[p]
    return obj


def set_path(obj, path, value):
    parent = get_path(obj, path[:-1])
    parent[path[-1]] = value


def shrink(prop, scenario, key, seconds, test):
    """ddmin over the lists of the scenario, then simplify numbers. test(sc)
    returns True if sc still violates with the same key."""
    deadline = PERF() + seconds
    best = copy.deepcopy(scenario)
    shrinkable = getattr(prop, 'shrink_lists', ('ops', 'faults', 'switches', 'net', 'events'))
    tries = 0
    changed = True
    while changed and PERF() < deadline:
        changed = False
        paths = [p for p, n in sorted(list_paths(best), key=lambda x: -x[1])
                 if any(isinstance(k, str) and k in shrinkable for k in p[-1:])]
        for path in paths:
            try:
                items = get_path(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            size = max(1, len(items) // 2)
            while size >= 1 and PERF() < deadline:
                i = 0
                while i < len(items) and PERF() < deadline:
                    cand = copy.deepcopy(best)
                    set_path(cand, path, items[:i] + items[i + size:])
                    tries += 1
                    if test(cand):
                        best = cand
                        items = get_path(best, path)
                        changed = True
                    else:
                        i += size
                size //= 2
        for name, low in getattr(prop, 'shrink_numbers', {}).items():
            if name in best and isinstance(best[name], (int, float)) and best[name] > low:
                for val in (low, (best[name] + low) // 2 if isinstance(best[name], int) else (best[name] + low) / 2):
                    if val == best[name] or PERF() > deadline:
                        continue
                    cand = copy.deepcopy(best)
                    cand[name] = val
                    tries += 1
                    if test(cand):
                        best = cand
                        changed = True
                        break
    return best, tries


# --- Commands ----------------------------------------------------------------

def load_known():
    path = os.path.join(boot.VERIF, 'known_findings.json')
    with open(path) as f:
        return json.load(f)


def match_known(known, prop, out):
    """A known finding matches by property, key and all listed substrings of the
    message; nothing else of the same property is suppressed."""
    for entry in known.get('findings', []):
        if entry['property'] == prop.id and entry['key'] == out['key'] \
                and all(s in out['msg'] for s in entry.get('msg_contains', [])):
            return entry
    return None


def write_replay(prop, kind, payload, out, baseSeed, index, tier, extra):
    folder = os.path.join(boot.VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, '%s-%s-%d.json' % (prop.id, baseSeed, index))
    doc = dict(property=prop.id, format=1, kind=kind, key=out['key'], digest=out['digest'], message=out['msg'],
               seed=str(baseSeed), index=index, tier=tier, scenarios=payload,
               events=out.get('events', [])[-300:], **extra)
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    return path


def confirm(prop, baseSeed, tier, index, key, history):
    """Reproduce a violation in isolation: alone, else with the runs before it
    in its worker (state leaking between instances). Returns scenarios, outcome."""
    sc = make_scenario(prop, baseSeed, index, tier)
    out = run_isolated(prop, [sc], CONFIRM_SECONDS)
    if out['harness']:
        return None, out
    if out['key']:
        return [sc], out
    n = 1
    while n <= len(history):
        n = min(n * 2, len(history))
        scs = [make_scenario(prop, baseSeed, i, tier) for i in history[-n:]]
        out = run_isolated(prop, scs, CONFIRM_SECONDS)
        if out['key']:
            return scs, out
        if n == len(history):
            break
    return None, out


def check(pid, tier, baseSeed, nRuns=None, seconds=None, nWorkers=None, shrinkSeconds=None, evidence=True):
    t0 = PERF()
    prop = load_property(pid)
    boot.boot()
    if hasattr(prop, 'setup'):
        prop.setup()
    nRuns = nRuns or (prop.quick_runs if tier == 'quick' else prop.thorough_runs)
    seconds = seconds or (prop.quick_seconds if tier == 'quick' else prop.thorough_seconds)
    nWorkers = nWorkers or min(8, os.cpu_count() or 1)
    totals = search(prop, baseSeed, tier, nRuns, seconds, nWorkers)
    known = load_known()
    failures = []
    errors = ['run %d: %s' % h for h in totals.harness]
    seenKeys = set()
    for index, key, msg, history in totals.violations:
        if key in seenKeys or len(failures) >= 2:
            continue
        scs, out = confirm(prop, baseSeed, tier, index, key, history)
        if out['harness']:
            errors.append('run %d: %s' % (index, out['harness']))
            continue
        if scs is None:
            errors.append('run %d: %s did not reproduce in isolation: %s' % (index, key, msg))
            continue
        seenKeys.add(key)
        entry = match_known(known, prop, out)
        tries = 0
        budget = shrinkSeconds if shrinkSeconds is not None else (25 if tier == 'quick' else 90)
        if len(scs) == 1 and out['key'] not in ('hang',) and budget:
            def test(cand, key=out['key']):
                res = run_isolated(prop, [cand], 30)
                return res['key'] == key and not res['harness'] and \
                    match_known(known, prop, res) is entry
            small, tries = shrink(prop, scs[0], out['key'], budget, test)
            scs = [small]
        final = run_isolated(prop, scs, CONFIRM_SECONDS, keepLog=True)
        if final['key'] != out['key']:
            errors.append('run %d: shrunk scenario does not reproduce' % index)
            continue
        path = write_replay(prop, 'history' if len(scs) > 1 else 'single', scs, final, baseSeed, index, tier,
                            dict(shrink_tries=tries))
        if entry is not None:
            print('KNOWN-FINDING: property=%s %s' % (prop.id, entry['what']))
            continue
        failures.append(path)
        print('%s: run %d (seed %d) violates the property: %s' % (
            prop.id, index, run_seed(prop, baseSeed, index), final['key']))
        print('    ' + final['msg'].replace('\n', '\n    '))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
    # Every run is a function of its seed: check it on some seeds
    rechecked = mismatched = 0
    if not failures and not errors:
        for i in sorted(totals.digestByIndex)[:4 if tier == 'quick' else 24]:
            out = run_isolated(prop, [make_scenario(prop, baseSeed, i, tier)], CONFIRM_SECONDS)
            rechecked += 1
            if out['digest'] != totals.digestByIndex[i]:
                mismatched += 1
    if evidence:
        write_evidence(prop, tier, baseSeed, totals, PERF() - t0, len(failures), rechecked, mismatched, nWorkers)
    rate = 3600. * totals.runs / max(totals.wall, 1e-9)
    print('%s %s: %d runs (%.0f/h), %d distinct non-trivial, %d states, %.0f s simulated, faults %s, %.1f s' % (
        prop.id, tier, totals.runs, rate, len(totals.digests), len(totals.states), totals.simTime,
        dict(sorted(totals.faults.items())), PERF() - t0))
    if mismatched:
        print('%s: note: %d of %d re-executed seeds gave another event log' % (prop.id, mismatched, rechecked))
    sys.stdout.flush()
    if failures:
        return 1
    if errors:
        for e in errors[:3]:
            print('ERROR %s: %s' % (prop.id, e))
        sys.stdout.flush()
        return 2
    return 0


def write_evidence(prop, tier, baseSeed, totals, wall, nViolations, rechecked, mismatched, nWorkers):
    samples = []
    for i in (0, 1, 2):
        sc = make_scenario(prop, baseSeed, i, tier)
        text = json.dumps(sc, sort_keys=True)
        samples.append(dict(index=i, seed=run_seed(prop, baseSeed, i), scenario=text[:1500]))
    coverage = dict(
        evaluations=totals.runs,
        distinct_nontrivial=len(totals.digests),
        rule=prop.rule + ' Distinct by digest of the full event log of the run.',
        samples=samples,
        nontrivial_runs=totals.nontrivial,
        runs_per_hour=round(3600. * totals.runs / max(totals.wall, 1e-9)),
        seeds_per_hour=round(3600. * totals.runs / max(totals.wall, 1e-9)),
        simulated_seconds=round(totals.simTime, 3),
        events=totals.events,
        faults_injected=dict(sorted(totals.faults.items())),
        counts=dict(sorted(totals.counts.items())),
        distinct_states=len(totals.states),
        state_measure=prop.state_measure,
        components_real=prop.real,
        components_stubbed=prop.stubs,
        reexecuted_seeds=rechecked,
        reexecution_mismatches=mismatched,
        workers=nWorkers,
    )
    folder = os.path.join(boot.VERIF, 'evidence')
    os.makedirs(folder, exist_ok=True)
    doc = dict(property=prop.id, tier=tier, seed=int(baseSeed) if str(baseSeed).lstrip('-').isdigit() else 0,
               level='exploration', coverage=coverage, assumptions=list(prop.assumptions), wall_s=round(wall, 2),
               violations=nViolations)
    path = os.path.join(folder, prop.id + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(doc, f, indent=1)
    os.replace(path + '.tmp', path)


def replay(path, verbose=True):
    with open(path) as f:
        doc = json.load(f)
    prop = load_property(doc['property'])
    boot.boot()
    if hasattr(prop, 'setup'):
        prop.setup()
    out = run_isolated(prop, doc['scenarios'], CONFIRM_SECONDS, keepLog=True)
    if out['harness']:
        print('ERROR %s: %s' % (prop.id, out['harness']))
        return 2
    if verbose:
        for e in out['events'][-60:]:
            print('  ' + e)
    if out['key']:
        exact = out['digest'] == doc['digest'] and out['key'] == doc['key']
        print('    ' + out['msg'].replace('\n', '\n    '))
        print('%s: %s (%s)' % (prop.id, out['key'], 'exact reproduction' if exact else 'differs from the recorded run'))
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    print('%s: replay shows no violation on this tree' % prop.id)
    return 0


class Property:

    """Base class of all checks."""

    id = ''
    quick_runs = 400
    thorough_runs = 20000
    quick_seconds = 40
    thorough_seconds = 600
    rule = ''
    state_measure = ''
    real = []
    stubs = []
    assumptions = []

    def gen(self, rng, tier, index):
        raise NotImplementedError

    def execute(self, sc, ctx, world):
        raise NotImplementedError
