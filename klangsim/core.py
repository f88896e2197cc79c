"""Core of the simulator: violations, run context, world (virtual clock and
device seams), event log digests.

Nothing in here imports klang: seams have to be in place first (boot.py).
"""
import hashlib
import heapq
import json
import struct
import threading
import traceback

import numpy as np


REAL_LOCK = threading.Lock  # Bound before the seams are installed


class Violation(Exception):

    """The property does not hold in this run."""

    def __init__(self, key, msg):
        super().__init__(key, msg)
        self.key = key
        self.msg = msg


class HarnessError(Exception):

    """Something is wrong with the simulator, not with klang."""


class SimCrash(BaseException):

    """Simulated death of the process (power cut, SIGKILL)."""


class StopRun(BaseException):

    """Simulator ends an endless loop of the system under test."""


class Hang(BaseException):

    """Watchdog: the system under test made no progress."""


def sim_fault(exc):
    """Mark an exception as an injected fault."""
    exc._simFault = True
    return exc


def is_sim_fault(exc):
    return getattr(exc, '_simFault', False)


class Context:

    """Everything one run records: event log digest, counters, coverage."""

    def __init__(self, keepLog=False):
        self.sha = hashlib.sha256()
        self.nEvents = 0
        self.faults = {}
        self.simTime = 0.
        self.counts = {}
        self.states = set()
        self.nontrivial = True
        self.keepLog = keepLog
        self.events = []

    def log(self, *items):
        """Record one event. Events make the digest of the run."""
        s = '|'.join(_fmt(i) for i in items)
        self.sha.update(s.encode())
        self.sha.update(b'\n')
        self.nEvents += 1
        if self.keepLog and len(self.events) < 20000:
            self.events.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def state(self, *items):
        """Record a distinct (abstract) state / interleaving."""
        if len(self.states) < 2000:
            h = hashlib.blake2b('|'.join(_fmt(i) for i in items).encode(), digest_size=8).digest()
            self.states.add(struct.unpack('<q', h)[0])

    def fail(self, key, msg=''):
        raise Violation(key, msg)

    def check(self, cond, key, msg='', *args):
        if not cond:
            raise Violation(key, msg % args if args else msg)

    def digest(self):
        return self.sha.hexdigest()[:16]


def _fmt(x):
    if isinstance(x, str):
        return x
    if isinstance(x, bool):
        return '1' if x else '0'
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, np.ndarray):
        return 'nd%s%s' % (x.shape, hashlib.blake2b(np.ascontiguousarray(x).tobytes(), digest_size=6).hexdigest())
    if isinstance(x, bytes):
        return 'b' + hashlib.blake2b(x, digest_size=6).hexdigest()
    return repr(x)


class EventQueue:

    """Pending simulated events ordered by time, then by insertion."""

    def __init__(self):
        self.heap = []
        self.n = 0

    def push(self, t, item):
        self.n += 1
        heapq.heappush(self.heap, (t, self.n, item))

    def pop_due(self, t):
        out = []
        while self.heap and self.heap[0][0] <= t:
            out.append(heapq.heappop(self.heap)[2])
        return out

    def peek_time(self):
        return self.heap[0][0] if self.heap else None


class World:

    """Virtual clock and everything behind the seams. Each attribute is the
    simulated device; None means: not part of this simulation (the machine has
    no such device: opening it fails with an OSError).
    """

    def __init__(self, ctx):
        self.ctx = ctx
        self.now = 0.
        self.net = None
        self.audio = None
        self.midi = None
        self.keyboard = None
        self.fs = None
        self.sched = None
        self.on_sleep = None      # callable(seconds): replaces default sleep
        self.read_clock = None    # callable(): replaces default clock reading
        self.stdout = None

    # time seam
    def perf_counter(self):
        if self.read_clock is not None:
            return self.read_clock()
        return self.now

    def sleep(self, seconds):
        if seconds < 0:
            raise ValueError('sleep length must be non-negative')
        if self.on_sleep is not None:
            return self.on_sleep(seconds)
        self.now += seconds


CURRENT = None
"""World of the run in progress (None outside of simulations)."""


class activate:

    """Context manager: make world the current one."""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        global CURRENT
        self.prev = CURRENT
        CURRENT = self.world
        return self.world

    def __exit__(self, *exc):
        global CURRENT
        CURRENT = self.prev
        return False


def short_tb(exc, n=6):
    return ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-n:]).strip()


def dumps(obj):
    return json.dumps(obj, sort_keys=True)
