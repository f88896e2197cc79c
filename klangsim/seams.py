"""Seams: replace the nondeterministic facilities klang uses by dispatchers
that go to the simulated device of the current World and to the real facility
outside of a simulation. Installed before klang is imported, so that
`from time import sleep` and the like are covered as well.
"""
import builtins
import collections
import io
import os
import socket
import sys
import threading
import time

from klangsim import core

REAL = {
    'perf_counter': time.perf_counter, 'sleep': time.sleep, 'time': time.time,
    'monotonic': time.monotonic, 'open': builtins.open, 'socket': socket.socket,
    'Lock': threading.Lock, 'RLock': threading.RLock, 'write': sys.stdout.write,
    'deque': collections.deque, 'set': set,
}


class Dispatch:

    """Callable which is no function, so never turns into a bound method."""

    def __init__(self, name, real, simulated):
        self.__name__ = name
        self.real = real
        self.simulated = simulated

    def __call__(self, *args, **kwargs):
        world = core.CURRENT
        if world is None:
            return self.real(*args, **kwargs)
        return self.simulated(world, *args, **kwargs)


def install_time():
    time.perf_counter = Dispatch('perf_counter', REAL['perf_counter'], lambda w: w.perf_counter())
    time.monotonic = Dispatch('monotonic', REAL['monotonic'], lambda w: w.perf_counter())
    time.time = Dispatch('time', REAL['time'], lambda w: 1.6e9 + w.perf_counter())
    time.sleep = Dispatch('sleep', REAL['sleep'], lambda w, s: w.sleep(s))
    for name in ('perf_counter', 'monotonic', 'time'):
        ns = name + '_ns'
        setattr(time, ns, Dispatch(ns, getattr(time, ns), lambda w: int(w.perf_counter() * 1e9)))


def install_socket():
    real = socket.socket

    class SocketDispatch(real):
        def __new__(cls, *args, **kwargs):
            world = core.CURRENT
            if world is not None and world.net is not None:
                return world.net.socket(*args, **kwargs)
            return real.__new__(cls, *args, **kwargs)

    socket.socket = SocketDispatch


def install_files():
    real = builtins.open

    def simulated(world, file, *args, **kwargs):
        if world.fs is not None and not isinstance(file, int):
            try:
                path = os.fspath(file)
            except TypeError:
                path = None
            if path is not None and world.fs.owns(path):
                return world.fs.open(path, *args, **kwargs)
        return real(file, *args, **kwargs)

    builtins.open = Dispatch('open', real, simulated)
    io.open = builtins.open


def no_device(what):
    """The simulated machine has no such device."""
    return OSError(19, '%s: the simulated machine has no such device' % what)


def install_pyaudio():
    import pyaudio

    class PyAudio:
        def __new__(cls, *args, **kwargs):
            world = core.CURRENT
            if world is None:
                raise core.HarnessError('PyAudio used outside of a simulation')
            if world.audio is None:
                raise no_device('PyAudio')
            return world.audio.create()

    pyaudio.PyAudio = PyAudio


def install_rtmidi():
    import rtmidi

    class MidiOut:
        def __new__(cls, *args, **kwargs):
            world = core.CURRENT
            if world is None:
                raise core.HarnessError('MidiOut used outside of a simulation')
            if world.midi is None:
                raise no_device('MidiOut')
            return world.midi.create()

    rtmidi.MidiOut = MidiOut


def install_pynput():
    import pynput.keyboard

    class Listener:
        def __new__(cls, *args, **kwargs):
            world = core.CURRENT
            if world is None:
                raise core.HarnessError('Listener used outside of a simulation')
            if world.keyboard is None:
                raise no_device('Listener')
            return world.keyboard.listener(*args, **kwargs)

    pynput.keyboard.Listener = Listener


class StdoutProxy(io.TextIOBase):

    """Standard output which can be captured and made to fail per run."""

    def __init__(self, real):
        self.real = real

    def write(self, s):
        world = core.CURRENT
        if world is None:
            return self.real.write(s)
        if world.stdout is not None:
            return world.stdout.write(s)
        return len(s)

    def flush(self):
        world = core.CURRENT
        if world is None:
            self.real.flush()
        elif world.stdout is not None:
            world.stdout.flush()

    def isatty(self):
        return False

    def fileno(self):
        return self.real.fileno()

    @property
    def encoding(self):
        return 'utf-8'


def install_stdout():
    sys.stdout = StdoutProxy(sys.__stdout__)


def _called_from_klang(depth=2):
    frame = sys._getframe(depth)
    name = frame.f_globals.get('__name__', '')
    return name == 'klang' or name.startswith('klang.')


def install_locks():
    """Locks made by klang are simulated, so that the scheduler decides who
    gets them."""
    from klangsim.sched import SimLock

    def make(name):
        real = REAL[name]

        def factory(*args, **kwargs):
            if _called_from_klang():
                return SimLock(reentrant=(name == 'RLock'))
            return real(*args, **kwargs)

        return factory

    threading.Lock = make('Lock')
    threading.RLock = make('RLock')


# Seams inside of klang's own namespaces (after import)

class ShuffleState:
    rng = None
    """random.Random or None: iteration order of sets of connections."""


class _ShuffledMeta(type):
    def __instancecheck__(cls, obj):
        return type.__instancecheck__(cls, obj) or type(obj) is set


class ShuffledSet(set, metaclass=_ShuffledMeta):

    """Set whose iteration order is decided by the simulator. Python promises
    none (in CPython it depends on memory addresses)."""

    def __iter__(self):
        items = list(set.__iter__(self))
        rng = ShuffleState.rng
        if rng is not None and len(items) > 1:
            rng.shuffle(items)
        return self._iterate(items)

    def _iterate(self, items):
        for item in items:
            yield item
            if len(self) != len(items):   # As every set does
                raise RuntimeError('Set changed size during iteration')


class SimDeque(collections.deque):

    """Deque where every operation is a scheduling point of simulated threads
    (each single operation is atomic, as in CPython and PyPy)."""

    def _point(self, op):
        world = core.CURRENT
        if world is not None and world.sched is not None:
            world.sched.yield_point('deque.' + op)


def _add_deque_ops():
    def wrap(op):
        real = getattr(collections.deque, op)

        def method(self, *args, **kwargs):
            self._point(op)
            return real(self, *args, **kwargs)

        method.__name__ = op
        return method

    for op in ('append', 'appendleft', 'pop', 'popleft', 'clear', 'extend',
               'extendleft', '__len__', '__getitem__', 'remove'):
        setattr(SimDeque, op, wrap(op))
    if '__bool__' in dir(collections.deque):
        setattr(SimDeque, '__bool__', wrap('__bool__'))


_add_deque_ops()


class _CollectionsProxy:
    def __getattr__(self, name):
        if name == 'deque':
            return SimDeque
        return getattr(collections, name)


def patch_klang_namespaces():
    """Connection sets get simulated iteration order, message queues become
    scheduling points."""
    for modname in ('klang.connections', 'klang.execution'):
        mod = sys.modules[modname]
        mod.__dict__.setdefault('set', ShuffledSet)
    mod = sys.modules['klang.connections']
    for key, val in list(mod.__dict__.items()):
        if val is collections:
            mod.__dict__[key] = _CollectionsProxy()
        elif val is collections.deque:
            mod.__dict__[key] = SimDeque


def install_before_import():
    install_time()
    install_socket()
    install_files()
    install_pyaudio()
    install_rtmidi()
    install_pynput()
    install_stdout()
    install_locks()
