"""Simulated sound card behind the PyAudio interface.

Callbacks run while the main thread sleeps (as the PortAudio thread does), at
times decided by the scenario. Every call into the device can fail or be
interrupted.
"""
import weakref

import numpy as np

from klangsim import core

INTERVAL = 256 / 44100
CONTINUE, COMPLETE, ABORT = 0, 1, 2


class Overrun(Exception):
    pass


class SimAudio:

    """World device. Spec (all optional):

    inputs / outputs   channels of the default devices, None: no such device
    jitter             list of relative lateness per callback (in intervals)
    prime              callbacks which run within start_stream
    drain              callbacks which run within stop_stream
    flags              {callback: status flag}
    lose               callback before which the device is lost
    points             [[call name, n-th call, 'before' / 'after', kind]] with
                       kind 'interrupt' (Ctrl-C) or 'error' (OSError)
    async_errors       errors of the callback are raised in the main thread
    limit              callbacks after which the simulation ends by Ctrl-C
    """

    def __init__(self, world, spec):
        self.world = world
        self.ctx = world.ctx
        self.spec = spec
        self.sessions = []
        self.streams = []
        self.calls = {}
        self.jitter = spec.get('jitter') or [0.]
        self.flags = {int(k): v for k, v in spec.get('flags', {}).items()}
        self.points = [tuple(p) for p in spec.get('points', [])]
        self.pendingError = None
        self.faulted = False
        self.inject = None       # callable(k, channels) -> input samples (frames, channels)
        self.before_callback = None
        self.returned = None     # list: weak references of all buffers put out
        self.limited = False
        world.on_sleep = self.sleep

    # Faults
    def point(self, name, when):
        if when == 'before':
            self.calls[name] = self.calls.get(name, 0) + 1
        n = self.calls[name]
        for cName, nth, cWhen, kind in self.points:
            if cName == name and nth == n and cWhen == when:
                self.ctx.fault('%s %s %s' % (kind, when, name))
                self.ctx.log('fault', name, n, when, kind)
                self.faulted = True
                if kind == 'interrupt':
                    raise core.sim_fault(KeyboardInterrupt())
                raise core.sim_fault(OSError(-9999, 'Unanticipated host error'))

    def wrap(self, name, func):
        self.point(name, 'before')
        ret = func()
        self.point(name, 'after')
        return ret

    def create(self):
        session = Session(self)
        self.sessions.append(session)
        self.ctx.log('session')
        return session

    # Time
    def sleep(self, seconds):
        self.point('sleep', 'before')
        end = self.world.now + seconds
        self.run_until(end)
        self.world.now = max(self.world.now, end)
        self.point('sleep', 'after')
        self.deliver_error()
        limit = self.spec.get('limit', 0)
        if limit and self.calls['sleep'] > limit:
            self.limited = True
            raise core.sim_fault(KeyboardInterrupt())

    def deliver_error(self):
        if self.pendingError is not None:
            err, self.pendingError = self.pendingError, None
            raise err

    def run_until(self, end):
        while True:
            due = [(s.next, i) for i, s in enumerate(self.streams) if s.running and s.next <= end]
            if not due:
                return
            t, i = min(due)
            self.world.now = max(self.world.now, t)
            self.streams[i].callback()


class Session:

    """PyAudio instance."""

    def __init__(self, audio):
        self.audio = audio
        self.terminated = 0
        self.streams = []

    def alive(self, what):
        if self.terminated:
            self.audio.ctx.fail('use-after-terminate', '%s after terminate()' % what)

    def _info(self, kind, channels):
        self.alive('get_default_%s_device_info()' % kind)

        def get():
            if channels is None:
                self.audio.ctx.fault('no %s device' % kind)
                raise core.sim_fault(OSError('No Default %s Device Available' % kind.capitalize()))
            spec = self.audio.spec
            return {'index': 0, 'name': 'simulated', 'hostApi': 0, 'defaultSampleRate': 44100.,
                    'maxInputChannels': spec.get('inputs') or 0, 'maxOutputChannels': spec.get('outputs') or 0}

        return self.audio.wrap('device_info', get)

    def get_default_input_device_info(self):
        return self._info('input', self.audio.spec.get('inputs'))

    def get_default_output_device_info(self):
        return self._info('output', self.audio.spec.get('outputs'))

    def get_device_count(self):
        return 1

    def get_sample_size(self, fmt):
        return 4

    def open(self, rate, channels, format, input=False, output=False, input_device_index=None, output_device_index=None,
             frames_per_buffer=1024, start=True, input_host_api_specific_stream_info=None,
             output_host_api_specific_stream_info=None, stream_callback=None):
        self.alive('open()')
        audio = self.audio

        def make():
            spec = audio.spec
            if not (input or output):
                raise ValueError('Must specify an input or output stream.')
            if channels < 1:
                raise core.sim_fault(OSError(-9998, 'Invalid number of channels'))
            for used, have in ((input, spec.get('inputs')), (output, spec.get('outputs'))):
                if used and (have is None or channels > have):
                    raise core.sim_fault(OSError(-9998, 'Invalid number of channels'))
            stream = Stream(self, rate, channels, bool(input), bool(output), frames_per_buffer, stream_callback)
            self.streams.append(stream)
            audio.streams.append(stream)
            audio.ctx.log('open', rate, channels, bool(input), bool(output), frames_per_buffer)
            return stream

        audio.point('open', 'before')
        stream = make()
        if start:
            stream.begin()
        # (An interrupt just after open() would strike before any code can know the stream.)
        return stream

    def close(self, stream):
        stream.close()

    def terminate(self):
        self.terminated += 1
        self.audio.ctx.log('terminate')
        if self.terminated > 1:
            self.audio.ctx.fail('terminated-twice', 'audio session terminated twice')

        def do():
            for s in self.streams:
                s.running = False
                if not s.closed:
                    s.closed += 1
                    s.implicit = True

        self.audio.point('terminate', 'before')
        do()
        self.audio.point('terminate', 'after')


class Stream:

    """PyAudio stream in callback mode."""

    def __init__(self, session, rate, channels, isIn, isOut, frames, callback):
        self.session = session
        self.audio = session.audio
        self.rate, self.channels, self.isIn, self.isOut, self.frames = rate, channels, isIn, isOut, frames
        self.user = callback
        self.running = False
        self.started = 0
        self.stopped = 0
        self.closed = 0
        self.implicit = False
        self.next = 0.
        self.k = 0
        self.finishAt = None
        self.out = []          # (time, k, bytes, flag, frames)
        self.error = None

    def alive(self, what):
        self.session.alive(what)
        if self.closed:
            self.audio.ctx.fail('use-after-close', '%s after close()' % what)

    def start_stream(self):
        self.alive('start_stream()')
        self.audio.point('start_stream', 'before')
        if not self.started:
            self.begin()
        self.audio.point('start_stream', 'after')

    def begin(self):
        self.started += 1
        self.running = True
        self.audio.ctx.log('start')
        self.next = self.audio.world.now + self.late()
        for _ in range(self.audio.spec.get('prime', 0)):
            if self.running:
                self.callback()

    def late(self):
        j = self.audio.jitter
        return INTERVAL * max(.01, 1. + j[self.k % len(j)])

    def is_active(self):
        self.alive('is_active()')
        return self.audio.wrap('is_active', lambda: self.running or (
            self.finishAt is not None and self.audio.world.now < self.finishAt))

    def is_stopped(self):
        self.alive('is_stopped()')
        return not self.started or bool(self.stopped)

    def get_time(self):
        return self.audio.world.now

    def get_cpu_load(self):
        return .1

    def get_input_latency(self):
        return .01

    def get_output_latency(self):
        return .01

    def stop_stream(self):
        self.alive('stop_stream()')
        self.audio.ctx.log('stop')
        self.stopped += 1
        if self.stopped > self.started > 0:
            self.audio.ctx.fail('stopped-twice', 'stream stopped %d times' % self.stopped)
        self.audio.point('stop_stream', 'before')
        for _ in range(self.audio.spec.get('drain', 0)):
            if self.running:
                self.callback()
        self.running = False
        self.finishAt = None
        self.audio.point('stop_stream', 'after')

    def close(self):
        self.session.alive('close()')
        self.audio.ctx.log('close')
        self.closed += 1
        if self.closed > 1:
            self.audio.ctx.fail('closed-twice', 'stream closed twice')
        self.audio.point('close', 'before')
        self.running = False
        self.audio.point('close', 'after')

    def callback(self):
        audio = self.audio
        k = self.k
        if audio.spec.get('lose') == k:
            audio.ctx.fault('device lost')
            audio.ctx.log('lost', k)
            audio.faulted = True
            self.running = False
            return
        if audio.before_callback:
            audio.before_callback(k)
        data = None
        if self.isIn:
            samples = audio.inject(k, self.channels)
            data = np.ascontiguousarray(samples, dtype=np.float32).tobytes()
        flag = audio.flags.get(k, 0)
        if flag:
            audio.ctx.fault('status flag')
        now = audio.world.now
        info = {'input_buffer_adc_time': now, 'current_time': now, 'output_buffer_dac_time': now + INTERVAL}
        try:
            ret = self.user(data, self.frames, info, flag)
        except Exception as err:
            audio.ctx.log('callback error', k, type(err).__name__)
            self.error = err
            self.running = False
            if audio.spec.get('async_errors', True):
                audio.pendingError = err
            return
        if not isinstance(ret, tuple) or len(ret) != 2:
            audio.ctx.fail('callback-result', 'callback returned %r' % (type(ret),))
        out, result = ret
        if audio.returned is not None:
            audio.returned.append(weakref.ref(out) if isinstance(out, np.ndarray) else lambda: None)
        raw = None
        if self.isOut:
            try:
                view = memoryview(out)
                raw = view.tobytes() if view.c_contiguous else None
            except TypeError:
                raw = None
            if raw is None:
                audio.ctx.fail('callback-result', 'callback returned data which is no contiguous buffer: %r' % (out,))
        self.out.append((now, k, raw, result))
        audio.ctx.log('cb', k, raw or b'', result)
        self.k += 1
        if result == CONTINUE:
            self.next = max(now, self.next) + self.late()
        else:
            self.running = False
            if result == COMPLETE:
                self.finishAt = now + 2 * INTERVAL
            elif result != ABORT:
                audio.ctx.fail('callback-result', 'callback returned flag %r' % (result,))


def check_released(ctx, audio):
    """Every stream and session was released, once."""
    for s in audio.streams:
        ctx.check(s.closed == 1 and not s.implicit, 'stream-not-closed', 'stream was %s', 'left to terminate()' if s.implicit else 'not closed')
        if s.started:
            ctx.check(s.stopped == 1, 'stream-not-stopped', 'stream started but stopped %d times', s.stopped)
    for s in audio.sessions:
        ctx.check(s.terminated == 1, 'session-not-terminated', 'audio session was not terminated')
