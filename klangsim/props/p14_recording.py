"""P14: recordings, live and offline."""
import os

import numpy as np

from klangsim import audiopatch, core, wavparse
from klangsim.devices.audio import INTERVAL, SimAudio, check_released
from klangsim.devices.fs import SimFS
from klangsim.runner import Property

N = 256


class Screen:

    """Standard output, captured."""

    def __init__(self):
        self.text = []

    def write(self, s):
        self.text.append(s)
        return len(s)

    def flush(self):
        pass


class P14(Property):
    id = 'P14'
    batch = 250
    quick_runs = 24000
    quick_seconds = 45
    thorough_runs = 150000
    thorough_seconds = 500
    rule = ('A run records a patch of known signals, offline or on a simulated sound card, under a misbehaving clock, and reads '
            'the file back with an independent reader; non-trivial: at least one buffer was played.')
    state_measure = 'distinct (mode, channels, buffers, fade-out class, ending)'
    real = ['klang.audio.klanggeber', 'klang.audio.wavfile', 'klang.progress_bar', 'klang.klang', 'scipy.io.wavfile']
    stubs = ['sound card (PyAudio)', 'clock and sleep', 'standard output']
    assumptions = ['finite samples', 'the number of whole buffers of a duration which is a multiple of one up to rounding may be off by one']
    shrink_lists = ('gens', 'shapes', 'points', 'jitter', 'to', 'clock')

    def gen(self, rng, tier, index):
        maxCycles = rng.choice([1, 5, 30, 30, 120 if tier == 'quick' else 600]) if rng.random() < .985 else 500
        patch = audiopatch.gen_patch(rng, allowBad=False, maxCycles=maxCycles, adc=rng.random() < .4)
        u = rng.random()
        if u < .1:
            for g in patch['gens']:
                g['level'] = 0.
        elif u < .25:
            for g in patch['gens']:
                g['level'] = rng.choice([1e-6, 50., 1e-3])
        duration = rng.choice([0., 1e-4, INTERVAL, INTERVAL * rng.randint(1, maxCycles), INTERVAL * rng.randint(1, maxCycles),
                               rng.uniform(0, maxCycles * INTERVAL), rng.uniform(0, maxCycles * INTERVAL), rng.uniform(0, 1.5 * INTERVAL)])
        fadeout = rng.choice([0., 0., 0., rng.uniform(0, duration), INTERVAL / 3, 1e-4, duration, 2 * duration, duration / 2])
        mode = rng.choice(['offline', 'offline', 'live', 'live', 'interrupted', 'both'])
        sc = {'patch': patch, 'duration': duration, 'fadeout': fadeout, 'mode': mode, 'order': rng.randrange(12),
              'card': {'outputs': 8, 'inputs': 8 if patch['adc'] else None, 'prime': rng.choice([0, 1, 3]), 'drain': rng.choice([0, 0, 1, 2]),
                       'jitter': [rng.choice([0., rng.uniform(-.5, .5), rng.uniform(0, 4)]) for _ in range(rng.randint(1, 5))],
                       'points': []},
              'clock': [], 'existing': rng.random() < .2}
        if mode == 'interrupted':
            if rng.random() < .5:
                sc['card']['points'] = [[rng.choice(['sleep', 'is_active', 'start_stream']), rng.randint(1, 4), rng.choice(['before', 'after']), 'interrupt']]
            else:
                sc['card']['lose'] = rng.randint(0, maxCycles)
        if rng.random() < .7:
            sc['clock'] = [rng.choice([0., 0., 1e-9, .001, rng.uniform(0, 1), rng.uniform(-100, 0), 1e6, -1e6]) for _ in range(rng.randint(1, 8))]
        return sc

    def execute(self, sc, ctx, world):
        fs = SimFS(world)
        screen = world.stdout = Screen()
        if sc['clock']:
            n = [0]

            def read_clock():
                step = sc['clock'][n[0] % len(sc['clock'])]
                n[0] += 1
                if step < 0:
                    ctx.fault('clock jumps back')
                elif step == 0:
                    ctx.fault('clock stands still')
                elif step > 1:
                    ctx.fault('clock jumps forward')
                world.now += step
                return world.now

            world.read_clock = read_clock
        ctx.nontrivial = False
        modes = {'both': ['offline', 'live']}.get(sc['mode'], [sc['mode']])
        results = {}
        for mode in modes:
            world.now = 0. if mode != 'offline' else world.now
            results[mode] = self.record(sc, ctx, world, fs, screen, mode)
        if len(results) == 2:
            (a, na), (b, nb) = results['offline'], results['live']
            n = min(len(a), len(b))
            ctx.check(np.array_equal(a[:n], b[:n]), 'live-offline', 'live and offline played different samples')

    def record(self, sc, ctx, world, fs, screen, mode):
        from klang.klang import run_klang
        patch = audiopatch.Patch(sc['patch'])
        duration, fadeout = sc['duration'], sc['fadeout']
        path = fs.path(mode + '.wav')
        if sc['existing']:
            with open(path, 'wb') as f:
                f.write(b'something else' * 5000)
        screen.text.clear()
        clockBefore = world.read_clock
        audio = None
        inputs = {}
        kwargs = dict(duration=duration, filepath=path)
        if fadeout:
            kwargs['fadeout'] = fadeout
        if mode == 'offline':
            kwargs['offline'] = True
        else:
            world.read_clock = None
            audio = world.audio = SimAudio(world, sc['card'])

            def before(k):
                ctx.check(k * INTERVAL <= duration + 3 * INTERVAL, 'never-stops', 'callback %d beyond duration %r', k, duration)

            audio.before_callback = before

            def inject(k, channels):
                silent = sc['mode'] == 'both'
                samples = np.zeros((N, channels)) if silent else audiopatch.signal(sc['seed'], k, (N, channels))
                inputs[k] = samples.astype(np.float32)
                return inputs[k]

            audio.inject = inject
        for gen in patch.gens:
            gen.limit = duration / INTERVAL + 10
        interrupted = False
        try:
            run_klang(*patch.start_blocks(sc['order']), **kwargs)
        except KeyboardInterrupt as err:
            if not core.is_sim_fault(err) or mode != 'interrupted':
                raise
            interrupted = True
            # Before the stream was up
            ctx.check(not any(s.k for s in audio.streams), 'interrupt', 'interrupt ends the run by exception')
        world.read_clock = clockBefore
        if mode == 'offline':
            cycles = patch.gens[0].cycle
            exact = duration / INTERVAL
            lo = int(exact - 1e-6) if exact >= 1e-6 else 0
            hi = int(exact + 1e-6)
            ctx.check(lo <= cycles <= hi, 'length', 'bounced %d buffers of a duration of %r buffers', cycles, exact)
            self.check_screen(ctx, ''.join(screen.text), cycles)
        else:
            check_released(ctx, audio)
            cycles = sum(s.k for s in audio.streams)
            if mode == 'live':
                exact = duration / INTERVAL
                lo = max(1, int(np.ceil(exact - 1e-6)))
                hi = max(1, int(np.ceil(exact + 1e-6)))
                ctx.check(lo <= cycles <= hi, 'length', 'played %d buffers of a duration of %r buffers', cycles, exact)
        for b in patch.blocks:
            ctx.check(b.cycle == cycles, 'cycles', '%d buffers, but a block ran %d times', cycles, b.cycle)
        want = np.zeros((0, sc['patch']['dac']), np.float32)
        if cycles:
            # (Nothing comes in offline)
            silence = np.zeros((N, sc['patch']['adc']), np.float32)
            want = np.concatenate([patch.expected(k, inputs.get(k, silence)) for k in range(cycles)])
        t = np.arange(cycles * N) / 44100
        if fadeout > 0 and cycles:
            env = np.clip((duration - t) / fadeout, 0., 1.)
            want = want * env[:, None]
        # What the card got is what was recorded
        if audio is not None and cycles:
            got = np.concatenate([np.frombuffer(raw, np.float32).reshape(N, -1) for _, _, raw, _ in audio.streams[0].out])
            # (Fading is at most one sample off in rounding)
            tol = 1e-6 * float(np.abs(want).max()) + (float(np.abs(want).max()) * 1e-6 / fadeout if fadeout else 0.)
            ctx.check(got.shape == want.shape and np.abs(got - want).max() <= tol, 'played', 'played samples differ from the patch by %r',
                      float(np.abs(got - want).max()) if got.shape == want.shape else (got.shape, want.shape))
        ctx.check(os.path.exists(path) or interrupted, 'missing', 'no recording was written')
        if not interrupted:
            with open(path, 'rb') as f:
                raw = f.read()
            try:
                rate, got = wavparse.parse(raw)
            except wavparse.BadWave as err:
                ctx.fail('invalid', 'the recording is no valid WAV file: %s' % err)
            ctx.check(rate == 44100, 'rate', 'rate %r', rate)
            ctx.check(got.shape[1] == sc['patch']['dac'], 'channels', '%d channels', got.shape[1])
            wavparse.check_proportional(ctx, got, want, 'recording', 'the recording')
            ctx.log(mode, cycles, got)
        if cycles:
            ctx.nontrivial = True
        ctx.simTime += cycles * INTERVAL
        fadeClass = 0 if not fadeout else 1 if fadeout < INTERVAL else 2 if fadeout < duration else 3
        ctx.state(mode, sc['patch']['dac'], min(cycles, 200), fadeClass, interrupted, bool(np.any(want)))
        return want, cycles

    def check_screen(self, ctx, text, cycles):
        ticks = []
        for part in text.split('\r')[1:]:
            if '[' in part and ']' in part:
                ticks.append(part[part.index('['):part.index(']')].count('*'))
        ctx.check(ticks == sorted(ticks), 'progress', 'progress bar goes backwards: %r', ticks)
        ctx.log('screen', len(ticks))


PROP = P14()
