"""P13: live engine against a simulated sound card."""
import numpy as np

from klangsim import audiopatch, core
from klangsim.devices.audio import ABORT, COMPLETE, CONTINUE, INTERVAL, SimAudio, check_released
from klangsim.runner import Property

N = 256


def gen_card(rng, patch, maxCycles):
    spec = {}
    nIn, nOut = patch['adc'], patch['dac']
    spec['outputs'] = rng.choice([nOut, nOut, nOut, max(nOut, 2), 8])
    spec['inputs'] = rng.choice([max(1, nIn), max(nIn, 2), 8])
    u = rng.random()
    if u < .05:
        spec['outputs'] = rng.choice([None, nOut - 1])
    elif u < .1 and nIn:
        spec['inputs'] = rng.choice([None, nIn - 1])
    elif u < .18 and not nIn:
        spec['inputs'] = rng.choice([None, 0])
    spec['jitter'] = [0.] if rng.random() < .2 else [
        rng.choice([0., rng.uniform(-.5, .5), rng.uniform(0, 5), 60. if rng.random() < .1 else 0.]) for _ in range(rng.randint(1, 7))]
    spec['prime'] = rng.choice([0, 0, 1, 2, 4])
    spec['drain'] = rng.choice([0, 0, 1, 2])
    if rng.random() < .35:
        spec['flags'] = {str(rng.randint(0, maxCycles)): rng.choice([1, 2, 4, 8, 16, 6, 31]) for _ in range(rng.randint(1, 6))}
    if rng.random() < .08:
        spec['lose'] = rng.randint(0, maxCycles)
    points = []
    if rng.random() < .45:
        for _ in range(rng.choice([1, 1, 1, 2])):
            name = rng.choice(['device_info', 'open', 'start_stream', 'is_active', 'is_active', 'sleep', 'sleep', 'stop_stream', 'stop_stream',
                               'close', 'terminate'])
            nth = rng.randint(1, 2) if name == 'device_info' else rng.randint(1, 8) if name in ('sleep', 'is_active') else 1
            kind = 'interrupt' if name in ('sleep',) or rng.random() < .5 else 'error'
            points.append([name, nth, 'before' if name == 'open' else rng.choice(['before', 'after']), kind])
    spec['points'] = points
    spec['async_errors'] = rng.random() < .6
    return spec


class P13(Property):
    id = 'P13'
    batch = 250
    quick_runs = 24000
    quick_seconds = 45
    thorough_runs = 150000
    thorough_seconds = 500
    rule = ('A run plays a patch of known signals on a simulated sound card with its own callback timing, device faults and '
            'interrupts; non-trivial: at least one callback ran or a device was refused.')
    state_measure = 'distinct (channels, ending, fault points, callbacks bucket)'
    real = ['klang.audio.klanggeber', 'klang.klang', 'klang.execution', 'klang.clock']
    stubs = ['sound card (PyAudio)', 'time.sleep']
    assumptions = ['as many Adc as Dac channels, or only one of the two', 'callbacks do not overlap',
                   'interrupts strike at calls into the device or sleep']
    shrink_lists = ('gens', 'shapes', 'points', 'jitter', 'to', 'runs')

    def gen(self, rng, tier, index):
        maxCycles = rng.choice([5, 30, 60]) if rng.random() < .98 else 300
        patch = audiopatch.gen_patch(rng, allowBad=rng.random() < .4, maxCycles=maxCycles)
        if patch['adc'] and rng.random() < .12:
            patch['dac'] = 0
        runs = []
        for _ in range(rng.choice([1, 1, 2])):
            u = rng.random()
            duration = None if u < .2 else rng.choice([0., 1e-4, INTERVAL, INTERVAL * rng.randint(1, maxCycles),
                                                       rng.uniform(0, maxCycles * INTERVAL), rng.uniform(0, 1.5 * INTERVAL)])
            runs.append({'duration': duration, 'card': gen_card(rng, patch, maxCycles), 'order': rng.randrange(12)})
        return {'patch': patch, 'runs': runs, 'maxCycles': maxCycles}

    def execute(self, sc, ctx, world):
        from klang.klang import run_klang
        patch = audiopatch.Patch(sc['patch'])
        nDac, nAdc = sc['patch']['dac'], sc['patch']['adc']
        ctx.nontrivial = False
        for run in sc['runs']:
            card = dict(run['card'])
            duration = run['duration']
            if duration is None:
                card['limit'] = 3
            audio = world.audio = SimAudio(world, card)
            inSeed = sc['seed']
            inputs = {}

            def inject(k, channels):
                inputs[k] = audiopatch.signal(inSeed, k, (N, channels)).astype(np.float32)
                return inputs[k]

            audio.inject = inject
            first = patch.gens[0].cycle if patch.gens else 0
            counts0 = [b.cycle for b in patch.blocks]
            for b in patch.thrus + patch.monitors:
                b.seen.clear()
            clocks = patch.gens[0].clocks
            clocks.clear()
            begin = world.now
            end = begin + (duration or 0) + 5. + 70 * INTERVAL * max(1, sc['maxCycles'])

            def before(k):
                ctx.check(world.now <= end + 60, 'never-stops', 'still playing after %r s (duration %r)', world.now - begin, duration)

            audio.before_callback = before
            lossy = dict(run['card'])
            kwargs = {} if duration is None else {'duration': duration}
            error = None
            try:
                run_klang(*patch.start_blocks(run['order']), **kwargs)
            except KeyboardInterrupt as err:
                error = err
                if not core.is_sim_fault(err):
                    raise
            except audiopatch.BlockError as err:
                error = err
            except (OSError, ValueError, AssertionError) as err:
                error = err
            ctx.log('end', type(error).__name__, round(world.now, 6))
            check_released(ctx, audio)
            # Refused or not
            out = card.get('outputs')
            inp = card.get('inputs')
            enough = (not nDac or (out is not None and out >= nDac)) and (not nAdc or (inp is not None and inp >= nAdc))
            opened = bool(audio.streams)
            if not enough:
                ctx.check(not opened, 'opened-anyway', 'opened a stream on a device with too few channels')
                ctx.check(error is not None, 'refusal-unreported', 'devices %r / %r do not fit, but no error', inp, out)
                ctx.nontrivial = True
                ctx.state('refused', nDac, nAdc)
                continue
            if not opened:
                ctx.check(audio.faulted, 'not-opened', 'devices fit, but no stream was opened: %r', error)
                ctx.state('failed before open', [p[:1] for p in card['points']])
                continue
            ctx.check(len(audio.streams) == 1 and len(audio.sessions) == 1, 'streams', '%d streams in %d sessions', len(audio.streams), len(audio.sessions))
            stream = audio.streams[0]
            ctx.check(stream.rate == 44100 and stream.frames == N and stream.isOut == (nDac > 0) and stream.isIn == (nAdc > 0)
                      and stream.channels == (nDac or nAdc), 'stream-format', 'stream of rate %r, %r frames, %r channels, in %r, out %r', stream.rate,
                      stream.frames, stream.channels, stream.isIn, stream.isOut)
            n = len(stream.out)
            # Endings
            mismatch = None
            total = n + (stream.error is not None)
            ctx.nontrivial = ctx.nontrivial or total > 0
            for (t, k, raw, flag) in stream.out:
                want = patch.expected(first + k, inputs.get(k))
                if want is None:
                    mismatch = k
                    ctx.check(flag == ABORT, 'mismatch-flag', 'wrong number of channels, but flag %r', flag)
                    ctx.check(not np.any(np.frombuffer(raw, np.float32)), 'mismatch-data', 'wrong number of channels, but sound')
                    ctx.check(len(raw) == N * nDac * 4, 'bytes', 'callback %d returned %d bytes', k, len(raw))
                    ctx.fault('wrong number of channels')
                    continue
                if nDac:
                    ctx.check(len(raw) == N * nDac * 4, 'bytes', 'callback %d returned %d bytes, not %d', k, len(raw), N * nDac * 4)
                    got = np.frombuffer(raw, np.float32).reshape(N, nDac)
                    if not np.array_equal(got, want):
                        i, c = np.argwhere(got != want)[0]
                        ctx.fail('samples', 'callback %d frame %d channel %d: %r, patch has %r' % (k, i, c, got[i, c], want[i, c]))
                if duration is not None:
                    over = (k + 1) * INTERVAL - duration
                    # However it is added up: one or two buffers are exact in floating point
                    slack = 1e-9 * (k + 2) if k > 1 else 0.
                    if over > slack or over == slack == 0.:
                        ctx.check(flag == COMPLETE, 'duration', 'callback %d reaches the duration %r, flag %r', k, duration, flag)
                    elif over < -slack:
                        ctx.check(flag == CONTINUE, 'duration', 'callback %d is before the duration %r, flag %r', k, duration, flag)
                else:
                    ctx.check(flag == CONTINUE, 'duration', 'no duration, flag %r in callback %d', flag, k)
            # Whole patch exactly once per callback
            broken = stream.error is not None
            if broken:
                ctx.check(isinstance(stream.error, audiopatch.BlockError), 'callback-error', 'callback failed: %r', stream.error)
                ctx.fault('error in a block')
            for b, c0 in zip(patch.blocks, counts0):
                ran = b.cycle - c0
                ctx.check(ran == total or (broken and ran in (total, total - 1)), 'cycles', '%d callbacks, but a block ran %d times', total, ran)
            ctx.check(len(clocks) == total or broken, 'cycles', '%d callbacks, %d cycles', total, len(clocks))
            for k, t in enumerate(clocks):
                ctx.check(abs(t - k * INTERVAL) <= 1e-9 * (k + 1), 'clock', 'clock of callback %d is %r, not %r', k, t, k * INTERVAL)
            # Input of each callback
            if nAdc:
                for j, m in enumerate(patch.monitors):
                    for k, val in enumerate(m.seen):
                        ctx.check(val.shape == (N,) and np.array_equal(val, inputs[k][:, j]), 'input', 'input channel %d in callback %d is not what the card delivered', j, k)
            # How it ended
            last = stream.out[-1][3] if stream.out else None
            if not audio.faulted and not broken and not audio.limited:
                ctx.check(error is None, 'error', 'undisturbed run ended with %r', error)
                ctx.check(last in (COMPLETE, ABORT), 'ended-early', 'stopped after %d callbacks without need (flag %r)', n, last)
            if audio.limited and not audio.faulted and not broken:
                ctx.check(error is None, 'interrupt', 'interrupt ended in %r', error)
            if isinstance(error, (AssertionError, ValueError)):
                ctx.fail('error', 'run ended with %r' % error)
            if last == COMPLETE and not audio.faulted:
                ctx.check(world.now <= stream.out[-1][0] + 1., 'lingers', 'sound over at %r, returned at %r', stream.out[-1][0], world.now)
            ctx.simTime += world.now - begin
            ctx.state(nDac, nAdc, min(n, 6), last, broken, mismatch is not None, type(error).__name__, [p[0] + p[2] for p in card['points']],
                      'lose' in card and stream.k == card['lose'])
            if broken or error is not None:
                break


PROP = P13()
