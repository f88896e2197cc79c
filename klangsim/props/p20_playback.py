"""P20: playback of audio files."""
import functools
import math
import struct

import numpy as np

from klangsim.audiopatch import signal
from klangsim.devices.fs import SimFS
from klangsim.runner import Property
from klangsim.sched import Scheduler

N = 256
SR = 44100
EXACT = ['linear', 'linear', 'linear', 'zero_order_hold', 'crude', 'very_crude']
ALL = ['linear', 'zero_order_hold', 'crude', 'very_crude', 'sinc_fastest', 'sinc_medium']


def wav_bytes(samples, rate):
    """WAV file of int16 samples (frames, channels)."""
    n, c = samples.shape
    data = samples.astype('<i2').tobytes()
    return (b'RIFF' + struct.pack('<I', 36 + len(data)) + b'WAVEfmt ' + struct.pack('<IHHIIHH', 16, 1, c, rate, rate * c * 2, c * 2, 16)
            + b'data' + struct.pack('<I', len(data)) + data)


class Model:

    """Where playback is."""

    def __init__(self, length, start, stop, loop):
        self.length, self.start, self.stop, self.loop = length, start, length if stop is None else stop, loop
        self.pos = self.start
        self.restart()

    def restart(self):
        self.fed = []        # Indices since the last rewind
        self.dry = 0         # Samples asked for after the end

    def trim(self, start, stop):
        self.start, self.stop = start, self.length if stop is None else stop
        self.pos = min(max(self.pos, self.start), self.stop)

    def rewind(self):
        self.pos = self.start
        self.restart()

    def feed(self, n):
        """Next n indices (less at the end)."""
        for _ in range(n):
            if self.pos >= self.stop:
                if not self.loop:
                    self.dry += 1
                    continue
                self.pos = self.start
            self.fed.append(self.pos)
            self.pos += 1


class P20(Property):
    id = 'P20'
    batch = 250
    quick_runs = 24000
    quick_seconds = 45
    thorough_runs = 200000
    thorough_seconds = 500
    rule = ('A run loads an audio file and plays it, under a history of play, pause, rewind, stop, trimming and looping between the buffers, '
            'and compares every buffer with the samples of the file. Runs at other speeds compare the position in the file. '
            'In others one or two more threads control the playback, interleaved by a seeded schedule, and some order of their operations and the cycles has to explain everything heard. '
            'Non-trivial: something was heard.')
    state_measure = 'distinct (mode, channels, trimmed, looping, sequences of operations, end reached)'
    real = ['klang.audio.sampling', 'klang.audio.wavfile', 'libsamplerate', 'klang.audio.klanggeber.Dac']
    stubs = ['disk: real scratch file behind short reads']
    assumptions = ['resamplers may lag one sample behind and keep the last two to themselves', '16 bit files', 'at least two samples between the trim points', 'speeds from 0.05 to 8']
    shrink_lists = ('ops', 'others', 'switches')

    def gen_threads(self, rng):
        channels = rng.choice([1, 2])
        few = rng.random() < .5
        ops = [rng.choice(['play', 'play', 'pause', 'rewind', 'stop', 'stop']) for _ in range(1 if few else rng.choice([1, 2, 4, 6]))]
        others = [rng.choice(['play', 'pause', 'rewind', 'stop']) for _ in range(1 if few else rng.choice([0, 0, 1, 2, 3]))]
        return {'kind': 'threads', 'others': others, 'channels': channels, 'length': rng.choice([10, 256, 300, 600, 2000]), 'rate': 44100, 'mono': False,
                'mode': rng.choice(['linear', 'zero_order_hold', 'crude', 'very_crude', 'sinc_fastest']), 'loop': rng.random() < .4,
                'start': 0, 'stop': None, 'cycles': rng.choice([2, 4, 8]), 'ops': ops, 'playing': rng.random() < .7,
                'switches': sorted([rng.randint(1, rng.choice([20, 40, 60] if few else [20, 60, 200])), rng.randrange(3)] for _ in range(rng.randint(1, 8)))}

    def gen(self, rng, tier, index):
        if rng.random() < .2:
            return self.gen_threads(rng)
        channels = rng.choice([1, 1, 2, 2, 3])
        length = rng.choice([channels + 1, 10, 100, 255, 256, 257, 512, 700, 1024, rng.randint(4, 300), rng.randint(4, 3000), rng.randint(300, 8000)] if rng.random() < .97 else [33000, 66000, rng.randint(30000, 140000)])
        length = max(length, channels + 1)
        cycles = rng.choice([3, 10, 30]) if length < 10000 or rng.random() < .3 else length // 256 + 10
        sc = {'channels': channels, 'length': length, 'mono': rng.random() < .2, 'cycles': cycles, 'dac': rng.random() < .5}
        if rng.random() < .15:
            sc['short'] = [rng.choice([1, 2, 3, 7, 100, 4096]) for _ in range(rng.randint(1, 4))]
        if rng.random() < .3:
            sc.update(kind='speed', mode=rng.choice(ALL), rate=rng.choice([44100, 44100, 22050, 48000, 8000, 96000]),
                      speeds=[[0, rng.choice([1., .5, 2., .75, rng.uniform(.2, 4)])]], length=max(length, rng.choice([20, 200, 300, 2000, 8000])))
            # libsamplerate's sinc converters abort the process if the speed changes towards the end
            for _ in range(0 if 'sinc' in sc['mode'] else rng.choice([0, 0, 1, 3])):
                sc['speeds'].append([rng.randint(1, cycles), rng.uniform(.2, 4)])
            sc['speeds'].sort(key=lambda s: s[0])
            sc['ops'] = [[rng.randint(0, cycles), rng.choice(['pause', 'play', 'play', 'rewind', 'stop'])] for _ in range(rng.choice([0, 0, 2, 5]))]
            sc.update(loop=rng.random() < .3, start=0, stop=None)
            if rng.random() < .3:
                sc['start'] = rng.randint(0, sc['length'] // 2)
                sc['stop'] = rng.choice([None, rng.randint(sc['start'] + 2, sc['length'])])
            return sc
        sc.update(kind='exact', mode=rng.choice(EXACT), rate=44100, loop=rng.random() < .55, start=0, stop=None)

        def trim():
            a = rng.choice([0, rng.randint(0, length - 2)])
            b = rng.choice([None, length, rng.randint(a + 2, length), min(length, a + rng.choice([2, 3, 10, 256]))])
            return a, b

        if rng.random() < .5:
            sc['start'], sc['stop'] = trim()
        ops = [] if rng.random() < .1 else [[0, 'play']]
        for _ in range(rng.choice([0, 0, 1, 3, 8])):
            op = rng.choice(['play', 'play', 'pause', 'rewind', 'stop', 'stop', 'trim', 'loop'])
            at = rng.randint(0, cycles)
            if op == 'trim':
                ops.append([at, 'trim'] + list(trim()))
            elif op == 'loop':
                ops.append([at, 'loop', rng.random() < .5])
            else:
                ops.append([at, op])
        sc['ops'] = ops
        return sc

    def execute(self, sc, ctx, world):
        rate = sc['rate']
        if sc['kind'] == 'exact':
            x = (signal(sc['seed'], 0, (sc['length'], sc['channels'])) * 32000).astype(np.int16)
            x[x == 0] = 7
        else:
            t = np.arange(sc['length'])
            x = np.stack([2000 + 28000 * t / sc['length'] / (1 + c) for c in range(sc['channels'])], axis=1).astype(np.int16)
        from klang.audio.klanggeber import Dac
        from klang.audio.sampling import AudioFile
        from klang.execution import determine_execution_order
        if sc['kind'] == 'threads':
            return self.threads(sc, ctx, world, x)
        kwargs = {'mode': sc['mode'], 'loop': sc['loop'], 'start': sc['start'], 'stop': sc['stop']}
        if sc['kind'] != 'exact':
            kwargs.update(playbackSpeed=sc['speeds'][0][1])
        fs = SimFS(world)
        path = fs.path('sample.wav')
        with open(path, 'wb') as f:
            f.write(wav_bytes(x, rate))
        if sc.get('short'):
            fs.faults = [{'access': 'r', 'kind': 'short', 'sizes': sc['short']}]
        af = AudioFile(path, mono=sc['mono'], **kwargs)
        data = x / 32768.
        if sc['mono']:
            data = data.mean(axis=1, keepdims=True)
        channels = data.shape[1]
        self.shape = (N,) if channels == 1 else (channels, N)
        blocks = [af]
        dac = None
        if sc['dac']:
            dac = Dac(nChannels=channels)
            af.output.connect(dac.inputs[0])
            blocks.append(dac)
        ctx.check(abs(af.duration - sc['length'] / rate) < 1e-9, 'duration', 'duration %r', af.duration)
        order = determine_execution_order(blocks[-1:])   # Planned from the sound card
        self.check_silent(ctx, af, 'before playing')

        def cycle():
            before = af.output.value
            was = np.array(before)
            for b in order:
                b.update()
            ctx.check(np.array_equal(was, before), 'altered', 'buffer changed after it was put out')
            ctx.check(-1e-9 <= af.playingPosition <= af.duration + 1e-9, 'position', 'position %r of %r', af.playingPosition, af.duration)
            out = af.output.value
            ctx.check(isinstance(out, np.ndarray) and out.shape == self.shape, 'shape', 'shape of output is %s, should be %s', np.shape(out), self.shape)
            if dac:
                frames = dac.collect_samples()
                ctx.check(np.array_equal(frames, np.atleast_2d(out).T.astype(np.float32)), 'dac', 'sound card gets something else')
            out = np.atleast_2d(np.array(out))
            ctx.log(out)
            return out

        ctx.simTime += sc['cycles'] * N / SR
        getattr(self, sc['kind'])(sc, ctx, af, data, cycle)

    def threads(self, sc, ctx, world, x):
        """Controlled by another thread than the one which plays."""
        from klang.audio.sampling import AudioFile
        path = SimFS(world).path('sample.wav')
        with open(path, 'wb') as f:
            f.write(wav_bytes(x, sc['rate']))
        sched = Scheduler(ctx, sc['switches'])

        def make():
            af = AudioFile(path, mode=sc['mode'], loop=sc['loop'])
            if sc['playing']:
                af.play()
            return af

        def cycle(af):
            af.update()
            return np.array(af.output.value)

        moment = 0

        def tick():
            nonlocal moment
            moment += 1
            return moment

        lanes = [sc['ops'], sc.get('others', [])]
        spans = [[], [], []]   # Cycles, operations of either control thread
        outs = []
        world.sched = sched
        try:
            af = make()

            def engine():
                for _ in range(sc['cycles']):
                    begin = tick()
                    outs.append(cycle(af))
                    spans[0].append((begin, tick()))

            def control(lane):
                for op in lanes[lane]:
                    begin = tick()
                    getattr(af, op)()
                    spans[lane + 1].append((begin, tick()))

            sched.spawn('engine', engine)
            for lane, ops in enumerate(lanes):
                if ops:
                    sched.spawn('control %d' % lane, functools.partial(control, lane))
            sched.run(0)
        finally:
            world.sched = None
        while len(outs) < sc['cycles'] + 3:   # What became of it
            begin = tick()
            outs.append(cycle(af))
            spans[0].append((begin, tick()))
        ctx.log(af.playing, *outs)

        # Some order of the overlapping ones explains what was heard
        def explains(order):
            ref = make()
            counts = [0, 0, 0]
            for lane in order:
                if lane:
                    getattr(ref, lanes[lane - 1][counts[lane]])()
                elif not np.array_equal(cycle(ref), outs[counts[0]]):
                    return None
                counts[lane] += 1
            return ref

        tried = 0
        total = sum(map(len, spans))
        todo = [()]
        while todo:
            order = todo.pop()
            tried += 1
            if tried > 600:
                break
            if order and order[-1] == 0 or len(order) == total:
                ref = explains(order)
                if ref is None:
                    continue
            if len(order) == total:
                if ref.playing == af.playing:
                    break
                continue
            nxt = [(lane, spans[lane][order.count(lane)]) for lane in range(3) if order.count(lane) < len(spans[lane])]
            first = min(end for _, (_, end) in nxt)
            ready = sorted((begin, lane) for lane, (begin, _) in nxt if begin < first)
            todo.extend(order + (lane,) for _, lane in reversed(ready))
        else:
            ctx.check(False, 'torn', 'cycles %s do not fit to the operations %s at %s in any order', spans[0], lanes, spans[1:])
        ctx.nontrivial = sched.taken > 0

    def check_silent(self, ctx, af, when):
        out = af.output.value
        ctx.check(np.shape(out) == self.shape and not np.any(out), 'shape', 'output %s is of shape %s, should be silence of %s', when, np.shape(out), self.shape)

    def exact(self, sc, ctx, af, data, cycle):
        model = Model(sc['length'], sc['start'], sc['stop'], sc['loop'])
        lags = [0, 1]
        playing = ended = False
        k = 0               # Samples heard since the last rewind
        heard = 0
        done = []
        looped = model.loop
        for c in range(sc['cycles']):
            for op in sc['ops']:
                if op[0] != c:
                    continue
                name = op[1]
                if name in ('loop', 'trim') and model.loop and model.pos == model.stop:
                    continue   # End and beginning are the same
                if name == 'loop':
                    if ended or model.dry:
                        continue   # Has to be rewound first
                    af.sample.loop = model.loop = op[2]
                elif name == 'trim':
                    if ended or model.dry:
                        continue
                    if not op[2] < (op[3] or sc['length']) <= sc['length']:
                        continue
                    if not model.fed and (op[3] or sc['length']) - max(op[2], model.pos) < 2:
                        continue   # libsamplerate makes noise if it starts with a single sample
                    af.sample.trim(op[2], op[3])
                    model.trim(op[2], op[3])
                else:
                    getattr(af, name)()
                    if name == 'play':
                        playing = True
                    if name in ('pause', 'stop'):
                        playing = False
                    if name in ('rewind', 'stop'):
                        model.rewind()
                        k = 0
                        ended = False
                        ctx.check(abs(af.playingPosition * sc['rate'] - model.start) < 1e-6, 'position', 'cycle %d: position %r after %s', c, af.playingPosition, name)
                looped = looped or model.loop
                done.append(name)
            position = af.playingPosition
            ctx.check(af.playing == playing or ended, 'transport', 'cycle %d: playing is %r', c, af.playing)
            out = cycle()
            if not playing:
                ctx.check(not np.any(out), 'silence', 'cycle %d: sound, but paused', c)
                ctx.check(af.playingPosition == position, 'position', 'cycle %d: moved from %r to %r, but paused', c, position, af.playingPosition)
                continue
            model.feed(N)
            at = af.playingPosition * sc['rate']
            if not looped:   # Resamplers read ahead
                ctx.check(model.pos - 2 <= at <= min(model.stop, model.pos + 2 * N) + 1e-6, 'position', 'cycle %d: at %r, played up to %d', c, at, model.pos)
            lags = self.compare(ctx, c, out, k, model, data, lags)
            k += N
            heard += 1
            if model.dry == 0:
                ctx.check(af.playing, 'stopped', 'cycle %d: playback stopped %d samples before the end', c, model.stop - model.pos)
            elif model.dry > 2 * N:
                ctx.check(not af.playing, 'endless', 'cycle %d: still playing %d samples after the end', c, model.dry)
            if not af.playing:
                playing, ended = False, True
        ctx.nontrivial = heard > 0
        ctx.state(sc['mode'], sc['channels'], sc['start'] > 0, sc['stop'] is None, sc['loop'], done[:6], ended, min(sc['length'], 300) // 100)

    def compare(self, ctx, c, out, k, model, data, lags):
        fed = model.fed
        L = len(fed)
        good = []
        err = None
        for lag in lags:
            at = k + np.arange(N)
            j = np.maximum(0, at - lag)
            known = j < L
            want = np.zeros((N, len(out)))
            want[known] = data[np.array(fed[max(0, k - lag):k + N], dtype=int)[j[known] - max(0, k - lag)]]
            ok = known & np.all(np.abs(out.T - want) <= 1e-5, axis=1)
            # Resampler keeps the last ones to itself. libsamplerate makes one up if fed by a single sample in the end.
            quiet = ~np.any(out, axis=0)
            ok |= (at >= L - 2) & (quiet | (at < L) & (L % N == 1))
            if ok.all():
                good.append(lag)
            elif err is None:
                i = int(np.argmin(ok))
                err = 'cycle %d, sample %d: %s, should be %s (sample %s of the file)' % (
                    c, i, out[:, i].tolist(), want[i].tolist() if known[i] else None, fed[j[i]] if known[i] else 'after the end')
        ctx.check(good, 'content', '%s', err)
        return good

    def speed(self, sc, ctx, af, data, cycle):
        """Position in the file."""
        L = sc['length']
        start, stop = sc['start'], sc['stop'] or L
        period = stop - start
        af.play()
        pos, changes, buffers = 0., 0, 0
        speed = sc['speeds'][0][1]
        playing = True
        silent = 0
        crude = 'crude' in sc['mode']
        fastest = max(1., max(v for _, v in sc['speeds']) * sc['rate'] / SR)
        edge = 60 * fastest if 'sinc' in sc['mode'] else 0
        for c in range(sc['cycles'] * 3):
            for at, value in sc['speeds'][1:]:
                if at == c:
                    af.sample.set_playback_speed(value)
                    speed = value
                    changes += 1
            for at, op in sc['ops']:
                if at == c and silent == 0:
                    getattr(af, op)()
                    if op != 'rewind':
                        playing = op == 'play'
                    if op in ('rewind', 'stop'):
                        pos, buffers = 0., 0
            out = cycle()
            if not playing:
                ctx.check(not np.any(out), 'silence', 'cycle %d: sound, but paused', c)
                continue
            step = speed * sc['rate'] / SR
            ideal = pos + step * np.arange(N)
            pos += step * N
            buffers += 1
            tol = 4. + 4. * changes + 2 * step + (buffers * 1.01 if crude else 0.) + edge
            base = 2000 / 32768.
            for ch in range(len(out)):
                gains = [1 / (1 + i) for i in range(sc['channels'])]
                gain = (np.mean(gains) if sc['mono'] else gains[ch]) * 28000 / 32768.
                where = (out[ch] - base) / gain * L - start
                quant = .01 * L / 280. + 8 * L / 28000.
                heard = ideal % period if sc['loop'] else ideal
                inside = (heard > tol) & (heard < period - tol - edge)
                if sc['loop']:   # Drifts from one pass to the next
                    inside &= (heard > tol + 2) & (heard < period - tol - edge - 2)
                wrong = inside & (np.abs(where - heard) > tol + quant)
                if wrong.any():
                    i = int(np.argmax(wrong))
                    ctx.fail('speed', 'cycle %d, sample %d, channel %d: plays sample %.1f of the file, should be %.1f' % (c, i, ch, where[i] + start, heard[i] + start))
                after = ideal > (math.inf if sc['loop'] else period) + tol + edge
                ctx.check(not np.any(out[ch][after]), 'endless', 'cycle %d: still sound at %.1f, length %d', c, ideal[-1], L)
            if sc['loop'] or ideal[-1] < period - tol - edge:
                ctx.check(af.playing, 'stopped', 'cycle %d: stopped at %.1f of %d', c, ideal[-1], period)
            elif pos > period + tol + edge + 2 * N * step:
                ctx.check(not af.playing, 'endless', 'cycle %d: still playing at %.1f of %d', c, pos, period)
            if not af.playing:
                playing = False
                silent += 1
        ctx.state(sc['mode'], sc['rate'], changes, sc['channels'], silent > 0, len(sc['ops']), sc['loop'], start > 0)


PROP = P20()
