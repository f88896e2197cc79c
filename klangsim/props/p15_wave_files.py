"""P15: writing and loading audio files on a faulty disk."""
import os
import struct

import numpy as np

from klangsim import core, wavparse
from klangsim.audiopatch import _NOISE
from klangsim.devices.fs import SimFS
from klangsim.runner import Property

REFUSALS = (Exception,)


def gen_audio(rng):
    channels = rng.choice([1, 1, 2, 2, 2, 3, 4, 8])
    frames = rng.choice([0, channels + 1, channels + 1, 10, 255, 256, 257, 1000, rng.randint(9, 6000), rng.randint(9, 40000)])
    frames = frames if frames == 0 else max(frames, channels + 1)
    return {'frames': frames, 'channels': channels, 'kind': rng.choice(['noise', 'noise', 'silence', 'ramp', 'impulse', 'halfsilent']),
            'level': rng.choice([1., 1., 1e-6, 30., .3]), 'dtype': rng.choice(['f8', 'f8', 'f4']),
            'layout': rng.choice(['C', 'C', 'F', 'strided', '1d'])}


def make_noise(seed, n, c):
    size = n * c
    i = np.arange(size)
    return (_NOISE[(i + seed * 7919) % len(_NOISE)] * (1. - .3 * i / max(1, size))).reshape(n, c)


def make_audio(spec, seed):
    n, c = spec['frames'], spec['channels']
    if spec['kind'] == 'noise':
        x = make_noise(seed, n, c)
    elif spec['kind'] == 'silence':
        x = np.zeros((n, c))
    elif spec['kind'] == 'ramp':
        x = np.linspace(-1, .9, n * c).reshape(n, c)
    elif spec['kind'] == 'impulse':
        x = np.zeros((n, c))
        if n:
            x[n // 2, 0] = -1.
    else:
        x = np.zeros((n, c))
        x[:n // 2] = make_noise(seed, n // 2, c)
    x = (x * spec['level']).astype(spec['dtype'])
    if spec['layout'] == 'F':
        x = np.asfortranarray(x)
    elif spec['layout'] == 'strided':
        big = np.full((2 * n, 3 * c), 77., spec['dtype'])
        big[::2, ::3] = x
        x = big[::2, ::3]
    elif spec['layout'] == '1d' and c == 1:
        x = x[:, 0]
    return x


def foreign_file(spec, audio, rate):
    """WAV file as other programs write it. Returns its bytes, where its samples
    end and its samples in [-1, 1].
    """
    x = np.clip((audio if audio.ndim == 2 else audio[:, np.newaxis]).astype(float) / max(1e-30, np.abs(audio).max(initial=0.)), -1., 1.)
    n, c = x.shape
    code, bits = spec['format']
    if code == 3:
        raw = x.astype('<f%d' % (bits // 8))
        values = raw.astype(float)
        raw = raw.tobytes()
    else:
        ints = np.round(x * (2 ** (bits - 1) - 1)).astype('<i8')
        values = ints / 2. ** (bits - 1)
        if bits == 8:
            raw = (ints + 128).astype('u1').tobytes()
        else:
            raw = ints.reshape(-1, 1).view('u1')[:, :bits // 8].tobytes()
    block = c * bits // 8
    fmt = struct.pack('<HHIIHH', 1 if code == 1 else code, c, rate, rate * block, block, bits)
    if spec['extensible']:
        guid = struct.pack('<H', code) + bytes.fromhex('000000001000800000aa00389b71')
        fmt = struct.pack('<H', 0xfffe) + fmt[2:] + struct.pack('<HHI', 22, bits, 0) + guid

    def chunk(name, data):
        return name + struct.pack('<I', len(data)) + data + b'\0' * (len(data) % 2)

    body = b'WAVE'
    for size in spec['first']:
        body += chunk(b'JUNK', bytes(range(256)) * (size // 256) + b'x' * (size % 256))
    body += chunk(b'fmt ', fmt)
    for size in spec['before']:
        body += chunk(b'LIST', b'INFO' + b'd' * size)
    stop = 8 + len(body) + 8 + len(raw)
    body += chunk(b'data', raw)
    for size in spec['after']:
        body += chunk(b'LIST', b'data' * (size // 4))
    return b'RIFF' + struct.pack('<I', len(body)) + body, stop, values


def wavfile_module():
    from klang.audio import wavfile
    return wavfile


class P15(Property):
    id = 'P15'
    batch = 250
    quick_runs = 32000
    quick_seconds = 45
    thorough_runs = 200000
    thorough_seconds = 400
    rule = ('A run writes audio files through a disk which fails, fills up, writes short or dies with the process at a chosen '
            'byte, loads them (with read faults or cut off) and compares; non-trivial: a file was written or refused.')
    state_measure = 'distinct (channels, fault kinds, where in the file, outcome of writing and loading)'
    real = ['klang.audio.wavfile', 'scipy.io.wavfile', 'wave', 'Python buffered I/O', 'real files in a scratch directory']
    stubs = ['raw file writes and reads']
    assumptions = ['finite samples, more frames than channels', 'a dying process leaves a prefix of its writes, in order',
                   'files are cut off, not otherwise corrupted']
    shrink_lists = ('files', 'faults')

    def gen(self, rng, tier, index):
        files = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            audio = gen_audio(rng)
            total = 44 + 2 * audio['frames'] * audio['channels'] + 4
            where = lambda: rng.choice([0, 1, 4, 8, 12, 36, 40, 43, 44, 45, total - 4, total - 5, total - 1, total, total // 2,
                                        rng.randint(0, total + 2), rng.randint(0, total + 2)])
            faults = []
            u = rng.random()
            if u < .55:
                faults.append({'access': 'w', 'kind': rng.choice(['error', 'full', 'crash']), 'at': max(0, where()), 'once': rng.random() < .4})
            elif u < .6:
                faults.append({'access': 'w', 'kind': 'open'})
            if rng.random() < .3:
                faults.append({'access': 'w', 'kind': 'short', 'sizes': [rng.choice([1, 2, 3, 7, 100, 4096]) for _ in range(rng.randint(1, 4))]})
            reads = []
            u = rng.random()
            if u < .2:
                reads.append({'access': 'r', 'kind': 'error', 'at': max(0, where()), 'once': rng.random() < .5})
            if rng.random() < .3:
                reads.append({'access': 'r', 'kind': 'short', 'sizes': [rng.choice([1, 2, 3, 7, 100, 4096]) for _ in range(rng.randint(1, 4))]})
            files.append({'audio': audio, 'rate': rng.choice([None, None, 44100, 8000, 48000, 96000, 11025]), 'faults': faults, 'reads': reads,
                          'cut': rng.randint(0, total) if rng.random() < .25 else rng.choice([total - 5, total - 6]) if rng.random() < .05 else None,
                          'name': rng.choice(['a.wav', 'a.wav', 'b.wav', 'c d.wav'])})
            if rng.random() < .15:
                sizes = lambda: [rng.choice([0, 2, 4, 26, 27, 300]) for _ in range(rng.choice([0, 0, 1, 2]))]
                files[-1]['foreign'] = {'format': rng.choice([[1, 16], [1, 16], [1, 16], [1, 8], [1, 24], [1, 32], [3, 32], [3, 64]]),
                                        'extensible': rng.random() < .15, 'first': sizes(), 'before': sizes(), 'after': sizes()}
        return {'files': files}

    def execute(self, sc, ctx, world):
        from klang.audio import wavfile
        disk = {}     # name -> (rate, int samples) of the complete file or None
        fs = SimFS(world)
        ctx.nontrivial = True
        for f in sc['files']:
            audio = make_audio(f['audio'], sc['seed'])
            before = audio.copy()
            path = fs.path('foreign.wav' if f.get('foreign') else f['name'])
            fs.faults = f['faults']
            fs.dead = False
            rate = f['rate'] or 44100
            if f.get('foreign'):
                self.foreign(f, audio, rate, path, fs, ctx)
                continue
            old = disk.get(f['name'])
            failed = None
            try:
                if f['rate'] is None:
                    wavfile.write_wave(audio, path)
                else:
                    wavfile.write_wave(audio, path, samplingRate=f['rate'])
            except core.SimCrash:
                failed = 'crash'
            except OSError as err:
                failed = 'error'
                if not core.is_sim_fault(err) and not any(x['kind'] in ('error', 'full', 'open') for x in f['faults']):
                    raise
            ctx.check(np.array_equal(audio, before), 'changed', 'writing changed the samples')
            for raw in fs.opened:
                raw.faults = []
            fs.faults = []
            want = before if before.ndim == 2 else before[:, np.newaxis]
            if failed == 'crash':
                for raw in fs.opened:
                    raw.kill()
            fs.dead = False
            exists = os.path.exists(path)
            content = b''
            if exists:
                with open(path, 'rb') as file:
                    content = file.read()
            ctx.log('write', failed, content)
            if failed is None:
                try:
                    r, got = wavparse.parse(content)
                except wavparse.BadWave as err:
                    ctx.fail('written-invalid', 'writing reported success, but the file is no valid WAV file: %s' % err)
                ctx.check(r == rate, 'rate', 'written with rate %r, file has %r', rate, r)
                wavparse.check_proportional(ctx, got, want, 'written', 'the file')
            cut = None
            if f['cut'] is not None and exists and f['cut'] < len(content):
                cut = f['cut']
                os.truncate(path, cut)
                ctx.fault('file cut off')
            # Load, twice (a transient read error must not stick)
            outcome = None
            for attempt in range(2):
                fs.faults = f['reads'] if attempt == 0 else []
                try:
                    gotRate, samples = wavfile.load_wave(path)
                except REFUSALS as err:
                    outcome = 'refused'
                    ctx.log('refused', type(err).__name__)
                    whole = failed is None and cut is None
                    disturbed = attempt == 0 and any(x['kind'] == 'error' for x in f['reads'])
                    ctx.check(not whole or disturbed, 'refused', 'a complete file is refused: %r', err)
                    continue
                outcome = 'loaded'
                ctx.check(isinstance(samples, np.ndarray) and samples.ndim == 2 and np.issubdtype(samples.dtype, np.floating), 'type',
                          'loaded %r', getattr(samples, 'dtype', type(samples)))
                ctx.check(samples.size == 0 or np.abs(samples).max() <= 1., 'range', 'samples up to %r', samples.size and np.abs(samples).max())
                back = np.round(samples * 32768).astype(int)
                ctx.check(np.abs(samples * 32768 - back).max(initial=0) < .01, 'scale', 'samples are no multiples of 1 / 32768')
                ctx.log('loaded', samples)
                if failed is not None and old is not None and old[0] == gotRate and np.array_equal(old[1], back):
                    continue   # Still the complete previous recording
                complete = cut is None and self.is_whole(content)
                if not complete:
                    ctx.fail('incomplete', 'an incomplete file (writing: %s, cut at %s of %d bytes, %d frames asked for) was loaded as %d frames' % (
                        failed or 'ok', cut, len(content), len(want), len(samples)))
                ctx.check(gotRate == rate, 'rate', 'written with rate %r, loaded %r', rate, gotRate)
                wavparse.check_proportional(ctx, back, want, 'loaded', 'the loaded file')
            fs.faults = []
            try:
                disk[f['name']] = None
                if cut is None and exists:
                    r, got = wavparse.parse(content)
                    disk[f['name']] = (r, got.astype(int))
            except wavparse.BadWave:
                pass
            total = 44 + 2 * want.size
            ctx.state(want.shape[1], [(x['kind'], x.get('once'), self.bucket(x.get('at', 0), total)) for x in f['faults']], failed, outcome, cut is not None)

    def foreign(self, f, audio, rate, path, fs, ctx):
        """Load a file another program made."""
        spec = f['foreign']
        content, stop, want = foreign_file(spec, audio, rate)
        cut = f['cut'] if f['cut'] is not None and f['cut'] < len(content) else None
        fs.faults = []
        with open(path, 'wb') as file:
            file.write(content[:cut])
        plain = spec['format'] == [1, 16] and not spec['extensible']
        for attempt in range(2):
            fs.faults = f['reads'] if attempt == 0 else []
            try:
                gotRate, samples = wavfile_module().load_wave(path)
            except REFUSALS as err:
                ctx.log('refused', type(err).__name__)
                disturbed = attempt == 0 and any(x['kind'] == 'error' for x in f['reads'])
                ctx.check(not plain or cut is not None or disturbed, 'refused', 'a complete 16 bit file is refused: %r', err)
                ctx.fault('foreign file refused')
                continue
            ctx.log('loaded', samples)
            ctx.check(cut is None or cut >= stop, 'incomplete', 'a file of %d bytes cut off after %s was loaded as %d frames', len(content), cut, len(samples))
            ctx.check(gotRate == rate, 'rate', 'file has rate %r, loaded %r', rate, gotRate)
            ctx.check(np.shape(samples) == want.shape, 'shape', 'file of %r %r, loaded %r', spec['format'], want.shape, np.shape(samples))
            if want.size:
                top = np.abs(want).max()
                scale = np.abs(samples).max() / top if top else 1.
                error = np.abs(samples - scale * want).max()
                ctx.check(0 <= scale and error <= 1e-4 * max(scale, 1e-3), 'foreign', 'file of format %r is loaded wrong (by %g)', spec['format'], error)
            ctx.count('foreign files loaded', 1)
        fs.faults = []
        ctx.state('foreign', spec['format'], spec['extensible'], bool(spec['first']), bool(spec['before']), bool(spec['after']), cut is not None)

    @staticmethod
    def bucket(at, total):
        return 'header' if at < 44 else 'data' if at < total else 'end' if at < total + 4 else 'after'

    @staticmethod
    def is_whole(content):
        try:
            wavparse.parse(content)
            return True
        except wavparse.BadWave:
            return False


PROP = P15()
