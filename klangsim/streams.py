"""Streams: blocks with ideal, unbroken reference signals."""
import functools
import math
from fractions import Fraction

import numpy as np

from klangsim.audiopatch import signal

N = 256
SR = 44100
TAU = 2 * math.pi
EDGE = 1e-6  # Closer than that to an edge of a wave form either side is right [cycles]

WAVES = ['sine', 'square', 'sawtooth', 'triangle']
NOTES = {'1/4': 2., '1/8': 4., '1/16': 8., '1/2': 1., '3/16': 1 / .375, '1/1': .5}


def make_classes():
    if 'Feed' in globals():
        return
    from klang.block import Block

    class Feed(Block):

        """Puts out known values."""

        def __init__(self, func):
            super().__init__(nOutputs=1)
            self.func = func
            self.cycle = 0
            self.output.set_value(func(0))

        def update(self):
            self.output.set_value(self.func(self.cycle))
            self.cycle += 1

    globals().update(Feed=Feed)


def rate_of(spec):
    """Frequency [Hz] of a frequency specification."""
    return NOTES[spec] if isinstance(spec, str) else spec


def rate_arg(spec, numpy=False):
    if isinstance(spec, str):
        return Fraction(spec)
    return np.float64(spec) if numpy else spec


# Signals


def samples(spec, cycle, channels=None):
    """One buffer of an input signal."""
    kind, seed = spec['kind'], spec['seed']
    channels = spec['channels'] if channels is None else channels
    if spec.get('switch') is not None and cycle >= spec['switch']:
        channels = 3 - channels
    shape = (N,) if channels == 1 else (channels, N)
    if kind == 'noise':
        x = signal(seed, cycle, shape)
    elif kind == 'impulse':
        x = np.zeros(shape)
        if cycle % spec.get('every', 7) == 0:
            x[..., (seed + cycle * 31) % N] = 1.
    elif kind == 'sine':
        t = cycle * N + np.arange(N)
        x = np.sin(TAU * (50 + seed % 3000) / SR * t) * np.ones(shape)
    elif kind == 'dc':
        x = np.full(shape, .5)
    elif kind == 'silence':
        from klang.audio.helpers import get_silence
        return get_silence(shape if len(shape) > 1 else N)
    elif kind == 'burst':
        x = signal(seed, cycle, shape) if cycle < 3 else np.zeros(shape)
    if spec.get('readonly'):
        x = np.array(x)
        x.setflags(write=False)
    return x


def gen_signal(rng, channels=(1,), cycles=40):
    spec = {'kind': rng.choice(['noise', 'noise', 'noise', 'impulse', 'sine', 'dc', 'burst', 'silence']), 'seed': rng.randrange(1 << 20),
            'channels': rng.choice(list(channels)), 'readonly': rng.random() < .3}
    if len(set(channels)) > 1 and rng.random() < .15 and spec['channels'] < 3:
        spec['switch'] = rng.randint(1, cycles)
    return spec


def gen_control(rng, values, cycles, glide=0.):
    """Piecewise constant control value: [[cycle, value], ...]"""
    out = [[0, values()]]
    first = out[0][1]
    if cycles > 2 and isinstance(first, float) and rng.random() < glide:
        # Gliding: by a little each cycle
        factor = 1. + rng.choice([1e-5, 1e-4, 1e-3, -1e-4, -1e-3, .01, -.01])
        since, until = sorted([rng.randint(1, cycles), rng.randint(1, cycles)])
        until = min(until, since + 50)
        return out + [[c, first * factor ** (c - since + 1)] for c in range(since, until + 1)]
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        out.append([rng.randint(1, max(1, cycles)), values()])
    return sorted(out, key=lambda p: p[0])


def control_at(control, cycle):
    val = control[0][1]
    for since, v in control:
        if cycle >= since:
            val = v
    return val


def gen_frequency(rng, low=False, negative=False, cycles=40, array=True):
    def value():
        if rng.random() < .15:
            return rng.choice(sorted(NOTES))
        r = rng.random()
        f = rng.choice([.1, 1., 3.3, 7.7, 20.]) if r < (.5 if low else .1) else rng.uniform(.05, 30.) if low else rng.choice(
            [440., 20., 16000., 172.265625, rng.uniform(20, 20000), rng.uniform(20, 2000), 0.])
        return -f if negative and rng.random() < .1 else f

    control = gen_control(rng, value, cycles, glide=.12)
    if array and rng.random() < .25:
        a, b = sorted([rng.randint(0, cycles), rng.randint(0, cycles)])
        return {'control': control, 'sweep': [a, b, rng.uniform(20, 2000), rng.uniform(20, 8000)], 'numpy': rng.random() < .3}
    return {'control': control, 'numpy': rng.random() < .3}


def frequency_at(spec, cycle):
    """What is given to the frequency input in a cycle."""
    sweep = spec.get('sweep')
    if sweep and sweep[0] <= cycle < sweep[1]:
        return np.linspace(sweep[2], sweep[3], N) + 50. * np.sin(np.arange(N) * .1 + cycle)
    return rate_arg(control_at(spec['control'], cycle), spec.get('numpy'))


def ideal_cycles(freqs, start=0.):
    """Ideal phase [cycles] of every sample. freqs: scalar or array per buffer."""
    out = []
    acc = start
    for f in freqs:
        f = float(rate_of_arg(f)) if np.ndim(f) == 0 else f
        if np.ndim(f) == 0:
            out.append(acc + f * np.arange(N) / SR)
            acc = (acc + f * N / SR) % 1.
        else:
            steps = np.concatenate([[0.], np.cumsum(f / SR)])
            out.append(acc + steps[:-1])
            acc = (acc + steps[-1]) % 1.
    return np.concatenate(out)


def rate_of_arg(f):
    return NOTES['%d/%d' % (f.numerator, f.denominator)] if isinstance(f, Fraction) else f


def wave(name, cycles):
    """Ideal wave form. Returns values and where they are ambiguous."""
    p = np.mod(cycles, 1.)
    if name == 'sine':
        return np.sin(TAU * p), np.zeros(p.shape, bool)
    if name == 'square':
        return np.where(p < .5, 1., -1.), near(p, 0.) | near(p, .5)
    if name == 'sawtooth':
        return 2 * p - 1, near(p, 0.)
    if name == 'triangle':
        return 1 - np.abs(4 * p - 2), np.zeros(p.shape, bool)
    raise ValueError(name)


def near(p, edge):
    d = np.abs(p - edge)
    return np.minimum(d, 1 - d) < EDGE


def comb(kind, x, k, alpha):
    """Ideal filters. Alpha: scalar or per sample."""
    x = np.asarray(x, float)
    n = len(x)
    a = np.broadcast_to(alpha, x.shape)
    memory = np.zeros(n + k)   # what went into the delay line, k samples delayed
    y = np.empty(n)
    for i in range(0, n, k):
        j = min(n, i + k)
        old = memory[i:j]
        if kind == 'forward':
            y[i:j] = x[i:j] + a[i:j] * old
            memory[i + k:j + k] = x[i:j]
        elif kind == 'backward':
            y[i:j] = x[i:j] + a[i:j] * old
            memory[i + k:j + k] = y[i:j]
        else:
            y[i:j] = old
            memory[i + k:j + k] = x[i:j] + a[i:j] * old
    return y


def one_pole(x, b0, a1, y0):
    out = np.empty(len(x))
    y = y0
    for i, v in enumerate(x.tolist()):
        y = b0 * v - a1 * y
        out[i] = y
    return out, y


@functools.lru_cache(maxsize=8192)
def butter(*args, **kwargs):
    """Filter design with memory (filters are designed for a thousand frequencies each)."""
    import scipy.signal
    return scipy.signal.butter(*args, **kwargs)


def is_prime(n):
    return n > 1 and all(n % d for d in range(2, int(n ** .5) + 1))


def primes(n, start):
    out = []
    while len(out) < n:
        if is_prime(start):
            out.append(start)
        start += 1
    return out
