"""P19: seamless streams."""
import copy
import gc
import math
import weakref

import numpy as np

from klangsim import streams
from klangsim.audiopatch import signal
from klangsim.devices.audio import SimAudio
from klangsim.runner import Property
from klangsim.streams import N, SR, TAU, control_at, frequency_at, gen_control, gen_frequency, gen_signal, ideal_cycles, samples, wave


class Subject:

    """A block (or several) next to its ideal."""

    def __init__(self, spec, index):
        self.spec = spec
        self.index = index
        self.feeds = []
        self.controls = []
        self.attrs = []
        self.block = None

    def feed(self, func, input_):
        feed = streams.Feed(func)
        feed.output.connect(input_)
        self.feeds.append(feed)

    def feed_signal(self, key='signal', input_=None):
        spec = self.spec[key]
        self.feed(lambda c: samples(spec, c), input_ or self.block.input)

    def feed_frequency(self, input_):
        """Frequency: from another block or set between the cycles."""
        spec = self.spec['frequency']
        if self.spec.get('wired', True):
            self.feed(lambda c: frequency_at(spec, c), input_)
        else:
            self.frequencyInput = input_

    frequencyInput = None

    def feed_controls(self, **inputs):
        """Controls: from other blocks, or (after what was given at
        construction) set when they change."""
        for key, input_ in inputs.items():
            spec = self.spec[key]
            if self.spec.get('wired', True):
                self.feed(lambda c, spec=spec: control_at(spec, c), input_)
            else:
                self.controls.append((spec, input_))

    def feed_attrs(self, **setters):
        """What is set on the block itself, now and then between two cycles."""
        for key, setter in setters.items():
            self.attrs.append((self.spec[key], setter))

    def set_attr(self, name, obj=None):
        return lambda val: setattr(obj or self.block, name, val)

    def at(self, key, cycle):
        return control_at(self.spec[key], cycle)

    def track(self, key, n):
        """Value for each sample."""
        return np.repeat([float(self.at(key, c)) for c in range(n)], N)

    def before(self, cycle):
        """Called before each cycle."""
        for spec, setter in self.attrs:
            if cycle and control_at(spec, cycle) != control_at(spec, cycle - 1):
                setter(control_at(spec, cycle))
        for spec, input_ in self.controls:
            if cycle and control_at(spec, cycle) != control_at(spec, cycle - 1):
                input_.set_value(control_at(spec, cycle))
        if self.frequencyInput is not None:
            f = frequency_at(self.spec['frequency'], cycle)
            last = frequency_at(self.spec['frequency'], cycle - 1) if cycle else self.first_frequency()
            if np.ndim(f) or type(f) is not type(last) or f != last:
                self.frequencyInput.set_value(f)

    def first_frequency(self):
        """Frequency at construction."""
        f = frequency_at(self.spec['frequency'], 0)
        return 100. if np.ndim(f) else f

    def frequencies(self, n):
        return [frequency_at(self.spec['frequency'], c) for c in range(n)]

    def input_stream(self, n, key='signal'):
        """The whole input (channels, n * N)."""
        return np.concatenate([np.atleast_2d(samples(self.spec[key], c)) for c in range(n)], axis=1)

    atol = 1e-9


# Each subject: gen(rng, cycles) -> spec. build(). ideal(n) -> list of allowed (values (channels, n * N), ambiguous or None)


class Delay(Subject):

    @staticmethod
    def gen(rng, cycles):
        k = rng.choice([256, 257, 300, 512, 1000, 2049, rng.randint(256, 8000), rng.randint(1, 255), 255, 44100])
        time = rng.choice([k / SR, (k + .5) / SR, (k + .01) / SR])
        if rng.random() < .15:
            time = rng.choice(['1/16', '1/4', '1/8'])
        return {'time': time, 'feedback': gen_control(rng, lambda: rng.choice([0., .1, .5, .9, 1., -.5]), cycles),
                'drywet': gen_control(rng, lambda: rng.choice([.5, 1., 0., .3]), cycles), 'signal': gen_signal(rng, (1, 1, 2, 3), cycles)}

    def build(self):
        from klang.audio.effects import Delay as Block
        self.block = Block(streams.rate_arg(self.spec['time']), self.at('feedback', 0), self.at('drywet', 0))
        self.feed_signal()
        self.feed_attrs(feedback=self.set_attr('feedback'), drywet=self.set_attr('drywet'))

    @staticmethod
    def lengths(time):
        sec = 1 / streams.rate_of(time) if isinstance(time, str) else time
        return sorted({int(sec * SR), int(sec * SR + 1e-6), int(round(sec * SR))} - {0})

    def ideal(self, n):
        mono = []
        for c in range(n):
            x = samples(self.spec['signal'], c)
            mono.append(x if x.ndim == 1 else x.mean(axis=0))
        x = np.concatenate(mono)
        wet, feedback = self.track('drywet', n), self.track('feedback', n)
        return [((1 - wet) * x + wet * streams.comb('echo', x, k, feedback), None) for k in self.lengths(self.spec['time'])]


class StereoDelay(Subject):

    @staticmethod
    def gen(rng, cycles):
        a, b = Delay.gen(rng, cycles), Delay.gen(rng, cycles)
        return {'times': [a['time'], b['time']], 'feedback': [control_at(s['feedback'], 0) for s in (a, b)], 'drywet': control_at(a['drywet'], 0),
                'signal': gen_signal(rng, (1, 2, 2), cycles)}

    def build(self):
        from klang.audio.effects import StereoDelay as Block
        (a, b), (f, g) = self.spec['times'], self.spec['feedback']
        self.block = Block(streams.rate_arg(a), streams.rate_arg(b), f, g, self.spec['drywet'])
        self.feed_signal()

    def ideal(self, n):
        x = np.concatenate([np.broadcast_to(samples(self.spec['signal'], c), (2, N)) for c in range(n)], axis=1)
        wet = self.spec['drywet']
        sides = []
        for i in range(2):
            sides.append([(1 - wet) * x[i] + wet * streams.comb('echo', x[i], k, self.spec['feedback'][i])
                          for k in Delay.lengths(self.spec['times'][i])])
        return [(np.stack([l, r]), None) for l in sides[0] for r in sides[1]]


class Reverb(Subject):

    @staticmethod
    def gen(rng, cycles):
        return {'decay': rng.choice([1.5, .3, 5., 0.]), 'preDelay': rng.choice([.03, .01, .1, .001, 0.]), 'dryWet': gen_control(rng, lambda: rng.choice([.7, 1., .2, 0.]), cycles),
                'nEchos': rng.choice([10, 1, 3]), 'signal': gen_signal(rng, (1,), cycles), 'echo': rng.choice([None, None, 'forward', 'backward', 'echo'])}

    def build(self):
        from klang.audio.effects import Reverb as Block
        s = self.spec
        kwargs = {'echoType': P19.filter_class(s['echo'])} if s.get('echo') else {}
        self.block = Block(s['decay'], s['preDelay'], self.at('dryWet', 0), s['nEchos'], **kwargs)
        self.feed_signal()
        self.feed_attrs(dryWet=self.set_attr('dryWet'))

    def ideal(self, n):
        s = self.spec
        x = self.input_stream(n)[0]
        y = 0.
        for k in streams.primes(s['nEchos'], int(s['preDelay'] * SR)):
            alpha = math.exp(-math.pi * k / SR / s['decay']) if s['decay'] > 0 else 0.
            y = y + streams.comb(s.get('echo') or 'backward', x, k, alpha)
        y = y / s['nEchos']
        wet = self.track('dryWet', n)
        return [((1 - wet) * x + wet * y, None)]


class Filter(Subject):

    @staticmethod
    def gen(rng, cycles):
        def value():
            return rng.choice([440., 20., 20000., 5., 21000., rng.uniform(20, 20000), rng.uniform(20, 2000)])
        return {'frequency': {'control': gen_control(rng, value, cycles, glide=.4), 'numpy': rng.random() < .3}, 'N': rng.choice([2, 2, 1, 4]),
                'btype': rng.choice(['lowpass', 'lowpass', 'highpass']), 'signal': gen_signal(rng, (1, 2), cycles), 'wired': rng.random() < .5}

    def build(self):
        from klang.audio.effects import Filter as Block
        s = self.spec
        self.block = Block(frequency=self.first_frequency(), design_func=streams.butter, N=s['N'], btype=s['btype'])
        self.feed_signal()
        self.feed_frequency(self.block.frequency)

    def ideal(self, n):
        import scipy.signal
        s = self.spec
        table = np.logspace(np.log2(20.), np.log2(20000.), num=1000, base=2)
        state = [np.zeros(s['N']), np.zeros(s['N'])]
        out = []
        for c in range(n):
            i = min(len(table) - 1, int(np.searchsorted(table, float(frequency_at(s['frequency'], c)))))
            b, a = streams.butter(N=s['N'], btype=s['btype'], Wn=table[i] / 22050)
            x = np.atleast_2d(samples(s['signal'], c))
            y = np.empty(x.shape)
            for ch in range(len(x)):
                y[ch], state[ch] = scipy.signal.lfilter(b, a, x[ch], zi=state[ch])
            out.append(y if len(y) > 1 or samples(s['signal'], c).ndim > 1 else y[0])
        return [(out, None)]

    atol = 1e-6


class Osc(Subject):

    @staticmethod
    def gen(rng, cycles):
        return {'frequency': gen_frequency(rng, negative=True, cycles=cycles), 'wave': rng.choice(streams.WAVES),
                'start': rng.choice([0., 0., 1., math.pi, 6.]), 'wired': rng.random() < .5, 'twin': rng.randint(0, cycles) if rng.random() < .3 else None}

    def build(self):
        from klang.audio import waves
        from klang.audio.oscillators import Oscillator
        self.block = Oscillator(self.first_frequency(), getattr(waves, self.spec['wave']), self.spec['start'])
        self.feed_frequency(self.block.frequency)

    def phase(self, n, freqs=None):
        return ideal_cycles(freqs or self.frequencies(n), self.spec['start'] / TAU)

    def ideal(self, n):
        return [wave(self.spec['wave'], self.phase(n))]

    def ideal_twin(self, cycle, n):
        """What a copy made before `cycle` plays on its own."""
        freqs = self.frequencies(cycle + 1)
        if self.frequencyInput is None:   # The copy keeps the last value it had
            freqs[cycle] = freqs[max(0, cycle - 1)]
        freqs += (n - 1) * [freqs[cycle]]
        return self.ideal_of(freqs, cycle)

    def ideal_of(self, freqs, cycle):
        vals, bad = wave(self.spec['wave'], self.phase(None, freqs))
        return vals[cycle * N:], bad[cycle * N:]

    atol = 2e-5


class Lfo(Osc):

    @staticmethod
    def gen(rng, cycles):
        spec = Osc.gen(rng, cycles)
        spec.update(frequency=gen_frequency(rng, low=True, cycles=cycles, array=False), shape=rng.choice([1, N]),
                    range=rng.choice([[0, 1], [-1, 1], [200., 2000.], [1., .5]]))
        return spec

    def build(self):
        from klang.audio import waves
        from klang.audio.oscillators import Lfo as Block
        s = self.spec
        self.block = Block(self.first_frequency(), getattr(waves, s['wave']), s['shape'], tuple(s['range']), s['start'])
        self.feed_frequency(self.block.frequency)
        self.atol = 2e-5 * max(1., max(map(abs, s['range'])))

    def ideal(self, n):
        return [self.transform(*wave(self.spec['wave'], self.phase(n)))]

    def transform(self, vals, bad):
        lo, hi = self.spec['range']
        vals = lo + (hi - lo) * (vals + 1) / 2
        if self.spec['shape'] == 1:
            vals, bad = vals[::N], bad[::N]
        return vals, bad

    def ideal_of(self, freqs, cycle):
        vals, bad = wave(self.spec['wave'], self.phase(None, freqs))
        return self.transform(vals[cycle * N:], bad[cycle * N:])


class Phasor(Osc):

    @staticmethod
    def gen(rng, cycles):
        spec = Osc.gen(rng, cycles)
        spec['frequency'] = gen_frequency(rng, low=True, cycles=cycles, array=False)
        return spec

    def build(self):
        from klang.audio.oscillators import Phasor as Block
        self.block = Block(self.first_frequency(), self.spec['start'])
        self.feed_frequency(self.block.frequency)

    def transform(self, phase):
        p = np.mod(phase[::N], 1.)
        return TAU * p, streams.near(p, 0.)

    def ideal(self, n):
        return [self.transform(self.phase(n))]

    def ideal_of(self, freqs, cycle):
        return self.transform(self.phase(None, freqs)[cycle * N:])


class Pwm(Osc):

    @staticmethod
    def gen(rng, cycles):
        spec = Osc.gen(rng, cycles)
        spec['duty'] = gen_control(rng, lambda: rng.choice([.5, .1, .9, rng.random()]), cycles)
        return spec

    def build(self):
        from klang.audio.oscillators import PwmOscillator
        self.block = PwmOscillator(self.first_frequency(), self.spec['duty'][0][1], self.spec['start'])
        self.feed_frequency(self.block.frequency)
        self.feed_controls(duty=self.block.dutyCycle)

    def pulses(self, n, freqs=None, last=None):
        p = np.mod(self.phase(n, freqs), 1.)
        duty = np.repeat([control_at(self.spec['duty'], c if last is None else min(c, last)) for c in range(n)], N)
        return np.where(p < duty, 1., -1.), streams.near(p, 0.) | streams.near(p, duty)

    def ideal(self, n):
        return [self.pulses(n)]

    def ideal_of(self, freqs, cycle):
        # Duty cycle: the last one from the block which sets it, or the new one set just now
        last = max(0, cycle - 1) if self.spec.get('wired', True) else cycle
        vals, bad = self.pulses(len(freqs), freqs, last)
        return vals[cycle * N:], bad[cycle * N:]


class Fm(Osc):

    @staticmethod
    def gen(rng, cycles):
        spec = Osc.gen(rng, cycles)
        spec.update(intensity=gen_control(rng, lambda: rng.choice([1., 0., .1, 5.]), cycles, glide=.12),
                    mod=gen_control(rng, lambda: rng.choice([10., 3., 440., rng.uniform(.1, 1000)]), cycles, glide=.12),
                    wave=rng.choice(['sine', 'sine', 'triangle', 'sawtooth', 'square']))
        return spec

    def build(self):
        from klang.audio import waves
        from klang.audio.oscillators import FmOscillator
        s = self.spec
        self.block = FmOscillator(self.first_frequency(), self.at('intensity', 0), self.at('mod', 0), getattr(waves, s['wave']), s['start'])
        self.feed_frequency(self.block.frequency)
        self.feed_attrs(intensity=self.set_attr('intensity'), mod=self.block.modulator.frequency.set_value)

    def both(self, freqs, last):
        s = self.spec
        cycles = [min(c, last) for c in range(len(freqs))]
        mod, jump = wave(s['wave'], ideal_cycles([self.at('mod', c) for c in cycles]))
        intensity = np.repeat([self.at('intensity', c) for c in cycles], N)
        vals, bad = wave(s['wave'], ideal_cycles(freqs, s['start'] / TAU) + intensity * mod / TAU)
        return vals, bad | jump

    def ideal(self, n):
        return [self.both(self.frequencies(n), n)]

    def ideal_of(self, freqs, cycle):
        vals, bad = self.both(freqs, cycle)
        return vals[cycle * N:], bad[cycle * N:]


class Clock(Osc):

    @staticmethod
    def gen(rng, cycles):
        return {'frequency': gen_frequency(rng, low=rng.random() < .7, cycles=cycles, array=False), 'start': 0., 'duty': rng.choice([.1, .5, .9, rng.uniform(.01, .99)]),
                'edge': rng.choice(['rising', 'falling']), 'wired': False}

    def build(self):
        from klang.audio.sync import Clock as Block
        self.block = Block(self.first_frequency(), self.spec['duty'], self.spec['edge'])
        self.feed_frequency(self.block.frequency)

    def ideal(self, n):
        p = np.mod(self.phase(n), 1.)
        duty = self.spec['duty']
        vals = (p < duty if self.spec['edge'] == 'rising' else p > duty).astype(float)
        return [(vals, streams.near(p, 0.) | streams.near(p, duty))]


class Chirp(Subject):

    @staticmethod
    def gen(rng, cycles):
        f = [rng.choice([rng.uniform(20, 2000), rng.uniform(20, 8000), 100.]) for _ in range(2)]
        if rng.random() < .1:
            f[1] = f[0]
        buf = N / SR
        return {'f': f, 'duration': rng.choice([rng.uniform(2, max(2.1, cycles)) * buf, rng.randint(1, max(1, cycles)) * buf, 1.]),
                'wave': rng.choice(['sine', 'sine', 'triangle']), 'reset': rng.randint(1, cycles) if rng.random() < .2 else None,
                'method': rng.choice(['linear', 'linear', 'quadratic', 'logarithmic', 'hyperbolic'])}

    def build(self):
        from klang.audio import waves
        from klang.audio.oscillators import Chirper
        s = self.spec
        self.block = Chirper(s['f'][0], s['duration'], s['f'][1], s.get('method', 'linear'), wave_func=getattr(waves, s['wave']))

    def before(self, cycle):
        if cycle == self.spec['reset']:
            self.block.reset()

    def ideal(self, n):
        s = self.spec
        t = np.arange(n * N) / SR
        if s['reset'] is not None:
            t[s['reset'] * N:] -= s['reset'] * N / SR
        f0, f1 = s['f']
        T = s['duration']
        early = np.minimum(t, T)
        method = s.get('method', 'linear') if f0 != f1 else 'linear'
        if method == 'linear':
            cycles = f0 * early + .5 * (f1 - f0) / T * early ** 2
        elif method == 'quadratic':
            cycles = f0 * early + (f1 - f0) / T ** 2 * early ** 3 / 3
        elif method == 'logarithmic':
            cycles = T / math.log(f1 / f0) * f0 * ((f1 / f0) ** (early / T) - 1)
        else:   # Inverse of a linear change from 1 / f0 to 1 / f1
            a = 1 / f0
            b = (1 / f1 - 1 / f0) / T
            cycles = np.log1p(b * early / a) / b
        cycles = cycles + np.maximum(t - T, 0) * f1
        # Up to where exactly the frequency rises is decided by the sample
        self.atol = 1e-4 + TAU * abs(f1 - f0) / T / SR ** 2 * (1 if method == 'linear' else 2 + max(f0, f1) / min(f0, f1))
        return [wave(s['wave'], cycles)]


class Tremolo(Subject):

    @staticmethod
    def gen(rng, cycles):
        return {'frequency': gen_frequency(rng, low=True, cycles=cycles, array=False), 'depth': gen_control(rng, lambda: rng.choice([.8, 1., 0., rng.random()]), cycles),
                'smooth': gen_control(rng, lambda: rng.choice([1., 0., rng.random()]), cycles), 'start': 0., 'duty': gen_control(rng, lambda: rng.uniform(.1, .9), cycles),
                'signal': gen_signal(rng, (1, 2), cycles), 'wired': rng.random() < .5}

    def build(self):
        from klang.audio.effects import Tremolo as Block
        s = self.spec
        self.block = Block(self.first_frequency(), s['depth'][0][1], s['smooth'][0][1], s['duty'][0][1])
        self.feed_signal()
        self.feed_frequency(self.block.rate)
        self.feed_controls(depth=self.block.depth, smooth=self.block.smoothness, duty=self.block.dutyCycle)

    def ideal(self, n):
        s = self.spec
        pwm, bad = Pwm.pulses(self, n)
        if bad[1:].any():
            return None
        # What the low pass remembers when its cut-off frequency changes: its output or its weighted output
        return [(self.with_memory(pwm, n, weighted), None) for weighted in (True, False)]

    def with_memory(self, pwm, n, weighted):
        s = self.spec
        out, y, prev = [], 0., None
        for c in range(n):
            duty, smooth, depth = (control_at(s[k], c) for k in ('duty', 'smooth', 'depth'))
            decay = max(1e-6, smooth * min(duty, 1 - duty))
            a1 = -math.exp(-TAU / decay / SR)
            if weighted and prev is not None:
                y *= prev / a1
            prev = a1
            low, y = streams.one_pole(pwm[c * N:(c + 1) * N], 1 + a1, a1, y)
            out.append((1 - depth + depth * (.5 + .5 * low)) * samples(s['signal'], c))
        return out

    phase = Osc.phase
    atol = 1e-6


class RingMod(Subject):

    @staticmethod
    def gen(rng, cycles):
        return {'frequency': gen_frequency(rng, low=True, cycles=cycles, array=False), 'base': gen_control(rng, lambda: rng.choice([500., rng.uniform(100, 2000)]), cycles, glide=.12),
                'amount': gen_control(rng, lambda: rng.choice([20., 0., rng.uniform(0, 90)]), cycles), 'wet': gen_control(rng, lambda: rng.choice([1., .5, 0.]), cycles),
                'wave': rng.choice(streams.WAVES), 'signal': gen_signal(rng, (1, 2), cycles), 'wired': rng.random() < .5}

    def build(self):
        from klang.audio import waves
        from klang.audio.effects import RingModulator
        s = self.spec
        self.block = RingModulator(s['base'][0][1], self.first_frequency(), s['amount'][0][1], getattr(waves, s['wave']), s['wet'][0][1])
        self.feed_signal()
        self.feed_frequency(self.block.rate)
        self.feed_controls(base=self.block.frequency, amount=self.block.amount, wet=self.block.dryWet)

    def ideal(self, n):
        s = self.spec
        lfo, bad = wave(s['wave'], ideal_cycles(self.frequencies(n)))
        if bad[1:].any():
            return None
        freqs, out = [], []
        for c in range(n):
            freqs.append(control_at(s['base'], c) + control_at(s['amount'], c) * lfo[c * N:(c + 1) * N])
        am, _ = wave('sine', ideal_cycles(freqs))
        for c in range(n):
            x, w = samples(s['signal'], c), control_at(s['wet'], c)
            out.append((1 - w) * x + w * am[c * N:(c + 1) * N] * x)
        return [(out, None)]

    atol = 2e-5


class Simple(Subject):

    """Blocks without memory."""

    KINDS = ['gain', 'subsampler', 'bitcrusher', 'octave', 'tanh', 'transformer', 'limits', 'limits2', 'ranges']

    @staticmethod
    def gen(rng, cycles):
        return {'what': rng.choice(Simple.KINDS), 'a': rng.choice([1., .5, 0., 2., -1.]), 'b': rng.randint(0, 15), 'factor': rng.choice([2, 4, 16, 128]),
                'live': Simple.gen_live(rng, cycles) if rng.random() < .5 else None,
                'signal': gen_signal(rng, (1, 2), cycles), 'gain': gen_control(rng, lambda: rng.choice([1., 0., .25, 2.]), cycles), 'wired': rng.random() < .5}

    @staticmethod
    def gen_live(rng, cycles):
        """New settings, some while playing."""
        return {'a': gen_control(rng, lambda: rng.choice([1., .5, 0., 2., -1.]), cycles), 'b': gen_control(rng, lambda: rng.randint(0, 15), cycles),
                'factor': gen_control(rng, lambda: rng.choice([2, 4, 16, 128]), cycles)}

    SETTINGS = {'subsampler': {'factor': 'factor'}, 'bitcrusher': {'nBits': 'b'}, 'tanh': {'drive': 'a'}, 'transformer': {'scale': 'a', 'offset': 'b'}}

    def before(self, cycle):
        super().before(cycle)
        live = self.spec.get('live')
        for name, key in self.SETTINGS.get(self.spec['what'], {}).items() if live else ():
            if not cycle or control_at(live[key], cycle) != control_at(live[key], cycle - 1):
                setattr(self.block, name, control_at(live[key], cycle))

    def build(self):
        from klang.audio import effects
        s = self.spec
        what = s['what']
        self.block = {
            'gain': lambda: effects.Gain(s['gain'][0][1]), 'subsampler': lambda: effects.Subsampler(s['factor']),
            'bitcrusher': lambda: effects.Bitcrusher(s['b']), 'octave': effects.OctaveDistortion, 'tanh': lambda: effects.TanhDistortion(s['a']),
            'transformer': lambda: effects.Transformer(s['a'], s['b']), 'limits': lambda: effects.Transformer.from_limits(s['a'], s['a'] + s['b'] + 1.),
            'ranges': lambda: effects.Transformer.from_ranges((s['a'], s['a'] + s['factor']), (s['b'], -1.)),
            'limits2': lambda: effects.Transformer.from_limits_2(s['a'], s['a'] + s['b'] + 1.),
        }[what]()
        self.feed_signal()
        if what == 'gain':
            self.feed_controls(gain=self.block.gain)

    def ideal(self, n):
        return [([self.of(samples(self.spec['signal'], c), c) for c in range(n)], None)]

    def of(self, x, c):
        s = self.spec
        what = s['what']
        if s.get('live') and what in self.SETTINGS:
            s = dict(s, **{k: control_at(v, c) for k, v in s['live'].items()})
        if what == 'gain':
            return control_at(s['gain'], c) * x
        if what == 'subsampler':
            i = np.arange(N)
            return x[..., i - i % s['factor']]
        if what == 'bitcrusher':
            step = 2 ** s['b']
            return np.floor(np.trunc(32767 * x) / step) * step / 32767
        if what == 'octave':
            return 2 * x * x - 1
        if what == 'tanh':
            return np.tanh(s['a'] * x)
        if what == 'transformer':
            return s['a'] * x + s['b']
        if what == 'ranges':
            return s['b'] + (x - s['a']) / s['factor'] * (-1. - s['b'])
        width = s['b'] + 1.
        return s['a'] + width * x if what == 'limits' else s['a'] + width * (x + 1) / 2

    @property
    def atol(self):
        s = self.spec
        if s['what'] != 'bitcrusher':
            return 1e-9
        return 2 ** max(v for _, v in s['live']['b']) / 32767 * 1.01 if s.get('live') else 2 ** s['b'] / 32767 * 1.01


class Mix(Subject):

    @staticmethod
    def gen(rng, cycles):
        n = rng.choice([0, 1, 2, 3, 5])
        stereo = rng.random() < .5
        return {'stereo': stereo, 'mode': rng.choice(['constant_power', 'linear', 'mixture']), 'signals': [gen_signal(rng, (1, 2) if stereo else (1,), cycles) for _ in range(n)],
                'gains': [gen_control(rng, lambda: rng.choice([1., .5, 0., 2.]), cycles) for _ in range(n)],
                'pans': [gen_control(rng, lambda: rng.choice([0., -1., 1., rng.uniform(-1, 1)]), cycles) for _ in range(n)],
                'grow': rng.random() < .5}

    def build(self):
        from klang.audio import mixer
        s = self.spec
        n = len(s['signals'])
        kwargs = {'mode': s['mode']} if s['stereo'] else {}
        cls = mixer.StereoMixer if s['stereo'] else mixer.Mixer
        if s['grow']:
            self.block = cls(**kwargs)
            for i in range(n):
                feed = streams.Feed(lambda c, sig=s['signals'][i]: samples(sig, c))
                self.feeds.append(feed)
                self.block += feed.output
                self.block.gains[i] = s['gains'][i][0][1]
                if s['stereo']:
                    self.block.pannings[i] = s['pans'][i][0][1]
        else:
            if s['stereo']:
                kwargs['pannings'] = [p[0][1] for p in s['pans']]
            self.block = cls(n, gains=[g[0][1] for g in s['gains']], **kwargs)
            for i in range(n):
                self.feed(lambda c, sig=s['signals'][i]: samples(sig, c), self.block.inputs[i])
        for i in range(n):
            self.attrs.append((s['gains'][i], lambda v, i=i: self.block.gains.__setitem__(i, v)))
            if s['stereo']:
                self.attrs.append((s['pans'][i], lambda v, i=i: self.block.pannings.__setitem__(i, v)))

    def ideal(self, n):
        s = self.spec
        out = []
        for c in range(n):
            total = np.zeros((2, N) if s['stereo'] else N)
            for sig, gain, pan in zip(s['signals'], s['gains'], s['pans']):
                gain, pan = control_at(gain, c), control_at(pan, c)
                x = gain * samples(sig, c)
                if s['stereo']:
                    angle = TAU / 8 * (1 + pan)
                    power, linear = (math.cos(angle), math.sin(angle)), (.5 * (1 - pan), .5 * (1 + pan))
                    lr = power if s['mode'] == 'constant_power' else linear
                    if s['mode'] == 'mixture':
                        lr = [math.sqrt(max(0., a * b)) for a, b in zip(power, linear)]
                    x = np.array(lr)[:, None] * x
                total = total + x
            out.append(total / max(1, len(s['signals'])))
        return [(out, None)]


class Shift(Subject):

    """Windowed buffers through a resampler of its own."""

    @staticmethod
    def gen(rng, cycles):
        return {'shift': rng.choice([2., 1., .5, 1.5, rng.uniform(.3, 3.)]), 'drywet': gen_control(rng, lambda: rng.choice([.5, 1., 0., .3]), cycles),
                'mode': rng.choice([None, 'sinc_fastest', 'linear', 'zero_order_hold']), 'signal': gen_signal(rng, (1,), cycles)}

    def build(self):
        from klang.audio.effects import PitchShifter
        s = self.spec
        self.block = PitchShifter(s['shift'], self.at('drywet', 0), **({'mode': s['mode']} if s['mode'] else {}))
        self.feed_signal()
        self.feed_attrs(drywet=self.set_attr('dryWet'))

    def ideal(self, n):
        import samplerate
        s = self.spec
        cycle = [0]
        window = .5 - .5 * np.cos(TAU * np.arange(N) / (N - 1))
        resampler = samplerate.CallbackResampler(lambda: samples(s['signal'], cycle[0]) * window, 1 / s['shift'], s['mode'] or 'sinc_fastest', 1)
        out = []
        for c in range(n):
            cycle[0] = c
            wet = self.at('drywet', c)
            out.append((1 - wet) * samples(s['signal'], c) + wet * resampler.read(N))
        return [(out, None)]

    atol = 1e-5


class Split(Subject):

    """Split and put together again, each channel through a gain."""

    @staticmethod
    def gen(rng, cycles):
        ch = rng.choice([1, 2, 3])
        return {'signal': gen_signal(rng, (ch,), cycles), 'channels': rng.choice([ch, 2]) if ch > 1 else rng.randint(1, 3), 'gains': [rng.choice([1., .5, -1.]) for _ in range(3)],
                'direct': rng.random() < .5}

    def build(self):
        from klang.audio import effects
        s = self.spec
        self.splitter = effects.AudioSplitter(s['channels'])
        self.block = effects.AudioCombiner(s['channels'])
        self.feed_signal(input_=self.splitter.input)
        for i in range(s['channels']):
            if s['direct']:
                self.splitter.outputs[i].connect(self.block.inputs[i])
            else:
                gain = effects.Gain(s['gains'][i])
                self.splitter.outputs[i].connect(gain.input)
                gain.output.connect(self.block.inputs[i])

    def ideal(self, n):
        s = self.spec
        g = np.array([1. if s['direct'] else v for v in s['gains']])[:, None]
        out = []
        for c in range(n):
            x = samples(s['signal'], c)
            x = np.broadcast_to(x, (s['channels'], N)) if x.ndim == 1 else x[:s['channels']]
            out.append(g[:len(x)] * x)
        return [(out, None)]


SUBJECTS = {'delay': Delay, 'stereodelay': StereoDelay, 'reverb': Reverb, 'filter': Filter, 'osc': Osc, 'lfo': Lfo, 'phasor': Phasor, 'pwm': Pwm, 'fm': Fm, 'clock': Clock,
            'chirp': Chirp, 'tremolo': Tremolo, 'ringmod': RingMod, 'simple': Simple, 'mix': Mix, 'split': Split, 'shift': Shift}


# Raw filters


LAYOUTS = ['plain', 'plain', 'strided', 'reversed', 'column', 'float32', 'int16', 'list', 'readonly', 'bigendian', 'misaligned', 'tuple']


def layout(x, kind):
    """Array-like in the given layout and the values it has."""
    n = len(x)
    if kind == 'strided':
        a = np.full(2 * n + 1, 99.)
        a[:2 * n:2] = x
        a = a[:2 * n:2]
    elif kind == 'reversed':
        a = x[::-1].copy()[::-1]
    elif kind == 'column':
        a = np.full((n, 3), 99.)
        a[:, 1] = x
        a = a[:, 1]
    elif kind == 'float32':
        a = x.astype(np.float32)
    elif kind == 'int16':
        a = (1000 * x).astype(np.int16)
    elif kind == 'list':
        return list(x), x
    elif kind == 'tuple':
        return tuple(x.tolist()), x
    elif kind == 'readonly':
        a = x.copy()
        a.setflags(write=False)
    elif kind == 'bigendian':
        a = x.astype('>f8')
    elif kind == 'misaligned':
        a = np.frombuffer(b'x' + x.tobytes(), dtype=np.float64, offset=1)
    else:
        a = x.copy()
    return a, np.array(a, dtype=float)


BAD_INPUTS = ['2d', 'none', 'text', 'object', 'ragged', 'scalar']


def bad_input(kind):
    return {'2d': np.zeros((2, 5)), 'none': None, 'text': 'abc', 'object': object(), 'ragged': [[1.], [1., 2.]], 'scalar': np.float64(1.)}[kind]


class P19(Property):
    id = 'P19'
    batch = 250
    quick_runs = 16000
    quick_seconds = 80
    thorough_runs = 200000
    thorough_seconds = 600
    rule = ('A run plays a stream through one or several blocks buffer by buffer (patched and executed as the engine does), or in pieces of '
            'random length and memory layout through the filters and ring buffers underneath, and compares with the ideal unbroken stream. '
            'Non-trivial: more than one buffer was compared.')
    state_measure = 'distinct (kinds of blocks or filters, parameters changing, layouts, sizes)'
    real = ['klang.audio.effects', 'klang.audio.filters', 'klang.audio._filters (C)', 'klang.ring_buffer', 'klang.audio.oscillators', 'klang.audio.mixer',
            'klang.audio.sync', 'klang.execution']
    stubs = []
    assumptions = ['signals of one buffer per channel', 'ring buffers take at most their length (and their bufferSize) at once',
                   'either side is right within 1e-6 of an edge of a wave form', 'cut-off frequencies come in steps of 0.7 %']
    shrink_lists = ('subjects', 'pieces', 'objects')

    def gen(self, rng, tier, index):
        r = rng.random()
        if r < .25:
            return self.gen_raw(rng)
        if r < .26:
            return {'kind': 'leak', 'filter': rng.choice(['forward', 'backward', 'echo']), 'big': rng.random() < .1, 'k': rng.randint(1, 1000),
                    'bad': rng.random() < .5, 'discard': rng.random() < .1}
        if r < .2625:
            return {'kind': 'live', 'callbacks': rng.choice([40, 100]), 'channels': rng.choice([1, 2]), 'input': rng.random() < .5}
        if r < .29:
            return {'kind': 'limits', 'filter': rng.choice(['forward', 'backward', 'echo']),
                    'length': rng.choice([0, -1, -44100, 60 * 44100 + 1, 2 ** 31 - 1, -2 ** 31, 2 ** 40])}
        cycles = rng.choice([1, 2, 5, 12, 40])
        if rng.random() < (.01 if tier == 'quick' else .05):
            cycles = 400
        names = sorted(SUBJECTS)
        subjects = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            name = rng.choice([s['name'] for s in subjects]) if subjects and rng.random() < .5 else rng.choice(names)
            spec = SUBJECTS[name].gen(rng, cycles)
            spec['name'] = name
            subjects.append(spec)
        return {'kind': 'patch', 'subjects': subjects, 'cycles': cycles, 'order': rng.randrange(1 << 16)}

    def gen_raw(self, rng):
        objects = []
        for _ in range(rng.choice([1, 2, 3])):
            what = rng.choice(['c', 'c', 'c', 'py', 'ring'])
            spec = {'what': what, 'filter': rng.choice(['forward', 'backward', 'echo']), 'alpha': rng.choice([.9, None, 0., 1., -.5, rng.uniform(-.99, .99)]),
                    'seed': rng.randrange(1 << 20)}
            if what == 'c':
                spec['k'] = rng.choice([1, 2, 3, 255, 256, 257, rng.randint(1, 20), rng.randint(1, 3000)])
            elif what == 'py':
                spec['k'] = rng.choice([256, 257, 300, 512, rng.randint(256, 3000)])
            else:
                spec['k'] = rng.choice([1, 2, 7, rng.randint(1, 40), rng.randint(1, 600)])
                spec['bufferSize'] = rng.choice([None, 1, 4, rng.randint(1, 300)])
                spec['capacity'] = rng.choice([None, None, spec['k'], spec['k'] + rng.randint(1, 50)])
                spec['channels'] = rng.choice([1, 1, 2])
            objects.append(spec)
        pieces = []
        for _ in range(rng.choice([1, 3, 10, 30, 60])):
            o = rng.randrange(len(objects))
            what = objects[o]['what']
            r = rng.random()
            if what == 'ring':
                op = ['extend', 'append', 'peek_extend', 'peek'][rng.randrange(4)]
                pieces.append({'o': o, 'op': op, 'n': rng.random()})
            elif r < .05:
                pieces.append({'o': o, 'op': 'bad' if what == 'c' else 'alpha', 'which': rng.choice(BAD_INPUTS), 'alpha': rng.uniform(-.99, .99)})
            elif r < .1:
                pieces.append({'o': o, 'op': 'alpha', 'alpha': rng.uniform(-.99, .99)})
            elif what == 'py':
                pieces.append({'o': o, 'op': 'filter', 'n': rng.choice([256, 256, 1, 100, rng.randint(1, 256)]), 'layout': rng.choice(['plain', 'readonly', 'strided'])})
            else:
                pieces.append({'o': o, 'op': 'filter', 'n': rng.choice([256, 256, 0, 1, 2, 7, 100, 1000, rng.randint(1, 600)]), 'layout': rng.choice(LAYOUTS)})
        return {'kind': 'raw', 'objects': objects, 'pieces': pieces}

    def execute(self, sc, ctx, world):
        streams.make_classes()
        self.world = world
        getattr(self, 'run_' + sc['kind'])(sc, ctx)

    # Patches

    def run_patch(self, sc, ctx):
        from klang.execution import determine_execution_order
        subjects = [SUBJECTS[spec['name']](spec, i) for i, spec in enumerate(sc['subjects'])]
        starts = []
        for s in subjects:
            s.build()
            starts += s.feeds or [s.block]
            if s.frequencyInput is not None and s.block not in starts:
                starts.append(s.block)
            s.out = []
        k = sc['order'] % len(starts)
        order = determine_execution_order(starts[k:] + starts[:k])
        published = {}
        n = sc['cycles']
        for c in range(n):
            for s in subjects:
                s.before(c)
                twin = s.spec.get('twin')
                if twin is not None and c == 0:
                    copy.deepcopy(s.block)      # Another one, forgotten at once
                if twin == c:
                    self.run_twin(s, c, ctx)
            for block in order:
                block.update()
                self.check_published(ctx, block, order, published, c)
            for s in subjects:
                s.out.append(np.array(s.block.output.value))
                ctx.log(c, s.spec['name'], s.out[-1])
        ctx.simTime += n * N / SR
        for s in subjects:
            self.compare(ctx, s, n)
        ctx.nontrivial = n > 1
        ctx.state(*sorted('%s:%s' % (spec['name'], sum(len(v) > 1 for v in spec.values() if isinstance(v, list))) for spec in sc['subjects']), n)

    def check_published(self, ctx, block, order, published, cycle):
        """Only the block itself may change what it put out."""
        for other, arrays in published.items():
            if other is not block:
                for arr, was in arrays:
                    ctx.check(np.array_equal(arr, was), 'altered', 'cycle %d: %s changes the buffer of %s', cycle, type(block).__name__, type(other).__name__)
        arrays = []
        for o in block.outputs:
            val = o.value
            if isinstance(val, np.ndarray):
                arrays.append((val, val.copy()))
        published[block] = arrays

    def run_twin(self, s, cycle, ctx):
        """A copy plays on as the original would, but on its own."""
        ideal = s.ideal_twin(cycle, 2)
        twin = copy.deepcopy(s.block)
        out = []
        for _ in range(2):
            twin.update()
            out.append(np.array(twin.output.value))
        if ideal is not None:
            self.compare_one(ctx, s, out, ideal[0], ideal[1], 'copy made before cycle %d, ' % cycle)

    def compare(self, ctx, s, n):
        ideals = s.ideal(n)
        if ideals is None:
            ctx.count('ambiguous')
            return
        errors = []
        for vals, bad in ideals:
            err = self.difference(s, s.out, vals, bad)
            if err is None:
                return
            errors.append(err)
        ctx.fail('stream', '%s %d: %s' % (s.spec['name'], s.index, errors[0]))

    def compare_one(self, ctx, s, out, vals, bad, prefix):
        err = self.difference(s, out, vals, bad)
        ctx.check(err is None, 'copy', '%s %d: %s%s', s.spec['name'], s.index, prefix, err)

    @staticmethod
    def difference(s, out, vals, bad):
        if isinstance(vals, list):
            expected = vals
        else:
            vals = np.asarray(vals)
            size = vals.shape[-1] // len(out)
            if size == 1:
                expected = [vals[i] for i in range(len(out))]
            else:
                expected = [vals[..., i * size:(i + 1) * size] for i in range(len(out))]
        for c, (a, b) in enumerate(zip(out, expected)):
            b = np.asarray(b)
            if a.shape != b.shape:
                return 'cycle %d: shape %s, should be %s' % (c, a.shape, b.shape)
            wrong = ~(np.abs(a - b) <= s.atol + 1e-7 * np.abs(b))
            if bad is not None:
                wrong &= ~bad[c] if b.ndim == 0 else ~bad[c * N:(c + 1) * N]
            if wrong.any():
                i = tuple(int(v[0]) for v in np.nonzero(np.atleast_1d(wrong)))
                return 'cycle %d, sample %s: %r, should be %r' % (c, i, float(np.atleast_1d(a)[i]), float(np.atleast_1d(b)[i]))
        return None

    # Filters and ring buffers

    @staticmethod
    def filter_class(name, c=True):
        from klang.audio import filters
        return getattr(filters, ('' if c else 'Py') + {'forward': 'ForwardCombFilter', 'backward': 'BackwardCombFilter', 'echo': 'EchoFilter'}[name])

    def run_raw(self, sc, ctx):
        from klang.ring_buffer import RingBuffer
        objs = []
        for spec in sc['objects']:
            if spec['what'] == 'ring':
                kwargs = {k: spec[k] for k in ('bufferSize', 'capacity') if spec[k] is not None}
                obj = RingBuffer(spec['k'], nChannels=spec['channels'], **kwargs)
                objs.append({'obj': obj, 'x': [np.zeros((spec['k'],) + ((2,) if spec['channels'] > 1 else ()))], 'pos': 0})
            else:
                cls = self.filter_class(spec['filter'], spec['what'] == 'c')
                obj = cls(spec['k']) if spec['alpha'] is None else cls(spec['k'], spec['alpha'])
                objs.append({'obj': obj, 'x': [], 'y': [], 'a': [], 'alpha': .9 if spec['alpha'] is None else spec['alpha'], 'pos': 0})
        for i, p in enumerate(sc['pieces']):
            if p['o'] >= len(objs):
                continue
            spec, o = sc['objects'][p['o']], objs[p['o']]
            if spec['what'] == 'ring':
                self.ring_piece(ctx, i, p, spec, o)
            elif p['op'] == 'alpha':
                o['obj'].alpha = o['alpha'] = p['alpha']
            elif p['op'] == 'bad':
                try:
                    y = o['obj'].filter(bad_input(p['which']))
                except Exception:
                    ctx.fault('bad input')
                else:
                    ctx.fail('bad-input', 'filtering %s gave %r' % (p['which'], y))
            else:
                x = streams.signal(spec['seed'] + i, 0, (p['n'],))
                arg, x = layout(x, p['layout'])
                before = np.array(arg, dtype=float)
                y = o['obj'].filter(arg)
                ctx.check(np.shape(y) == (p['n'],), 'shape', 'piece %d: %d samples in, shape %s out', i, p['n'], np.shape(y))
                ctx.check(np.array_equal(before, np.array(arg, dtype=float)), 'altered', 'piece %d: filter changes its input (%s)', i, p['layout'])
                ctx.log(i, y)
                o['x'].append(x)
                o['y'].append(y)
                o['a'].append(np.full(p['n'], o['alpha']))
        for j, (spec, o) in enumerate(zip(sc['objects'], objs)):
            if spec['what'] == 'ring' or not o['x']:
                continue
            ctx.check(o['obj'].alpha == o['alpha'], 'alpha', 'alpha is %r, should be %r', o['obj'].alpha, o['alpha'])
            want = streams.comb(spec['filter'], np.concatenate(o['x']), spec['k'], np.concatenate(o['a']))
            got = np.concatenate(o['y'])   # Buffers handed out stay as they are
            wrong = ~(np.abs(got - want) <= 1e-9 + 1e-9 * np.abs(want))
            if wrong.any():
                s = int(np.argmax(wrong))
                ctx.fail('stream', '%s filter %d (%s, length %d), sample %d: %r, should be %r' % (
                    spec['filter'], j, spec['what'], spec['k'], s, float(got[s]), float(want[s])))
        ctx.nontrivial = len(sc['pieces']) > 1
        ctx.state(*[(o['what'], o['filter'], min(o['k'], 300)) for o in sc['objects']], sorted(set(p.get('layout', p['op']) for p in sc['pieces'])))

    def ring_piece(self, ctx, i, p, spec, o):
        k = spec['k']
        limit = min(k, spec['bufferSize'] or N)
        n = 1 if p['op'] == 'append' else min(limit, 1 + int(p['n'] * limit))
        pos = o['pos']
        data = o['x'][0]
        idx = (pos + np.arange(n)) % k
        oldest = data[idx]
        obj = o['obj']
        shape = (n,) + data.shape[1:]
        x = streams.signal(spec['seed'] + i, 0, shape)
        if p['op'] in ('peek', 'peek_extend'):
            got = obj.peek(n) if p['op'] == 'peek' else obj.peek_extend(x)
            ctx.check(np.array_equal(got, oldest), 'ring', 'piece %d: %s(%d) of length %d is not the oldest', i, p['op'], n, k)
        elif p['op'] == 'append':
            obj.append(x[0])
        else:
            obj.extend(x)
        if p['op'] != 'peek':
            data[idx] = x
            o['pos'] = (pos + n) % k
        ctx.check(obj.length == k, 'ring', 'length changed')
        ctx.log(i, obj.peek(limit))
        ctx.check(np.array_equal(obj.peek(limit), data[(o['pos'] + np.arange(limit)) % k]), 'ring', 'piece %d: wrong content after %s(%d), length %d',
                  i, p['op'], n, k)

    # Memory

    def run_limits(self, sc, ctx):
        """Lengths nobody can filter with are refused."""
        cls = self.filter_class(sc['filter'])
        try:
            fil = cls(sc['length'])
        except Exception:
            ctx.fault('refused length')
            return
        y = fil.filter(np.ones(10))
        ctx.fail('length', 'filter of length %d: %r' % (sc['length'], y))

    def run_live(self, sc, ctx):
        """Playing keeps no buffer."""
        from klang.audio.klanggeber import Adc, Dac
        from klang.klang import run_klang
        n = sc['channels']
        audio = self.world.audio = SimAudio(self.world, {'outputs': n, 'inputs': n if sc['input'] else None})
        audio.inject = lambda k, channels: signal(1, k, (N, channels))
        refs = []

        def buffer(c):
            x = signal(2, c, (N,)) + 0.
            refs.append(weakref.ref(x))
            return x

        feed = streams.Feed(buffer)
        dac = Dac(nChannels=n)
        feed.output.connect(dac.input)
        if n > 1:
            feed.output.connect(dac.inputs[1])
        blocks = [feed, Adc(nChannels=n)] if sc['input'] else [feed]

        def before(k):
            if k and k % 40 == 0:
                for _ in range(4):
                    gc.collect()
                for what, weak in (('put out', audio.returned), ('made by a block', refs)):
                    alive = sum(r() is not None for r in weak)
                    ctx.check(alive <= 4, 'leak', '%d of %d buffers %s are still held', alive, len(weak), what)

        audio.before_callback = before
        audio.returned = []
        run_klang(*blocks, duration=(sc['callbacks'] + .5) * N / SR)
        ctx.check(len(audio.returned) >= sc['callbacks'], 'too-short', '%d callbacks', len(audio.returned))

    def run_leak(self, sc, ctx):
        """No memory held by what was filtered before."""
        if sc.get('discard'):
            return self.run_discard(sc, ctx)
        fil = self.filter_class(sc['filter'])(sc['k'])
        size = 4000000 if sc['big'] else N
        count = 8 if sc['big'] else 40
        refs = []
        rss = rss_mb()
        for i in range(count):
            x = np.zeros((2, size)) if sc['bad'] and i % 2 else np.zeros(size, np.float32 if sc['big'] else float)
            refs.append(weakref.ref(x))
            try:
                fil.filter(x)
            except Exception:
                ctx.fault('bad input')
            del x
            if sc['big']:
                for _ in range(3):
                    gc.collect()
        for _ in range(6):
            gc.collect()
        alive = sum(r() is not None for r in refs)
        ctx.check(alive <= 2, 'leak', '%d of %d buffers are still held after filtering', alive, count)
        if sc['big']:
            ctx.check(rss_mb() - rss < 150, 'leak', 'memory grows by more than 150 MB by filtering %d times %d samples', count, size)

    def run_discard(self, sc, ctx):
        """No memory held by filters nobody has any more."""
        cls = self.filter_class(sc['filter'])
        for _ in range(6):
            gc.collect()
        rss = rss_mb()
        for i in range(40):
            cls(1000000 + i, .5).filter(np.ones(N))
            for _ in range(3):
                gc.collect()
        ctx.check(rss_mb() - rss < 150, 'leak', 'memory grows by more than 150 MB by 40 filters of 8 MB, one at a time')


def rss_mb():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096 / 2 ** 20


PROP = P19()
