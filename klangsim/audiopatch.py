"""Patches with audio output whose samples are known beforehand."""
import numpy as np

from klangsim import core

N = 256


class BlockError(Exception):

    """Error within a block."""


_NOISE = np.random.RandomState(1).uniform(-1, 1, 1 << 16)
_NOISE.setflags(write=False)


def signal(seed, cycle, shape, level=1.):
    size = 1
    for n in shape:
        size *= n
    if size > 60000:    # (A period which is no power of two)
        return level * np.resize(np.roll(_NOISE[:65521], seed % 65521), size).reshape(shape)
    start = ((seed + 1) * 7919 + cycle * 2741) % (len(_NOISE) - size)
    return level * _NOISE[start:start + size].reshape(shape)


def make_classes():
    if 'Gen' in globals():
        return
    from klang.block import Block
    from klang.clock import ClockMixin

    class Gen(Block):

        """Puts out a known signal. Records the clock of each cycle."""

        def __init__(self, seed, shapes, errorAt=None, level=1.):
            super().__init__(nOutputs=1)
            self.seed, self.shapes, self.errorAt, self.level = seed, shapes, errorAt, level
            self.cycle = 0
            self.limit = None
            self.clocks = []
            self.output.set_value(np.zeros(N))

        def shape_at(self, cycle):
            """Shape, None: scalar."""
            shape = self.shapes[0][1]
            for since, s in self.shapes:
                if cycle >= since:
                    shape = s
            return shape

        def value_at(self, cycle):
            shape = self.shape_at(cycle)
            if shape is None:
                return .5
            return signal(self.seed, cycle, tuple(shape), self.level)

        def update(self):
            self.clocks.append(ClockMixin.clock())
            c = self.cycle
            self.cycle += 1
            if self.limit is not None and c >= self.limit:
                raise core.Violation('never-stops', 'still running after %d buffers' % c)
            if self.errorAt is not None and c == self.errorAt:
                raise BlockError('simulated')
            self.output.set_value(self.value_at(c))

    class Thru(Block):

        """Passes its input on."""

        def __init__(self):
            super().__init__(nInputs=1, nOutputs=1)
            self.cycle = 0
            self.seen = []

        def update(self):
            self.cycle += 1
            val = self.input.value
            if len(self.seen) < 400:
                self.seen.append(np.array(val))
            self.output.set_value(val)

    globals().update(Gen=Gen, Thru=Thru)


class Patch:

    """Spec: {'dac': n, 'adc': n, 'gens': [{'seed', 'shapes', 'thrus', 'to': [dac inputs], 'errorAt', 'level'}],
    'adcTo': [dac input or None per Adc channel]}"""

    def __init__(self, spec):
        from klang.audio.klanggeber import Adc, Dac
        make_classes()
        self.spec = spec
        self.dac = Dac(nChannels=spec['dac']) if spec['dac'] else None
        self.adc = Adc(nChannels=spec['adc']) if spec['adc'] else None
        self.gens, self.thrus = [], []
        self.source = [None] * spec['dac']
        for g in spec['gens']:
            gen = Gen(g['seed'], g['shapes'], g.get('errorAt'), g.get('level', 1.))
            self.gens.append(gen)
            out = gen.output
            for _ in range(g['thrus']):
                thru = Thru()
                out.connect(thru.input)
                out = thru.output
                self.thrus.append(thru)
            for i in g['to']:
                if i < spec['dac'] and self.source[i] is None:
                    out.connect(self.dac.inputs[i])
                    self.source[i] = ('gen', gen)
        self.monitors = []
        for j in range(spec['adc']):
            thru = Thru()
            self.adc.outputs[j].connect(thru.input)
            self.monitors.append(thru)
            i = (spec.get('adcTo') or [None])[j % len(spec.get('adcTo') or [None])]
            if i is not None and i < spec['dac'] and self.source[i] is None:
                thru.output.connect(self.dac.inputs[i])
                self.source[i] = ('adc', j)
        self.blocks = self.gens + self.thrus + self.monitors

    def start_blocks(self, order):
        """Everything that is not reachable otherwise has to be handed over."""
        blocks = list(self.gens)
        if self.dac:
            blocks.append(self.dac)
        if self.adc:
            blocks.append(self.adc)
        k = order % len(blocks)
        return blocks[k:] + blocks[:k]

    def expected(self, cycle, inData):
        """Frames (N, dac) as float32 or None: wrong number of channels."""
        channels = []
        for src in self.source:
            if src is None:
                channels.append(np.zeros(N))
            elif src[0] == 'adc':
                channels.append(inData[:, src[1]])
            else:
                val = src[1].value_at(cycle)
                if np.ndim(val) == 0:
                    continue
                channels += [val] if np.ndim(val) == 1 else list(val)
        if len(channels) < self.spec['dac']:
            return None
        return np.stack(channels[:self.spec['dac']], axis=1).astype(np.float32) if self.spec['dac'] else np.zeros((N, 0), np.float32)


def gen_patch(rng, allowBad=True, maxCycles=100, adc=True):
    dac = rng.choice([1, 1, 2, 2, 2, 3, 4, 8])
    nAdc = rng.choice([0, 0, dac]) if adc else 0
    gens = []
    for g in range(rng.choice([1, 1, 2, 3])):
        shapes = [[0, rng.choice([[N], [N], [2, N], [3, N], [1, N]])]]
        if rng.random() < .2:
            shapes.append([rng.randint(0, maxCycles), rng.choice([[N], [2, N]])])
        if allowBad and rng.random() < .12:
            shapes.append([rng.randint(0, maxCycles), None])
        shapes.sort(key=lambda s: s[0])
        spec = {'seed': rng.randrange(1 << 20), 'shapes': shapes, 'thrus': rng.randint(0, 3),
                'to': sorted(rng.sample(range(dac), rng.randint(1, dac))), 'level': rng.choice([1., 1., .01, 3., 1e-6])}
        if allowBad and rng.random() < .08:
            spec['errorAt'] = rng.randint(0, maxCycles)
        gens.append(spec)
    return {'dac': dac, 'adc': nAdc, 'gens': gens, 'adcTo': [rng.choice([None] + list(range(dac))) for _ in range(max(1, nAdc))]}
