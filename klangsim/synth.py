"""Marker oscillator and note histories for the synthesizer checks."""
import copy

import numpy as np

from klangsim import patch


def make_classes():
    patch.make_classes()
    if 'Marker' in globals():
        return
    from klang.block import Block

    class Marker(Block):

        """Oscillator whose samples are its frequency."""

        def __init__(self, frequency=440.):
            super().__init__(nInputs=1, nOutputs=1)
            self.frequency, = self.inputs
            self.frequency.set_value(frequency)

        def update(self):
            self.output.set_value(np.full(256, float(self.frequency.value)))

        def __deepcopy__(self, memo):
            return type(self)(self.frequency.value)

    globals()['Marker'] = Marker


def gen_envelope(rng):
    t = lambda: rng.choice([0., .001, .005, .02, .1, rng.uniform(0, .2)])
    kind = rng.choice(['ADSR', 'AR', 'R', 'D', 'AR', 'R'])
    args = {'ADSR': [t(), t(), rng.choice([0., 1., .5, rng.random()]), t()], 'AR': [t(), t()], 'R': [t()], 'D': [t()]}[kind]
    kw = {}
    if rng.random() < .3:
        kw['overshoot'] = rng.choice([1e-3, 1e-6, .1, 10.])
    if rng.random() < .12 and kind == 'ADSR' and args[0] + args[1] + args[3] > .001:
        kw['loop'] = True
    return [kind, args, kw]


def make_envelope(spec):
    from klang.audio import envelopes
    return getattr(envelopes, spec[0])(*spec[1], **spec[2])


def gen_history(rng, nNotes, cycles, dense):
    """Cycle -> note specs: presses and releases."""
    hist = {}
    pitches = rng.choice([[60, 62, 64], list(range(40, 80)), [0, 1, 127, 60], [60]])
    held = []
    for _ in range(nNotes):
        k = rng.randrange(cycles)
        hist.setdefault(k, [])
        u = rng.random()
        p = rng.choice(pitches)
        vel = patch.gen_velocity(rng)
        freq = None if rng.random() < .5 else round(rng.uniform(20, 5000), 3)
        if u < .15:
            hist[k].insert(rng.randint(0, len(hist[k])), [p, 0., freq])
            continue
        i = rng.randint(0, len(hist[k]))
        hist[k].insert(i, [p, vel, freq])
        if rng.random() < .85:
            off = [p, 0., freq if rng.random() < .7 else None]
            end = k + rng.choice([0, 0, 1, 2, rng.randint(0, dense)])
            if end >= cycles:
                continue
            if end == k:
                hist[k].insert(rng.randint(i + 1, len(hist[k])), off)
            else:
                row = hist.setdefault(end, [])
                row.insert(rng.randint(0, len(row)), off)
    return [[k, hist[k][:45]] for k in sorted(hist)]
