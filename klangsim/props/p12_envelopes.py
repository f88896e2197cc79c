"""P12: envelopes, sample by sample."""
import copy
import math

import numpy as np

from klangsim import patch
from klangsim.runner import Property

DT = 1 / 44100


class Tracker:

    """Follows an envelope by its samples and rejects what no envelope does."""

    def __init__(self, ctx, attack, decay, sustain, release, overshoot, retrigger, loop):
        self.ctx = ctx
        self.times = {'attack': attack, 'decay': decay, 'release': release}
        self.sustain = sustain
        self.overshoot = overshoot
        self.retrigger = retrigger
        self.loop = loop
        self.stage = 'off'
        self.held = False
        self.value = 0.
        self.count = 0        # Samples in stage (since last change of parameters)
        self.n = 0
        self.trace = []
        self.skipping = False  # Stages which take no time put out no sample at all

    def go(self, stage):
        self.stage = stage
        self.count = 0
        if len(self.trace) < 60:
            self.trace.append(stage)

    def gate(self, on):
        wasHeld, self.held = self.held, on
        if on:
            if self.retrigger or self.stage == 'off' or (self.stage == 'release' and not wasHeld):
                self.go('attack')
        elif self.stage in ('attack', 'decay', 'sustain'):
            self.go('release')

    def change(self, name, value):
        if name == 'sustain':
            self.sustain = value
        elif name == 'overshoot':
            self.overshoot = min(max(value, 1e-9), 1e9)
        elif name == 'retrigger':
            self.retrigger = value
        else:
            self.times[name] = value
        self.count = 0

    def limits(self, stage):
        """Maximal number of samples and step per sample."""
        T = self.times[stage] / DT
        o = self.overshoot
        if T <= 0:
            return 2, 2.
        return T * (1 + 1e-4) + 4, (1 + o) * (1 - math.exp(-math.log((1 + o) / o) / T)) * 1.001 + 1e-12

    def skip(self):
        """Skip stages which take no time."""
        while True:
            if self.stage == 'attack' and (self.times['attack'] <= 0 or self.value == 1.):
                self.value = 1.
                self.go('decay')
            elif self.stage == 'decay' and (self.times['decay'] <= 0 or self.value == self.sustain):
                self.value = self.sustain
                self.go('release' if self.loop else 'sustain')
            elif self.stage == 'release' and (self.times['release'] <= 0 or self.value == 0.):
                self.value = 0.
                self.go('attack' if self.loop and self.held else 'off')
            else:
                return

    def complete(self, v):
        """The end of a stage is not put out if the next one takes no time."""
        step = self.limits(self.stage)[1]
        if self.stage == 'attack' and (v < self.value or (v == self.sustain and self.count)) and v < 1. and self.value + step >= 1.:
            self.value = 1.
        elif self.stage == 'decay' and v < self.sustain and self.value - step <= self.sustain:
            self.value = self.sustain
        elif self.stage == 'release' and v > self.value and self.value - step <= 0.:
            self.value = 0.
        else:
            return False
        return True

    def feed(self, samples):
        stage = None
        for v in samples:
            if self.skipping:
                self.skip()
                while self.stage in self.times and self.complete(v):
                    self.skip()
            prev = self.value
            if self.stage != stage or self.count == 0:
                stage = self.stage
                if stage in self.times:
                    most, step = self.limits(stage)
            self.n += 1
            self.count += 1
            if not 0. <= v <= 1.:
                self.fail('range', v)
            if stage == 'off':
                if v != 0.:
                    self.fail('not-zero', v)
            elif stage == 'sustain':
                if v != self.sustain:
                    self.fail('sustain', v)
            else:
                if self.count > most:
                    self.fail('too-long-' + stage, v)
                if stage == 'attack':
                    if v < prev or v - prev > step:
                        self.fail('jump-attack', v)
                    if v == 1.:
                        self.go('decay')
                elif stage == 'decay':
                    if (v > prev and v != self.sustain) or v < self.sustain or prev - v > step:
                        self.fail('jump-decay', v)
                    if v == self.sustain:
                        self.go('release' if self.loop else 'sustain')
                else:
                    if v > prev or prev - v > step:
                        self.fail('jump-release', v)
                    if v == 0.:
                        self.go('attack' if self.loop and self.held else 'off')
            self.value = v

    def fail(self, key, v):
        self.ctx.fail(key, 'sample %d: %r after %r in stage %s (sample %d of it) with times %s, sustain %r, overshoot %r; stages %s' % (
            self.n, v, self.value, self.stage, self.count, self.times, self.sustain, self.overshoot, self.trace))


class P12(Property):
    id = 'P12'
    batch = 250
    quick_runs = 32000
    quick_seconds = 45
    thorough_runs = 200000
    rule = ('A run plays a history of gates and parameter changes at sample positions into an envelope, cut into buffers '
            'in two different ways, and follows every sample; non-trivial: at least two stages were entered.')
    state_measure = 'distinct sequences of stages entered'
    real = ['klang.audio._envelope (C)', 'klang.audio.envelopes', 'klang.audio.envelope (pure Python fallback)']
    stubs = []
    assumptions = ['overshoot up to 100, stage times up to 2 s', 'loop is set at construction',
                   'a new sustain level may be reached by a jump',
                   'the pure Python fallback: buffers of the common size, parameters take effect with the next stage, attack times above zero when looping']
    shrink_lists = ('ops', 'chunks', 'cuts')

    def gen(self, rng, tier, index):
        t = lambda: rng.choice([0., 0., 1 / 44100, .5 / 44100, .001, .004, .01, .05, rng.uniform(0, .02), rng.uniform(0, .3)] if rng.random() < .97 else [1., 2.5, 12.])
        kind = rng.choice(['Envelope', 'Envelope', 'ADSR', 'AR', 'D', 'R', 'Fallback'])
        s = rng.choice([0., 1., .5, .8, rng.random(), 1e-12])
        args = {'Envelope': [t(), t(), s, t()], 'ADSR': [t(), t(), s, t()], 'AR': [t(), t()], 'D': [t()], 'R': [t()], 'Fallback': [t(), t(), s, t()]}[kind]
        kw = {}
        if rng.random() < .4:
            kw['overshoot'] = rng.choice([1e-9, 1e-6, 1e-3, .1, 1., 10., 100., 0.])
        if rng.random() < .3:
            kw['retrigger'] = True
        if rng.random() < .3:
            kw['loop'] = True
        if kind == 'Fallback':
            kw.pop('overshoot', None)
            if rng.random() < .4:
                kw['overshoot'] = rng.choice([1e-9, 1e-6, 1e-3, .1, 1., 10.])
            if kw.get('loop'):
                args[0] = max(args[0], .0005)
        blocks = kind == 'Fallback' or kind != 'Envelope' and rng.random() < .5
        ops = []
        held = False
        for _ in range(rng.choice([1, 3, 8, 25])):
            u = rng.random()
            if u < .75:
                on = (not held) if rng.random() < .8 else held
                held = on
                ops.append(['gate', on])
            elif u < .93:
                name = rng.choice(['attack', 'decay', 'release', 'sustain', 'overshoot', 'retrigger'])
                ops.append(['set', name, rng.choice([0., 1., .3, rng.random()]) if name == 'sustain' else
                            rng.choice([1e-3, .1, 1., 10.]) if name == 'overshoot' else rng.random() < .5 if name == 'retrigger' else t()])
            elif u < .96:
                ops.append(['bad', rng.choice([['attack', -1.], ['decay', -.1], ['release', -1e-9], ['sustain', 2.], ['sustain', -.1],
                                               ['attack', 'x'], ['sustain', None], ['release', []], ['overshoot', -1.]])])
            else:
                ops.append(['copy'])
            ops.append(['run', rng.choice([0, 1, 2, 3, 255, 256, 257, rng.randint(0, 3000), rng.randint(0, 30000) if rng.random() < .95 else rng.randint(30000, 400000)])
                        if not blocks else 256 * rng.choice([0, 1, 1, 2, 5, 20])])
        if held:
            ops.append(['gate', False])
        ops.append(['finish'])
        return {'kind': kind, 'args': args, 'kw': kw, 'blocks': blocks, 'ops': ops,
                'cuts': [rng.choice([1, 2, 7, 64, 256, rng.randint(1, 4000)]) for _ in range(6)]}

    def execute(self, sc, ctx, world):
        from klang.audio import envelopes
        fallback = sc['kind'] == 'Fallback'
        if fallback:
            from klang.audio.envelope import Envelope as cls
        else:
            cls = getattr(envelopes, sc['kind'])
        kw = dict(sc['kw'])
        args = list(sc['args'])
        if sc['kind'] in ('Envelope', 'Fallback'):
            new = lambda: cls(*args, DT, **kw)
        else:
            new = lambda: cls(*args, **kw)
        a, d, s, r = {'Envelope': lambda: args, 'Fallback': lambda: args, 'ADSR': lambda: args, 'AR': lambda: [args[0], 0., 1., args[1]],
                      'D': lambda: [0., args[0], 0., args[0]], 'R': lambda: [0., 0., 1., args[0]]}[sc['kind']]()
        first = new()       # As asked for
        second = new()      # Cut differently
        idle = new()        # Never touched
        track = Tracker(ctx, a, d, s, r, min(max(kw.get('overshoot', 1e-3), 1e-9), 1e9), kw.get('retrigger', False), kw.get('loop', False))
        track.skipping = fallback
        blocks = sc['blocks'] and sc['kind'] not in ('Envelope', 'Fallback')
        cuts = sc['cuts'] or [256]
        c = 0
        on, off = patch.make_note([60, .7, None]), patch.make_note([60, 0., None])
        total = 0
        for op in sc['ops']:
            if op[0] == 'gate':
                if op[1] and track.held and track.loop and not track.retrigger:
                    continue  # Looping through its release: whether to restart is not specified
                if blocks:
                    first.trigger.push(on if op[1] else off)
                else:
                    first.gate(op[1])
                second.gate(op[1])
                track.gate(op[1])
                if not blocks:
                    self.check_active(ctx, first, track)
            elif op[0] == 'set':
                if blocks and len(first.trigger.queue):
                    continue   # Gates take effect with the next buffer
                if fallback and (track.stage != 'off' or first.active or op[1] not in ('attack', 'decay', 'sustain', 'release')
                                 or (op[1] == 'attack' and op[2] <= 0 and track.loop)):
                    continue   # Parameters take effect with the next stage
                for env in (first, second):
                    setattr(env, op[1], op[2])
                track.change(op[1], op[2])
                ctx.fault('parameter changed: ' + op[1])
            elif op[0] == 'bad' and not fallback:
                name, value = op[1]
                for env in (first, second):
                    try:
                        setattr(env, name, value)
                        ctx.fail('accepted', '%s = %r was accepted' % (name, value))
                    except (ValueError, TypeError):
                        pass
                ctx.fault('invalid parameter')
            elif op[0] == 'copy' and sc['kind'] not in ('Envelope', 'Fallback'):
                twin = copy.deepcopy(first)
                ctx.check(not twin.active and not np.any(twin.sample(64)), 'copy', 'copy of a sounding envelope sounds')
                own = {'AR': ['attack', 'release'], 'D': ['decay'], 'R': ['release']}.get(sc['kind'], ['attack', 'decay', 'sustain', 'release'])
                for name in own + ['overshoot', 'retrigger', 'loop']:
                    ctx.check(getattr(twin, name) == getattr(first, name), 'copy', '%s of the copy is %r, of the envelope %r', name,
                              getattr(twin, name), getattr(first, name))
                twin.gate(True)
                twin.sample(100)
            elif op[0] in ('run', 'finish'):
                n = op[1] if op[0] == 'run' else 256 * (3 + int((track.times['attack'] + track.times['decay'] + track.times['release']) / DT * 1.001 / 256))
                if op[0] == 'finish' and track.held:
                    continue
                if n == 0:
                    if not blocks and not fallback:
                        out = first.sample(0)
                        ctx.check(out.shape == (0,), 'shape', 'sample(0) returned %r', out.shape)
                    continue
                total += n
                if blocks:
                    parts = []
                    for _ in range(n // 256):
                        first.update()
                        out = first.output.value
                        ctx.check(isinstance(out, np.ndarray) and out.shape == (256,), 'shape', 'block output %r', getattr(out, 'shape', out))
                        parts.append(out)
                        if parts[-1][-1] != first.current_level:
                            ctx.fail('level', 'current level %r, last sample %r' % (first.current_level, parts[-1][-1]))
                    got = np.concatenate(parts)
                elif fallback:
                    n = -(-n // 256) * 256
                    got = np.concatenate([first.sample(256) for _ in range(n // 256)])
                else:
                    got = first.sample(n)
                ctx.check(isinstance(got, np.ndarray) and got.shape == (n,) and got.dtype == float, 'shape', 'asked for %d samples, got %r', n,
                          getattr(got, 'shape', got))
                other = []
                left = n
                while left:
                    k = 256 if fallback else min(left, cuts[c % len(cuts)])
                    c += 1
                    other.append(second.sample(k))
                    left -= k
                other = np.concatenate(other)
                track.feed(got.tolist())
                if not np.array_equal(got, other):
                    i = int(np.argmax(got != other))
                    ctx.fail('chunking', 'sample %d differs when cut differently: %r / %r' % (i, got[i], other[i]))
                self.check_active(ctx, first, track)
                self.check_active(ctx, second, track)
                ctx.log(op[0], n, got)
                if op[0] == 'finish':
                    ctx.check(track.stage == 'off' and got[-1] == 0. and not first.active, 'never-ends',
                              'note-off long ago, still in stage %s at %r', track.stage, got[-1])
        ctx.check(not idle.active and not np.any(idle.sample(256)), 'shared', 'another envelope changed')
        ctx.simTime += total * DT
        ctx.state(*track.trace[:30])
        ctx.nontrivial = len(track.trace) >= 2

    def check_active(self, ctx, env, track):
        if track.skipping:
            # Inactive with the next buffer
            if (track.stage == 'off' and track.count <= 256) or (track.stage == 'release' and (track.value == 0. or track.times['release'] <= 0)):
                return
        ctx.check(bool(env.active) == (track.stage != 'off'), 'active', 'active is %r in stage %s', env.active, track.stage)


PROP = P12()
