"""P25: drum sounds."""
import math

import numpy as np

from klangsim import patch
from klangsim.patch import INTERVAL
from klangsim.runner import Property

N = 256
DT = 1 / 44100
PI = math.pi


class P25(Property):
    id = 'P25'
    batch = 250
    quick_runs = 16000
    quick_seconds = 45
    thorough_runs = 80000
    rule = ('A run plays a history of hits, releases and notes of pitch zero into drums and compares every hit with a lone '
            'hit of another drum, its decay, pitch and noise; non-trivial: at least two hits.')
    state_measure = 'distinct (drums, notes per cycle, age of the previous hit in cycles)'
    real = ['klang.audio.synthesizer', 'klang.audio.waves', 'klang.audio.envelopes', 'klang.audio._envelope', 'klang.connections',
            'klang.execution']
    stubs = []
    assumptions = ['the random numbers of the noise are not specified',
                   'hi-hat notes are released before they are struck again', 'envelope samples themselves are covered by P12']
    shrink_lists = ('ops', 'drums')
    shrink_numbers = {'cycles': 1}

    def gen(self, rng, tier, index):
        cycles = rng.choice([4, 20, 60, 150] if tier == 'quick' else [20, 150, 600])
        drums = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < .6:
                kw = {}
                for name, values in [('frequency', [40., 33., 60., 200., rng.uniform(20, 300)]), ('decay', [.8, .05, .02, 1.2, rng.uniform(.02, 1.)]),
                                     ('intensity', [2, 0., 1., 4, rng.uniform(0, 5)]), ('pitchDecay', [.3, .05, .8, rng.uniform(.02, 1.)])]:
                    if rng.random() < .6:
                        kw[name] = rng.choice(values)
                drums.append(['kick', kw])
            else:
                kw = {}
                if rng.random() < .6:
                    kw['decay'] = rng.choice([.05, .01, .2, .003, rng.uniform(.005, .3)])
                if rng.random() < .4:
                    kw['loopedNoise'] = True
                drums.append(['hihat', kw])
        ops = []
        for d, (kind, _) in enumerate(drums):
            k = rng.choice([0, 0, 1, rng.randrange(cycles)])
            gap = rng.choice([1, 5, 20, 80])
            while k < cycles and len(ops) < 120:
                row = []
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    p = rng.choice([60, 60, 1, 127, rng.randint(1, 127)])
                    row.append([p, patch.gen_velocity(rng), None])
                    length = rng.choice([0, 1, 1, 3, rng.randint(0, gap)])
                    if kind == 'hihat':
                        if length == 0:
                            row.append([p, 0., None])
                        else:
                            ops.append([d, min(k + length, cycles), [[p, 0., None]]])
                            ops.append([d, k, row])
                            k += length
                            row = [] if rng.random() < .5 else [[0, 0., None]]
                            break
                    elif rng.random() < .6:
                        if length == 0:
                            row.append([p, 0., None])
                        else:
                            ops.append([d, k + length, [[p, 0., None]]])
                if kind == 'kick' and rng.random() < .2:
                    ops.append([d, k + rng.randint(0, gap), [[0, rng.choice([0., 1.]), 440.]]])
                if row:
                    ops.append([d, k, row])
                k += rng.randint(0 if kind == 'kick' else 1, gap)
        ops = [o for o in ops if o[1] <= cycles]
        ops.sort(key=lambda o: (o[1]))
        return {'drums': drums, 'cycles': cycles, 'ops': ops}

    def execute(self, sc, ctx, world):
        from klang.audio.envelopes import D
        from klang.audio.synthesizer import HiHat, Kick
        from klang.execution import determine_execution_order, execute
        patch.make_classes()
        nDrums = len(sc['drums'])
        schedules = [{} for _ in range(nDrums)]
        for d, k, specs in sc['ops']:
            if d < nDrums:
                schedules[d].setdefault(k, []).extend(patch.make_note(s) for s in specs)
        n = sc['cycles'] + 2
        drums, sources, lone, refs = [], [], [], []
        for d, (kind, kw) in enumerate(sc['drums']):
            cls = Kick if kind == 'kick' else HiHat
            drum = cls(**kw)
            src = patch.Source(schedules[d])
            src.output.connect(drum.input)
            drums.append(drum)
            sources.append(src)
            if kind == 'kick':
                lone.append((cls(**kw), []))
                lone[-1][0].input.push(patch.make_note([60, 1., None]))
                refs.append(None)
            else:
                lone.append(None)
                refs.append(D(kw.get('decay', .05)))
        order = determine_execution_order(sources)
        age = [None] * nDrums       # Cycles since the last hit
        last = [0.] * nDrums
        noise = [[] for _ in drums]
        hits = 0
        kept = []
        for k in range(n):
            execute(order)
            for d, drum in enumerate(drums):
                kind, kw = sc['drums'][d]
                msgs = schedules[d].get(k, [])
                out = drum.output.value
                ctx.check(isinstance(out, np.ndarray) and out.shape == (N,), 'shape', 'cycle %d: output %r', k, getattr(out, 'shape', out))
                ctx.check(np.all(np.isfinite(out)), 'not-finite', 'cycle %d', k)
                ctx.log('cycle', k, d, np.round(out, 9))
                kept.append((out, out.copy(), d))
                on = sum(m.velocity > 0 and m.pitch > 0 for m in msgs)
                ctx.state(kind, min(nDrums, 2), len(msgs), on, age[d] if age[d] is None or age[d] < 6 else 6)
                if on:
                    hits += 1
                    age[d] = 0
                elif age[d] is not None:
                    age[d] += 1
                if kind == 'kick':
                    self.kick(ctx, k, d, kw, out, age[d], on, last[d], lone[d])
                    last[d] = out[-1]
                else:
                    for m in msgs:
                        refs[d].gate(m.velocity > 0)
                    env = refs[d].sample(N)
                    ctx.check(np.all(np.abs(out) <= env + 1e-12), 'too-loud', 'cycle %d: hi-hat %d is louder than its decay', k, d)
                    loud = env > 1e-3
                    if np.any(loud):
                        noise[d].append(np.where(loud, out / np.where(loud, env, 1.), np.nan))
                        self.noise(ctx, k, kw, noise[d])
            for a, b, d in kept:
                ctx.check(np.array_equal(a, b), 'overwritten', 'cycle %d: an earlier output buffer of drum %d was overwritten', k, d)
            del kept[:-2 * nDrums]
        ctx.simTime += n * INTERVAL
        ctx.count('hits', hits)
        ctx.nontrivial = hits > 1

    @staticmethod
    def kick(ctx, k, d, kw, out, age, on, last, lone):
        if age is None:
            ctx.check(not np.any(out), 'unstruck', 'cycle %d: kick %d sounds (up to %g) before its first hit', k, d, np.max(np.abs(out)))
            return
        single, buffers = lone
        while len(buffers) <= age:
            single.update()
            buffers.append(np.array(single.output.value))
        err = np.max(np.abs(out - buffers[age]))
        ctx.check(err <= 1e-9, 'uneven', 'cycle %d: kick %d, %d cycles after its hit, differs from a lone hit by %g', k, d, age, err)
        decay = kw.get('decay', .8)
        env = np.exp(-PI / decay * (np.arange(N) + N * age) * DT)
        ctx.check(np.all(np.abs(out) <= env + 1e-9), 'too-loud', 'cycle %d: kick %d, %d cycles after its hit, is louder than its decay',
                  k, d, age)
        # However the falling frequency is summed up, the phase is off by half a sample of its fall at most
        f, i, pd = kw.get('frequency', 40.), kw.get('intensity', 2), kw.get('pitchDecay', .3)
        t = (np.arange(N) + N * age) * DT
        ideal = env * np.sin(2 * PI * f * (t + i * pd / PI * (1 - np.exp(-PI / pd * t))))
        err = np.abs(out - ideal) - env * (2 * PI * f * (i + .5) * DT)
        ctx.check(np.max(err) <= 1e-6, 'pitch', 'cycle %d: kick %d, %d cycles after its hit, is off its falling pitch by %g', k, d, age, np.max(np.abs(out - ideal)))
        freq = kw.get('frequency', 40.) * (1 + kw.get('intensity', 2))
        bound = (2 * PI * freq * 1.05 + PI / decay) * DT * env[0] + 1e-9
        x = out if on else np.concatenate([[last], out])
        step = np.max(np.abs(np.diff(x)))
        ctx.check(step <= bound * (1.05 if on else np.exp(PI / decay * DT) * 1.05), 'click', 'cycle %d: kick %d jumps by %g, at most %g at its pitch',
                  k, d, step, bound)

    @staticmethod
    def noise(ctx, k, kw, buffers):
        if len(buffers) > 1:
            a, b = buffers[-2:]
            both = ~np.isnan(a) & ~np.isnan(b)
            if np.sum(both) >= 16:
                same = np.allclose(a[both], b[both], rtol=0, atol=1e-6)
                ctx.check(same == bool(kw.get('loopedNoise')), 'noise', 'cycle %d: the noise is %s as in the cycle before', k, 'the same' if same else 'not the same')
        x = buffers[-1]
        x = x[~np.isnan(x)]
        if len(x) >= 200:
            ctx.check(.4 < math.sqrt(np.mean(x ** 2)) < .75 and abs(np.mean(x)) < .25, 'noise', 'cycle %d: noise with mean %.2f and RMS %.2f', k,
                      np.mean(x), math.sqrt(np.mean(x ** 2)))
        del buffers[:-1]


PROP = P25()
