"""P10: monophonic synthesizer and its policies."""
import numpy as np

from klangsim import patch, synth
from klangsim.patch import INTERVAL
from klangsim.runner import Property


class Held:

    """Reference: notes held, in pressing order. A repeated press of a held
    pitch either counts as new or keeps its place (both are right)."""

    def __init__(self, policy, renew):
        self.policy = policy
        self.renew = renew
        self.notes = []

    def process(self, m):
        old = [i for i, x in enumerate(self.notes) if x.pitch == m.pitch]
        if m.velocity > 0:
            if old and not self.renew:
                self.notes[old[0]] = m
            else:
                for i in old:
                    del self.notes[i]
                self.notes.append(m)
        else:
            for i in old:
                del self.notes[i]

    def pick(self):
        if not self.notes:
            return None
        if self.policy == 'newest':
            return self.notes[-1]
        if self.policy == 'oldest':
            return self.notes[0]
        pick = max if self.policy == 'highest' else min
        return pick(self.notes, key=lambda x: x.pitch)


class P10(Property):
    id = 'P10'
    batch = 250
    quick_runs = 24000
    quick_seconds = 45
    thorough_runs = 100000
    rule = ('A run plays a note history into a monophonic synthesizer and compares frequency, velocity and envelope of its '
            'output with the note picked by a reference of its policy; non-trivial: at least two notes were picked.')
    state_measure = 'distinct (policy, held pitches order, picked) situations'
    real = ['klang.audio.synthesizer', 'klang.audio.voices', 'klang.audio.envelopes', 'klang.audio._envelope', 'klang.connections']
    stubs = ['oscillator which outputs its frequency']
    assumptions = ['a repeated note-on of a held pitch takes over its velocity and may or may not count as newest']
    shrink_lists = ('ops',)
    shrink_numbers = {'cycles': 1}

    def gen(self, rng, tier, index):
        cycles = rng.choice([5, 20, 60, 120] if tier == 'quick' else [20, 120, 500])
        n = rng.choice([2, 4, 10, 40]) if rng.random() < .95 else 200
        env = rng.choice([['R', [.005], {}], ['AR', [.003, .01], {}], ['ADSR', [.001, .004, .5, .01], {}], ['R', [.02], {'retrigger': True}],
                          ['R', [0.], {}]])
        return {'policy': rng.choice(['newest', 'oldest', 'highest', 'lowest']), 'default': rng.random() < .1,
                'env': env, 'cycles': cycles, 'ops': synth.gen_history(rng, n, cycles, rng.choice([3, 20, 60])),
                'direct': rng.random() < .2}

    def execute(self, sc, ctx, world):
        from klang.audio.synthesizer import MonophonicSynthesizer
        from klang.audio.voices import Voice
        from klang.execution import determine_execution_order, execute
        synth.make_classes()
        policy = sc['policy']
        voice = Voice(synth.Marker(), synth.make_envelope(sc['env']))
        if sc['default']:
            policy = 'newest'
            mono = MonophonicSynthesizer(voice)
        else:
            mono = MonophonicSynthesizer(voice, policy=policy)
        schedule = {}
        for k, specs in sc['ops']:
            if k < sc['cycles']:
                schedule.setdefault(k, []).extend(patch.make_note(s) for s in specs)
        pitches = sorted({m.pitch for ms in schedule.values() for m in ms})
        tail = sc['cycles']
        for i, p in enumerate(pitches):
            schedule.setdefault(tail + i // 40, []).append(patch.make_note([p, 0., None]))
        n = tail + 10
        src = patch.Source({} if sc['direct'] else schedule)
        src.output.connect(mono.input)
        order = determine_execution_order([src])
        models = [Held(policy, True), Held(policy, False)]
        env = synth.make_envelope(sc['env'])
        picked = 0
        tails = []      # Notes which may ring out
        for k in range(n):
            msgs = schedule.get(k, [])[:50]
            if sc['direct']:
                mono.play_note(*msgs)
            execute(order)
            out = mono.output.value
            ctx.check(isinstance(out, np.ndarray) and out.shape == (256,), 'shape', 'cycle %d: output %r', k, getattr(out, 'shape', out))
            ctx.log('cycle', k, out)
            fresh = []
            for m in msgs:
                for model in models:
                    model.process(m)
                    p = model.pick()
                    if p is not None:
                        fresh.append(p)
                env.gate(bool(models[0].notes))
            picks = [m.pick() for m in models]
            if picks[0] is not None:
                allowed = picks
                tails = picks
                picked += bool(fresh)
            else:
                tails = tails + fresh
                allowed = tails
            level = env.sample(256)
            ok = False
            for note in allowed:
                expected = note.velocity * note.frequency * level
                if np.max(np.abs(out - expected)) <= 1e-9 * (abs(note.velocity * note.frequency) + 1e-300):
                    ok = True
                    break
            if not allowed:
                ok = not np.any(out)
            ctx.check(ok, 'wrong', 'cycle %d: policy %s, held %s: expected %s, but got %.6g..%.6g (envelope %.3g..%.3g)', k, policy,
                      [patch.note_str(x) for x in models[0].notes], ['%s %.6g' % (patch.note_str(a), a.velocity * a.frequency) for a in allowed],
                      out[0], out[-1], level[0], level[-1])
            if picks[0] is None and not env.active:
                ctx.check(out[-1] == 0., 'not-silent', 'cycle %d: nothing held, output %g', k, out[-1])
                tails = []
            ctx.state(policy, [x.pitch for x in models[0].notes][:5], len(msgs))
        ctx.check(not np.any(out), 'not-silent', 'all notes released, output %g', np.max(np.abs(out)))
        ctx.simTime += n * INTERVAL
        ctx.nontrivial = picked > 1


PROP = P10()
