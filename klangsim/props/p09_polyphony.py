"""P09: polyphonic synthesizer against the sum of its notes played alone."""
import numpy as np

from klangsim import patch, synth
from klangsim.patch import INTERVAL
from klangsim.runner import Property

TAU = 2 * np.pi


class P09(Property):
    id = 'P09'
    batch = 250
    quick_runs = 16000
    quick_seconds = 60
    thorough_runs = 80000
    rule = ('A run plays a note history (chords, repeated pitches, on and off within a cycle, more notes than voices) into '
            'a polyphonic synthesizer and compares the audio with the sum of all notes computed one by one; non-trivial: '
            'at least two notes sounded.')
    state_measure = 'distinct (sounding notes, note-ons, note-offs) per cycle'
    real = ['klang.audio.synthesizer', 'klang.audio.voices', 'klang.audio.envelopes', 'klang.audio._envelope',
            'klang.audio.oscillators', 'klang.connections', 'klang.execution']
    stubs = ['oscillator which outputs its frequency (most runs)']
    assumptions = ['which notes give way when more notes sound than there are voices is not specified',
                   'the envelope samples themselves are covered by P12']
    shrink_lists = ('ops', 'notes')
    shrink_numbers = {'cycles': 1}

    def gen(self, rng, tier, index):
        if rng.random() < .2:
            return self.gen_crowd(rng)
        cycles = rng.choice([5, 20, 60, 120] if tier == 'quick' else [20, 120, 500])
        n = rng.choice([1, 3, 8, 8, 30, 100])
        osc = 'marker' if rng.random() < .75 else 'sine'
        if osc == 'sine':
            n = min(n, 20)
        # (A sine of a voice used before starts at any phase)
        v = voices = None if osc == 'sine' or rng.random() < .25 else rng.choice([1, 2, 3, 5])
        v = v or 24
        ops = synth.gen_history(rng, n, cycles, rng.choice([3, 20, 60]))
        if rng.random() < .15 and osc == 'marker':
            # A chord beyond all voices
            k = rng.randrange(cycles)
            ops.append([k, [[rng.randint(1, 127), 1., None] for _ in range(rng.choice([v - 1, v, v + 1, v + 16]))]])
            ops.sort(key=lambda o: o[0])
        return {'osc': osc, 'env': synth.gen_envelope(rng), 'cycles': cycles, 'ops': ops, 'direct': rng.random() < .2, 'voices': voices}

    @staticmethod
    def gen_crowd(rng):
        """More notes than voices."""
        v = rng.choice([1, 2, 3, 5, 24])
        ops = []
        pitches = rng.choice([list(range(128)), list(range(v + 2)), list(range(60, 62 + 2 * v))])
        for _ in range(rng.choice([5, 20, 60])):
            group = []
            for _ in range(rng.choice([1, 1, 1, 2, 3, v, v + 2])):
                on = rng.random() < .7
                group.append([rng.choice(pitches) if on or not ops else rng.choice(rng.choice(ops + [group]) or [[60]])[0], on])
            ops.append(group)
        return {'crowd': True, 'voices': None if v == 24 else v, 'ops': ops, 'env': rng.choice([['AR', [0., 0.], {}], ['R', [0.], {}], ['ADSR', [0., 0., 1., 0.], {}]])}

    @staticmethod
    def make(sc, voice):
        """Synthesizer and its number of voices."""
        from klang.audio.synthesizer import PolyphonicSynthesizer
        v = sc.get('voices')
        if not v:
            return PolyphonicSynthesizer(voice), PolyphonicSynthesizer.MAX_VOICES
        poly = type('FewVoices', (PolyphonicSynthesizer,), {'MAX_VOICES': v})(voice)
        have = len(getattr(poly, 'voices', ())) or v
        # (All as usual if the number can not be changed that way)
        return poly, PolyphonicSynthesizer.MAX_VOICES if have == PolyphonicSynthesizer.MAX_VOICES else v

    def run_crowd(self, sc, ctx):
        """Notes beyond the number of voices: which ones give way is up to the
        synthesizer, but the others are not affected."""
        from klang.audio.voices import Voice
        synth.make_classes()
        poly, nVoices = self.make(sc, Voice(synth.Marker(), synth.make_envelope(sc['env'])))
        sounding = {}    # bit -> pitch
        bit = 0
        for i, group in enumerate(sc['ops']):
            msgs = []
            candidates = dict(sounding)
            newest = None
            # (Notes released in this cycle still take a voice)
            peak = len(candidates) + sum(on for _, on in group)
            for pitch, on in group:
                if on:
                    # Each sounding note has a bit of its own
                    while bit % 50 in candidates:
                        bit += 1
                    b = bit % 50
                    bit += 1
                    candidates[b] = pitch
                    newest = b
                    msgs.append(patch.make_note([pitch, 1., float(2 ** b)]))
                else:
                    for b in [b for b, q in candidates.items() if q == pitch]:
                        del candidates[b]
                        if b == newest:
                            newest = None
                    msgs.append(patch.make_note([pitch, 0., None]))
                if len(candidates) > 45:
                    break
            poly.play_note(*msgs)
            for _ in range(2):
                poly.update()
            val = float(poly.output.value[-1]) * nVoices
            now = int(round(val))
            ctx.check(abs(val - now) <= 1e-9 * max(1., val) and 0 <= now < 2 ** 50, 'wrong', 'step %d: output is no sum of notes: %r', i, val)
            now = {b for b in range(50) if now >> b & 1}
            ctx.log('step', i, sorted(now))
            text = 'step %d: %s with %d voices: sounding %s, then %s' % (i, group, nVoices, sorted(sounding.values()), [candidates.get(b, '?') for b in sorted(now)])
            ctx.check(now <= set(candidates), 'wrong', text)
            ctx.check(len(now) <= nVoices, 'wrong', text)
            if peak <= nVoices:
                ctx.check(now == set(candidates), 'wrong', text)
            else:
                ctx.fault('more notes than voices')
                ctx.check(newest is None or newest in now, 'newest', text)
            sounding = {b: candidates[b] for b in now}
            ctx.state('crowd', nVoices, len(sounding), peak > nVoices)
        poly.play_note(*[patch.make_note([p, 0., None]) for p in sorted(set(sounding.values()))])
        for _ in range(3):
            poly.update()
        ctx.check(not np.any(poly.output.value), 'not-silent', 'all notes released, output is up to %g', np.max(np.abs(poly.output.value)))
        ctx.simTime += (2 * len(sc['ops']) + 3) * INTERVAL
        ctx.nontrivial = len(sc['ops']) > 1

    def execute(self, sc, ctx, world):
        if sc.get('crowd'):
            return self.run_crowd(sc, ctx)
        from klang.audio.oscillators import Oscillator
        from klang.audio.voices import Voice
        from klang.execution import determine_execution_order, execute
        synth.make_classes()
        sines = sc['osc'] == 'sine'
        voice = Voice(Oscillator(startPhase=.5) if sines else synth.Marker(), synth.make_envelope(sc['env']))
        poly, nVoices = self.make(sc, voice)
        schedule = {}
        if sines and sum(s[1] > 0 for _, specs in sc['ops'] for s in specs) > nVoices:
            return
        for k, specs in sc['ops']:
            schedule.setdefault(k, []).extend(patch.make_note(s) for s in specs)
        # Afterwards everything is released and all voices are tried once more
        tail = sc['cycles']
        pitches = sorted({m.pitch for ms in schedule.values() for m in ms})
        kind, args, kw = sc['env']
        release = args[-1]
        longest = (sum(args) if kw.get('loop') else release) + .001
        quiet = tail + int(longest / INTERVAL) + 3
        schedule = {k: v for k, v in schedule.items() if k < tail}
        for i, p in enumerate(pitches):
            schedule.setdefault(tail + i // 40, []).append(patch.make_note([p, 0., None]))
        quiet += len(pitches) // 40
        if not sines:
            schedule[quiet] = [patch.make_note([1 + i, 1. / (i + 1), 100. + i]) for i in range(nVoices)]
            schedule[quiet + 2] = [patch.make_note([1 + i, 0., None]) for i in range(nVoices)]
        n = quiet + 4
        src = patch.Source({} if sc['direct'] else schedule)
        src.output.connect(poly.input)
        order = determine_execution_order([src])
        refs = []       # [note, envelope, started cycle, held]
        exact = True
        total = 0
        outputs = []
        for k in range(n):
            msgs = schedule.get(k, [])[:50]
            if sc['direct']:
                poly.play_note(*msgs)
            execute(order)
            out = poly.output.value
            ctx.check(isinstance(out, np.ndarray) and out.shape == (256,), 'shape', 'cycle %d: output %r', k, getattr(out, 'shape', out))
            ctx.log('cycle', k, len(refs), np.round(out, 12))
            for m in msgs:
                if m.velocity > 0:
                    if len(refs) >= nVoices:
                        exact = False
                    env = synth.make_envelope(sc['env'])
                    env.gate(True)
                    refs.append([m, env, k, True])
                    total += 1
                else:
                    for r in refs:
                        if r[0].pitch == m.pitch and r[3]:
                            r[1].gate(False)
                            r[3] = False
            expected = np.zeros(256)
            scale = 1e-300
            for r in refs:
                m = r[0]
                level = r[1].sample(256)
                if sines:
                    t = np.arange(256) + 256 * (k - r[2])
                    osc = np.sin(TAU * m.frequency * t / 44100. + .5)
                    part = m.velocity * level * osc
                    scale += (1e-3 + 1e-6 * TAU * m.frequency * t[-1] / 44100.) * m.velocity    # Rounding of long phases
                else:
                    part = m.velocity * level * m.frequency
                    scale += np.max(np.abs(part))
                expected += part
            expected /= nVoices
            ctx.state(min(len(refs), 30), sum(m.velocity > 0 for m in msgs), sum(m.velocity == 0 for m in msgs), exact)
            ctx.check(np.all(np.isfinite(out)), 'not-finite', 'cycle %d', k)
            if exact:
                err = np.max(np.abs(out - expected))
                ctx.check(err <= 1e-9 * scale, 'wrong', 'cycle %d: output differs by %g from the sum of the %d sounding notes %s (messages %s)',
                          k, err, len(refs), [(patch.note_str(r[0]), r[0].frequency) for r in refs[:6]], [patch.note_str(m) for m in msgs])
            refs = [r for r in refs if r[1].active]
            if not refs and exact:
                ctx.check(not np.any(out[-1:]), 'not-silent', 'cycle %d: nothing sounds, output ends with %g', k, out[-1])
            if k == quiet - 1:
                ctx.check(not refs, 'reference', 'reference still active')
                ctx.check(not np.any(out), 'not-silent', 'cycle %d: all notes were released %d cycles ago, output is up to %g', k, k - tail,
                          np.max(np.abs(out)))
                exact = True
            outputs.append((out, out.copy()))
            if len(outputs) > 4:
                outputs.pop(0)
            for a, b in outputs:
                ctx.check(np.array_equal(a, b), 'overwritten', 'cycle %d: an earlier output buffer was overwritten', k)
        ctx.simTime += n * INTERVAL
        ctx.count('notes', total)
        ctx.nontrivial = total > 1


PROP = P09()
