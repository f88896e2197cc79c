"""P08: arpeggiator over histories of held notes."""
import math
from fractions import Fraction

from klangsim import patch
from klangsim.patch import INTERVAL
from klangsim.runner import Property

ORDERS = ['up', 'down', 'upDown', 'downUp', 'alternating', 'random']
EPS = 1e-6


def one_round(order, pitches):
    """Pitches of one round."""
    up = sorted(pitches)
    down = up[::-1]
    if len(up) < 2:
        return up
    if order == 'up':
        return up
    if order == 'down':
        return down
    if order == 'upDown':
        return up[:-1] + down[:-1]
    if order == 'downUp':
        return down[:-1] + up[:-1]
    out = []   # Outside in
    while up:
        out.append(up.pop(0))
        if up:
            out.append(up.pop())
    return out


class P08(Property):
    id = 'P08'
    batch = 250
    quick_runs = 48000
    quick_seconds = 45
    thorough_runs = 200000
    rule = ('A run plays a history of presses and releases into an arpeggiator for up to thousands of cycles and '
            'compares every message with the held notes and the ideal time line; non-trivial: at least three notes '
            'were started.')
    state_measure = 'distinct (order, held notes, message pattern per step) classes'
    real = ['klang.arpeggiator', 'klang.audio.oscillators', 'klang.connections', 'klang.execution', 'klang.music.tempo']
    stubs = ['clock', 'random (seeded)']
    assumptions = ['intervals of at least one buffer', 'the order continues anywhere after the held notes changed',
                   'a repeated press of a held pitch may or may not take over the new velocity']
    shrink_lists = ('ops', 'initial')
    shrink_numbers = {'cycles': 1}

    def gen(self, rng, tier, index):
        interval = rng.choice([rng.uniform(1.01, 4), rng.uniform(2, 40), rng.choice([1, 2, 3, 4, 8, 16]), rng.choice([1, 2, 5])])
        kind = rng.choice(['float', 'float', 'fraction'])
        cycles = rng.choice([20, 60, 200, 200, 1000] if tier == 'quick' else [60, 200, 1000, 6000])
        pitches = rng.choice([[60], [60, 64], [60, 62, 64, 67], [0, 1, 2, 127], list(range(50, 70)), list(range(128)) if rng.random() < .2 else [1, 2]])
        ops = []
        density = rng.choice([1, 3, 10, 40, 100])
        style = rng.random()
        t = 0
        held = set()
        while True:
            t += rng.choice([0, 0, 1, rng.randint(0, density), rng.randint(0, 3 * density)])
            if t >= cycles or len(ops) > 300:
                break
            u = rng.random()
            if style < .7 and held and u < .45:
                p = rng.choice(sorted(held))
                held.discard(p)
                ops.append([t, [p, 0., None]])
            elif u < .1:
                for p in sorted(held):
                    ops.append([t, [p, 0., None]])
                held.clear()
            elif u < .2:
                ops.append([t, [rng.choice(pitches), 0., None]])
                held.discard(ops[-1][1][0])
            else:
                p = rng.choice(pitches)
                held.add(p)
                ops.append([t, [p, patch.gen_velocity(rng), None if rng.random() < .7 else rng.uniform(20, 5000)]])
        return {'interval': interval, 'kind': kind, 'frac': rng.choice([[1, 16], [1, 8], [1, 4], [3, 32], [1, 12]]),
                'cycles': cycles, 'order': rng.choice(ORDERS), 'ops': ops,
                'initial': [[p, 1., None] for p in rng.sample(pitches, rng.randint(0, len(pitches)))] if rng.random() < .25 else [],
                'loop': rng.random() < .15}

    def execute(self, sc, ctx, world):
        from klang.arpeggiator import Arpeggiator
        from klang.clock import ClockMixin
        from klang.execution import determine_execution_order, execute
        patch.make_classes()
        schedule = {}
        for t, spec in sc['ops']:
            if len(schedule.setdefault(t, [])) < 45:
                schedule[t].append(patch.make_note(spec))
        if sc['kind'] == 'fraction':
            interval = Fraction(*sc['frac'])
            seconds = float(interval) * 4 * .5    # 120 BPM, 4/4
        else:
            interval = seconds = sc['interval'] * INTERVAL
        kw = dict(order=sc['order'])
        initial = [patch.make_note(s) for s in sc['initial']]
        if initial:
            kw['initialNotes'] = initial
        arp = Arpeggiator(interval, **kw)
        src, probe = patch.Source(schedule), patch.Probe()
        src | arp | probe
        n = sc['cycles']
        if sc['loop']:
            patch.run_loop(world, [src], n, src)
        else:
            order = determine_execution_order([src])
            for k in range(n):
                ClockMixin.set_current_time(k * INTERVAL)
                execute(order)
            ctx.simTime += n * INTERVAL
        ctx.check(len(probe.cycles) == n, 'cycles', 'probe saw %d of %d cycles', len(probe.cycles), n)
        self.judge(ctx, sc, seconds / INTERVAL, schedule, initial, probe.cycles)

    def judge(self, ctx, sc, T, schedule, initial, cycles):
        held = {}
        for m in initial:
            held.setdefault(m.pitch, []).append(m)
        sounding = None
        nextStep = 0       # First step which is not accounted for
        segment = []       # Pitches started while held notes did not change
        started = 0
        history = []       # (held, sounding) at the end of each cycle
        lastSilent = None
        for k, msgs in enumerate(cycles):
            changed = False
            before = bool(held)
            for m in schedule.get(k, ()):
                if m.velocity > 0:
                    if m.pitch not in held:
                        changed = True
                    held.setdefault(m.pitch, []).append(m)
                elif m.pitch in held:
                    del held[m.pitch]
                    changed = True
            if changed:
                self.judge_segment(ctx, sc, segment, heldBefore if k else list(held), k)
                segment = []
            heldBefore = list(held)
            if msgs:
                ctx.log('cycle', k, sorted(held), *map(patch.note_str, msgs))
            rest = list(msgs)
            off = on = False
            if rest and rest[0].velocity == 0:
                ctx.check(sounding is not None, 'off-invented', 'cycle %d: note-off %s while no note sounds', k, patch.note_str(rest[0]))
                ctx.check(patch.same_note(rest[0], sounding.silence()), 'off-wrong', 'cycle %d: note-off %s while %s sounds', k,
                          patch.note_str(rest[0]), patch.note_str(sounding))
                rest.pop(0)
                prev, sounding = sounding, None
                off = True
            if rest and rest[0].velocity > 0:
                m = rest.pop(0)
                ctx.check(sounding is None, 'overlap', 'cycle %d: %s started while %s sounds', k, patch.note_str(m),
                          patch.note_str(sounding) if sounding else '')
                ctx.check(m.pitch in held, 'not-held', 'cycle %d: %s started, held are %s', k, patch.note_str(m), sorted(held))
                ctx.check(any(patch.same_note(m, h) for h in held[m.pitch]), 'altered', 'cycle %d: started %r, held %r', k, m, held[m.pitch])
                sounding = m
                segment.append(m.pitch)
                started += 1
                on = True
            ctx.check(not rest, 'too-much', 'cycle %d: %s', k, [patch.note_str(m) for m in msgs])
            # Time line (in buffers)
            if off or on:
                # Some step not used before must be due now
                j = max(nextStep, math.ceil((k - 1 - EPS * (1 + k * 1e-3)) / T))
                ctx.check(j * T <= k + EPS * (1 + k * 1e-3), 'off-beat', 'cycle %d: messages %s, but the next step is due at %.3f buffers', k,
                          [patch.note_str(m) for m in msgs], j * T)
                # A note-off alone, as soon as nothing is held any more, uses up no step
                if on or held:
                    nextStep = j + 1
            # Steps which passed without a message
            while nextStep * T + 1 < k - EPS * (1 + k * 1e-3):
                j = nextStep
                a, b = math.ceil(j * T - EPS * (1 + k * 1e-3)), k
                window = history[max(0, a):k] + [(bool(held), sounding is not None, bool(msgs))]
                ctx.check(not all(h for h, s, _ in window), 'late', 'step %d due at %.3f buffers: no note started until cycle %d, held %s', j, j * T, k, sorted(held))
                ctx.check(not all(s for h, s, _ in window) or any(m for _, _, m in window), 'stuck',
                          'step %d due at %.3f buffers: nothing held, but note still sounds in cycle %d', j, j * T, k)
                nextStep += 1
            history.append((bool(held), sounding is not None, bool(msgs)))
            ctx.state(sc['order'], len(held), off, on, changed)
        self.judge_segment(ctx, sc, segment, list(held), len(cycles))
        ctx.count('notes', started)
        ctx.nontrivial = started >= 3

    def judge_segment(self, ctx, sc, segment, held, k):
        """Notes started while the held notes stayed the same."""
        if len(segment) < 2:
            return
        if sc['order'] == 'random':
            L = len(held)
            for offset in range(L):
                blocks = [segment[:offset]] + [segment[i:i + L] for i in range(offset, len(segment), L)]
                if all(len(set(b)) == len(b) for b in blocks):
                    return
            ctx.fail('round', 'until cycle %d: %s started with %s held: not every note once per round' % (k, segment[:40], sorted(held)))
        ring = one_round(sc['order'], held)
        L = len(ring)
        for offset in range(L):
            if all(ring[(offset + i) % L] == p for i, p in enumerate(segment)):
                return
        ctx.fail('round', 'until cycle %d: %s started with %s held and order %s' % (k, segment[:40], sorted(held), sc['order']))


PROP = P08()
