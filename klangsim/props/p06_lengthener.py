"""P06: note lengthener under simulated clocks."""
from klangsim import patch
from klangsim.runner import Property

GRID = 1 / 256.


class P06(Property):
    id = 'P06'
    batch = 250
    quick_runs = 48000
    quick_seconds = 45
    thorough_runs = 300000
    rule = ('A run feeds note histories through one or more lengtheners, driven by the main loop on a simulated clock '
            'with jitter, stalls and jumps or cycle by cycle on an exact clock; non-trivial: at least one note ended.')
    state_measure = 'distinct sequences of (clock step class, notes on, notes off) per run'
    real = ['klang.note_effects', 'klang.clock', 'klang.klang', 'klang.messages', 'klang.connections', 'klang.execution']
    stubs = ['clock and sleep']
    assumptions = ['durations are positive', 'the clock never goes backwards',
                   'within 1e-9 s of the exact end either cycle counts as on time, unless clock and duration are exact']
    shrink_lists = ('ops', 'jitter', 'durations', 'notes')

    def gen(self, rng, tier, index):
        exact = rng.random() < .6
        nLen = rng.choice([1, 1, 1, 2, 3])
        if exact:
            durations = [rng.choice([1, 2, 3, 5, 8, 17, 64, rng.randint(1, 200)]) * GRID for _ in range(nLen)]
        else:
            durations = [rng.choice([patch.INTERVAL * rng.randint(1, 40), rng.uniform(1e-4, .2), rng.uniform(.0001, 1.),
                                     .1, .25, 1e-6, 10., 300.]) for _ in range(nLen)]
        n = rng.choice([4, 15, 40, 120]) if rng.random() < .98 else 800
        density = rng.choice([.1, .4, 1.])
        few = rng.random() < .7
        ops = []
        for _ in range(n):
            notes = []
            if rng.random() < density:
                notes = [patch.gen_note(rng, few, rng.choice([0, .1, .5])) for _ in range(rng.choice([1, 1, 2, 3, 8]))]
                if rng.random() < .1:
                    notes = [patch.gen_note(rng, few, .2) for _ in range(rng.randint(20, 50))]
            if exact:
                step = rng.choice([0, 1, 1, 1, 1, 1, 2, 3, 10, 100, 1000]) * GRID
            else:
                step = rng.choice([0, 0, 0, 0, 0, .001, .02, .1, 1., 30.])  # Cost of the cycle
            ops.append([step, notes])
        jitter = [] if rng.random() < .3 else [rng.choice([0, 1e-5, 1e-4, .01, .5]) * rng.random() for _ in range(7)]
        return {'exact': exact, 'durations': durations, 'ops': ops, 'jitter': jitter,
                'start': rng.choice([0., 1., 64., 12345.]) if exact else rng.choice([0., .001, 1000., 86400. * 30])}

    def execute(self, sc, ctx, world):
        from klang.clock import ClockMixin
        from klang.note_effects import NoteLengthener
        patch.make_classes()
        world.now = sc['start']
        ops = sc['ops']
        schedule = {i: [patch.make_note(s) for s in op[1]] for i, op in enumerate(ops)}
        clocks = []
        src = patch.Source(schedule, lambda cycle: clocks.append(ClockMixin.clock()))
        probes = []
        blocks = []
        for d in sc['durations']:
            lengthener, probe = NoteLengthener(d), patch.Probe()
            src.output.connect(lengthener.input)
            lengthener.output.connect(probe.input)
            probes.append(probe)
            blocks += [lengthener, probe]
        if sc['exact']:
            from klang.execution import determine_execution_order, execute
            order = determine_execution_order([src])
            now = sc['start']
            for op in ops:
                now += op[0]
                ClockMixin.set_current_time(now)
                execute(order)
            ctx.simTime += now - sc['start']
        else:
            patch.run_loop(world, [src], len(ops), src, sc['jitter'], lambda i: ops[i][0])
        nOffs = 0
        for d, probe in zip(sc['durations'], probes):
            nOffs += self.judge(sc, d, schedule, clocks, probe.cycles, ctx)
        ctx.nontrivial = nOffs > 0
        ctx.count('note-offs', nOffs)

    def judge(self, sc, duration, schedule, clocks, cycles, ctx):
        n = len(sc['ops'])
        ctx.check(len(cycles) == n and len(clocks) == n, 'cycles', '%d cycles, probe saw %d', n, len(cycles))
        pending = []   # (end, note-on)
        eps = 0. if sc['exact'] else 1e-9 + 1e-12 * abs(clocks[-1])
        nOffs = 0
        key = []
        for i in range(n):
            now = clocks[i]
            got = list(cycles[i])
            ctx.log('cycle', i, now, *map(patch.note_str, got))
            ons = [note for note in schedule[i] if note.velocity > 0]
            due = 0      # At least so many note-offs, at most so many
            while due < len(pending) and now >= pending[due][0] + eps:
                due += 1
            most = due
            while most < len(pending) and now >= pending[most][0] - eps:
                most += 1
            for offs in range(due, most + 1):
                expected = [note.silence() for _, note in pending[:offs]] + ons
                expected = expected[-50:]  # Queue limit of the probe
                if len(got) == len(expected) and all(patch.same_note(a, b) for a, b in zip(got, expected)):
                    break
            else:
                ctx.fail('wrong', 'cycle %d at %.9f (duration %r): expected %d note-offs and %d note-ons %s, got %s' % (
                    i, now, duration, due, len(ons), [patch.note_str(o) for o in expected], [patch.note_str(g) for g in got]))
            pending = pending[offs:] + [(now + duration, note) for note in ons]
            nOffs += offs
            key.append((min(len(ons), 3), min(offs, 3)))
        ctx.state(key[:12])
        return nOffs


PROP = P06()
