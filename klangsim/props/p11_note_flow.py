"""P11: limiting and merging of notes."""
from klangsim import patch
from klangsim.runner import Property


PLAIN = [0, 1, 2, 3, 0., '', 'a', False, [], [60], {}]


class P11(Property):
    id = 'P11'
    batch = 250
    quick_runs = 40000
    quick_seconds = 45
    thorough_runs = 200000
    rule = ('A run plays note histories from several sources through merger, limiter and lengthener chains in a patch '
            'run by the main loop, adding inputs while it runs; non-trivial: at least two notes came out.')
    state_measure = 'distinct per-cycle message counts along the chain'
    real = ['klang.note_effects', 'klang.connections', 'klang.execution', 'klang.klang', 'klang.messages']
    stubs = ['clock and sleep', 'iteration order of connection sets']
    assumptions = ['limits of at least one note', 'at most 50 messages per cycle and connection']
    shrink_lists = ('ops', 'adds')

    def gen(self, rng, tier, index):
        nSrc = rng.choice([1, 1, 2, 3, 5]) if rng.random() < .96 else rng.randint(6, 20)
        chain = rng.choice([['mixer'], ['max'], ['max'], ['mixer', 'max'], ['mixer', 'max', 'max'], ['max', 'length'],
                            ['mixer', 'max', 'length'], ['length', 'mixer', 'max'], ['mixer', 'mixer']])
        if 'mixer' not in chain[:2]:
            nSrc = 1
        limits = [rng.choice([1, 1, 2, 3, 7, 16, 40]) for _ in chain]
        few = rng.random() < .7
        room = max(1, 20 // nSrc)
        ops = []
        many = nSrc > 5
        plain = set(chain) == {'mixer'} and rng.random() < .4 and not many   # Anything can be merged, not only notes

        def gen(k):
            if plain:
                return {'plain': rng.choice(PLAIN)}
            spec = patch.gen_note(rng, few, rng.choice([0, 0, .4]))
            if many:
                spec[0] = 6 * k + rng.randrange(6)   # Tell the sources apart
            return spec

        for _ in range(rng.choice([3, 10, 40])):
            n = rng.choice([0, 1, 1, 2, 4, room])
            ops.append([[gen(k) for _ in range(min(n, room))] for k in range(nSrc)])
        adds = sorted(rng.randint(0, len(ops)) for _ in range(nSrc)) if rng.random() < .4 and nSrc > 1 else [0] * nSrc
        return {'nSrc': nSrc, 'chain': chain, 'limits': limits, 'ops': ops, 'adds': adds,
                'duration': rng.choice([.001, .005, .02, .1]), 'start': rng.randrange(3), 'extra': rng.randint(0, 2)}

    def execute(self, sc, ctx, world):
        from klang.clock import ClockMixin
        from klang.note_effects import MaxNotes, MessageMixer, NoteLengthener
        patch.make_classes()
        ops, nSrc = sc['ops'], sc['nSrc']
        schedules = [{i: [patch.make_note(s) for s in op[k]] for i, op in enumerate(ops) if k < len(op)} for k in range(nSrc)]
        clocks = []
        sources = [patch.Source(s) for s in schedules]
        mixers = []
        probes = []
        tails = []
        for k, src in enumerate(sources):
            probe = patch.Probe()
            src.output.connect(probe.input)
            probes.append(probe)
        stages = []
        prev = None
        stageProbes = []
        adds = list(sc['adds']) + [0] * nSrc
        for i, kind in enumerate(sc['chain']):
            if kind == 'mixer':
                block = MessageMixer(nInputs=0 if not stages else 1 + sc['extra'])
            elif kind == 'max':
                block = MaxNotes(sc['limits'][i])
            else:
                block = NoteLengthener(sc['duration'])
            if prev is None and kind == 'mixer':
                mixers.append(block)
            elif prev is None:
                if len(sc['chain']) > 1 and sc['chain'][1] == 'mixer':
                    # One block per source in front of the mixer
                    block = None
                else:
                    sources[0].output.connect(block.input)
            elif isinstance(prev, list):
                pass
            else:
                prev.output.connect(block.inputs[-1] if kind == 'mixer' else block.input)
            stages.append(block)
            prev = block
        heads = sources
        chain = list(zip(sc['chain'], sc['limits'], stages))
        perSource = None
        if chain[0][2] is None:
            perSource = chain.pop(0)
            heads = []
            for src in sources:
                block = MaxNotes(perSource[1]) if perSource[0] == 'max' else NoteLengthener(sc['duration'])
                src.output.connect(block.input)
                heads.append(block)
            mixer = chain[0][2]
            while mixer.inputs:   # Inputs are added one by one below
                mixer.inputs.pop()
            mixers = [mixer]
        if chain[0][0] == 'mixer':
            mixers = [chain[0][2]]
        for _, _, block in chain:
            probe = patch.Probe()
            block.output.connect(probe.input)
            stageProbes.append(probe)
        attached = {}

        def attach(cycle):
            for k in range(nSrc):
                if k not in attached and adds[k] <= cycle and chain[0][0] == 'mixer':
                    chain[0][2].add_new_channel()
                    heads[k].output.connect(chain[0][2].inputs[-1])
                    attached[k] = cycle

        def begin(cycle):
            clocks.append(ClockMixin.clock())
            if cycle:
                attach(cycle)

        # A connection made while running does not change the execution order
        first = patch.Source({}, begin)
        anchor = patch.Probe()
        first.output.connect(anchor.input)
        attach(0)
        late = [k for k in range(nSrc) if k not in attached and chain[0][0] == 'mixer']
        blocks = [first] + [b for b in [sources, [c[2] for c in chain]][sc['start'] % 2]] + sources + [c[2] for c in chain]
        patch.run_loop(world, blocks, len(ops), first)
        n = len(ops)
        # Reference
        inputs = [[schedules[k].get(i, []) for i in range(n)] for k in range(nSrc)]
        if perSource:
            inputs = [self.model(perSource[0], perSource[1], x, clocks, sc) for x in inputs]
        total = 0
        stream = None
        for (kind, limit, block), probe in zip(chain, stageProbes):
            ctx.check(len(probe.cycles) == n, 'cycles', 'probe saw %d of %d cycles', len(probe.cycles), n)
            if stream is None and kind == 'mixer':
                self.judge_merge(ctx, inputs, probe.cycles, attached, late)
            else:
                expected = self.model(kind, limit, inputs[0] if stream is None else stream, clocks, sc)
                for i in range(n):
                    a, b = expected[i], probe.cycles[i]
                    ctx.check(len(a) == len(b) and all(patch.same_note(x, y) for x, y in zip(a, b)), 'wrong-' + kind,
                              '%s %s in cycle %d: expected %s, got %s', kind, limit if kind == 'max' else '', i,
                              [patch.note_str(x) for x in a], [patch.note_str(x) for x in b])
            stream = probe.cycles
            ctx.log(kind, *[' '.join(map(patch.note_str, c)) for c in stream])
            total += sum(map(len, stream))
            if kind == 'max':
                self.judge_limit(ctx, limit, stream)
        ctx.state(sc['chain'], [[min(len(c), 3) for c in p.cycles[:8]] for p in stageProbes])
        ctx.nontrivial = total > 1
        ctx.count('messages', total)

    def judge_merge(self, ctx, inputs, got, attached, late):
        """Any merge which keeps the order within each input. Messages from
        before an input was added never arrive. One cycle of delay is possible
        for inputs connected after planning."""
        from klangsim.props.p11_note_flow import interleavings
        n = len(got)
        flat = []
        for i in range(n):
            parts = [inputs[k][i] for k in sorted(attached) if attached[k] <= i and k not in late]
            if not late:
                ctx.check(interleavings(parts, got[i]), 'merge', 'cycle %d: %s is no merge of %s', i,
                          [patch.note_str(x) for x in got[i]], [[patch.note_str(x) for x in p] for p in parts])
            flat += got[i]
        if late:
            parts = [[m for i in range(n) if attached.get(k, n) <= i for m in inputs[k][i]] for k in range(len(inputs))]
            # The last cycle of late ones may still be queued
            ok = interleavings(parts, flat) or interleavings(
                [p[:len(p) - len(inputs[k][n - 1])] if k in late else p for k, p in enumerate(parts)], flat) or \
                interleavings(parts, flat, optionalTail={k: len(inputs[k][n - 1]) for k in late})
            ctx.check(ok, 'merge-late', '%s is no merge of %s', [patch.note_str(x) for x in flat],
                      [[patch.note_str(x) for x in p] for p in parts])

    def model(self, kind, limit, stream, clocks, sc):
        out = []
        active = []
        for i, msgs in enumerate(stream):
            now = clocks[i]
            row = []
            if kind == 'length':
                while active and now >= active[0][0]:
                    row.append(active.pop(0)[1].silence())
            for m in msgs:
                if kind == 'mixer':
                    row.append(m)
                elif m.velocity > 0:
                    if kind == 'max':
                        while len(active) >= limit:
                            row.append(active.pop(0).silence())
                        active.append(m)
                    else:
                        active.append((now + sc['duration'], m))
                    row.append(m)
            out.append(row)
        return out

    def judge_limit(self, ctx, limit, stream):
        on = []
        for i, msgs in enumerate(stream):
            for m in msgs:
                if m.velocity > 0:
                    on.append(m)
                    ctx.check(len(on) <= limit, 'limit', 'cycle %d: %d notes on, limit %d', i, len(on), limit)
                else:
                    hits = [x for x in on if x.pitch == m.pitch and x.frequency == m.frequency]
                    ctx.check(hits, 'ended-twice', 'cycle %d: %s ended but not on', i, patch.note_str(m))
                    on.remove(hits[0])


def interleavings(parts, got, optionalTail=None):
    """Is got a merge of parts (all of each, but for optional tails)?"""
    tail = optionalTail or {}
    states = {tuple(0 for _ in parts)}
    for m in got:
        after = set()
        for st in states:
            for k, j in enumerate(st):
                if j < len(parts[k]) and patch.same_note(parts[k][j], m):
                    after.add(st[:k] + (j + 1,) + st[k + 1:])
        states = after
        if not states:
            return False
    return any(all(len(parts[k]) - j <= tail.get(k, 0) for k, j in enumerate(st)) for st in states)


PROP = P11()
