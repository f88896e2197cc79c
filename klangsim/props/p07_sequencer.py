"""P07: sequencer timing and order over long runs."""
import itertools
import math
from fractions import Fraction

import numpy as np

from klangsim import patch, streams
from klangsim.patch import INTERVAL
from klangsim.runner import Property
from klangsim.sched import Scheduler

EPS = 1e-7   # Buffers


class Rhythm:

    """Reference of a micro rhythm: monotone warp of the pass [0, 1]."""

    def __init__(self, notes, phrasing, beat):
        self.n = max(1, int(1 // Fraction(*beat)))
        total = sum(Fraction(*x) for x in notes)
        acc = Fraction(0)
        self.starts = []
        for x in notes:
            self.starts.append(float(acc / total))
            acc += Fraction(*x)
        self.starts.append(1.)
        self.phrasing = phrasing

    def curve(self, x):
        k = len(self.starts) - 1
        for i in range(k):
            a, b = self.starts[i], self.starts[i + 1]
            if x <= b or i == k - 1:
                return (i + (x - a) / (b - a)) / k

    def warp(self, frac):
        y = self.n * frac
        whole = math.floor(y)
        groove = (whole + self.curve(y - whole)) / self.n
        return (1 - self.phrasing) * frac + self.phrasing * groove

    def position(self, passes):
        whole = math.floor(passes)
        return whole + self.warp(passes - whole)


class P07(Property):
    id = 'P07'
    batch = 250
    quick_runs = 24000
    quick_seconds = 70
    thorough_runs = 100000
    rule = ('A run plays a sequencer of one to four channels for tens to thousands of cycles, with micro rhythms applied, '
            'changed and removed and channels added at random cycles, and compares every note with the ideal time line; '
            'non-trivial: at least one full pass or ten steps were played.')
    state_measure = 'distinct (pattern length, steps per buffer class, rhythm changes, notes per cycle) classes'
    real = ['klang.sequencer', 'klang.audio.oscillators', 'klang.note_effects', 'klang.music', 'klang.composite',
            'klang.execution', 'klang.connections']
    stubs = ['clock', 'iteration order of connection sets']
    assumptions = ['a pass takes longer than two buffers',
                   'micro rhythms and their changes displace the pattern by less than half a pass',
                   'within 1e-7 buffers of an exact boundary either cycle counts as on time',
                   'while another thread changes a micro rhythm steps may come late, but not early']
    shrink_lists = ('ops', 'channels')
    shrink_numbers = {'cycles': 1}

    def gen(self, rng, tier, index):
        nCh = rng.choice([1, 1, 2, 3, 4]) if rng.random() < .96 else rng.randint(5, 11)
        grid = rng.choice([[1, 16], [1, 16], [1, 8], [1, 4], [1, 12], [3, 16], [1, 1]])
        beat = rng.choice([[1, 4], [1, 4], [1, 8], [3, 8], [1, 2]])
        split = rng.random() < .6
        speed = rng.choice(['slow', 'normal', 'fast', 'grid'])
        lengths = [rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 16, 16, 32, rng.randint(1, 40), rng.choice([33, 64, 65, 100, 128, 200]) if rng.random() < .2 else 12]) for _ in range(nCh)]
        ratio = Fraction(*grid) / Fraction(*beat)
        if speed == 'slow':
            stepBuffers = rng.uniform(5, 60)
        elif speed == 'normal':
            stepBuffers = rng.uniform(1, 25)
        elif speed == 'grid':
            stepBuffers = rng.choice([1, 2, 3, 4, 5, 10, 16])
        else:
            stepBuffers = rng.uniform(2.2, 6) / min(lengths)
        # Not more messages per cycle than queues can hold
        stepBuffers = max(stepBuffers, 2.2 / min(lengths), nCh / 5.)
        tempo = 60. * float(ratio) / (stepBuffers * INTERVAL)
        if speed == 'normal' and rng.random() < .5:
            tempo = rng.choice([60, 90, 100, 120, 140, 174.5, 200])
        threads = rng.random() < .12
        if threads:
            # Patched by another thread, which may take some cycles
            stepBuffers = max(stepBuffers, 40. / min(lengths))
            tempo = 60. * float(ratio) / (stepBuffers * INTERVAL)
        channels = []
        for c in range(nCh):
            channels.append(self.gen_row(rng, c, lengths[c]))
        cycles = rng.choice([30, 100, 100, 400, 400, 2500] if tier == 'quick' else [100, 400, 2500, 12000])
        ops = []
        if rng.random() < .5:
            for _ in range(rng.choice([1, 2, 4, 10])):
                t = rng.choice([0, 1, rng.randrange(cycles), rng.randrange(cycles)])
                u = rng.random()
                ch = rng.randrange(nCh)
                if u < .55:
                    ops.append([t, 'apply', ch, self.gen_rhythm(rng)])
                elif u < .85:
                    ops.append([t, 'reset', ch])
                elif u < .9:
                    ops.append([t, 'phrasing', ch, rng.choice([0., 1., rng.random()])])
                elif u < .92:
                    ops.append([t, 'taken', ch])
                elif u < .94:
                    ops.append([t, 'again', ch])
                elif u < .97:
                    ops.append([t, 'move', ch, rng.randrange(nCh)])
                else:
                    ops.append([t, 'add', self.gen_row(rng, nCh + sum(o[1] == 'add' for o in ops), rng.choice([1, 3, 4, 16])),
                                rng.choice([None, rng.uniform(2.2, 30)])])
            ops.sort(key=lambda o: o[0])
        if threads:
            cycles = min(cycles, 400)
            for _ in range(rng.choice([1, 2, 4])):
                ch = rng.randrange(nCh)
                ops.append([rng.randrange(cycles), 'apply', ch, self.gen_rhythm(rng)] if rng.random() < .6 else
                           [rng.randrange(cycles), 'reset', ch])
            ops = sorted((o for o in ops if o[1] != 'add'), key=lambda o: o[0])
            for a, b in zip(ops, ops[1:]):
                b[0] = max(b[0], a[0] + 10)
        return {'threads': [[rng.randint(1, rng.choice([20, 60, 300])) for _ in range(rng.choice([1, 2, 3, 5]))] for _ in ops] if threads else None,
                'eager': rng.random() < .5, 'channels': channels, 'tempo': tempo, 'grid': grid, 'beat': beat, 'split': split, 'cycles': cycles,
                'rel': rng.choice([.5, .5, .1, .9, 1., 2.5]), 'abs': rng.choice([None, None, .01, .2, INTERVAL * 3]),
                'numpy': rng.random() < .2 and len(set(lengths)) == 1, 'flat': rng.random() < .5 and nCh == 1,
                'default': rng.random() < .05, 'ops': ops}

    def gen_row(self, rng, c, length):
        base = [0, 24, 48, 72, 90, 96, 100, 104, 108, 112, 116, 120, 124][min(c, 12)]
        top = [24, 48, 72, 90, 96, 100, 104, 108, 112, 116, 120, 124, 128][min(c, 12)]
        row = []
        style = rng.random()
        for i in range(length):
            u = rng.random()
            if style < .3:
                row.append(max(1, base) + i % (top - max(1, base)))
            elif u < .25:
                row.append(0)
            elif u < .35 and i:
                row.append([rng.randint(max(1, base), top - 1) for _ in range(rng.randint(1, 3))])
            else:
                row.append(rng.randint(max(1, base), top - 1))
        return row

    def gen_rhythm(self, rng):
        notes = rng.choice([[[1, 4], [1, 8]], [[2, 1], [1, 1]], [[1, 8], [1, 8], [1, 4]], [[1, 1], [1, 1], [1, 1]],
                            [[3, 16], [1, 16]], [[rng.randint(1, 9), rng.randint(5, 16)] for _ in range(rng.randint(1, 5))]])
        return {'feed': rng.random() < .3, 'notes': notes, 'phrasing': rng.choice([1., 1., 0., .5, rng.random()]), 'beat': rng.choice([[1, 4], [1, 4], [1, 8], [1, 2]])}

    def execute(self, sc, ctx, world):
        from klang.block import Block
        from klang.clock import ClockMixin
        from klang.connections import InputAlreadyConnected, MessageInput
        from klang.execution import determine_execution_order, execute
        from klang.music.rhythm import MicroRhyhtm
        from klang.sequencer import Sequencer
        patch.make_classes()
        streams.make_classes()
        fr = lambda x: Fraction(*x)
        pattern = sc['channels']
        if not pattern:
            ctx.nontrivial = False
            return
        if sc['numpy'] and all(len(r) == len(pattern[0]) and not any(isinstance(x, list) for x in r) for r in pattern):
            pattern = np.array(pattern)
            if sc['flat'] and len(pattern) == 1:
                pattern = pattern[0]
        elif sc['flat'] and len(pattern) == 1 and not isinstance(pattern[0][0], list):
            pattern = pattern[0]
        kw = dict(tempo=sc['tempo'], grid=fr(sc['grid']), beatValue=fr(sc['beat']), relNoteLength=sc['rel'], absNoteLength=sc['abs'])
        step = 60. / sc['tempo'] * float(fr(sc['grid']) / fr(sc['beat']))
        noteLength = sc['abs'] if sc['abs'] is not None else sc['rel'] * step
        if sc['default'] and min(map(len, sc['channels'])) * .125 > 3 * INTERVAL:
            kw = {}
            step, noteLength = .125, .0625
        seq = Sequencer(pattern, splitOutputs=sc['split'], **kw)
        rows = list(sc['channels'])
        lines = []
        for row in rows:
            lines.append(dict(row=row, start=0, step=step, length=noteLength, changes=[(0, None, 0)], rhythm=None, micro=None))
        probes = []
        feeds, feedValues = {}, {}
        micros = []   # Kept alive: told apart by identity

        def probe_outputs():
            while len(probes) < len(seq.outputs):
                p = patch.Probe()
                seq.outputs[len(probes)].connect(p.input)
                p.first = k
                probes.append(p)

        k = 0
        ctx.check(len(seq.outputs) == (len(rows) if sc['split'] else 1), 'outputs', '%d outputs for %d channels', len(seq.outputs), len(rows))
        probe_outputs()
        order = determine_execution_order([seq])
        ops = list(sc['ops'])

        def patch_op(op):
            ctx.log('op', k, op[1], repr(op[2:]))
            replan = False
            if op[1] == 'add':
                kw2 = dict(kw)
                step2, length2 = step, noteLength
                if kw and (op[3] is not None or step * len(op[2]) < 2.2 * INTERVAL):
                    step2 = max(op[3] or 0, 2.2 / len(op[2])) * INTERVAL
                    kw2['tempo'] = 60. / step2 * float(fr(sc['grid']) / fr(sc['beat']))
                    length2 = sc['abs'] if sc['abs'] is not None else sc['rel'] * step2
                seq.add_new_channel(op[2], **kw2)
                lines.append(dict(row=op[2], start=k, step=step2, length=length2, changes=[(k, None, k)], rhythm=None, micro=None))
                probe_outputs()
                replan = True
            elif op[2] < len(lines):
                line = lines[op[2]]
                if op[1] == 'apply':
                    r = op[3]
                    ref = Rhythm(r['notes'], r['phrasing'], r['beat'])
                    if self.too_far(ref, line):
                        return False
                    micro = MicroRhyhtm([fr(x) for x in r['notes']], phrasing=r['phrasing'], beatValue=fr(r['beat']))
                    micros.append(micro)
                    if r.get('feed'):
                        # Phrasing comes from another block
                        feedValues[id(micro)] = r['phrasing']
                        feeds[id(micro)] = feed = streams.Feed(lambda c, m=micro: feedValues[id(m)])
                        feed.output.set_value(r['phrasing'])
                        feed.cycle = k
                        feed.output.connect(micro.phrasing)
                    seq.apply_micro_rhythm(micro, channel=op[2])
                    line['micro'], line['rhythm'] = micro, ref
                    line['changes'].append((k, ref, k))
                    ctx.fault('micro rhythm applied')
                elif op[1] == 'again' and line['micro'] is not None:
                    # In place already: changes nothing
                    seq.apply_micro_rhythm(line['micro'], channel=op[2])
                    line['changes'].append((k, line['rhythm'], k))
                    ctx.fault('micro rhythm applied again')
                elif op[1] == 'move' and line['micro'] is not None and op[3] != op[2] and op[3] < len(lines):
                    # Serves one channel only: refused until it is removed there
                    other = lines[op[3]]
                    micro, ref = line['micro'], line['rhythm']
                    if self.too_far(ref, other):
                        return False
                    try:
                        seq.apply_micro_rhythm(micro, channel=op[3])
                        ctx.fail('taken', 'micro rhythm of channel %d got applied to channel %d', op[2], op[3])
                    except InputAlreadyConnected:
                        pass
                    seq.reset_micro_rhythm(channel=op[2])
                    line['micro'] = line['rhythm'] = None
                    line['changes'].append((k, None, k))
                    seq.apply_micro_rhythm(micro, channel=op[3])
                    other['micro'], other['rhythm'] = micro, ref
                    other['changes'].append((k, ref, k))
                    ctx.fault('micro rhythm moved')
                elif op[1] == 'reset':
                    seq.reset_micro_rhythm(channel=op[2])
                    line['micro'] = line['rhythm'] = None
                    line['changes'].append((k, None, k))
                    ctx.fault('micro rhythm removed')
                elif op[1] == 'phrasing' and line['micro'] is not None:
                    old = line['rhythm']
                    new = Rhythm([[1, 1]], op[3], [1, 1])
                    new.starts, new.n = old.starts, old.n
                    if id(line['micro']) in feeds:
                        feedValues[id(line['micro'])] = op[3]
                    else:
                        line['micro'].phrasing.set_value(op[3])
                    line['rhythm'] = new
                    line['changes'].append((k, new, k))
                    ctx.fault('phrasing changed')
                elif op[1] == 'taken':
                    # Already in use elsewhere: refused, channel goes on
                    micro = MicroRhyhtm([Fraction(1, 4), Fraction(1, 8)])
                    other = Block(nOutputs=1)
                    other.output.set_value(0.)
                    other.output.connect(micro.input)
                    try:
                        seq.apply_micro_rhythm(micro, channel=op[2])
                        ctx.fail('taken', 'micro rhythm which is already connected got applied')
                    except InputAlreadyConnected:
                        pass
                    ctx.fault('micro rhythm refused')
            return replan

        def cycle():
            ClockMixin.set_current_time(k * INTERVAL)
            execute(order)
            if k % 64 == 0:
                ctx.log('cycle', k, *[len(p.cycles[-1]) for p in probes])

        if sc.get('threads') is not None:
            sched = world.sched = Scheduler(ctx, [], maxSteps=2000000)
            sched.tracing = False
            begun = None      # Cycle in which the current operation began

            def audio():
                nonlocal k
                for k in range(sc['cycles']):
                    if begun is not None and k - begun >= 6:
                        sched.switches.clear()
                        sched.tracing = False
                        sched.hand_over('patching')
                    elif ops and ops[0][0] <= k and (begun is None or sc['eager']):
                        sched.hand_over('patching')
                    cycle()

            def patching():
                nonlocal begun
                for jumps in sc['threads']:
                    while ops and ops[0][0] > k and sched.hand_over('audio'):
                        pass
                    if not ops:
                        break
                    begun, sched.tracing = k, True
                    sched.switches = {sched.step + x: 0 for x in itertools.accumulate(jumps)}
                    known, taken = [len(l['changes']) for l in lines], sched.taken
                    patch_op(ops[0])
                    sched.switches, sched.tracing = {}, False
                    ops.pop(0)
                    for l, n in zip(lines, known):
                        l['changes'][n:] = [(begun, r, k + (sched.taken > taken)) for _, r, _ in l['changes'][n:]]
                    begun = None

            sched.spawn('audio', audio)
            sched.spawn('patching', patching)
            try:
                sched.run(0)
            finally:
                world.sched = None
        else:
            for k in range(sc['cycles']):
                while ops and ops[0][0] <= k:
                    if patch_op(ops.pop(0)):
                        order = determine_execution_order([seq])
                cycle()
        ctx.simTime += sc['cycles'] * INTERVAL
        steps = 0
        for c, line in enumerate(lines):
            if sc['split']:
                p = probes[c]
                got = [(p.first + i, m) for i, msgs in enumerate(p.cycles) for m in msgs]
            else:
                p = probes[0]
                got = [(i, m) for i, msgs in enumerate(p.cycles) for m in msgs
                       if (self.owner(lines, m) == c)]
            n = self.judge(ctx, sc, c, line, got)
            steps += n
            ctx.log('channel', c, n, len(got))
        if not sc['split']:
            for i, msgs in enumerate(probes[0].cycles):
                for m in msgs:
                    ctx.check(self.owner(lines, m) is not None, 'foreign', 'cycle %d: %s belongs to no channel', i, patch.note_str(m))
        ctx.count('steps', steps)
        ctx.nontrivial = steps >= 10
        ctx.state([len(l['row']) for l in lines], round(math.log(step / INTERVAL, 1.5)), [o[:3] for o in sc['ops'] if o[1] != 'add'][:3])

    def owner(self, lines, m):
        for c, line in enumerate(lines):
            for x in line['row']:
                if m.pitch in (x if isinstance(x, list) else [x]) and m.pitch:
                    return c
        return None

    def too_far(self, ref, line):
        """Displacement of half a pass can not be told from a new pass."""
        dist = max(abs(ref.warp(i / 64.) - i / 64.) for i in range(65))
        return dist + INTERVAL / (line['step'] * len(line['row'])) > .2

    def judge(self, ctx, sc, c, line, got):
        """Compare the notes of one channel with the time line."""
        row, start, step = line['row'], line['start'], line['step']
        L = len(row)
        perPass = step * L / INTERVAL   # In buffers
        n = sc['cycles']

        def positions(k, rhythm, eps):
            """Number of steps reached at time k (in buffers since start)."""
            x = (k + eps) / perPass
            if x < 0:
                return 0
            pos = rhythm.position(x) if rhythm else x
            return math.floor(pos * L) + 1

        upper, lower = [], []
        hi = lo = 0
        changes = line['changes']
        for k in range(start, n):
            active = [r for t, r, _ in changes if t <= k]
            current = active[-1]
            # Behind a micro rhythm (and right after changes) one buffer later is on time
            recent = [r for i, (t, r, _) in enumerate(changes) if t <= k and (i + 1 == len(changes) or changes[i + 1][2] >= k - 2)]
            busy = any(t <= k <= end + 2 and end > t for t, _, end in changes)   # Being patched
            rel = k - start
            hi = max([hi] + [positions(rel, r, EPS * (1 + rel * 1e-4)) for r in recent])
            eps = -EPS * (1 + rel * 1e-4)
            plain = current is None and len(recent) == 1
            low = min(positions(rel - (0 if plain else 1), r, eps) for r in recent)
            lo = lo if busy else max(lo, low)
            upper.append(hi)
            lower.append(max(1, lo) if rel >= 0 else 0)
        # Note-ons in order, steps in time
        ons = [(k, m) for k, m in got if m.velocity > 0]
        at = 0          # Next note-on
        done = 0        # Steps done
        for k in range(start, n):
            here = 0
            while at < len(ons) and ons[at][0] <= k:
                at += 1
                here += 1
            lines_ = ons[at - here:at]
            # Consume steps of the pattern for what was heard in this cycle
            i = 0
            while i < len(lines_):
                pitches = self.pitches(row[done % L])
                if not pitches:
                    done += 1
                    ctx.check(done <= upper[k - start], 'early', 'channel %d: %s in cycle %d, but step %d (rest) is not due before',
                              c, patch.note_str(lines_[i][1]), k, done - 1)
                    continue
                chunk = [m.pitch for _, m in lines_[i:i + len(pitches)]]
                ctx.check(chunk == pitches, 'order', 'channel %d: expected step %d %s in cycle %d, got %s', c, done, pitches, k, chunk)
                for _, m in lines_[i:i + len(pitches)]:
                    ctx.check(m.velocity == 1., 'velocity', 'channel %d: velocity %r', c, m.velocity)
                i += len(pitches)
                done += 1
                ctx.check(done <= upper[k - start], 'early', 'channel %d: step %d came in cycle %d, only %d steps are due (step every %.4f buffers)',
                          c, done - 1, k, upper[k - start], step / INTERVAL)
            # Rests pass silently
            while done < lower[k - start] and not self.pitches(row[done % L]):
                done += 1
            ctx.check(done >= lower[k - start], 'late', 'channel %d: cycle %d, %d steps are due, but step %d %s did not come (step every %.4f buffers)',
                      c, k, lower[k - start], done, row[done % L], step / INTERVAL)
        # Note-offs
        pending = []
        events = iter(got)
        byCycle = {}
        for k, m in got:
            byCycle.setdefault(k, []).append(m)
        eps = 1e-9 + 1e-12 * n
        for k in range(start, n):
            now = k * INTERVAL
            msgs = byCycle.get(k, [])
            offs = [m for m in msgs if m.velocity == 0]
            for m in offs:
                hit = [p for p in pending if p[1].pitch == m.pitch]
                ctx.check(hit, 'off-invented', 'channel %d: note-off of %s in cycle %d', c, m.pitch, k)
                ctx.check(hit[0][0] <= now + eps, 'off-early', 'channel %d: note-off of %s in cycle %d, due at %.6f', c, m.pitch, k, hit[0][0])
                pending.remove(hit[0])
            for p in pending:
                ctx.check(p[0] > now - eps, 'off-late', 'channel %d: no note-off of %s in cycle %d, due at %.6f', c, p[1].pitch, k, p[0])
            pending += [(now + line['length'], m) for m in msgs if m.velocity > 0]
        return done

    def pitches(self, x):
        return [p for p in (x if isinstance(x, list) else [x]) if p]


PROP = P07()
