"""P16: musical keyboard."""
from klangsim import patch
from klangsim.devices.keyboard import SimKeyboard
from klangsim.runner import Property
from klangsim.sched import Scheduler

NOTES = {'a': 0, 'w': 1, 's': 2, 'e': 3, 'd': 4, 'f': 5, 't': 6, 'g': 7, 'z': 8, 'h': 9, 'u': 10, 'j': 11, 'k': 12, 'o': 13,
         'l': 14, 'p': 15}
CONTROLS = 'yxcv0123456789'
SHIFT = ['key', 'shift']
CAPS = ['vk', 65509]


def make_key(spec):
    from pynput.keyboard import Key, KeyCode
    kind, val = spec
    if kind == 'char':
        return KeyCode.from_char(val)
    if kind == 'vk':
        return KeyCode.from_vk(val)
    if kind == 'dead':
        return KeyCode.from_dead(val)
    if kind == 'none':
        return None
    return getattr(Key, val)


class P16(Property):
    id = 'P16'
    batch = 250
    quick_runs = 32000
    quick_seconds = 45
    thorough_runs = 200000
    thorough_seconds = 400
    rule = ('A run feeds a history of key events through the listener of a keyboard block, in cycles or from a keyboard thread '
            'interleaved with the audio cycle, and compares the received messages with a reference keyboard; non-trivial: at '
            'least one note was received.')
    state_measure = 'distinct (keys held, octave, tuning) states and thread interleavings'
    real = ['klang.keyboard', 'klang.connections', 'klang.music.tunings', 'pynput key codes']
    stubs = ['pynput listener (its dummy back end has one special key)', 'thread scheduling']
    assumptions = ["shift and caps lock change letter keys only", 'at most 50 messages between two cycles']
    shrink_lists = ('ops', 'switches')

    def gen(self, rng, tier, index):
        threads = rng.random() < .3
        ops = []
        held = []
        nOps = rng.randint(2, 14) if threads else rng.choice([4, 12, 40, 120])
        few = rng.sample(sorted(NOTES), rng.randint(1, 5))
        special = lambda: rng.choice([['key', 'shift'],
                                      ['vk', rng.randint(1, 300)], ['char', rng.choice('#ö1qm,. ')], ['none', 0], ['dead', '~'], CAPS])
        drift = rng.random()
        for _ in range(nOps):
            u = rng.random()
            if u < .3:
                key = ['char', rng.choice(few)]
            elif u < .45:
                key = ['char', rng.choice(sorted(NOTES))]
            elif u < .75:
                key = ['char', 'yxcv'[int(drift * 8)] if drift < .5 else rng.choice(CONTROLS)]
                if drift < .5 and not threads and key not in held:
                    ops += [['down', key], ['up', key]] * rng.randint(1, 4)     # To the limit and beyond
            else:
                key = special()
            v = rng.random()
            if held and v < .35:
                key = rng.choice(held)
                ops.append(['up', key])
                held.remove(key)
            elif v < .42:
                ops.append(['up', key])         # Maybe not pressed at all
                if key in held:
                    held.remove(key)
            else:
                ops.append(['down', key])
                if key not in held:
                    held.append(key)
                if rng.random() < .25:
                    ops += [['down', key]] * rng.randint(1, 4)   # Auto-repeat
            if rng.random() < .35:
                ops.append(['cycle'])
        rng.random() < .7 and ops.extend(['up', k] for k in held)
        return {'ops': ops, 'threads': threads, 'others': rng.random() < .4, 'temperament': rng.randrange(8),
                'switches': sorted([rng.randint(1, rng.choice([50, 200, 800])), 0] for _ in range(rng.randint(1, 8))),
                'cycles': rng.randint(1, 5), 'suppress': rng.random() < .2, 'first': rng.randrange(2), 'twin': rng.random() < .25}

    def execute(self, sc, ctx, world):
        from klang.block import Block
        from klang.keyboard import MusicalKeyboard
        from klang.music.tunings import EQUAL_TEMPERAMENT, TEMPERAMENTS
        patch.make_classes()
        device = world.keyboard = SimKeyboard(world)
        tempers = list(TEMPERAMENTS.values())
        default = sc['temperament'] % len(tempers)
        if default == 0:
            kb = MusicalKeyboard(suppress=sc['suppress'], others=sc['others'])
        else:
            kb = MusicalKeyboard(suppress=sc['suppress'], others=sc['others'], defaultTemperament=tempers[default])
        ctx.check(str(kb) is not None, 'str', '')
        twin = None
        if sc.get('twin') and not sc['threads']:    # Another keyboard block hears the same keys
            twin = MusicalKeyboard() if default == 0 else MusicalKeyboard(defaultTemperament=tempers[default])
            twinProbe = patch.Probe()
            twin.output.connect(twinProbe.input)
            twinReceived = []
            twin.start()
        ctx.check(len(device.listeners) == 1 + (twin is not None) and bool(device.listeners[0].suppress) == sc['suppress'], 'listener', 'wrong listener')
        probe = patch.Probe()
        kb.output.connect(probe.input)
        side = patch.Probe()
        if sc['others']:
            kb.outputs[1].connect(side.input)
        from klang.execution import determine_execution_order
        for end in [probe, side] if sc['others'] else [probe]:   # Planned from the block which is played
            ctx.check(kb in determine_execution_order([end]), 'not-planned', 'the keyboard is not part of the patch it is connected to')
        if twin is None:
            device.fire(True, make_key(['char', 'a']))    # Not listening yet
        kb.start()
        expected, sideWant = [], []
        model = {'octave': 5, 'velocity': 1., 'tuning': tempers[default] if default else EQUAL_TEMPERAMENT}
        down = {}
        mods = {'caps': False}

        def seen(key):
            """What the listener makes of a key."""
            if key[0] == 'char' and (tuple(SHIFT) in down) != mods['caps']:
                return ['char', key[1].upper()]
            return key

        def press(key):
            """Reference keyboard. Returns notes to expect."""
            ident = tuple(key)
            key = seen(key)
            if ident in down:
                ctx.fault('auto-repeat')
                return
            if key[0] == 'none':
                ctx.fault('unknown key')
                return
            char = key[1] if key[0] == 'char' else None
            down[ident] = key, None
            if list(ident) == CAPS:
                mods['caps'] = not mods['caps']
            if char in NOTES:
                pitch = NOTES[char] + 12 * model['octave']
                down[ident] = key, pitch
                expected.append((pitch, model['velocity'], float(model['tuning'].pitch_2_frequency(pitch))))
            elif char == 'y':
                model['octave'] = max(0, model['octave'] - 1)
            elif char == 'x':
                model['octave'] = min(9, model['octave'] + 1)
            elif char == 'c':
                model['velocity'] = max(.1, model['velocity'] - .1)
            elif char == 'v':
                model['velocity'] = min(1., model['velocity'] + .1)
            elif char is not None and char in '0123456789':
                if int(char) < len(tempers):
                    model['tuning'] = tempers[int(char)]
            else:
                sideWant.append(key)

        def release(key):
            ident = tuple(key)
            if ident not in down:
                ctx.fault('release without press')
                return
            if seen(key) != down[ident][0]:
                ctx.fault('shift or caps lock while held')
            key, pitch = down.pop(ident)
            char = key[1] if key[0] == 'char' else None
            if pitch is not None:
                expected.append((pitch, 0., None))
            elif char is None or char not in CONTROLS:
                sideWant.append(key)

        def fire(op):
            isDown = op[0] == 'down'
            device.fire(isDown, make_key(seen(op[1])))
            ctx.check(device.listeners[0].alive, 'listener-died', 'listener stopped')
            (press if isDown else release)(op[1])
            ctx.state(sorted(map(str, down)), mods['caps'], model['octave'], round(model['velocity'], 1), str(model['tuning']))

        received = []

        def cycle():
            kb.update()
            probe.update()
            received.extend(probe.cycles.pop())
            if twin is not None:
                twin.update()
                twinProbe.update()
                twinReceived.extend(twinProbe.cycles.pop())

        if sc['threads']:
            sched = world.sched = Scheduler(ctx, sc['switches'])
            events = [op for op in sc['ops'] if op[0] != 'cycle']

            def typing():
                for op in events:
                    fire(op)
                    sched.yield_point('pause')

            def audio():
                for _ in range(sc['cycles']):
                    cycle()
                    sched.yield_point('cycle')

            sched.spawn('keyboard', typing)
            sched.spawn('audio', audio)
            try:
                sched.run(sc['first'])
            finally:
                world.sched = None
            cycle()
        else:
            pending = 0
            for op in sc['ops']:
                if op[0] == 'cycle' or pending > 40:
                    cycle()
                    pending = 0
                    self.compare(ctx, received, expected)
                if op[0] != 'cycle':
                    fire(op)
                    pending += 1
            cycle()
        self.compare(ctx, received, expected)
        if twin is not None:
            self.compare(ctx, twinReceived, expected)
            twin.stop()
        if sc['others']:
            side.update()
            got = [k for k in side.cycles[0] if not (getattr(k, 'char', None) or '?') in CONTROLS]
            want = [make_key(k) for k in sideWant]
            if len(side.cycles[0]) == 50 and got:       # As many as a connection holds
                want = want[-len(got):]

            def same(a, b):
                """Shift and caps lock: which of the two letters does not matter."""
                return a == b or str(getattr(a, 'char', '?')).lower() == str(getattr(b, 'char', '!')).lower()

            ctx.check(len(got) == len(want) and all(same(a, b) for a, b in zip(got, want)), 'others', 'other keys %r, expected %r', got, want)
        kb.stop()
        device.fire(True, make_key(['char', 's']))
        cycle()
        self.compare(ctx, received, expected)
        ctx.log('notes', repr(sc['ops']), ' '.join(patch.note_str(n) for n in received))
        ctx.nontrivial = bool(received)

    def compare(self, ctx, received, expected):
        show = lambda items: ' '.join(patch.note_str(n) for n in items[-12:])
        for i, (n, w) in enumerate(zip(received, expected)):
            ok = hasattr(n, 'pitch') and n.pitch == w[0] and abs(n.velocity - w[1]) < 1e-6 and (w[1] == 0) == (n.velocity == 0) \
                and (w[2] is None or abs(n.frequency - w[2]) <= 1e-9 * w[2])
            ctx.check(ok, 'wrong-note', 'message %d is %r, expected %r (after %s)', i, n, w, show(received[:i]))
        if len(received) != len(expected):
            ctx.fail('lost' if len(received) < len(expected) else 'extra', '%d messages, expected %d: %s / %r' % (
                len(received), len(expected), show(received), expected[-12:]))


PROP = P16()
