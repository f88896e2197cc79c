"""P17: MIDI output."""
import gc
import weakref

from klangsim import patch
from klangsim.devices.midi import SimMidi
from klangsim.runner import Property


class P17(Property):
    id = 'P17'
    batch = 250
    quick_runs = 32000
    quick_seconds = 45
    thorough_runs = 200000
    thorough_seconds = 400
    rule = ('A run plays a history of notes into a MIDI output block on a simulated port which may fail; non-trivial: at least '
            'one message reached the port.')
    state_measure = 'distinct (ports, port number, channel, kinds of notes, failures)'
    real = ['klang.midi', 'klang.messages', 'klang.connections', 'klang.execution']
    stubs = ['MIDI port (python-rtmidi)']
    assumptions = ['integer pitches', 'at most 50 notes per cycle', 'failing calls raise errors of python-rtmidi']
    shrink_lists = ('cycles', 'fail', 'notes')

    def gen(self, rng, tier, index):
        ports = rng.choice([[], [], ['Synth'], ['A', 'B', 'C'], ['A', 'B']])
        number = rng.choice([None, 0, 0, max(0, len(ports) - 1), rng.randrange(max(1, len(ports)))])
        cycles = [[patch.gen_note(rng, few=False) for _ in range(rng.choice([0, 1, 1, 2, 5, 48]))] for _ in range(rng.choice([1, 3, 10]))]
        total = sum(map(len, cycles))
        fail = sorted(set(rng.randrange(total) for _ in range(rng.randint(1, 5)))) if total and rng.random() < .4 else []
        if fail and rng.random() < .3:
            a = rng.randrange(total)
            fail = list(range(a, min(total, a + rng.randint(1, 60))))
        return {'ports': ports, 'number': number, 'channel': rng.choice([None, 0, rng.randint(0, 15), 9, 15]), 'cycles': cycles, 'fail': fail,
                'numpy': rng.random() < .2, 'openFails': rng.random() < .06, 'end': rng.random() < .15,
                'plan': rng.randrange(2), 'twin': rng.random() < .2}

    def execute(self, sc, ctx, world):
        from klang.midi import MidiOut
        patch.make_classes()
        device = world.midi = SimMidi(world, {'ports': sc['ports'], 'fail': sc['fail'], 'openFails': sc['openFails']})
        kwargs = {}
        if sc['number'] is not None:
            kwargs['portNumber'] = sc['number']
        if sc['channel'] is not None:
            kwargs['channel'] = sc['channel']
        index = self.play(sc, ctx, device, MidiOut, kwargs)
        if index is None:
            return
        out = device.outs[0]
        if sc['end']:
            for _ in range(6):
                if out.closes:
                    break
                gc.collect()
            else:
                if index() is None:   # Garbage collection decides when, but then the port has to be closed
                    gc.collect()
                    ctx.check(out.closes == 1, 'close', 'port closed %d times in the end', out.closes)
        ctx.check(out.closes <= 1, 'close', 'port closed %d times', out.closes)
        ctx.nontrivial = bool(out.sent)
        ctx.state(len(sc['ports']), sc['number'], sc['channel'], sorted(set((n[1] > 0, n[1] < 1 / 127) for c in sc['cycles'] for n in c)),
                  len(sc['fail']))

    @staticmethod
    def note(spec, sc):
        import numpy as np
        note = patch.make_note(spec)
        return note._replace(pitch=np.int64(note.pitch)) if sc['numpy'] else note

    def play(self, sc, ctx, device, MidiOut, kwargs):
        import rtmidi
        from klang.execution import determine_execution_order, execute
        channel = sc['channel'] or 0
        try:
            block = MidiOut(**kwargs)
        except rtmidi.RtMidiError:
            ctx.check(sc['openFails'], 'open', 'port could not be opened')
            block = None
        if sc['openFails']:
            ctx.check(block is None or not device.outs[0].is_port_open(), 'open', 'opening failed, but port is open')
            ctx.nontrivial = False
            return None
        out = device.outs[0]
        want = sc['number'] or 0
        ctx.check(out.port == (want if sc['ports'] else 'virtual'), 'port', 'port %r of %r was opened, asked for %r', out.port, sc['ports'], want)
        other = None
        if sc.get('twin'):   # Another port gets other notes
            other = MidiOut(channel=(channel + 1) % 16)
            otherExpected = []
        expected = []
        source = patch.Source({c: [self.note(spec, sc) for spec in notes] for c, notes in enumerate(sc['cycles'])})
        source.output.connect(block.input)
        order = determine_execution_order([source if sc.get('plan') else block])   # Planned from either block
        for notes in sc['cycles']:
            for spec in notes:
                expected.append((self.note(spec, sc), len(expected) in sc['fail']))
            if other is not None and notes:
                otherExpected.append((self.note(notes[-1], sc), False))
                other.input.push(otherExpected[-1][0])
                other.update()
            execute(order)
            self.compare(ctx, out.sent, expected, channel)
        if other is not None:
            self.compare(ctx, device.outs[1].sent, otherExpected, (channel + 1) % 16)
        ctx.check(out.opens == 1 and out.closes == 0, 'port', 'opened %d times, closed %d times while playing', out.opens, out.closes)
        return weakref.ref(block)

    def compare(self, ctx, sent, expected, channel):
        ctx.check(len(sent) == len(expected), 'lost' if len(sent) < len(expected) else 'extra', '%d notes, but %d messages to the port',
                  len(expected), len(sent))
        for i, ((msg, ok), (note, fails)) in enumerate(zip(sent, expected)):
            if note.velocity > 0:
                good = len(msg) == 3 and msg[0] == 0x90 + channel and msg[1] == note.pitch and 1 <= msg[2] <= 127 \
                    and abs(msg[2] - note.velocity * 127) <= 1.
            else:
                good = len(msg) == 3 and msg[0] == 0x80 + channel and msg[1] == note.pitch and 0 <= msg[2] <= 127
            ctx.check(good, 'wrong-message', 'message %d is %r for %r on channel %d', i, msg, note, channel)


PROP = P17()
