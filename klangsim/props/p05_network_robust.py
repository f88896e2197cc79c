"""P05: malformed datagrams and failing network calls."""
import json
import os
import shutil
import tempfile

from klangsim import objects
from klangsim.devices.fs import SCRATCH
from klangsim.devices.net import RECV_ERRORS, SEND_ERRORS, SimNet
from klangsim.runner import Property

ADDRESS = ('127.0.0.1', 4711)

BAD_NOTES = [
    {}, {'pitch': 60}, {'pitch': 200, 'velocity': 1.}, {'pitch': -1, 'velocity': .5}, {'pitch': 'x', 'velocity': 1.},
    {'pitch': None}, {'pitch': 60, 'velocity': 2.}, {'pitch': 60, 'velocity': 'loud'}, {'pitch': 60, 'foo': 1},
    {'pitch': 60, 'frequency': -1.}, {'pitch': 60, 'frequency': 'a'}, {'pitch': 60, 'temperament': 3},
    {'pitch': [1]}, {'pitch': {}}, {'pitch': 60, 'velocity': None}, {'pitch': 60.5}, {'velocity': 1.},
    {'pitch': float('nan'), 'velocity': 1.},
]
BAD_ARRAYS = [
    {}, {'dtype': 'float64', 'shape': [3]}, {'dtype': 'float64', 'shape': [3], 'data': 'AAAA'},
    {'dtype': 'nope', 'shape': [1], 'data': 'AAAAAAAAAAA='}, {'dtype': 'float64', 'shape': [2], 'data': 'AAAAAAAAAAA='},
    {'dtype': 'O', 'shape': [1], 'data': 'AAAAAAAAAAA='}, {'dtype': 'float64', 'shape': 'abc', 'data': 'AAAAAAAAAAA='},
    {'dtype': 'float64', 'shape': [-5], 'data': 'AAAAAAAAAAA='}, {'dtype': 3, 'shape': [1], 'data': 'AAAAAAAAAAA='},
    {'dtype': 'float64', 'shape': [1], 'data': 5}, {'dtype': 'float64', 'shape': [1], 'data': '!'},
    {'dtype': 'float64', 'shape': [1], 'data': 'AAA'}, {'dtype': ['a'], 'shape': [1], 'data': 'AAAAAAAAAAA='},
    {'dtype': 'float64', 'shape': [10 ** 30], 'data': 'AAAAAAAAAAA='}, {'dtype': 'float64', 'shape': {}, 'data': 'AAAAAAAAAAA='},
    {'dtype': {}, 'shape': [1], 'data': 'AAAAAAAAAAA='}, {'dtype': 'float64', 'shape': [1], 'data': 'äää'},
    {'dtype': 'V99999999', 'shape': [1], 'data': 'AAAA'}, {'dtype': 'f8,', 'shape': [1], 'data': 'AAAAAAAAAAA='},
]
BAD_TEXT = ['}', ']', ',', ':', '{', '[', '"', '"abc', '[1,2', '{"a":', '{"a" 1}', '{1:2}', 'nul', 'True', "'x'", '\\', '+1',
            '.5', '\x00', '\x00\x01\x02', '[' * 200, '"\\u12"', '"\\x"', '"tab\tin"', '-',
            '[1,]', '/* */', '<xml/>', '%', '{"type": "Note"', '{"type": "ndarray", "data": "']
DEEP = ['[' * 60000, '{"a":' * 10000, '[{"a":' * 9000]
BAD_BYTES = ['ff', 'c328', 'e28228', 'f0288cbc', 'fffe22006100', '80' * 40, 'efbbbf31', 'fe' * 1000, '22ff22', '5bff5d',
             '227aff', 'c3', '00ff00ff', 'eda080']
SEPARATORS = ['', ' ', '\n', '\r\n', '\t', '  \n ']


def gen_garbage(rng):
    u = rng.random()
    if u < .2:
        return ['json', dict(rng.choice(BAD_NOTES[:-1]), type='Note')] if rng.random() < .9 else ['nan']
    if u < .42:
        ret = dict(rng.choice(BAD_ARRAYS), type='ndarray')
        return ['json', ret if rng.random() < .7 else [1, {'x': ret}]]
    if u < .7:
        return ['text', rng.choice(BAD_TEXT) if rng.random() < .98 else rng.choice(DEEP)]
    if u < .9:
        return ['hex', rng.choice(BAD_BYTES)]
    return ['hex', 'ff' + bytes(rng.randrange(256) for _ in range(rng.randint(0, 60))).hex()]


def garbage_bytes(g):
    if g[0] == 'json':
        return json.dumps(g[1]).encode()
    if g[0] == 'nan':
        return b'{"type": "Note", "pitch": NaN}'
    if g[0] == 'text':
        return g[1].encode('utf-8', 'surrogatepass')
    return bytes.fromhex(g[1])


def numbered(spec, serial):
    """Object which can be told apart from all others of the run."""
    if spec[0] == 'note':
        return objects.build(['note', 'freq', spec[2], spec[3], float(serial)])
    if spec[0] == 'array':
        dtype = spec[1] if spec[1] in ('float32', '>f4', '<f8') else 'float64'
        return objects.build(['array', dtype, spec[2], 'C' if spec[3] == 'empty' else spec[3], serial])
    if spec[0] == 'scalar':
        return serial
    return [serial, objects.build(spec)]


class P05(Property):
    id = 'P05'
    batch = 250
    quick_runs = 12000
    quick_seconds = 45
    thorough_runs = 100000
    rule = ('A run feeds receiving patches seeded mixtures of valid datagrams, several objects per datagram, malformed '
            'and foreign ones, fails send and receive calls and restarts the peer; non-trivial: at least one fault '
            'occurred and one valid object was delivered.')
    state_measure = 'distinct (fault kind, what was delivered around it) pairs'
    real = ['klang.network', 'klang.messages', 'klang.connections']
    stubs = ['sockets and network (SimNet)', 'clock']
    assumptions = ['creating a block whose address can not be bound may raise',
                   'objects which can not be encoded at all may raise at the sender']
    shrink_lists = ('ops', 'parts', 'sendFaults', 'recvFaults')

    def gen(self, rng, tier, index):
        ops = []
        for _ in range(rng.choice([2, 6, 15, 40])):
            u = rng.random()
            if u < .45:
                parts = []
                for _ in range(rng.randint(0, 4)):
                    parts.append(['ok', objects.gen_object(rng, big=False)])
                if rng.random() < .65:
                    parts.append(['bad', gen_garbage(rng)])
                    for _ in range(rng.choice([0, 0, 1])):
                        parts.append(['after', objects.gen_object(rng, big=False)])
                for p in parts:
                    p.append(rng.choice(SEPARATORS))
                ops.append(['datagram', parts, rng.choice(SEPARATORS)])
            elif u < .6:
                ops.append(['send', [objects.gen_object(rng) for _ in range(rng.choice([1, 1, 2, 4]))]])
            elif u < .9:
                ops.append(['cycle'])
            elif u < .94:
                ops.append(['restart'])
            elif u < .95:
                ops.append(['second'])
            else:
                ops.append(['down', rng.randrange(2)])
        sendFaults = [[rng.randint(0, 30), rng.choice(sorted(SEND_ERRORS))] for _ in range(rng.choice([0, 1, 3, 8]))]
        recvFaults = [[rng.randint(0, 40), rng.choice(sorted(RECV_ERRORS))] for _ in range(rng.choice([0, 0, 1, 3]))]
        return {'kind': rng.choice(['value', 'message', 'message']), 'unix': rng.random() < .3, 'ops': ops,
                'sendFaults': sendFaults, 'recvFaults': recvFaults}

    def execute(self, sc, ctx, world):
        if not sc['unix']:
            return self.simulate(sc, ctx, world, ADDRESS)
        # Socket files are real, the sockets behind them are not
        folder = tempfile.mkdtemp(prefix='klangsim-', dir=SCRATCH)
        try:
            return self.simulate(sc, ctx, world, os.path.join(folder, 'klang.sock'))
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    def simulate(self, sc, ctx, world, address):
        from klang.block import Block
        from klang.connections import MessageInput, MessageOutput, Output
        from klang.network import NetworkIn, NetworkMessageIn, NetworkMessageOut, NetworkOut, KlangJSONEncoder
        net = world.net = SimNet(ctx, world, (), {int(a): b for a, b in sc['sendFaults']},
                                 {int(a): b for a, b in sc['recvFaults']})
        value = sc['kind'] == 'value'
        encoder = KlangJSONEncoder()
        expected = []     # ['must' or 'may', object], in order
        got = []

        class Tx(Block):
            def __init__(self):
                super().__init__(nOutputs=1)
                if not value:
                    self.outputs = [MessageOutput(owner=self)]

        class Recorder(Output):

            """Every value set is recorded (an output shows only the last one)."""

            nested = False

            def record(self, v, how):
                outermost, self.nested = not self.nested, True
                try:
                    how(v)
                finally:
                    self.nested = not outermost
                if outermost:
                    got.append(v)

            def set_value(self, v):
                self.record(v, super().set_value)

            @property
            def value(self):
                return super().value

            @value.setter
            def value(self, v):
                self.record(v, lambda x: Output.value.__set__(self, x))

        def new_receiver():
            nonlocal rx, probe
            rx = (NetworkIn if value else NetworkMessageIn)(address)
            probe = Block()
            if value:
                rx.outputs[0] = Recorder(owner=rx)
            else:
                probe.inputs = [MessageInput(owner=probe)]
                rx.output.connect(probe.input)

        rx = probe = None
        others = []
        new_receiver()
        src = Tx()
        tx = (NetworkOut if value else NetworkMessageOut)(address)
        src.output.connect(tx.input)
        up = True

        def cycle():
            world.now += .005
            rx.update()
            if not value:
                got.extend(probe.input.receive())

        waiting = 0   # Objects on their way. Message inputs queue 50 of them.

        def drain():
            nonlocal waiting
            waiting = 0
            for _ in range(50):
                cycle()
                if not net.bound[net.key(address)].rx:
                    break

        serial = 0
        bad = 0

        def unique(spec):
            """Number the object so that lost and doubled ones can be told apart."""
            nonlocal serial
            serial += 1
            return numbered(spec, serial)

        for op in sc['ops']:
            if op[0] in ('datagram', 'send'):
                waiting += len(op[1]) + 4
                if waiting > 40 and up:
                    drain()
                    waiting = len(op[1]) + 4
            if op[0] == 'datagram':
                data = op[2].encode()
                broken = False
                entries = []
                for kind, spec, sep in op[1]:
                    if kind == 'bad':
                        if any(q[0] == 'after' for q in op[1]):
                            # May form something together with what follows
                            entries += 2 * [['wild', None]]
                        # Digits are no delimiter
                        data += b' ' + garbage_bytes(spec) + sep.encode()
                        broken = True
                        bad += 1
                        if spec[0] == 'json':
                            # Complete JSON: whether it makes an object is up to the receiver
                            entries.append(['wild', None])
                        ctx.fault('malformed datagram: ' + spec[0])
                        continue
                    obj = unique(spec)
                    text = encoder.encode(obj)
                    if text[-1:].isdigit() and not sep:
                        sep = ' '
                    data += text.encode() + sep.encode()
                    entries.append(['may' if broken else 'must', obj])
                if len(data) > 65000:
                    continue
                if up:
                    net.inject(data, address)
                    expected += entries
                ctx.log('datagram', data)
                world.now += .001
                net.progress()
            elif op[0] == 'send':
                for spec in op[1]:
                    obj = unique(spec)
                    before, failed = net.nSendCalls, len(net.failedCalls)
                    if value:
                        src.output.set_value(obj)
                    else:
                        src.output.send(obj)
                    if value:
                        tx.update()
                        fine = len(net.failedCalls) == failed and up
                        expected.append(['must' if fine else 'may' if up else 'never', obj])
                if not value:
                    # All in one cycle: faults hit single messages
                    calls = net.nSendCalls
                    tx.update()
                    pending = list(tx.input.queue)
                    ctx.check(not pending, 'not-sent', '%d messages left unsent in the cycle' % len(pending))
                    made = net.nSendCalls - calls
                    objs = serial - len(op[1])
                    failed = [c for c in net.failedCalls if c >= calls]
                    # Mapping of calls to objects is only known if nothing is retried
                    for i, spec in enumerate(op[1]):
                        ok = not failed or (made == len(op[1]) and (calls + i) not in failed)
                        expected.append(['must' if ok and up else 'may' if up else 'never', None, objs + i + 1])
                ctx.log('send', len(op[1]))
                world.now += .001
                net.progress()
            elif op[0] == 'cycle' and up:
                drain() if waiting > 20 else cycle()
                ctx.log('cycle', len(got))
            elif op[0] == 'restart' and up:
                # Everything pending is lost with the process
                drain()
                net.bound[net.key(address)].close()
                new_receiver()
                ctx.fault('receiver restart')
            elif op[0] == 'second' and up:
                # Does not get the address and must not take it away
                try:
                    others.append((NetworkIn if value else NetworkMessageIn)(address))
                except OSError:
                    pass
                ctx.fault('address in use')
            elif op[0] == 'down':
                if up and not op[1]:
                    drain()
                    net.bound[net.key(address)].close()
                    up = False
                    ctx.fault('peer down')
                elif not up and op[1]:
                    new_receiver()
                    up = True
        # Faults stop
        net.sendFaults, net.recvFaults = {}, {}
        if not up:
            new_receiver()
            up = True
        serial += 1
        last = objects.build(['note', 'freq', 60, 1., float(serial)])
        if value:
            src.output.set_value(last)
        else:
            src.output.send(last)
        tx.update()
        world.now += .01
        cycle()
        cycle()
        expected.append(['must', last])
        self.compare(sc, expected, got, ctx)
        ctx.log('got', *[objects.brief(g) for g in got[:50]])
        ctx.simTime += world.now
        ctx.nontrivial = bool(ctx.faults) and len(got) > 1
        ctx.state(sorted(ctx.faults), len(got))

    def compare(self, sc, expected, got, ctx):
        # Sent messages are identified by serial number
        serials = self.serials(sc)
        entries = []
        for e in expected:
            if len(e) == 3:
                entries.append([e[0], serials[e[2]]])
            else:
                entries.append(e)
        # All ways to explain what was delivered: states are positions in got
        states = {0}
        for mode, obj in entries:
            after = set()
            for j in states:
                match = j < len(got) and mode != 'never' and (mode == 'wild' or objects.same(obj, got[j]))
                if match:
                    after.add(j + 1)
                if mode != 'must':
                    after.add(j)
            j = max(states)
            ctx.check(after, 'lost', 'object %s was not delivered in its place, got %s' % (
                objects.brief(obj), objects.brief(got[j]) if j < len(got) else 'nothing'))
            states = after
        j = max(states)
        ctx.check(j == len(got), 'invented', 'delivered in addition: %s' % [objects.brief(g) for g in got[j:j + 5]])

    def serials(self, sc):
        """Objects by serial number, as numbered while executing."""
        ret = {}
        serial = 0
        for op in sc['ops']:
            specs = []
            if op[0] == 'datagram':
                specs = [p[1] for p in op[1] if p[0] != 'bad']
            elif op[0] == 'send':
                specs = op[1]
            for spec in specs:
                serial += 1
                ret[serial] = numbered(spec, serial)
        return ret


PROP = P05()
