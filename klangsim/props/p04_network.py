"""P04: fidelity of the network blocks over a faulty network."""
import os
import shutil
import tempfile

from klangsim import objects
from klangsim.devices.fs import SCRATCH
from klangsim.devices.net import SimNet
from klangsim.runner import Property

ADDRESSES = [('127.0.0.1', 4711), 'klang.sock', ('127.0.0.1', 9000)]


class P04(Property):
    id = 'P04'
    batch = 250
    quick_runs = 10000
    quick_seconds = 45
    thorough_runs = 80000
    rule = ('A run lets sending patches (value and message blocks) and receiving patches cycle in a seeded order over '
            'a simulated network that loses, duplicates, reorders and delays datagrams, and compares every object '
            'delivered with the object sent; non-trivial: at least one object was delivered.')
    state_measure = 'distinct (delivery pattern per receiver cycle) sequences'
    real = ['klang.network', 'klang.messages', 'klang.connections', 'klang.execution']
    stubs = ['sockets and network (SimNet)', 'clock']
    assumptions = ['no corruption of datagrams by the network (UDP checksum)', 'objects fit one datagram',
                   'JSON objects with the reserved type tags Note and ndarray are not sent as plain JSON']
    shrink_lists = ('ops', 'net')

    def gen(self, rng, tier, index):
        nPairs = rng.choice([1, 1, 2, 3])
        pairs = [[rng.choice(['value', 'message']), k] for k in range(nPairs)]
        ops = []
        calm = rng.random() < .3
        for _ in range(rng.choice([3, 8, 25, 60])):
            u = rng.random()
            if u < .45:
                p = rng.randrange(nPairs)
                n = 1 if pairs[p][0] == 'value' else rng.choice([0, 1, 1, 2, 3, 8, 30 if rng.random() < .2 else 1])
                ops.append(['tx', p, [objects.gen_object(rng) for _ in range(n)]])
            elif u < .85:
                ops.append(['rx', rng.randrange(nPairs)])
            elif u < .97:
                ops.append(['advance', rng.choice([1e-5, .002, .005805, .05, 1.])])
            else:
                ops.append(['partition', rng.randrange(2)])
        net = []
        if not calm:
            for _ in range(rng.choice([5, 20, 100])):
                fate = [int(rng.random() < .2)]
                fate.append(rng.choice([0., 0., 0., .001, .006, .02, .5]))
                while rng.random() < .15:
                    fate.append(rng.choice([0., .001, .02]))
                net.append(fate)
        return {'pairs': pairs, 'ops': ops, 'net': net, 'plan': [rng.randrange(4) for _ in pairs]}

    def execute(self, sc, ctx, world):
        # Socket files are real, the sockets behind them are not
        folder = tempfile.mkdtemp(prefix='klangsim-', dir=SCRATCH)
        try:
            return self.simulate(sc, ctx, world, folder)
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    def simulate(self, sc, ctx, world, folder):
        from klang.block import Block
        from klang.connections import MessageOutput, MessageInput
        from klang.execution import determine_execution_order, execute
        from klang.network import NetworkIn, NetworkOut, NetworkMessageIn, NetworkMessageOut
        net = world.net = SimNet(ctx, world, sc['net'])

        class Source(Block):
            def __init__(self, value):
                super().__init__(nOutputs=1 if value else 0)
                self.todo = []
                if not value:
                    self.outputs = [MessageOutput(owner=self)]

            def update(self):
                for obj in self.todo:
                    if isinstance(self.output, MessageOutput):
                        self.output.send(obj)
                    else:
                        self.output.set_value(obj)

        class Sink(Block):
            def __init__(self, value):
                super().__init__(nInputs=1 if value else 0)
                self.seen = []
                if not value:
                    self.inputs = [MessageInput(owner=self)]

            def update(self):
                if isinstance(self.input, MessageInput):
                    self.seen.extend(self.input.receive())
                else:
                    self.seen.append(self.input.value)

        pairs = []
        for kind, a in sc['pairs']:
            value = kind == 'value'
            address = ADDRESSES[a]
            if isinstance(address, str):
                address = os.path.join(folder, address)
            rx = (NetworkIn if value else NetworkMessageIn)(address)
            tx = (NetworkOut if value else NetworkMessageOut)(address)
            src, sink = Source(value), Sink(value)
            src | tx
            rx | sink
            ends = sc['plan'][a % len(sc['plan'])] if sc.get('plan') else 0   # Planned from either block
            pairs.append(dict(value=value, src=src, sink=sink, tx=determine_execution_order([src if ends & 1 else tx]),
                              rx=determine_execution_order([sink if ends & 2 else rx]), address=net.key(address), arrived=[], last=None,
                              initial=rx.output.value if value else None, has=False, n=0, prev=None))
        byNumber = {}
        byAddress = {p['address']: p for p in pairs}

        def on_deliver(address, nr):
            byAddress[address]['arrived'].append(byNumber[nr])

        net.onDeliver = on_deliver
        delivered = 0

        def receive(p):
            nonlocal delivered
            p['sink'].seen = []
            world.now += 1e-6
            execute(p['rx'])
            # Everything which arrived up to now was received
            want, p['arrived'] = p['arrived'], []
            seen = p['sink'].seen
            pending = net.bound[p['address']].rx
            ctx.check(not pending, 'left-behind', '%d datagrams not received within the cycle' % len(pending))
            delivered += len(want)
            ctx.log('rx', len(want), *[objects.brief(x) for x in seen[:20]])
            ctx.state('rx', p['value'], p['n'], len(want))
            if p['value']:
                if want:
                    p['last'], p['has'] = want[-1], True
                if p['has']:
                    ctx.check(objects.same(p['last'], seen[0]), 'wrong-value', 'value receiver shows %s, last arrived %s' % (
                        objects.brief(seen[0]), objects.brief(p['last'])))
                else:
                    ctx.check(seen[0] is p['initial'], 'wrong-value', 'value changed though nothing arrived')
            else:
                # Queue between receiver and sink drops the oldest beyond its limit
                n = len(want)
                want = want[-50:]
                ctx.check(len(seen) == len(want), 'wrong-count', '%d messages received, %d datagrams arrived' % (len(seen), n))
                for a, b in zip(want, seen):
                    ctx.check(objects.same(a, b), 'wrong-object', 'sent %s, received %s' % (objects.brief(a), objects.brief(b)))

        for op in sc['ops']:
            if op[0] == 'advance':
                world.now += op[1]
            elif op[0] == 'partition':
                net.partitioned = bool(op[1])
            elif op[0] == 'tx':
                p = pairs[op[1] % len(pairs)]
                objs = [objects.build(s) for s in op[2]][:50]
                p['src'].todo = objs
                first = net.nSent
                before = [objects.brief(o) for o in objs]
                if p['value']:
                    if not objs and p['prev'] is None:
                        continue
                    objs = objs[-1:] or [p['prev']]
                    p['prev'] = objs[0]
                # Numbers are given in sending order
                for i, o in enumerate(objs):
                    byNumber[first + i] = o
                execute(p['tx'])
                ctx.check(net.nSent - first == len(objs), 'wrong-count', '%d objects were sent in %d datagrams' % (
                    len(objs), net.nSent - first))
                p['n'] += 1
                ctx.log('tx', *before[:20])
            else:
                receive(pairs[op[1] % len(pairs)])
        # Faults stop: what is sent now arrives with the next cycle
        net.partitioned = False
        net.fates = []
        world.now += 5.
        for p in pairs:
            receive(p)
        for k, p in enumerate(pairs):
            obj = objects.build(['note', 'plain', 60 + k, .5, 0.])
            p['src'].todo = [obj]
            byNumber[net.nSent] = obj
            execute(p['tx'])
            world.now += .001
            n = delivered
            receive(p)
            ctx.check(delivered == n + 1, 'no-recovery', 'message sent after all faults did not arrive')
        ctx.simTime += world.now
        ctx.nontrivial = delivered > len(pairs)


PROP = P04()
