"""P03: message delivery, sequential histories and threads."""
import random

from klangsim.runner import Property
from klangsim.sched import Scheduler


class Msg:

    """Message without any equality, identified by its number."""

    def __init__(self, nr):
        self.nr = nr

    def __repr__(self):
        return 'm%d' % self.nr


def payload(kind, nr):
    """All kinds of messages. Falsy and equal ones included."""
    return [Msg(nr), 0, '', (), [], {}, False, 'x', nr, (nr,), 0., b''][kind]


class P03(Property):
    id = 'P03'
    batch = 250
    quick_runs = 32000
    quick_seconds = 45
    thorough_runs = 150000
    rule = ('A run either plays a random history of sends, (partial) receptions and rewirings over random trees of '
            'outputs, relays and inputs against a reference queue per input, or interleaves sending threads with '
            'a receiving thread by a seeded schedule; non-trivial: at least one message was received.')
    state_measure = 'distinct thread interleavings (sequences of context switches) and queue fill histories'
    real = ['klang.connections']
    stubs = ['thread scheduling', 'iteration order of connection sets']
    assumptions = ['one receiver per message input', 'a single deque operation is atomic (CPython and PyPy)',
                   'threads are preempted at lines of klang code and at queue operations']
    shrink_lists = ('ops', 'switches', 'edges', 'burst')

    def gen(self, rng, tier, index):
        if rng.random() < .55:
            return self.gen_threads(rng)
        nOut, nRel, nIn = rng.randint(1, 3), rng.randint(0, 4), rng.randint(1, 5)
        if rng.random() < .05:
            nRel, nIn = rng.randint(4, 12), rng.randint(5, 24)
        names = ['o%d' % i for i in range(nOut)] + ['r%d' % i for i in range(nRel)]
        edges = []
        for i in range(nRel):
            src = names[rng.randrange(nOut + i)]
            edges.append([src, 'r%d' % i])
        for i in range(nIn):
            if rng.random() < .9:
                edges.append([rng.choice(names), 'i%d' % i])
        ops = []
        big = rng.random() < .25
        for _ in range(rng.choice([3, 10, 30, 80]) if rng.random() < .98 else 600):
            u = rng.random()
            if u < .45:
                n = rng.choice([1, 1, 2, 5]) if not big else rng.choice([1, 20, 49, 50, 51, 60, 120])
                ops.append(['send', rng.randrange(nOut), n, rng.randrange(12)])
            elif u < .6:
                ops.append(['receive', rng.randrange(nIn), -1])
            elif u < .75:
                ops.append(['receive', rng.randrange(nIn), rng.randint(0, 60 if big else 4)])
            elif u < .87:
                ops.append(['latest', rng.randrange(nIn)])
            elif u < .93:
                ops.append(['interleave', rng.randrange(nIn), rng.randint(1, 5), rng.randrange(nOut)])
            else:
                ops.append(['rewire', rng.randrange(nIn), rng.choice(names)])
        return {'mode': 'sequential', 'nOut': nOut, 'nRel': nRel, 'nIn': nIn, 'edges': edges, 'ops': ops}

    def gen_threads(self, rng):
        nSenders = rng.choice([1, 1, 2])
        kind = rng.choice(['all', 'latest', 'mixed', 'partial'])
        limit = 48 // nSenders
        burst = [[rng.choice([1, 1, 2, 3, 5]) for _ in range(rng.randint(1, 6))] for _ in range(nSenders)]
        if rng.random() < .12 and nSenders == 1:
            burst = [[rng.choice([30, 51, 60, 80])] + burst[0]]
        elif sum(burst[0]) > limit:
            burst = [b[:3] for b in burst]
        nSwitch = rng.randint(1, 8)
        span = rng.choice([40, 120, 400, 1200])
        return {'mode': 'threads', 'kind': kind, 'burst': burst, 'cycles': rng.randint(1, 8),
                'relays': rng.choice([0, 0, 1, 2]), 'extra': rng.randint(0, 2), 'first': rng.randrange(3),
                'volatile': [rng.choice(['out', 'last', 'relay']) for _ in range(rng.choice([0, 0, 1, 2]))],
                'patching': [rng.randrange(2) for _ in range(rng.choice([2, 5, 12]))],
                'switches': sorted([rng.randint(1, span), rng.randrange(4)] for _ in range(nSwitch))}

    def execute(self, sc, ctx, world):
        if sc['mode'] == 'sequential':
            self.sequential(sc, ctx)
        else:
            self.threads(sc, ctx, world)

    def sequential(self, sc, ctx):
        from klang.connections import MessageInput, MessageOutput, MessageRelay
        limit = 50
        nodes = {}
        for i in range(sc['nOut']):
            nodes['o%d' % i] = MessageOutput()
        for i in range(sc['nRel']):
            nodes['r%d' % i] = MessageRelay()
        for i in range(sc['nIn']):
            nodes['i%d' % i] = MessageInput()
        source = {}
        for s, d in sc['edges']:
            if s in nodes and d in nodes and d not in source:
                nodes[s].connect(nodes[d])
                source[d] = s
        queues = {'i%d' % i: [] for i in range(sc['nIn'])}
        dropped = {}
        received = 0
        nr = 0

        def root(name):
            while name in source:
                name = source[name]
            return name

        def send(out, kind):
            nonlocal nr
            nr += 1
            msg = payload(kind, nr)
            nodes[out].send(msg)
            for name, q in queues.items():
                if root(name) == out:
                    q.append(msg)
                    if len(q) > limit:
                        q.pop(0)
                        dropped[name] = dropped.get(name, 0) + 1
                        ctx.count('dropped oldest')

        for op in sc['ops']:
            if op[0] == 'send':
                for _ in range(op[2]):
                    send('o%d' % op[1], op[3])
                ctx.log('send', op[1], op[2])
                continue
            name = 'i%d' % op[1]
            inp, q = nodes[name], queues[name]
            if op[0] == 'receive':
                got = []
                it = inp.receive()
                while op[2] < 0 or len(got) < op[2]:
                    try:
                        got.append(next(it))
                    except StopIteration:
                        break
                want = q[:] if op[2] < 0 else q[:op[2]]
                ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'wrong-messages',
                          '%s received %r, expected %r' % (name, got[:60], want[:60]))
                del q[:len(want)]
                received += len(got)
                ctx.log('receive', name, len(got))
                del it
            elif op[0] == 'latest':
                got = inp.receive_latest()
                want = q[-1] if q else None
                ctx.check(got is want, 'wrong-latest', '%s received %r, expected %r' % (name, got, want))
                received += len(q)
                q.clear()
                ctx.log('latest', name)
            elif op[0] == 'interleave':
                # Messages sent while a reception is in progress
                it = iter(inp.receive())
                out = 'o%d' % op[3]
                fresh = 0
                for k in range(500):
                    if k < op[2]:
                        before = len(q)
                        send(out, 0)
                        if root(name) == out:
                            fresh += 1
                    try:
                        msg = next(it)
                    except StopIteration:
                        ctx.check(len(q) <= fresh, 'lost', '%s: reception ended with %d messages pending' % (name, len(q)))
                        break
                    ctx.check(q and msg is q[0], 'wrong-messages', '%s received %r, expected %r' % (name, msg, q[:1]))
                    q.pop(0)
                    received += 1
                ctx.log('interleave', name)
            elif op[0] == 'rewire':
                if name in source:
                    if op[1] % 2:
                        nodes[source[name]].disconnect(inp)
                    else:
                        inp.disconnect(nodes[source[name]])
                    del source[name]
                if op[2] in nodes:
                    nodes[op[2]].connect(inp)
                    source[name] = op[2]
                ctx.log('rewire', name, op[2])
            ctx.state('seq', *(str(min(len(queues[k]), 51)) for k in sorted(queues)))
        for name, q in queues.items():
            got = list(nodes[name].receive())
            ctx.check(len(got) == len(q) and all(a is b for a, b in zip(got, q)), 'wrong-messages',
                      'finally %s received %r, expected %r' % (name, got[:60], q[:60]))
            received += len(got)
        ctx.nontrivial = received > 0

    def threads(self, sc, ctx, world):
        from klang.connections import MessageInput, MessageOutput, MessageRelay
        sched = world.sched = Scheduler(ctx, sc['switches'])
        out = MessageOutput()
        last = out
        for _ in range(sc['relays']):
            relay = MessageRelay()
            last.connect(relay)
            last = relay
        inputs = [MessageInput() for _ in range(1 + sc['extra'])]
        for inp in inputs:
            last.connect(inp)
        inp = inputs[0]
        # Inputs which another thread connects and disconnects
        volatile = []
        for at in sc.get('volatile', ()):
            end = MessageInput()
            src, dst = last, end
            if at == 'out':
                src = out
            elif at == 'relay':
                dst = MessageRelay()
                dst.connect(end)
            volatile.append(dict(src=src, dst=dst, end=end, on=False, log=[]))
        moment = 0

        def tick():
            nonlocal moment
            moment += 1
            return moment

        def patcher():
            for k, i in enumerate(sc['patching']):
                v = volatile[i % len(volatile)]
                begin = tick()
                if v['on']:
                    v['src'].disconnect(v['dst'])
                else:
                    v['src'].connect(v['dst'])
                v['on'] = not v['on']
                v['log'].append((begin, tick(), v['on']))
                if k % 3 == 0:
                    sched.yield_point('patched')

        got = []
        sent = []
        span = {}
        nSenders = len(sc['burst'])
        total = sum(map(sum, sc['burst']))

        def sender(k):
            def run():
                nr = 0
                for n in sc['burst'][k]:
                    for _ in range(n):
                        nr += 1
                        sent.append((k, nr))
                        begin = tick()
                        out.send((k, nr))
                        span[k, nr] = begin, tick()
                    sched.yield_point('pause')
            return run

        def take(inp, got, kind, cycle):
            if kind == 'latest' or kind == 'mixed' and cycle % 2:
                msg = inp.receive_latest()
                if msg is not None:
                    got.append((msg, True))
            elif kind == 'partial':
                for i, msg in enumerate(inp.receive()):
                    got.append((msg, False))
                    if i == 1:
                        break
            else:
                for msg in inp.receive():
                    got.append((msg, False))

        def receiver():
            for cycle in range(sc['cycles']):
                take(inp, got, sc['kind'], cycle)
                sched.yield_point('cycle')

        for k in range(nSenders):
            sched.spawn('s%d' % k, sender(k))
        sched.spawn('rx', receiver)
        if volatile:
            sched.spawn('patcher', patcher)
        try:
            sched.run(sc['first'])
        finally:
            world.sched = None
        take(inp, got, sc['kind'] if sc['kind'] in ('all', 'latest') else 'all', 1)
        ctx.log('got', repr([m for m, _ in got]))
        msgs = [m for m, _ in got]
        ctx.check(len(set(msgs)) == len(msgs), 'duplicated', 'received twice: %r' % (msgs,))
        ctx.check(all(m in sent for m in msgs), 'invented', 'received %r' % (msgs,))
        for k in range(nSenders):
            nrs = [nr for s, nr in msgs if s == k]
            ctx.check(nrs == sorted(nrs), 'reordered', 'messages of sender %d out of order: %r' % (k, nrs))
        if sc['kind'] in ('all', 'partial'):
            rest = set(sent) - set(msgs)
            for s, nr in sorted(rest):
                later = sum(sc['burst'][s]) - nr
                ctx.check(total > 50 and (nSenders > 1 or later >= 50), 'lost',
                          'message %d of sender %d was lost (%d sent): %r' % (nr, s, total, msgs))
        else:
            finals = [(k, sum(sc['burst'][k])) for k in range(nSenders)]
            ctx.check(msgs and msgs[-1] in finals, 'newest-lost',
                      'the newest message (one of %r) was never received: %r' % (finals, msgs))
        for other in inputs[1:]:   # Nobody received here while sending
            rest = list(other.receive())
            ctx.check(len(rest) == min(50, total), 'lost', 'bystander got %d of %d' % (len(rest), total))
            for k in range(nSenders):
                nrs = [nr for s, nr in rest if s == k]
                ctx.check(nrs == sorted(nrs) and len(set(nrs)) == len(nrs), 'reordered', repr(nrs))
        for v in volatile:
            rest = list(v['end'].receive())
            ctx.check(len(set(rest)) == len(rest), 'duplicated', 'received twice: %r' % (rest,))
            for k in range(nSenders):
                nrs = [nr for s, nr in rest if s == k]
                ctx.check(nrs == sorted(nrs), 'reordered', 'messages of sender %d out of order: %r' % (k, nrs))
            for msg, (begin, end) in sorted(span.items()):
                on = False
                states = set()      # In which it might have been sent
                for b, e, now in v['log']:
                    if e < begin:
                        on = now
                    elif b < end:
                        states |= {now, not now}
                if not states:
                    states = {on}
                if total <= 50:
                    ctx.check((msg in rest) in states, 'lost' if True in states else 'invented',
                              'message %r was %sreceived while being %sconnected' % (msg, '' if msg in rest else 'not ', '' if True in states else 'not '))
                else:
                    ctx.check(msg not in rest or True in states, 'invented', 'message %r was received while not being connected' % (msg,))
        ctx.nontrivial = len(msgs) > 0 and sched.taken > 0


PROP = P03()
