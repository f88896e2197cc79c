"""P02: consistency of connections under any patching history."""
from klangsim.core import is_sim_fault, sim_fault
from klangsim.runner import Property
from klangsim.sched import Scheduler

KINDS = 'ORIMSN'
"""Value output, relay, input, message output, relay, input."""
IS_OUT = 'ORMS'
IS_IN = 'RISN'


class P02(Property):
    id = 'P02'
    batch = 250
    quick_runs = 24000
    quick_seconds = 45
    thorough_runs = 300000
    rule = ('A run plays a random history of connect, disconnect, pipe, mix, write, unpatch requests (valid and '
            'invalid, from either end) on a pool of connectables and blocks and compares every connection and '
            'value with a reference model after each step; or one thread patches and writes values while another one '
            'reads them, interleaved by a seeded schedule, and every value read has to be one the input had during the reading; '
            'non-trivial: at least one request was accepted and one rejected, or a preemption took place.')
    state_measure = 'distinct reference patches (sets of connections) and thread interleavings'
    real = ['klang.connections', 'klang.block', 'klang.audio.mixer', 'klang.composite.temporarily_unpatch']
    stubs = ['iteration order of connection sets', 'failing user code inside of unpatch contexts']
    assumptions = ['asked on a relay to connect with another relay, the asked one is the source',
                   'loops consisting of relays only have no value and are not read',
                  'one thread patches, threads are preempted at lines of klang code']
    shrink_lists = ('ops', 'pool', 'blocks', 'switches')

    def gen_threads(self, rng):
        n = rng.randint(2, 4)       # Chain: output, relays ..., input
        ops = [[rng.choice(['toggle', 'toggle', 'toggle', 'set', 'other']), rng.randrange(n)] for _ in range(rng.choice([3, 8, 20]))]
        return {'mode': 'threads', 'n': n, 'patched': rng.random() < .8, 'ops': ops, 'reads': rng.choice([3, 10, 30]), 'get': rng.random() < .3,
                'switches': sorted([rng.randint(1, rng.choice([40, 120, 400])), rng.randrange(2)] for _ in range(rng.randint(1, 10)))}

    def gen(self, rng, tier, index):
        if rng.random() < .15:
            return self.gen_threads(rng)
        pool = [rng.choice(KINDS) for _ in range(rng.randint(2, 10))]
        blocks = []
        for _ in range(rng.randint(1, 5)):
            blocks.append([rng.choice('bbbcm'), ''.join(rng.choice('OOOMR') for _ in range(rng.randint(0, 2))),
                           ''.join(rng.choice('IIINR') for _ in range(rng.randint(0, 3)))])
        ops = []
        kinds = ['connect'] * 9 + ['disconnect'] * 5 + ['pipe'] * 4 + ['mix', 'iadd', 'add', 'set', 'set', 'unpatch', 'bogus']
        for _ in range(rng.choice([4, 12, 30, 60])):
            ops.append([rng.choice(kinds), rng.randrange(1000), rng.randrange(1000), rng.randrange(4), rng.randrange(1000)])
        return {'pool': pool, 'blocks': blocks, 'ops': ops}

    def execute(self, sc, ctx, world):
        if sc.get('mode') == 'threads':
            return self.threads(sc, ctx, world)
        return self.sequential(sc, ctx, world)

    def threads(self, sc, ctx, world):
        """Reading while another thread patches."""
        from klang.connections import Input, Output, Relay
        sched = world.sched = Scheduler(ctx, sc['switches'])
        n = sc['n']
        chain = [Output()] + [Relay() for k in range(1, n - 1)] + [Input()]
        spare = Output()
        spare.set_value('spare')
        for k, c in enumerate(chain):
            c.set_value('v%d' % k)
        moment = 0
        # What every one held resp. was connected with: (from, until, what)
        held = [[[0, None, 'v%d' % k]] for k in range(n)]
        wired = [[[0, None, None]] for _ in chain]
        if sc['patched']:
            for k in range(1, n):
                chain[k - 1].connect(chain[k])
                wired[k][0][2] = k - 1

        def tick():
            nonlocal moment
            moment += 1
            return moment

        def change(history, call, what):
            begin = tick()
            call()
            history[-1][1] = tick()
            history.append([begin, None, what])

        def patcher():
            for k, (name, i) in enumerate(sc['ops']):
                if name == 'set':
                    change(held[i], lambda: chain[i].set_value('w%d' % k), 'w%d' % k)
                    continue
                if i == 0:
                    continue
                src = wired[i][-1][2]
                if src is not None:
                    old = chain[src] if src >= 0 else spare
                    change(wired[i], lambda: old.disconnect(chain[i]), None)
                elif name == 'toggle':
                    change(wired[i], lambda: chain[i - 1].connect(chain[i]), i - 1)
                else:
                    change(wired[i], lambda: spare.connect(chain[i]), -1)

        reads = []

        def reader():
            for k in range(sc['reads']):
                begin = tick()
                value = chain[-1].get_value() if sc['get'] else chain[-1].value
                reads.append((begin, tick(), value))

        def possible(i, begin, end):
            if i < 0:
                return {'spare'}
            ret = set()
            for a, b, src in wired[i]:
                if a < end and (b is None or b > begin):
                    if src is None:
                        ret |= {v for c, d, v in held[i] if c < end and (d is None or d > begin)}
                    else:
                        ret |= possible(src, begin, end)
            return ret

        sched.spawn('reader', reader)
        sched.spawn('patcher', patcher)
        try:
            sched.run(0)
        finally:
            world.sched = None
        ctx.log('reads', *[v for _, _, v in reads])
        for begin, end, value in reads:
            want = possible(n - 1, begin, end)
            ctx.check(value in want, 'wrong-value', 'read %r, should be one of %s', value, sorted(want))
        ctx.nontrivial = sched.taken > 0

    def sequential(self, sc, ctx, world):
        from klang import connections as con
        from klang import block as kb
        from klang.audio.mixer import Mixer, StereoMixer
        from klang.composite import Composite, temporarily_unpatch
        from klang.errors import KlangError
        make = {'O': con.Output, 'R': con.Relay, 'I': con.Input,
                'M': con.MessageOutput, 'S': con.MessageRelay, 'N': con.MessageInput}
        kindOf = {v: k for k, v in make.items()}
        cs = []       # all connectables
        tag = {}      # id -> index
        blocks = []
        self.source = source = {}   # Model: index of input -> index of output
        values = {}

        def adopt(c):
            tag[id(c)] = len(cs)
            cs.append(c)
            if hasattr(c, 'set_value'):
                values[tag[id(c)]] = (type(c)() if getattr(c, 'incomingConnection', None) else c).value
            return c

        def adopt_block(b):
            blocks.append(b)
            for c in list(b.inputs) + list(b.outputs):
                adopt(c)
            return b

        for k in sc['pool']:
            adopt(make[k]())
        for kind, outs, ins in sc['blocks']:
            if kind == 'm':
                b = (Mixer if len(outs) % 2 else StereoMixer)(nInputs=len(ins))
            else:
                b = kb.Block() if kind == 'b' else Composite()
                b.inputs = [make[k](owner=b) for k in ins]
                b.outputs = [make[k](owner=b) for k in outs]
            adopt_block(b)

        def kind(i):
            return kindOf[type(cs[i])]

        def is_out(i):
            return kind(i) in IS_OUT

        def is_in(i):
            return kind(i) in IS_IN

        def flavour(i):
            return kind(i) in 'ORI'

        def acceptable(o, i):
            return is_out(o) and is_in(i) and flavour(o) == flavour(i) and i not in source

        def relay_loop(o, i):
            """Would o -> i close a loop of relays only?"""
            while o is not None and kind(o) in 'RS':
                if o == i:
                    return True
                o = source.get(o)
            return False

        def check_all(what):
            for i, c in enumerate(cs):
                if is_in(i):
                    src = source.get(i)
                    got = c.incomingConnection
                    ctx.check(got is (cs[src] if src is not None else None), 'wrong-source',
                              'after %s: input %d has source %r, expected %r' % (what, i, got and tag.get(id(got)), src))
                    ctx.check(bool(c.connected) == (src is not None), 'connected-flag', 'after %s: input %d' % (what, i))
                if is_out(i):
                    want = sorted(k for k, v in source.items() if v == i)
                    got = sorted(tag.get(id(x), -1) for x in c.outgoingConnections)
                    ctx.check(got == want, 'wrong-destinations',
                              'after %s: output %d is connected with %s, expected %s' % (what, i, got, want))
                    if kind(i) in 'OM':
                        ctx.check(bool(c.connected) == bool(want), 'connected-flag', 'after %s: output %d' % (what, i))
            for i in values:
                j = i
                while kind(j) in 'RI' and j in source:
                    j = source[j]
                ctx.check(cs[i].value is values[j] and cs[i].get_value() is values[j], 'wrong-value',
                          'after %s: %s %d reads %r, source %d holds %r' % (what, kind(i), i, cs[i].value, j, values[j]))
            for b in blocks:
                ins = [(source[tag[id(x)]], tag[id(x)]) for x in b.inputs if tag[id(x)] in source
                       and cs[source[tag[id(x)]]].owner is not b]
                outs = sorted((tag[id(o)], k) for o in b.outputs for k, v in source.items()
                              if v == tag[id(o)] and cs[k].owner is not b)
                got = [(tag[id(s)], tag[id(d)]) for s, d in kb.input_connections(b)]
                ctx.check(got == ins, 'block-connections', 'after %s: incoming %s, expected %s' % (what, got, ins))
                got = sorted((tag[id(s)], tag[id(d)]) for s, d in kb.output_connections(b))
                ctx.check(got == outs, 'block-connections', 'after %s: outgoing %s, expected %s' % (what, got, outs))

        def request(what, call, ok, effect):
            """Accepted requests have their effect, others raise and have none."""
            try:
                ret = call()
            except (KlangError, TypeError, AttributeError, KeyError, ValueError) as err:
                ctx.check(not ok, 'refused', '%s was refused: %r', what, err)
                ctx.count('rejected')
                return None
            ctx.check(ok, 'not-refused', '%s was not refused' % what)
            ctx.count('accepted')
            effect()
            return ret

        def pick(n):
            return n % len(cs) if cs else None

        seen = set()
        for name, a, b, way, x in sc['ops']:
            what = '%s %s %s %s' % (name, a, b, way)
            if name in ('connect', 'disconnect') and cs:
                o, i = pick(a), pick(b)
                if way < 2:
                    # Make sensible requests likely
                    outs = [k for k in range(len(cs)) if is_out(k)]
                    if not outs:
                        continue
                    o = outs[a % len(outs)]
                    ins = [k for k in range(len(cs)) if is_in(k) and flavour(k) == flavour(o)]
                    if name == 'disconnect' and way == 0:
                        ins = [k for k in ins if source.get(k) == o] or ins
                    if not ins:
                        continue
                    i = ins[b % len(ins)]
                asked, other = (o, i) if x % 2 else (i, o)
                # Direction: a relay asked to connect with something input-like is the source
                if kind(asked) in 'RS' and is_in(other):
                    s, d = asked, other
                elif is_out(asked) and kind(asked) not in 'RS':
                    s, d = asked, other
                else:
                    s, d = other, asked
                what = '%s %s%d.%s(%s%d)' % (name, kind(asked), asked, name, kind(other), other)
                if name == 'connect':
                    ok = acceptable(s, d)
                    if ok and relay_loop(s, d):
                        continue
                    request(what, lambda: cs[asked].connect(cs[other]), ok, lambda: source.__setitem__(d, s))
                else:
                    ok = source.get(d) == s and is_in(d)
                    request(what, lambda: cs[asked].disconnect(cs[other]), ok, lambda: source.pop(d))
            elif name == 'pipe':
                # block | block, output | block, block | input
                lb, rb = blocks[a % len(blocks)], blocks[b % len(blocks)]
                left, right = lb, rb
                lo = lb.outputs[0] if lb.outputs else None
                ri = rb.inputs[0] if rb.inputs else None
                if way == 1:
                    outs = [c for k, c in enumerate(cs) if is_out(k)]
                    if not outs:
                        continue
                    left = lo = outs[x % len(outs)]
                elif way == 2:
                    ins = [c for k, c in enumerate(cs) if is_in(k)]
                    if not ins:
                        continue
                    right = ri = ins[x % len(ins)]
                ok = lo is not None and ri is not None and is_out(tag[id(lo)]) and is_in(tag[id(ri)]) and \
                    acceptable(tag[id(lo)], tag[id(ri)])
                if ok and relay_loop(tag[id(lo)], tag[id(ri)]):
                    continue
                what = 'pipe %s | %s' % (type(left).__name__, type(right).__name__)
                ret = request(what, lambda: left | right, ok, lambda: source.__setitem__(tag[id(ri)], tag[id(lo)]))
                if ok:
                    ctx.check(ret is ri.owner, 'wrong-result', '%s returned %r' % (what, ret))
            elif name in ('mix', 'iadd', 'add'):
                lb, rb = blocks[a % len(blocks)], blocks[b % len(blocks)]
                right = rb
                if way == 1:
                    right = cs[x % len(cs)]
                ro = (rb.outputs[0] if rb.outputs else None) if right is rb else right
                if lb is right:
                    continue
                if isinstance(lb, Mixer):
                    n = lb.nInputs
                    ok = ro is not None and kind(tag[id(ro)]) in 'OR'
                    if not ok and ro is not None and not is_out(tag[id(ro)]):
                        ok = False

                    def effect():
                        i = tag[id(adopt(lb.inputs[-1]))]
                        source[i] = tag[id(ro)]

                    if name == 'iadd':
                        ret = request('mixer += x', lambda: lb.__iadd__(right), ok, effect)
                    else:
                        ret = request('mixer + x', lambda: lb + right, ok, effect)
                    ctx.check(lb.nInputs == n + (1 if ok else 0) == len(lb.gains), 'mixer-channels',
                              'mixer has %d channels and %d gains, had %d' % (lb.nInputs, len(lb.gains), n))
                    if isinstance(lb, StereoMixer):
                        ctx.check(len(lb.pannings) == lb.nInputs, 'mixer-channels', 'pannings')
                    if ok:
                        ctx.check(ret is lb, 'wrong-result', 'mixer + x is another mixer')
                    what = 'add to mixer'
                else:
                    lo = lb.outputs[0] if lb.outputs else None
                    if isinstance(right, Mixer):
                        continue   # Returns another mixer: covered by name above
                    ok = lo is not None and ro is not None and kind(tag[id(lo)]) == 'O' and kind(tag[id(ro)]) == 'O'
                    if not ok and all(z is not None and kind(tag[id(z)]) in 'OR' for z in (lo, ro)):
                        continue   # Relays: whether a composite can be mixed is left open
                    made = []

                    def effect2():
                        pass

                    ret = request('x + y', lambda: lb + right, ok, effect2)
                    if ok:
                        ctx.check(type(ret) is Mixer and ret.nInputs == 2, 'wrong-result', 'x + y returned %r' % (ret,))
                        adopt_block(ret)
                        source[tag[id(ret.inputs[0])]] = tag[id(lo)]
                        source[tag[id(ret.inputs[1])]] = tag[id(ro)]
                    what = 'x + y'
            elif name == 'set':
                ids = sorted(values)
                if not ids:
                    continue
                i = ids[a % len(ids)]
                v = float(b) if way else [b]
                if way == 1:
                    cs[i].value = v
                else:
                    cs[i].set_value(v)
                values[i] = v
            elif name == 'unpatch':
                bl = blocks[a % len(blocks)]
                mine = {d: s for d, s in source.items()
                        if (cs[d].owner is bl) != (cs[s].owner is bl)}
                before = dict(source)
                boom = way == 1

                def body():
                    with temporarily_unpatch(bl):
                        for d in mine:
                            if any(cs[d] is z for z in bl.inputs) or any(cs[mine[d]] is z for z in bl.outputs):
                                del source[d]
                        check_all('unpatching')
                        if boom:
                            ctx.fault('exception inside of unpatch context')
                            raise sim_fault(RuntimeError('boom'))

                try:
                    body()
                except RuntimeError as err:
                    if not is_sim_fault(err):
                        raise
                source.clear()
                source.update(before)
                what = 'unpatch'
            elif name == 'bogus' and cs:
                c = cs[pick(a)]
                other = [None, 3, 'x', object()][way]
                request('connect with %r' % type(other).__name__, lambda: c.connect(other), False, None)
                try:
                    c.disconnect(other)
                except Exception:  # pylint: disable=broad-except
                    pass
            check_all(what)
            seen.add(name)
            ctx.log(what, len(source))
            ctx.state(sorted(source.items()))
        ctx.nontrivial = ctx.counts.get('accepted', 0) > 0 and ctx.counts.get('rejected', 0) > 0


PROP = P02()
