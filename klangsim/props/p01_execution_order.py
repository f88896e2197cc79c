"""P01: execution order of arbitrary patches, composites and replanning."""
import random
import sys

from klangsim.core import StopRun, sim_fault
from klangsim.runner import Property
from klangsim.sched import Scheduler


def gen_net(rng, prefix, depth, size, rin=0, rout=0):
    """Random (sub) network. Edges are lists [src, dst, kind]; '<i' / '>i' are
    the in- and output relays of the enclosing composite, 'c:i' relay i of the
    composite c."""
    nodes = []
    names = []
    for i in range(size):
        name = '%s%d' % (prefix, i)
        names.append(name)
        if depth > 0 and rng.random() < .3:
            nIn, nOut = rng.randint(0, 3), rng.randint(0, 3)
            if nIn + nOut == 0:
                nIn = 1
            sub = gen_net(rng, name + '_', depth - 1, rng.randint(1, 5), nIn, nOut)
            node = {'n': name, 'net': sub, 'rin': [rng.choice('vvm') for _ in range(nIn)],
                    'rout': [rng.choice('vvm') for _ in range(nOut)]}
            if rng.random() < .3:
                node['starts'] = [x['n'] for x in sub['nodes'] if rng.random() < .5]
            nodes.append(node)
        else:
            nodes.append({'n': name})
    shape = rng.choice(['random', 'random', 'dag', 'ring', 'dense', 'chain', 'star'])
    edges = []

    def end(i, out):
        node = nodes[i]
        if 'net' in node:
            n = len(node['rout'] if out else node['rin'])
            return '%s:%d' % (node['n'], rng.randrange(n)) if n else None
        return node['n']

    def add(i, j):
        s, d = end(i, True), end(j, False)
        if s and d:
            edges.append([s, d, rng.choice('vvm')])

    n = size
    order = list(range(n))
    rng.shuffle(order)
    if shape == 'chain' or shape == 'ring':
        for a, b in zip(order, order[1:]):
            add(a, b)
        if shape == 'ring':
            add(order[-1], order[0])
    elif shape == 'star':
        hub = order[0]
        for a in order[1:]:
            add(*((a, hub) if rng.random() < .5 else (hub, a)))
    density = {'random': .25, 'dag': .4, 'dense': .6, 'ring': .08, 'chain': .08, 'star': .05}[shape]
    density = min(density, 3. / max(1, n) if n > 12 else 1.)
    for a in range(n):
        for b in range(n):
            if shape == 'dag' and order.index(a) >= order.index(b):
                continue
            if rng.random() < density and (a != b or rng.random() < .2):
                add(a, b)
                if rng.random() < .15:
                    add(a, b)
    for k in range(rin):
        for _ in range(rng.choice([1, 1, 2, 3])):
            d = end(rng.randrange(n), False)
            if d:
                edges.append(['<%d' % k, d, 'r'])
    for k in range(rout):
        s = end(rng.randrange(n), True)
        if s:
            edges.append([s, '>%d' % k, 'r'])
    if rin and rout and rng.random() < .4:   # Insert point: output looped to input of the same composite
        edges.append(['>%d' % rng.randrange(rout), '<%d' % rng.randrange(rin), 'r'])
    if rin and rout and rng.random() < .1:
        edges.append(['<%d' % rng.randrange(rin), '>%d' % rng.randrange(rout), 'r'])
    rng.shuffle(edges)
    return {'nodes': nodes, 'edges': edges}


class Builder:

    """Build the real patch of a network description."""

    def __init__(self, ctx, via, bare=False):
        from klang.block import Block
        from klang.composite import Composite
        from klang import connections as con
        self.con = con
        self.ctx = ctx
        self.via = via
        self.bare = bare
        self.calls = []
        self.cycle = 0
        self.blocks = {}
        outer = self

        class Probe(Block):
            def __init__(self, name):
                super().__init__(name=name)
                self.feeds = []     # (input, kind, label)

            def update(self):
                outer.calls.append(self.name)
                for input_, kind, label in self.feeds:
                    if kind == 'v':
                        outer.seen.append((self.name, label, input_.value))
                    else:
                        outer.seen.append((self.name, label, list(input_.receive())))
                for k, out in enumerate(self.outputs):
                    stamp = (self.name, k, outer.cycle)
                    if isinstance(out, con.MessageOutput):
                        out.send(stamp)
                    else:
                        out.set_value(stamp)

        class Wrap(Composite):
            def update(self):
                outer.calls.append(self.name)
                super().update()

        self.Probe, self.Wrap = Probe, Wrap
        self.seen = []

    def connect(self, out, inp):
        # A loop of relays without any block has no value
        up = out
        while isinstance(up, self.con.RelayBase):
            if up is inp:
                return False
            up = up.incomingConnection
        try:
            # Two relays: the one asked is the source
            if self.via.random() < .5 or isinstance(out, self.con.RelayBase):
                out.connect(inp)
            else:
                inp.connect(out)
        except (self.con.InputAlreadyConnected, self.con.IncompatibleConnection):
            return False
        return True

    def build(self, net, parent=None):
        """Returns list of edges which were made."""
        con = self.con
        local = {}
        for node in net['nodes']:
            if 'net' in node:
                block = self.Wrap(name=node['n'])
                block.inputs = [(con.Relay if k == 'v' else con.MessageRelay)(owner=block) for k in node['rin']]
                block.outputs = [(con.Relay if k == 'v' else con.MessageRelay)(owner=block) for k in node['rout']]
            else:
                block = self.Probe(node['n'])
            local[node['n']] = block
            self.blocks[node['n']] = block
        made = []
        for src, dst, kind in net['edges']:
            out = self.endpoint(src, local, parent, True, kind)
            if out is None:
                continue
            if isinstance(out, con.MessageOutput) or isinstance(out, con.MessageRelay):
                kind = 'm'
            elif not isinstance(out, str):
                kind = 'v'
            inp = self.endpoint(dst, local, parent, False, kind)
            if inp is None:
                continue
            if isinstance(out, str):   # New probe output of the right kind
                block = local[out]
                if isinstance(inp, (con.MessageRelay, con.MessageInput)):
                    kind = 'm'
                elif isinstance(inp, con.Relay):
                    kind = 'v'
                out = self.output_of(block, kind)
            if isinstance(inp, str):
                block = local[inp]
                inp = con.Input(owner=block) if kind == 'v' else con.MessageInput(owner=block)
                if not self.connect(out, inp):
                    continue
                block.inputs.append(inp)
                block.feeds.append((inp, kind, len(block.feeds)))
                made.append([src, dst, kind, len(block.feeds) - 1])
            elif self.connect(out, inp):
                made.append([src, dst, kind, None])
        net['made'] = made
        for node in net['nodes']:
            if 'net' in node:
                self.build(node['net'], local[node['n']])
                for s, d, kind, feed in made:   # Insert points patched from outside
                    if ':' in s and ':' in d and s.split(':')[0] == d.split(':')[0] == node['n']:
                        node['net']['made'].append(['>' + s.split(':')[1], '<' + d.split(':')[1], kind, None])
                if self.bare:
                    self.attach_bare(local[node['n']])
                self.plan(node)
        if self.bare:
            for node in net['nodes']:
                if 'net' not in node:
                    self.attach_bare(local[node['n']])
        return made

    def attach_bare(self, block):
        """Connections which belong to no block (somebody listens in)."""
        con = self.con
        for c in block.inputs + block.outputs:
            if self.via.random() < .3:
                message = isinstance(c, (con.MessageRelay, con.MessageInput, con.MessageOutput))
                if isinstance(c, (con.OutputBase, con.RelayBase)):
                    c.connect(con.MessageInput() if message else con.Input())
                if isinstance(c, con.RelayBase) and not c.connected:
                    (con.MessageOutput() if message else con.Output()).connect(c)

    def plan(self, node):
        comp = self.blocks[node['n']]
        starts = [self.blocks[s] for s in node.get('starts', []) if s in self.blocks]
        comp.update_internal_exec_order(*starts)

    def output_of(self, block, kind):
        cls = self.con.Output if kind == 'v' else self.con.MessageOutput
        for out in block.outputs:
            if type(out) is cls and self.via.random() < .6:
                return out
        out = cls(owner=block)
        block.outputs.append(out)
        return out

    def endpoint(self, ref, local, parent, isOut, kind):
        """Relay object, or name of probe (connectable still to be made), or None."""
        if ref[0] in '<>':
            if parent is None:
                return None
            relays = parent.inputs if ref[0] == '<' else parent.outputs
            i = int(ref[1:])
            return relays[i] if i < len(relays) else None
        if ':' in ref:
            name, i = ref.split(':')
            block = local.get(name)
            if block is None:
                return None
            relays = block.outputs if isOut else block.inputs
            return relays[int(i)] if int(i) < len(relays) else None
        return ref if ref in local else None


def resolve(net):
    """Edges between the blocks of one level, insert points of the enclosing
    composite followed: list of (src, dst, feedIndex or None)."""
    made = net['made']
    outOf = {}
    for s, d, kind, feed in made:
        outOf.setdefault(s, []).append((d, feed))
    edges = []
    for s, d, kind, feed in made:
        if s[0] in '<>':
            continue
        stack = [(d, feed)]
        seen = set()
        while stack:
            x, f = stack.pop()
            if x in seen and f is None:
                continue
            seen.add(x)
            if x[0] in '<>':
                stack.extend(outOf.get(x, []))
            else:
                edges.append((s.split(':')[0], x.split(':')[0], f))
    return edges


def reach(net, starts, isTop):
    """Blocks expected to run: connected with the start blocks."""
    names = [n['n'] for n in net['nodes']]
    adj = {n: set() for n in names}
    adj['^'] = set()
    for s, d, _, _ in net['made']:
        a = '^' if s[0] in '<>' else s.split(':')[0]
        b = '^' if d[0] in '<>' else d.split(':')[0]
        adj[a].add(b)
        adj[b].add(a)

    def spread(todo, blocked):
        seen = set(blocked)
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(adj[x])
        seen.discard('^')
        return seen

    if starts and not isTop:
        # Blocks given explicitly: those only connected with them by way of the
        # relays of the composite may or may not belong to the network
        return spread(list(starts), ['^']), spread(list(starts), [])
    must = spread(list(starts) if starts else ['^'], [])
    return must, must


def reachability(names, edges):
    succ = {n: set() for n in names}
    for s, d, _ in edges:
        if s in succ and d in succ and s != d:
            succ[s].add(d)
    closure = {}
    for n in names:
        seen = set()
        todo = list(succ[n])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(succ[x])
        closure[n] = seen
    return succ, closure


LIBRARY = ['gain', 'tremolo', 'delay', 'stereo delay', 'splitter', 'combiner', 'filter', 'crusher', 'octave', 'tanh', 'shifter', 'transformer',
           'reverb', 'ring', 'phasor', 'oscillator', 'lfo', 'fm', 'pwm', 'chirper', 'adsr', 'ar', 'd', 'r', 'mixer', 'stereo mixer', 'hihat',
           'kick', 'mono', 'poly', 'voice', 'max', 'merge', 'lengthen', 'clock', 'rhythm', 'slicer', 'lookup', 'sequencer', 'arpeggiator']


def make_library_block(kind):
    from fractions import Fraction
    from klang import note_effects, sequencer
    from klang.arpeggiator import Arpeggiator
    from klang.audio import effects, envelopes, mixer, oscillators, sync, synthesizer
    from klang.audio.voices import Voice
    from klang.music.rhythm import MicroRhyhtm

    def voice():
        return Voice(oscillators.Oscillator(440.), envelopes.ADSR(.01, .1, .5, .1))

    return {
        'gain': lambda: effects.Gain(.5), 'tremolo': lambda: effects.Tremolo(), 'delay': lambda: effects.Delay(.01, .3),
        'stereo delay': lambda: effects.StereoDelay(.01, .02, .3, .2, .5), 'splitter': lambda: effects.AudioSplitter(2),
        'combiner': lambda: effects.AudioCombiner(2), 'filter': lambda: effects.Filter(frequency=1000.),
        'crusher': lambda: effects.Bitcrusher(8), 'octave': lambda: effects.OctaveDistortion(), 'tanh': lambda: effects.TanhDistortion(2.),
        'shifter': lambda: effects.PitchShifter(1.), 'transformer': lambda: effects.Transformer(1., 0.), 'reverb': lambda: effects.Reverb(1., .01, .5),
        'ring': lambda: effects.RingModulator(), 'phasor': lambda: oscillators.Phasor(), 'oscillator': lambda: oscillators.Oscillator(),
        'lfo': lambda: oscillators.Lfo(), 'fm': lambda: oscillators.FmOscillator(), 'pwm': lambda: oscillators.PwmOscillator(),
        'chirper': lambda: oscillators.Chirper(100., 1., 1000.), 'adsr': lambda: envelopes.ADSR(.01, .1, .5, .1), 'ar': lambda: envelopes.AR(.1, .1),
        'd': lambda: envelopes.D(.1), 'r': lambda: envelopes.R(.1), 'mixer': lambda: mixer.Mixer(3), 'stereo mixer': lambda: mixer.StereoMixer(3),
        'hihat': lambda: synthesizer.HiHat(), 'kick': lambda: synthesizer.Kick(), 'mono': lambda: synthesizer.MonophonicSynthesizer(voice()),
        'poly': lambda: synthesizer.PolyphonicSynthesizer(voice()), 'voice': voice, 'max': lambda: note_effects.MaxNotes(3),
        'merge': lambda: note_effects.MessageMixer(3), 'lengthen': lambda: note_effects.NoteLengthener(.1), 'clock': lambda: sync.Clock(4.),
        'rhythm': lambda: MicroRhyhtm([Fraction(1, 16)] * 4), 'slicer': lambda: sequencer.PizzaSlicer(4), 'lookup': lambda: sequencer.PatternLookup([60, 0, 62]),
        'sequencer': lambda: sequencer.Sequencer([[60, 0], [50, 52, 0]]), 'arpeggiator': lambda: Arpeggiator(.1),
    }[kind]()


def audio_like(block, index, value):
    """Value for an input. Audio effects want whole buffers."""
    import numpy as np
    from klang.audio import effects
    wide = (effects.Delay, effects.AudioSplitter, effects.AudioCombiner, effects.Filter, effects.Reverb, effects.StereoDelay)
    if index == 0 and isinstance(block, wide) or isinstance(block, effects.AudioCombiner):
        return np.zeros((2, 256) if isinstance(block, (effects.AudioSplitter, effects.StereoDelay)) else 256)
    return value


class P01(Property):
    id = 'P01'
    batch = 250
    quick_runs = 24000
    quick_seconds = 45
    thorough_runs = 120000
    rule = ('A run builds one random patch (nested composites, value and message connections, loops, insert '
            'points) in random wiring order, drives it with run_klang for several cycles and compares order, '
            'counts and data seen with the graph; non-trivial: at least two connected blocks ran.')
    state_measure = 'distinct (patch shape, execution order) pairs'
    real = ['klang.execution', 'klang.graph', 'klang.block', 'klang.composite', 'klang.connections', 'klang.klang']
    stubs = ['block bodies (recording probes)', 'clock and sleep', 'iteration order of connection sets']
    assumptions = ['networks up to about 60 blocks and composites nested up to 3 deep']
    shrink_lists = ('nodes', 'edges', 'starts', 'replans', 'solo')
    shrink_numbers = {'cycles': 1}

    def gen(self, rng, tier, index):
        big = rng.random() < .08
        size = rng.randint(2, 8) if not big else rng.randint(15, 40) if rng.random() < .85 else rng.choice([64, 65, 130, 150, rng.randint(41, 280)])
        depth = rng.choice([0, 1, 1, 2, 3]) if rng.random() < .98 else rng.randint(4, 7)
        net = gen_net(rng, 'b', 0 if big else depth, size if depth < 4 else rng.randint(2, 4))
        names = [n['n'] for n in net['nodes']]
        starts = [rng.choice(names)]
        if rng.random() < .5:
            starts += [n for n in names if rng.random() < .3]
        replans = []
        if rng.random() < .5:
            for _ in range(rng.randint(1, 3)):
                replans.append([rng.randint(0, 4), rng.choice(['plain', 'interrupt', 'interrupt', 'oom']),
                                rng.randint(1, 120)])
        if rng.random() < .2:
            top = rng.choice([30, 100, 300, 1000, 3000])
            return {'net': net, 'starts': starts, 'cycles': rng.randint(1, 6), 'driver': 'threads', 'via': rng.randrange(1 << 30), 'bare': False,
                    'replans': [[rng.randint(0, 6), 'plain', 0] for _ in range(rng.randint(1, 4))], 'first': rng.randrange(2),
                    'switches': sorted([rng.randint(1, top), 0] for _ in range(rng.choice([1, 2, 3, 6, 12])))}
        if rng.random() < .25:
            return self.gen_library(rng)
        return {'net': net, 'starts': starts, 'cycles': rng.randint(1, 4), 'replans': replans,
                'driver': rng.choice(['loop', 'loop', 'offline']), 'via': rng.randrange(1 << 30), 'bare': rng.random() < .2}

    @staticmethod
    def gen_library(rng):
        """Blocks of the library and probes between them. An edge is
        [src, index of output, dst, index of input] (modulo what there is)."""
        if rng.random() < .4:
            return {'solo': [[rng.choice(LIBRARY), rng.randrange(60), rng.randrange(4)] for _ in range(12)], 'driver': 'solo', 'net': {'nodes': [], 'edges': []},
                    'starts': [], 'cycles': 1, 'via': 0, 'replans': []}
        names = ['L%d' % i for i in range(rng.randint(1, 6))]
        probes = ['p%d' % i for i in range(rng.randint(1, 5))]
        nodes = [{'n': n, 'k': rng.choice(LIBRARY)} for n in names] + [{'n': n} for n in probes]
        order = names + probes
        rng.shuffle(order)
        loops = rng.random() < .3
        density = rng.choice([.15, .15, .3, .7])
        edges = []
        for n in names:
            for i in range(5):
                if rng.random() < density:
                    edges.append([rng.choice(probes), 0, n, i])
                if rng.random() < density / 4:
                    edges.append([n, i, rng.choice(names), rng.randrange(2)])
                if i < 2 and rng.random() < density:
                    edges.append([n, i, rng.choice(probes), 0])
        for _ in range(rng.randint(0, 3)):
            edges.append([rng.choice(probes), 0, rng.choice(probes), 0])
        if not loops:
            edges = [e for e in edges if order.index(e[0]) < order.index(e[2])]
        rng.shuffle(edges)
        starts = [rng.choice(order)] + [n for n in order if rng.random() < .2]
        return {'net': {'nodes': nodes, 'edges': edges}, 'starts': starts, 'cycles': rng.randint(2, 3), 'driver': 'library',
                'via': rng.randrange(1 << 30), 'replans': []}

    def solo(self, sc, ctx):
        """A single connection with a block of the library, planned from either end."""
        from klang import connections as con
        from klang.block import Block
        from klang.execution import determine_execution_order
        for kind, end, how in sc['solo']:
            block = make_library_block(kind)
            ends = [(True, c) for c in block.inputs] + [(False, c) for c in block.outputs]
            feeding, c = ends[end % len(ends)]
            if feeding and c.connected:
                continue
            message = isinstance(c, (con.MessageInput, con.MessageRelay, con.MessageOutput))
            probe = Block()
            if feeding:
                other = (con.MessageOutput if message else con.Output)(owner=probe)
                probe.outputs.append(other)
                (other.connect(c) if how & 1 else c.connect(other))
            else:
                other = (con.MessageInput if message else con.Input)(owner=probe)
                probe.inputs.append(other)
                (c.connect(other) if how & 1 or isinstance(c, con.RelayBase) else other.connect(c))
            order = determine_execution_order([probe if how & 2 else block])
            want = [probe, block] if feeding else [block, probe]
            got = [x for x in order if x is probe or x is block]
            ctx.check(got == want, 'solo', '%s %d of %s patched: planned are %r, expected %r', 'input' if feeding else 'output',
                      (block.inputs if feeding else block.outputs).index(c), kind, got, want)
            ctx.state('solo', kind, end % len(ends), how)
        ctx.count('planned', len(sc['solo']))

    def library(self, sc, ctx, world):
        """Every input of every block of the library counts as a connection."""
        from klang import connections as con
        from klang.block import Block
        from klang.composite import Composite
        from klang.klang import run_klang
        rng = random.Random(sc['via'])
        calls = []
        named = {}

        class Glue(Block):
            def update(self):
                pass

        def watch(block, name):
            original = block.update

            def update():
                calls.append(name)
                original()

            block.update = update

        def parts(comp):
            """Blocks of a composite."""
            found = []
            for x in vars(comp).values():
                for y in x if isinstance(x, (list, tuple)) else [x]:
                    if isinstance(y, Block) and y not in found and y not in named.values():
                        found.append(y)
            return found

        composites = []     # (name, composite, its parts by name)

        def enter(block, name):
            named[name] = block
            watch(block, name)
            if isinstance(block, Composite):
                inner = {'%s/%d' % (name, i): x for i, x in enumerate(parts(block))}
                composites.append((name, block, inner))
                for n, x in inner.items():
                    enter(x, n)

        for node in sc['net']['nodes']:
            block = make_library_block(node['k']) if 'k' in node else Glue(name=node['n'])
            for j, c in enumerate(block.inputs):   # Not connected perhaps
                if not isinstance(c, (con.MessageInput, con.MessageRelay)):
                    c.set_value(audio_like(block, j, c.value))
            enter(block, node['n'])
        made = []
        for s, i, d, j in sc['net']['edges']:
            src, dst = named.get(s), named.get(d)
            if src is None or dst is None:
                continue
            if isinstance(src, Glue) and isinstance(dst, Glue):
                out, inp = con.Output(owner=src), con.Input(owner=dst)
                src.outputs.append(out)
                dst.inputs.append(inp)
            elif isinstance(src, Glue):
                if j >= len(dst.inputs) or dst.inputs[j].connected:
                    continue
                inp = dst.inputs[j]
                message = isinstance(inp, (con.MessageInput, con.MessageRelay))
                out = (con.MessageOutput if message else con.Output)(owner=src)
                if not message:
                    out.set_value(audio_like(dst, j, inp.value))
                src.outputs.append(out)
            elif isinstance(dst, Glue):
                if i >= len(src.outputs):
                    continue
                out = src.outputs[i]
                inp = (con.MessageInput if isinstance(out, (con.MessageOutput, con.MessageRelay)) else con.Input)(owner=dst)
                dst.inputs.append(inp)
            else:   # Among blocks of the library only messages fit for sure
                if i >= len(src.outputs) or j >= len(dst.inputs) or dst.inputs[j].connected:
                    continue
                out, inp = src.outputs[i], dst.inputs[j]
                if not isinstance(out, (con.MessageOutput, con.MessageRelay)) or not isinstance(inp, (con.MessageInput, con.MessageRelay)):
                    continue
            if rng.random() < .5 or isinstance(out, con.RelayBase):
                out.connect(inp)
            else:
                inp.connect(out)
            made.append([s, d, 'm', None])
        net = {'nodes': [{'n': n['n']} for n in sc['net']['nodes']], 'made': made}
        starts = [n for n in sc['starts'] if n in named]
        if not starts:
            ctx.nontrivial = False
            return
        cycles = []

        def on_sleep(seconds):
            world.now += seconds + 1e-4
            cycles.append(list(calls))
            del calls[:]
            if len(cycles) > sc['cycles']:
                raise StopRun()

        world.now = .001
        world.on_sleep = on_sleep
        try:
            run_klang(*(named[n] for n in starts))
            ctx.fail('loop-ended', 'the main loop returned')
        except StopRun:
            pass
        for k in cycles[1:]:
            ctx.log('cycle', *k)
            self.judge(net, [c for c in k if '/' not in c], starts, ctx, True)
            for name, comp, inner in composites:
                if name in k:
                    ran = {n: x for n, x in inner.items() if any(n in c for c in cycles)}   # Parts may be driven in another way
                    self.judge_inside(k, name, comp, ran, ctx)
        ctx.simTime += len(cycles) * 256 / 44100.
        ctx.count('cycles', len(cycles))
        ctx.state('library', sorted(n.get('k', '') for n in sc['net']['nodes']), len(made))
        ctx.nontrivial = bool(made)

    @staticmethod
    def judge_inside(calls, name, comp, inner, ctx):
        """Connected parts of a composite run once, in order."""
        ends = {}
        for n, x in inner.items():
            for c in list(x.inputs) + list(x.outputs):
                ends[id(c)] = n
        for c in list(comp.inputs) + list(comp.outputs):
            ends[id(c)] = None
        edges = []
        for n, x in list(inner.items()) + [(None, comp)]:
            for c in list(x.outputs) + (list(x.inputs) if n is None else []):
                for d in getattr(c, 'outgoingConnections', ()):
                    if id(d) in ends:
                        edges.append((n, ends[id(d)]))
        linked, todo = set(), [None]
        while todo:
            x = todo.pop()
            if x not in linked:
                linked.add(x)
                todo.extend([b for a, b in edges if a == x] + [a for a, b in edges if b == x])
        linked.discard(None)
        for n in sorted(linked):
            ctx.check(calls.count(n) == 1, 'part-count', 'part %s (%s) of %s ran %d times in a cycle' % (n, type(inner[n]).__name__, type(comp).__name__, calls.count(n)))
        within = [(a, b, None) for a, b in edges if a in linked and b in linked and a != b]
        succ, closure = reachability(linked, within)
        for a, b, _ in within:
            ctx.check(a in closure[b] or calls.index(a) < calls.index(b), 'part-order', '%s (%s) of %s ran before %s (%s) which feeds it' % (
                b, type(inner[b]).__name__, type(comp).__name__, a, type(inner[a]).__name__))

    def execute(self, sc, ctx, world):
        from klang.klang import run_klang
        if sc['driver'] == 'solo':
            return self.solo(sc, ctx)
        if sc['driver'] == 'library':
            return self.library(sc, ctx, world)
        b = Builder(ctx, random.Random(sc['via']), sc.get('bare'))
        net = sc['net']
        b.build(net)
        starts = [b.blocks[s] for s in sc['starts'] if s in b.blocks]
        if not starts:
            ctx.nontrivial = False
            return
        composites = []

        def collect(n):
            for node in n['nodes']:
                if 'net' in node:
                    composites.append(node)
                    collect(node['net'])

        collect(net)
        if sc['driver'] == 'threads':
            return self.concurrent(sc, ctx, world, b, starts, composites)

        for i, mode, k in sc['replans']:
            if composites:
                self.replan(b, composites[i % len(composites)], mode, k, ctx)

        cycles = []
        prev = {}

        def begin():
            b.calls, b.seen = [], []
            b.cycle += 1

        def finish():
            cycles.append((list(b.calls), list(b.seen)))

        if sc['driver'] == 'loop':
            def on_sleep(seconds):
                world.now += seconds + 1e-4
                if b.cycle:
                    finish()
                if b.cycle >= sc['cycles']:
                    raise StopRun()
                begin()

            world.now = .001
            world.on_sleep = on_sleep
            try:
                run_klang(*starts)
                ctx.fail('loop-ended', 'the main loop returned')
            except StopRun:
                pass
        else:
            from klang.audio import Dac
            from klang.block import Block
            dac = Dac(nChannels=1)
            start = starts[0]

            class Marker(Block):   # Separate network: tells the cycles apart
                def __init__(self):
                    super().__init__(nOutputs=1)
                    self.output.set_value(dac.input.value)

                def update(self):
                    pass

            marker = Marker()
            marker.output.connect(dac.input)
            original = dac.collect_samples
            first = [True]

            def collect_samples():
                finish()
                begin()
                return original()

            dac.collect_samples = collect_samples
            begin()
            run_klang(*(starts + [dac]), offline=True, duration=sc['cycles'] * 256.5 / 44100)
        ctx.simTime += len(cycles) * 256 / 44100.
        ctx.count('cycles', len(cycles))
        ctx.check(len(cycles) == sc['cycles'], 'cycle-count', 'ran %d cycles instead of %d' % (len(cycles), sc['cycles']))
        order = None
        ranPrev = {}
        for calls, seen in cycles:
            ctx.log('cycle', *calls)
            self.judge(net, calls, sc['starts'], ctx, True)
            if order is not None and order != calls:
                ctx.fail('order-changed', 'order differs between cycles: %s / %s' % (order, calls))
            order = calls
        ctx.state(repr(order), sorted(map(repr, net['made'])))
        self.check_data(net, cycles, ctx)
        ctx.nontrivial = order is not None and len(order) > 1

    def concurrent(self, sc, ctx, world, b, starts, composites):
        """Composites are planned again while another thread runs the patch."""
        from klang.execution import determine_execution_order, execute
        if not composites:
            ctx.nontrivial = False
            return
        sources = {}     # Where data comes from in the end, through all relays
        for name, block in b.blocks.items():
            for input_, kind, label in getattr(block, 'feeds', ()):
                up = input_.incomingConnection
                while isinstance(up, b.con.RelayBase):
                    up = up.incomingConnection
                if up is not None and isinstance(up.owner, b.Probe):
                    sources[name, label] = up.owner.name, up.owner.outputs.index(up)
        before = [self.snapshot(b.blocks[node['n']]) for node in composites]
        order = determine_execution_order(starts)
        cycles = []
        sched = world.sched = Scheduler(ctx, sc['switches'])

        def audio():
            for _ in range(sc['cycles']):
                b.calls, b.seen = [], []
                b.cycle += 1
                execute(order)
                cycles.append((b.calls, b.seen))
                sched.yield_point('cycle')

        def patching():
            for i, _, _ in sc['replans']:
                b.plan(composites[i % len(composites)])
                sched.yield_point('planned')

        sched.spawn('audio', audio)
        sched.spawn('patching', patching)
        try:
            sched.run(sc['first'])
        finally:
            world.sched = None
        after = [self.snapshot(b.blocks[node['n']]) for node in composites]
        ctx.check(before == after, 'patch-changed', 'connections changed by planning: %s -> %s', before, after)
        ctx.check(len(cycles) == sc['cycles'], 'cycle-count', 'ran %d cycles instead of %d', len(cycles), sc['cycles'])
        runs = {}
        messages = {}
        for c, (calls, seen) in enumerate(cycles, 1):
            ctx.log('cycle', *calls)
            self.judge(sc['net'], calls, sc['starts'], ctx, True)
            for name in calls:
                runs.setdefault(name, set()).add(c)
            for name, label, data in seen:
                src = sources.get((name, label))
                if isinstance(data, list):
                    messages.setdefault((name, label), []).extend(data)
                elif src and c in runs.get(src[0], ()):
                    ctx.check(tuple(data) in [src + (c,), src + (c - 1,)] if isinstance(data, tuple) else c == 1, 'wrong-data',
                              'cycle %d: %s got %r from %s', c, name, data, src)
        n = len(cycles)
        for (name, label), got in sorted(messages.items()):
            src = sources.get((name, label))
            want = [src + (c,) for c in range(1, n + 1)] if src and src[0] in runs else []
            ctx.check(got == want or got == want[:-1], 'wrong-messages', '%s got %r, %r were sent', name, got, want)
        ctx.state('threads', tuple(sched.trail)[:6], len(sources))
        ctx.nontrivial = sched.taken > 0 and bool(sources)
        ctx.count('cycles', n)
        ctx.simTime += n * 256 / 44100.

    def check_data(self, net, cycles, ctx):
        """Data seen is the data of this cycle if the source ran before, of the
        previous cycle otherwise (direct connections between probes)."""
        sources = {}

        def walk(n):
            for s, d, kind, feed in n['made']:
                if feed is not None and s[0] not in '<>' and ':' not in s:
                    sources[(d, feed)] = (s, kind)
            for node in n['nodes']:
                if 'net' in node:
                    walk(node['net'])

        walk(net)
        for c, (calls, seen) in enumerate(cycles, 1):
            pos = {name: i for i, name in enumerate(calls)}
            for name, feed, data in seen:
                if (name, feed) not in sources:
                    continue
                src, kind = sources[(name, feed)]
                if src not in pos:
                    continue
                at = c if pos[src] < pos[name] else c - 1
                if kind == 'v':
                    want = (src, None, at)
                    got = data if isinstance(data, tuple) else None
                    ok = (got is None and at == 0) or (got is not None and got[0] == src and got[2] == at)
                else:
                    ok = [(m[0], m[2]) for m in data] == ([(src, at)] if at > 0 else [])
                ctx.check(ok, 'wrong-data', 'cycle %d: %s got %r from %s, expected that of cycle %d' % (c, name, data, src, at))

    def judge(self, net, calls, starts, ctx, isTop):
        names = [n['n'] for n in net['nodes']]
        starts = [s for s in starts if s in names]
        must, may = reach(net, starts, isTop)
        counts = {n: 0 for n in names}
        for c in calls:
            if c in counts:
                counts[c] += 1
        for n in names:
            lo, hi = int(n in must), int(n in may)
            ctx.check(lo <= counts[n] <= hi, 'run-count', 'block %s ran %d times in a cycle, expected %d' % (n, counts[n], hi))
        expected = {n for n in names if counts[n]}
        edges = [(s, d, f) for s, d, f in resolve(net) if s in expected and d in expected]
        succ, closure = reachability(expected, edges)
        pos = {n: calls.index(n) for n in expected}
        kept = {n: set() for n in expected}
        delayed = set()
        for s in succ:
            for d in succ[s]:
                if pos[s] < pos[d]:
                    kept[s].add(d)
                else:
                    delayed.add((s, d))
        for s, d in sorted(delayed):
            ctx.check(s in closure[d], 'delayed-edge', 'connection %s -> %s is on no loop but delayed (order %s)' % (s, d, [c for c in calls if c in expected]))
            todo, seen = [d], set()
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo.extend(kept[x])
            ctx.check(s in seen, 'needless-delay', 'connection %s -> %s is delayed but closes no loop of undelayed connections (order %s)' % (s, d, calls))
        if delayed:
            ctx.count('loops-broken', len(delayed))
        for node in net['nodes']:
            if 'net' in node and node['n'] in expected:
                self.judge(node['net'], calls, node.get('starts', []), ctx, False)

    def replan(self, b, node, mode, k, ctx):
        comp = b.blocks[node['n']]
        before = self.snapshot(comp)
        if mode == 'plain':
            b.plan(node)
        else:
            exc = KeyboardInterrupt() if mode == 'interrupt' else MemoryError()
            left = [k]

            def tracer(frame, event, arg):
                name = frame.f_code.co_filename
                if not name.endswith(('execution.py', 'graph.py')):
                    return None if 'klang' not in name else tracer
                if event == 'line':
                    left[0] -= 1
                    if left[0] == 0:
                        raise sim_fault(exc)
                return tracer

            sys.settrace(tracer)
            try:
                b.plan(node)
            except (KeyboardInterrupt, MemoryError) as err:
                sys.settrace(None)
                if err is not exc:
                    raise
                ctx.fault('planning interrupted' if mode == 'interrupt' else 'allocation failure while planning')
            finally:
                sys.settrace(None)
            interrupted = left[0] <= 0
            after = self.snapshot(comp)
            ctx.check(before == after, 'patch-lost', 'connections of composite %s changed by %splanning: %s -> %s' % (
                node['n'], 'interrupted ' if interrupted else '', before, after))
            b.plan(node)
        after = self.snapshot(comp)
        ctx.check(before == after, 'patch-changed', 'connections of composite %s changed by planning: %s -> %s' % (node['n'], before, after))

    @staticmethod
    def snapshot(comp):
        ids = {}

        def tag(x):
            return None if x is None else (getattr(x.owner, 'name', ''), type(x).__name__, id(x))

        ret = []
        for c in comp.inputs + comp.outputs:
            ret.append((tag(c.incomingConnection) if hasattr(c, 'incomingConnection') else None,
                        sorted(tag(o) for o in getattr(c, 'outgoingConnections', ()))))
        return ret


PROP = P01()
