"""P21: whole patches, built and driven in many ways."""
import random
from fractions import Fraction

import numpy as np

from klangsim import core, examples, patch, streams, synth
from klangsim.audiopatch import signal
from klangsim.devices.audio import SimAudio
from klangsim.devices.fs import SimFS
from klangsim.props.p20_playback import wav_bytes
from klangsim.runner import Property

N = 256
INTERVAL = 256 / 44100

# Types of connections: 'n' notes, 'c' control (scalar), 'k' clock signal, 1 mono, 2 stereo.
# Kind -> types of inputs ('?': optional, 'A' either mono or stereo)
KINDS = {
    'notes': [], 'seq': [], 'lengthen': ['n'], 'max': ['n'], 'merge': ['n', '?n', '?n'], 'arp': ['n'],
    'poly': ['n'], 'mono': ['n'], 'kick': ['n'], 'hihat': ['n'], 'env': ['n'],
    'lfo': ['?c'], 'phasor': ['?c'], 'linear': ['c'],
    'osc': ['?c'], 'lfoAudio': ['?c'], 'fm': ['?c'], 'pwm': ['?c'], 'feed': [],
    'gain': ['A', '?c'], 'tremolo': ['A', '?c'], 'delay': ['A'], 'stereoDelay': ['A'], 'filter': ['A', '?c'], 'crush': ['A'],
    'tanh': ['A'], 'octave': ['A'], 'reverb': [1], 'ring': ['A', '?c'], 'scale': ['A'], 'sub': ['A'],
    'mix': [1, '?1', '?1'], 'stereoMix': ['A', '?A', '?A'], 'split': ['A'], 'combine': [1, 1], 'multiply': ['A', 'A'],
    'sweep': [1], 'chirp': [], 'clock': ['?c'], 'shift': [1], 'file': [],
    'probe': ['n'], 'record': ['any'], 'dac': ['A', '?A'],
}
SOURCES = ['notes', 'notes', 'notes', 'seq', 'seq', 'lfo', 'osc', 'feed', 'phasor', 'file']
MIDDLE = ['lengthen', 'max', 'merge', 'arp', 'poly', 'mono', 'kick', 'hihat', 'env', 'linear', 'fm', 'pwm', 'lfoAudio', 'gain',
          'tremolo', 'delay', 'stereoDelay', 'filter', 'crush', 'tanh', 'octave', 'reverb', 'ring', 'scale', 'sub', 'mix', 'mix', 'stereoMix', 'split',
          'combine', 'multiply', 'sweep', 'merge', 'poly', 'mono', 'chirp', 'clock', 'shift']
ONCE = {'hihat', 'feed'}
FILES = {}
"""Audio files of the run by node."""


def gen_params(rng, kind, cycles):
    dur = lambda: round(rng.choice([rng.uniform(.001, .02), rng.uniform(.02, .3)]), 4) + 1.37e-5
    freq = lambda: round(rng.uniform(30, 4000), 2)
    if kind == 'notes':
        return {'history': synth.gen_history(rng, rng.randint(1, 14), cycles, rng.choice([4, 30]))}
    if kind == 'seq':
        rows = rng.randint(1, 3)
        return {'pattern': [[rng.choice([0, 48, 60, 62, 67, 72]) for _ in range(rng.choice([1, 2, 3, 4, 7, 8, 16]))] for _ in range(rows)],
                'tempo': rng.choice([120, 90.5, 300, 800, 60]), 'split': rng.random() < .6, 'len': round(rng.uniform(.1, 2.5), 3),
                'rhythm': [rng.randrange(rows), rng.choice([[1, 2], [2, 1, 1], [3, 1]]), round(rng.random(), 3)] if rng.random() < .25 else None}
    if kind == 'chirp':
        return {'f': [freq(), freq()], 'd': dur() * 3, 'method': rng.choice(['linear', 'quadratic', 'logarithmic'])}
    if kind == 'clock':
        return {'f': round(rng.uniform(1, 500), 2), 'duty': round(rng.uniform(.05, .9), 3), 'edge': rng.choice(['rising', 'falling'])}
    if kind == 'shift':
        return {'s': round(rng.choice([.5, 2., rng.uniform(.5, 2)]), 3), 'mix': rng.random(), 'mode': rng.choice(['linear', 'zero_order_hold', 'sinc_fastest'])}
    if kind == 'file':
        return {'seed': rng.randrange(1 << 20), 'channels': rng.choice([1, 2]), 'length': rng.choice([3, 200, 256, 1000, rng.randint(3, 6000)]),
                'loop': rng.random() < .5, 'mode': rng.choice(['linear', 'crude', 'sinc_fastest']), 'rate': rng.choice([44100, 44100, 22050, 48000])}
    if kind in ('lengthen',):
        return {'d': dur()}
    if kind == 'max':
        return {'n': rng.randint(1, 4)}
    if kind == 'arp':
        return {'interval': dur(), 'order': rng.choice(['up', 'down', 'upDown', 'downUp', 'alternating'])}
    if kind in ('poly', 'mono'):
        return {'osc': rng.choice(['osc', 'fm', 'pwm']), 'wave': rng.choice(streams.WAVES), 'env': synth.gen_envelope(rng),
                'policy': rng.choice(['newest', 'oldest', 'lowest', 'highest'])}
    if kind == 'env':
        return {'env': synth.gen_envelope(rng)}
    if kind == 'kick':
        return {'f': freq() / 40, 'd': dur()}
    if kind == 'hihat':
        return {'d': dur(), 'loop': rng.random() < .5}
    if kind in ('lfo', 'lfoAudio'):
        lo = freq()
        return {'f': round(rng.uniform(.1, 60), 2), 'wave': rng.choice(streams.WAVES), 'range': [lo, lo + freq()] if kind == 'lfo' else [-.5, .9]}
    if kind == 'phasor':
        return {'f': round(rng.uniform(.1, 60), 2)}
    if kind in ('linear', 'scale'):
        return {'s': rng.uniform(.1, 2), 'o': rng.uniform(0, .5)}
    if kind in ('osc', 'fm', 'pwm'):
        return {'f': freq(), 'wave': rng.choice(streams.WAVES), 'i': rng.uniform(.1, 3), 'm': rng.uniform(.5, 500), 'duty': rng.uniform(.1, .9)}
    if kind == 'feed':
        return {'seed': rng.randrange(1 << 20), 'channels': rng.choice([1, 1, 2])}
    if kind == 'gain':
        return {'g': rng.uniform(.1, 2)}
    if kind == 'tremolo':
        return {'r': rng.uniform(.5, 40), 'd': rng.random(), 's': rng.random(), 'duty': rng.uniform(.1, .9)}
    if kind in ('delay', 'stereoDelay'):
        return {'t': [dur(), dur()], 'fb': [rng.uniform(0, .9), rng.uniform(0, .9)], 'mix': rng.random()}
    if kind == 'filter':
        return {'f': freq(), 'N': rng.choice([1, 2, 3]), 'type': rng.choice(['lowpass', 'highpass'])}
    if kind == 'crush':
        return {'n': rng.randint(0, 12)}
    if kind == 'tanh':
        return {'d': rng.uniform(.5, 5)}
    if kind == 'reverb':
        return {'d': rng.uniform(.1, 2), 'pre': rng.uniform(.001, .03), 'mix': rng.random(), 'n': rng.randint(1, 4)}
    if kind == 'ring':
        return {'f': freq(), 'r': rng.uniform(.1, 20), 'a': rng.uniform(0, 100), 'mix': rng.random()}
    if kind == 'sub':
        return {'n': rng.choice([2, 4, 16, 64])}
    if kind in ('mix', 'stereoMix'):
        return {'g': [rng.uniform(.1, 1.5) for _ in range(3)], 'p': [rng.random() for _ in range(3)]}
    if kind == 'sweep':
        return {'s': freq() / 4, 'o': freq() + 1000}
    return {}


def out_types(node, inTypes):
    k = node['k']
    if k in ('notes', 'lengthen', 'max', 'merge', 'arp'):
        return ['n']
    if k == 'seq':
        return ['n'] * (len(node['p']['pattern']) if node['p']['split'] else 1)
    if k in ('lfo', 'phasor', 'linear'):
        return ['c']
    if k == 'clock':
        return ['k']
    if k in ('feed', 'file'):
        return [node['p']['channels']]
    if k in ('stereoDelay', 'stereoMix', 'combine'):
        return [2]
    if k == 'split':
        return [1, 1]
    if k in ('gain', 'tremolo', 'filter', 'crush', 'tanh', 'octave', 'ring', 'scale', 'sub'):
        return [inTypes[0]]
    if k == 'multiply':
        return [max(inTypes)]
    if k in ('probe', 'record', 'dac'):
        return []
    return [1]


def gen_nodes(rng, size, cycles):
    nodes, pool, used = [], [], set()

    def add(kind):
        slots = []
        types = []
        for want in KINDS[kind]:
            optional = isinstance(want, str) and want.startswith('?')
            if optional:
                want = want[1:]
                want = int(want) if want.isdigit() else want
                if rng.random() < .5:
                    slots.append(None)
                    continue
            fits = [(i, k, t) for i, k, t in pool if t == want or (want == 'A' and t in (1, 2)) or want == 'any']
            if want == 'any':
                fits = [f for f in fits if f[2] != 'n']
            if not fits:
                if not optional:
                    return False
                slots.append(None)
                continue
            unused = [f for f in fits if f[:2] not in used]
            u = rng.random()
            src = rng.choice(unused) if unused and u < .5 else rng.choice(fits[-4:]) if u < .85 else rng.choice(fits)
            slots.append([src[0], src[1]])
            types.append(src[2])
            used.add(src[:2])
        node = {'n': len(nodes), 'k': kind, 'p': gen_params(rng, kind, cycles), 'in': slots}
        nodes.append(node)
        for k, t in enumerate(out_types(node, types)):
            pool.append((node['n'], k, t))
        return True

    for _ in range(rng.randint(1, 3)):
        add(rng.choice(SOURCES))
    tries = 0
    while len(nodes) < size and tries < 60:
        tries += 1
        kind = rng.choice(SOURCES) if rng.random() < .15 else rng.choice(MIDDLE)
        if kind in ONCE and any(n['k'] == kind for n in nodes) and kind == 'hihat':
            continue
        add(kind)
    for _ in range(rng.randint(1, 4)):
        add(rng.choice(['probe', 'record', 'record']))
    # Nothing is left unheard
    for i, k, t in list(pool):
        if (i, k) not in used and rng.random() < .8:
            nodes.append({'n': len(nodes), 'k': 'probe' if t == 'n' else 'record', 'p': {}, 'in': [[i, k]]})
    if any(t in (1, 2) for _, _, t in pool):
        add('dac')
    return nodes


def gen_groups(rng, lo, hi, depth, top=True):
    """Nested intervals of the nodes [first, last]."""
    out = []
    i = lo
    while i <= hi:
        if depth and rng.random() < (.3 if top else .4) and not (not top and i == lo):
            j = min(hi, i + rng.choice([0, 1, 2, 4, 8]))
            out.append([i, j])
            out += gen_groups(rng, i, j, depth - 1, False)
            i = j + 1
        else:
            i += 1
    return out


def gen_growth(rng, nodes, cycles):
    """Blocks which are added to a running patch, or change places."""
    sources = []
    have = {}
    for node in valid_nodes(nodes):
        have[node['n']] = out_types(node, node['types'])
        sources += [(node['n'], k, t) for k, t in enumerate(have[node['n']])]
    if not sources:
        return None
    n, k, t = rng.choice(sources)
    kinds = {'n': ['lengthen', 'max', 'merge', 'arp'], 'c': ['linear', 'linear'], 'k': ['linear', 'linear']}.get(t, ['gain', 'tanh', 'delay', 'crush', 'octave', 'tremolo', 'sub', 'filter'])
    pair = rng.sample(kinds, 2) if len(set(kinds)) > 1 else list(kinds)
    return {'at': rng.randint(0, cycles), 'on': [n, k], 'type': t, 'how': rng.choice(['late', 'swap']),
            'kinds': [[x, gen_params(rng, x, cycles)] for x in pair]}


def make_multiply():
    if 'Multiply' in globals():
        return
    from klang.block import Block

    class Multiply(Block):

        """Ring modulation of two inputs, as users write their own blocks."""

        def __init__(self):
            super().__init__(nInputs=2, nOutputs=1)

        def update(self):
            a, b = self.inputs
            self.output.set_value(a.value * b.value)

    class Record(Block):
        def __init__(self):
            super().__init__(nInputs=1)
            self.cycles = []

        def update(self):
            self.cycles.append(np.array(self.input.value))

    class Sweep(Block):

        """Oscillator whose frequency is an audio signal."""

        def __init__(self, scale, offset):
            super().__init__(nInputs=1, nOutputs=1)
            from klang.audio.oscillators import Oscillator
            self.osc = Oscillator()
            self.scale, self.offset = scale, offset

        def update(self):
            self.osc.frequency.set_value(self.scale * np.clip(self.input.value, -1, 1) + self.offset)
            self.osc.update()
            self.output.set_value(self.osc.output.value)

    globals().update(Multiply=Multiply, Record=Record, Sweep=Sweep)


def make_oscillator(p, frequency):
    from klang.audio import oscillators, waves
    wave = getattr(waves, p['wave'])
    kind = p['osc']
    if kind == 'fm':
        return oscillators.FmOscillator(frequency, p.get('i', 1.), p.get('m', 10.), wave_func=wave)
    if kind == 'pwm':
        return oscillators.PwmOscillator(frequency, p.get('duty', .3))
    return oscillators.Oscillator(frequency, wave_func=wave)


def make_node(node, nChannels, grown=0):
    """Block, inputs, outputs. Mixers get the last `grown` inputs one by one."""
    from klang.arpeggiator import Arpeggiator
    from klang.audio import effects, oscillators, waves
    from klang.audio.klanggeber import Dac
    from klang.audio.mixer import Mixer, StereoMixer
    from klang.audio.synthesizer import HiHat, Kick, MonophonicSynthesizer, PolyphonicSynthesizer
    from klang.audio.voices import Voice
    from klang.note_effects import MaxNotes, MessageMixer, NoteLengthener
    from klang.audio.sampling import AudioFile
    from klang.audio.sync import Clock
    from klang.music.rhythm import MicroRhyhtm
    from klang.sequencer import Sequencer
    k, p = node['k'], node['p']
    if k == 'notes':
        b = patch.Source({c: [patch.make_note(s) for s in specs] for c, specs in p['history']})
    elif k == 'seq':
        b = Sequencer(p['pattern'], tempo=p['tempo'], relNoteLength=p['len'], splitOutputs=p['split'])
        if p.get('rhythm') and p['rhythm'][0] < len(p['pattern']):
            channel, notes, phrasing = p['rhythm']
            b.apply_micro_rhythm(MicroRhyhtm([Fraction(x, 16) for x in notes], phrasing=phrasing), channel=channel)
    elif k == 'lengthen':
        b = NoteLengthener(p['d'])
    elif k == 'max':
        b = MaxNotes(p['n'])
    elif k == 'merge':
        b = MessageMixer(3 - grown)
        for _ in range(grown):
            b.add_new_channel()
    elif k == 'arp':
        b = Arpeggiator(p['interval'], order=p['order'])
    elif k in ('poly', 'mono'):
        voice = Voice(make_oscillator(p, 440.), synth.make_envelope(p['env']))
        b = PolyphonicSynthesizer(voice) if k == 'poly' else MonophonicSynthesizer(voice, p['policy'])
    elif k == 'env':
        b = synth.make_envelope(p['env'])
    elif k == 'kick':
        b = Kick(p['f'], p['d'])
    elif k == 'hihat':
        b = HiHat(p['d'], p['loop'])
    elif k in ('lfo', 'lfoAudio'):
        b = oscillators.Lfo(p['f'], getattr(waves, p['wave']), shape=1 if k == 'lfo' else N, outputRange=tuple(p['range']))
    elif k == 'phasor':
        b = oscillators.Phasor(p['f'])
    elif k in ('osc', 'fm', 'pwm'):
        b = make_oscillator(dict(p, osc=k), p['f'])
    elif k == 'feed':
        shape = (N,) if p['channels'] == 1 else (2, N)
        b = streams.Feed(lambda c, s=p['seed']: signal(s, c, shape))
    elif k in ('linear', 'scale'):
        b = effects.Transformer(p['s'], p['o'])
    elif k == 'gain':
        b = effects.Gain(p['g'])
    elif k == 'tremolo':
        b = effects.Tremolo(p['r'], p['d'], p['s'], p['duty'])
    elif k == 'delay':
        b = effects.Delay(p['t'][0], p['fb'][0], p['mix'])
    elif k == 'stereoDelay':
        b = effects.StereoDelay(p['t'][0], p['t'][1], p['fb'][0], p['fb'][1], p['mix'])
    elif k == 'filter':
        b = effects.Filter(frequency=p['f'], design_func=streams.butter, N=p['N'], btype=p['type'])
    elif k == 'crush':
        b = effects.Bitcrusher(p['n'])
    elif k == 'tanh':
        b = effects.TanhDistortion(p['d'])
    elif k == 'octave':
        b = effects.OctaveDistortion()
    elif k == 'reverb':
        b = effects.Reverb(p['d'], p['pre'], p['mix'], p['n'])
    elif k == 'ring':
        b = effects.RingModulator(p['f'], p['r'], p['a'], dryWet=p['mix'])
    elif k == 'sub':
        b = effects.Subsampler(p['n'])
    elif k == 'mix':
        first = 3 - grown
        b = Mixer(first, gains=list(p['g'][:first]) or None)
        for gain in p['g'][first:]:
            b.add_new_channel(gain)
    elif k == 'stereoMix':
        first = 3 - grown
        b = StereoMixer(first, gains=list(p['g'][:first]) or None, pannings=list(p['p'][:first]) or None)
        for gain, panning in zip(p['g'][first:], p['p'][first:]):
            b.add_new_channel(gain, panning)
    elif k == 'split':
        b = effects.AudioSplitter(2)
    elif k == 'combine':
        b = effects.AudioCombiner(2)
    elif k == 'multiply':
        b = Multiply()
    elif k == 'sweep':
        b = Sweep(p['s'], p['o'])
    elif k == 'chirp':
        b = oscillators.Chirper(p['f'][0], p['d'], p['f'][1], p['method'])
    elif k == 'clock':
        b = Clock(p['f'], p['duty'], p['edge'])
    elif k == 'shift':
        b = effects.PitchShifter(p['s'], p['mix'], p['mode'])
    elif k == 'file':
        b = AudioFile(FILES[node['n']], loop=p['loop'], mode=p['mode'])
        b.play()
    elif k == 'probe':
        b = patch.Probe()
    elif k == 'record':
        b = Record()
    elif k == 'dac':
        b = Dac(nChannels=nChannels)
    ins = list(b.inputs)
    if k == 'tremolo':
        ins = [b.input, b.rate]
    elif k == 'ring':
        ins = [b.input, b.rate]
    elif k == 'clock':
        ins = [b.frequency]
    b.name = 'n%d' % node['n']
    return b, ins, list(b.outputs)


def valid_nodes(nodes):
    """Nodes without required inputs (shrunk cases) are left out."""
    have = {}
    out = []
    for node in nodes:
        slots, types, ok = [], [], True
        for want, src in zip(KINDS[node['k']], node['in']):
            if src is not None and src[0] in have and src[1] < len(have[src[0]]):
                slots.append(src)
                types.append(have[src[0]][src[1]])
            else:
                slots.append(None)
                ok = ok and isinstance(want, str) and want.startswith('?')
        if ok:
            node = dict(node, **{'in': slots})
            have[node['n']] = out_types(node, types)
            node['types'] = types
            out.append(node)
    return out


class Build:

    """Patch made of nodes. Groups: composites around intervals of nodes."""

    def __init__(self, nodes, groups, rng, seed, grow=()):
        from klang.composite import Composite
        from klang.connections import MessageOutput, MessageRelay, Relay
        np.random.seed(seed & 0xffffffff)
        self.nodes = nodes
        self.rng = rng
        self.made = {}
        dac = [n for n in nodes if n['k'] == 'dac']
        self.nDac = sum(dac[0]['types']) if dac else 0
        for node in nodes:
            self.made[node['n']] = make_node(node, self.nDac, rng.choice([0, 0, 1, 3]))
        self.dac = self.made[dac[0]['n']][0] if dac else None
        self.recorders = [(n['n'], self.made[n['n']][0]) for n in nodes if n['k'] in ('probe', 'record')]
        # Composites
        spans = [tuple(g) for g in groups]
        self.parent = {}
        self.composites = {}
        self.inner = {}
        members = {}
        for idx, (a, b) in enumerate(spans):
            inside = [n['n'] for n in nodes if a <= n['n'] <= b and n['k'] != 'dac']
            if inside:
                members[idx] = inside
                self.composites[idx] = Composite(name='c%d' % idx)
                self.inner[idx] = []
        chain = {n['n']: [] for n in nodes}
        for idx in members:
            for n in members[idx]:
                chain[n].append(idx)
        for n in chain:   # Outermost first: groups are listed that way
            chain[n].sort(key=lambda i: (-(spans[i][1] - spans[i][0]), i))
        self.chain = chain
        self.top = []
        for n, c in chain.items():
            block = self.made[n][0]
            path = [self.composites[i] for i in c] + [block]
            if path[0] not in self.top:
                self.top.append(path[0])
            for i, child in zip(c, path[1:]):
                if child not in self.inner[i]:
                    self.inner[i].append(child)
        # Legs
        legs = []
        self.grown = []
        memo = {}
        self.edges = []
        self.levelEdges = {idx: [] for idx in self.composites}
        self.levelEdges['top'] = []
        self.attached = {idx: set() for idx in self.composites}

        def relay(idx, isOut, cur):
            # Several connections can share a relay
            key = (idx, isOut, id(cur))
            if key in memo and rng.random() < .7:
                return memo[key], False
            comp = self.composites[idx]
            r = (MessageRelay if isinstance(cur, MessageOutput) else Relay)(owner=comp)
            (comp.outputs if isOut else comp.inputs).append(r)
            memo[key] = r
            return r, True

        for node in nodes:
            block, ins, _ = self.made[node['n']]
            for slot, src in enumerate(node['in']):
                if src is None:
                    continue
                cur = self.made[src[0]][2][src[1]]
                cs, cd = chain[src[0]], chain[node['n']]
                common = 0
                while common < min(len(cs), len(cd)) and cs[common] == cd[common]:
                    common += 1
                for idx in reversed(cs[common:]):
                    self.attached[idx].add(cur.owner)
                    r, new = relay(idx, True, cur)
                    if new:
                        legs.append((cur, r))
                    cur = r
                level = cs[common - 1] if common else 'top'
                for idx in cd[common:]:
                    r, new = relay(idx, False, cur)
                    if new:
                        legs.append((cur, r))
                    cur = r
                legs.append((cur, ins[slot]))
                if cd[common:]:
                    self.attached[cd[-1]].add(block)
                    for a, b in zip(cd[common:], cd[common + 1:]):
                        self.attached[a].add(self.composites[b])
                here = self.composites[cs[common]] if len(cs) > common else self.made[src[0]][0]
                there = self.composites[cd[common]] if len(cd) > common else block
                self.levelEdges[level].append((here, there))
                self.edges.append({'leg': (cur, ins[slot]), 'dst': node['n'], 'slot': slot, 'src': src})
        for g in grow:
            if g['on'][0] in self.made and g['on'][1] < len(self.made[g['on'][0]][2]):
                legs += self.prepare(g)
        rng.shuffle(legs)
        for out, inp in legs:
            self.connect(out, inp)
            if self.composites and rng.random() < .03:
                self.plan(rng.choice(sorted(self.composites)))
        todo = sorted(self.composites)
        rng.shuffle(todo)
        for idx in todo:
            self.plan(idx)

    def prepare(self, g):
        """Blocks of a later change. Returns connections to begin with."""
        x = self.made[g['on'][0]]
        i = len(self.grown)
        a, b = [make_node({'n': 1000 + 10 * i + j, 'k': kind, 'p': p}, 0) for j, (kind, p) in enumerate(g['kinds'])]
        rec = make_node({'n': 1000 + 10 * i + 2, 'k': 'probe' if g['type'] == 'n' else 'record', 'p': {}}, 0)
        out = x[2][g['on'][1]]
        first = [(out, a[1][0], x, a), (a[2][0], b[1][0], a, b), (b[2][0], rec[1][0], b, rec)]
        second = [(out, b[1][0], x, b), (b[2][0], a[1][0], b, a), (a[2][0], rec[1][0], a, rec)]
        chain = self.chain[g['on'][0]]
        level = chain[-1] if chain else 'top'
        state = {'spec': g, 'blocks': [a[0], b[0], rec[0]], 'level': level, 'first': first, 'second': second, 'done': False}
        self.grown.append(state)
        self.recorders.append((1000 + 10 * i + 2, rec[0]))
        if g['how'] == 'late':
            return []
        self.add_level(state, first)
        return [leg[:2] for leg in first]

    def add_level(self, state, legs):
        blocks = self.top if state['level'] == 'top' else self.inner[state['level']]
        blocks += [b for b in state['blocks'] if b not in blocks]
        edges = self.levelEdges[state['level']]
        edges += [(src[0], dst[0]) for _, _, src, dst in legs]

    def grow(self, cycle):
        """Change the patch. Returns True when the execution order of the
        outermost blocks has to be determined again."""
        top = False
        for state in self.grown:
            g = state['spec']
            if g['at'] != cycle or state['done']:
                continue
            state['done'] = True
            if g['how'] == 'swap':
                for out, inp, src, dst in state['first']:
                    self.disconnect(out, inp)
                    self.levelEdges[state['level']].remove((src[0], dst[0]))
                legs = state['second']
            else:
                legs = state['first']
            legs = list(legs)
            self.rng.shuffle(legs)
            for leg in legs:
                self.connect(*leg[:2])
            self.add_level(state, legs)
            if state['level'] == 'top':
                top = True
            else:
                self.plan(state['level'])
        return top

    def grown_specs(self):
        return [state['spec'] for state in self.grown]

    def grown_order(self):
        """Blocks of the changes along the signal flow."""
        for state in self.grown:
            a, b, rec = state['blocks']
            if state['spec']['how'] == 'swap':
                yield from ([b, a, rec] if state['done'] else [a, b, rec])
            elif state['done']:
                yield from (a, b, rec)

    def connect(self, out, inp):
        from klang.connections import RelayBase
        if isinstance(out, RelayBase) or self.rng.random() < .5:
            out.connect(inp)
        else:
            inp.connect(out)

    def disconnect(self, out, inp):
        from klang.connections import RelayBase
        if isinstance(out, RelayBase) or self.rng.random() < .5:
            out.disconnect(inp)
        else:
            inp.disconnect(out)

    def cover(self, blocks, edges, everything=False, rooted=()):
        """Start blocks which lead to all of the blocks, in random order."""
        rng = self.rng
        adj = {id(b): [] for b in blocks}
        for a, b in edges:
            adj[id(a)].append(b)
            adj[id(b)].append(a)
        order = list(blocks)
        rng.shuffle(order)
        if everything:
            return order
        seen, starts = set(), []
        for b in order:
            if id(b) in seen:
                continue
            starts.append(b)
            todo = [b]
            while todo:
                x = todo.pop()
                if id(x) not in seen:
                    seen.add(id(x))
                    todo.extend(adj[id(x)])
        starts += [b for b in order if rng.random() < .15]
        rng.shuffle(starts)
        return starts

    def plan(self, idx, everything=False):
        comp = self.composites[idx]
        blocks = self.inner[idx]
        edges = self.levelEdges[idx]
        # Without start blocks: everything which is connected with the relays
        reached = {id(b) for b in self.attached[idx]}
        grew = True
        while grew:
            grew = False
            for a, b in edges:
                if (id(a) in reached) != (id(b) in reached):
                    reached |= {id(a), id(b)}
                    grew = True
        if not everything and all(id(b) in reached for b in blocks) and self.rng.random() < .6:
            comp.update_internal_exec_order()
        else:
            comp.update_internal_exec_order(*self.cover(blocks, edges, everything))

    def starts(self, everything=False):
        return self.cover(self.top, self.levelEdges['top'], everything)

    def cut(self, i, off):
        e = self.edges[i]
        out, inp = e['leg']
        if off:
            self.disconnect(out, inp)
        else:
            self.connect(out, inp)


def results(build):
    out = {}
    for n, rec in build.recorders:
        out[n] = rec.cycles
    return out


def same_cycle(a, b):
    if isinstance(a, list):
        return len(a) == len(b) and all(patch.same_note(x, y) for x, y in zip(a, b))
    return a.shape == b.shape and np.array_equal(a, b)


def describe(a):
    if isinstance(a, list):
        return '[%s]' % ' '.join(patch.note_str(n) for n in a)
    if a.ndim == 0:
        return repr(float(a))
    return 'samples %s.. (sum %r)' % (a.reshape(-1)[:3].tolist(), float(np.sum(a)))


class P21(Property):
    id = 'P21'
    batch = 250
    quick_runs = 16000
    quick_seconds = 90
    thorough_runs = 100000
    thorough_seconds = 500
    rule = ('A run builds one random patch several times with different wiring, composites, start blocks and drivers, and compares all '
            'audio and notes, bit by bit, with the same blocks executed in the order of the signal flow; non-trivial: a variant with at least three blocks ran.')
    state_measure = 'distinct (patch kinds, composites, driver, execution order) tuples'
    real = ['klang.klang', 'klang.execution', 'klang.graph', 'klang.composite', 'klang.connections', 'klang.audio (effects, mixers, oscillators, '
            'synthesizers, envelopes, klanggeber)', 'klang.sequencer', 'klang.note_effects', 'klang.arpeggiator']
    stubs = ['note sources, recorders', 'sound card', 'clock and sleep', 'iteration order of connection sets']
    assumptions = ['patches without feedback loops up to about 25 blocks', 'one random generator user per patch']
    shrink_lists = ('nodes', 'variants', 'groups', 'cuts', 'grow', 'replans', 'rewires')
    shrink_numbers = {'cycles': 1}

    def gen(self, rng, tier, index):
        if index % 500 == 7:
            return self.gen_example(rng, tier, index // 500)
        cycles = rng.choice([3, 15, 15, 40]) * (rng.choice([1, 1, 1, 3]) if tier != 'quick' else 1)
        size = rng.choice([3, 5, 8, 8, 12]) if tier == 'quick' or rng.random() < .7 else rng.randint(12, 30)
        nodes = gen_nodes(rng, size, cycles)
        n = len(nodes)
        cuts = []
        if rng.random() < .3:
            for _ in range(rng.randint(1, 3)):
                a = rng.randint(0, cycles - 1)
                cuts.append([a, rng.randint(a + 1, cycles + 1), rng.randrange(1 << 16)])
        grow = []
        if not cuts and rng.random() < .4:
            for _ in range(rng.randint(1, 2)):
                g = gen_growth(rng, nodes, cycles)
                if g:
                    grow.append(g)
        variants = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            driver = rng.choice(['manual', 'live'] if cuts or grow else ['manual', 'manual', 'live', 'live', 'offline', 'loop'])
            v = {'driver': driver, 'seed': rng.randrange(1 << 30), 'groups': gen_groups(rng, 0, n - 1, rng.choice([0, 1, 1, 2, 3])), 'replans': [], 'rewires': []}
            if driver == 'live':
                v['card'] = self.gen_card(rng, cycles)
            if driver == 'manual' and rng.random() < .5:
                for _ in range(rng.randint(1, 3)):
                    v['replans'].append([rng.randint(0, cycles), rng.choice(['top', 'groups', 'both'])])
            if driver in ('manual', 'live') and rng.random() < .4:
                for _ in range(rng.randint(1, 4)):
                    v['rewires'].append([rng.randint(0, cycles), rng.randrange(1 << 16)])
            variants.append(v)
        return {'nodes': nodes, 'cuts': cuts, 'grow': grow, 'variants': variants, 'cycles': cycles}

    @staticmethod
    def gen_card(rng, cycles):
        card = {'outputs': 8, 'inputs': None, 'jitter': [round(rng.choice([0., rng.uniform(-.5, .5), rng.uniform(0, 4)]), 3) for _ in range(3)],
                'prime': rng.choice([0, 0, 2]), 'drain': rng.choice([0, 0, 1])}
        if rng.random() < .3:
            card['flags'] = {str(rng.randint(0, cycles)): rng.choice([1, 4, 8]) for _ in range(3)}
        return card

    def gen_example(self, rng, tier, index):
        cycles = rng.choice([40, 60, 120]) * (rng.choice([1, 5]) if tier != 'quick' else 1)
        name = examples.NAMES[index % len(examples.NAMES)]
        keys = []
        if name == 'synthesizer_demo':
            for _ in range(rng.randint(2, 12)):
                a = rng.randint(0, cycles - 1)
                char = rng.choice('asdfghjkzx')
                keys += [[a, 1, char], [rng.randint(a, cycles), 0, char]]
            keys.sort(key=lambda k: k[0])
        variants = [{'driver': 'live', 'card': self.gen_card(rng, cycles)}]
        if rng.random() < .5:
            variants.append({'driver': 'offline'})
        return {'example': name, 'cycles': cycles, 'keys': keys, 'variants': variants}

    def execute(self, sc, ctx, world):
        if 'example' in sc:
            return examples.play(sc, ctx, world)
        from klang.clock import ClockMixin
        patch.make_classes()
        streams.make_classes()
        make_multiply()
        nodes = valid_nodes(sc['nodes'])
        if not nodes:
            ctx.nontrivial = False
            return
        cycles = sc['cycles']
        seed = sc['seed']
        grow = sc.get('grow', [])
        FILES.clear()
        fs = SimFS(world) if any(n['k'] == 'file' for n in nodes) else None
        for n in nodes:
            if n['k'] == 'file':
                FILES[n['n']] = fs.path('%d.wav' % n['n'])
                x = (signal(n['p']['seed'], 0, (n['p']['length'], n['p']['channels'])) * 32000).astype(np.int16)
                with open(FILES[n['n']], 'wb') as f:
                    f.write(wav_bytes(x, n['p']['rate']))
        ref = Build(nodes, [], random.Random(1), seed, grow)
        cuttable = [i for i, e in enumerate(ref.edges) if self.cuttable(nodes, e)]
        cuts = []
        taken = {}
        for a, b, i in sc['cuts']:
            if cuttable:
                i = cuttable[i % len(cuttable)]
                if i not in taken:
                    taken[i] = 1
                    cuts.append((a, b, i))
        # Reference: flow of the signals
        np.random.seed(seed & 0xffffffff)
        now = 0.
        frames = []
        extra = 4
        for c in range(cycles + extra):
            self.apply_cuts(ref, cuts, c)
            ref.grow(c)
            ClockMixin.set_current_time(now)
            for node in nodes:
                ref.made[node['n']][0].update()
            for block in ref.grown_order():
                block.update()
            frames.append(self.frames(ref))
            now += INTERVAL
        want = results(ref)
        kinds = ' '.join(n['k'] for n in nodes)
        for n in nodes:
            ctx.count(n['k'])
        ctx.nontrivial = len(nodes) >= 3
        for v in sc['variants']:
            self.variant(sc, v, nodes, cuts, want, frames, kinds, ctx, world)

    @staticmethod
    def cuttable(nodes, edge):
        node = [n for n in nodes if n['n'] == edge['dst']][0]
        src = [n for n in nodes if n['n'] == edge['src'][0]][0]
        return node['k'] in ('mix', 'stereoMix', 'probe') or KINDS[node['k']][edge['slot']] in ('n', '?n', '?c')

    @staticmethod
    def apply_cuts(build, cuts, cycle):
        for a, b, i in cuts:
            if cycle == a:
                build.cut(i, True)
            elif cycle == b:
                build.cut(i, False)

    @staticmethod
    def frames(ref):
        """What the sound card should get."""
        if ref.dac is None:
            return None
        channels = []
        for inp in ref.dac.inputs:
            val = inp.value if inp.connected else np.zeros(N)
            channels += [val] if np.ndim(val) == 1 else list(val)
        return np.stack(channels[:ref.nDac], axis=1).astype(np.float32)

    def variant(self, sc, v, nodes, cuts, want, frames, kinds, ctx, world):
        from klang.clock import ClockMixin
        from klang.execution import determine_execution_order, execute
        from klang.klang import run_klang
        rng = random.Random(v['seed'])
        seed, cycles = sc['seed'], sc['cycles']
        ClockMixin.set_current_time(0.)
        driver = v['driver']
        grow = sc.get('grow', [])
        groups = list(v['groups'])
        if driver == 'live':   # The outermost order is settled while playing
            groups += [[g['on'][0]] * 2 for g in grow if not any(lo <= g['on'][0] <= hi for lo, hi in groups)]
        b = Build(nodes, groups, rng, seed, grow)
        if driver in ('live', 'offline') and b.dac is None:
            driver = 'manual'
        if driver == 'loop' and b.dac is not None:
            driver = 'offline'
        np.random.seed(seed & 0xffffffff)
        off = set()

        def between(c):
            for a, e, i in cuts:
                if c == a:
                    off.add(i)
                    ctx.fault('cable cut')
                elif c == e:
                    off.discard(i)
            self.apply_cuts(b, cuts, c)
            if any(g['at'] == c for g in grow):
                ctx.fault('patch changed')
            again = b.grow(c)
            for at, i in v['rewires']:
                if at == c and b.edges:
                    i %= len(b.edges)
                    if i not in off:
                        ctx.fault('rewired')
                        b.cut(i, True)
                        b.cut(i, False)
            return again

        total = cycles
        order = None
        if driver == 'manual':
            execOrder = determine_execution_order(b.starts())
            order = [x.name for x in execOrder]
            now = 0.
            stale = False
            for c in range(cycles):
                restored = any(e == c and i in off for _, e, i in cuts)
                again = between(c)
                replans = ['top'] if again else []
                replans += [what for at, what in v['replans'] if at == c]
                if stale and restored:
                    replans.append('both')   # The order was made without these connections
                    stale = bool(off)
                for what in replans:
                    ctx.fault('replanned')
                    stale = stale or bool(off)
                    if what != 'top':
                        todo = sorted(b.composites)
                        rng.shuffle(todo)
                        for idx in todo:
                            b.plan(idx, True)
                    if what != 'groups':
                        execOrder = determine_execution_order(b.starts(True))
                ClockMixin.set_current_time(now)
                execute(execOrder)
                now += INTERVAL
            ctx.simTime += now
        elif driver == 'offline':
            run_klang(*b.starts(), offline=True, duration=(cycles + .5) * INTERVAL)
            ctx.simTime += cycles * INTERVAL
        elif driver == 'loop':
            left = [cycles]

            def on_sleep(seconds):
                world.now += seconds + 1e-5
                if left[0] == 0:
                    raise core.StopRun()
                left[0] -= 1

            world.now = .0003
            world.on_sleep = on_sleep
            try:
                run_klang(*b.starts())
                ctx.fail('loop-ended', 'the main loop returned')
            except core.StopRun:
                pass
            finally:
                world.on_sleep = None
            ctx.simTime += cycles * INTERVAL
        else:
            audio = world.audio = SimAudio(world, v['card'])
            audio.before_callback = between
            run_klang(*b.starts(), duration=(cycles - .5) * INTERVAL)
            world.on_sleep = None
            stream = audio.streams[0]
            total = stream.k
            ctx.check(total >= 1, 'no-sound', 'no callback')
            for k, out in enumerate(stream.out):
                if k >= len(frames):
                    break
                got = np.frombuffer(out[2], np.float32).reshape(N, b.nDac)
                ctx.check(np.array_equal(got, frames[k]), 'frames', 'sound card got %s in cycle %d, expected %s', describe(got), k, describe(frames[k]))
            ctx.simTime += total * INTERVAL
        for n, rec in b.recorders:
            name = '%s %d' % (type(rec).__name__.lower(), n)
            late = [g['at'] for k, g in enumerate(b.grown_specs()) if n == 1002 + 10 * k and g['how'] == 'late']
            runs = max(0, total - late[0]) if late else total
            ctx.check(len(rec.cycles) == runs, 'cycles', '%s ran %d times in %d cycles (%s)', name, len(rec.cycles), runs, driver)
            for c, (x, y) in enumerate(zip(want[n], rec.cycles)):
                if not same_cycle(x, y):
                    ctx.fail('differs', '%s (%s, composites %s) got %s in cycle %d, along the signal flow it is %s' % (
                        name, driver, sorted(v['groups']), describe(y), c, describe(x)))
        ctx.log(driver, total, order)
        for n, rec in b.recorders:
            for x in rec.cycles:
                if isinstance(x, list):
                    if x:
                        ctx.log(n, describe(x))
                else:
                    ctx.log(n, x)
        ctx.state(kinds, sorted(v['groups']), driver, order)


PROP = P21()
