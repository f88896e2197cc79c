"""Sources, probes and drivers of simulated patches."""
from klangsim.core import StopRun

INTERVAL = 256 / 44100


def make_classes():
    """Block classes (klang can only be imported after the seams are in place)."""
    if 'Source' in globals():
        return
    from klang.block import Block
    from klang.connections import MessageInput, MessageOutput

    class Source(Block):

        """Sends the messages of a schedule: cycle -> messages."""

        def __init__(self, schedule, begin=None):
            super().__init__()
            self.outputs = [MessageOutput(owner=self)]
            self.schedule = schedule
            self.begin = begin
            self.cycle = -1

        def update(self):
            self.cycle += 1
            if self.begin:
                self.begin(self.cycle)
            for msg in self.schedule.get(self.cycle, ()):
                self.output.send(msg)

    class Probe(Block):

        """Records messages per cycle."""

        def __init__(self):
            super().__init__()
            self.inputs = [MessageInput(owner=self)]
            self.cycles = []

        def update(self):
            self.cycles.append(list(self.input.receive()))

    globals().update(Source=Source, Probe=Probe)


def run_loop(world, blocks, nCycles, first, jitter=(), cost=None):
    """Run blocks with the main loop for patches without audio. `first` is the
    Source which runs first in each cycle and ends the loop. Jitter: errors of
    sleep per call. Cost: callable(cycle) -> duration of the cycle."""
    from klang.klang import run_klang
    sleeps = [0]

    def on_sleep(seconds):
        i = sleeps[0]
        sleeps[0] += 1
        world.ctx.check(i < 20 * nCycles + 100, 'stalled', 'the main loop sleeps without running any cycle')
        world.now += max(0., seconds + (jitter[i % len(jitter)] if jitter else 0.))

    inner = first.begin

    def begin(cycle):
        if cycle >= nCycles:
            raise StopRun()
        if cost:
            world.now += cost(cycle)
        if inner:
            inner(cycle)

    first.begin = begin
    world.on_sleep = on_sleep
    try:
        run_klang(*blocks)
        world.ctx.fail('loop-ended', 'the main loop returned')
    except StopRun:
        pass
    world.ctx.simTime += world.now


def gen_pitch(rng, few=True):
    if few:
        return rng.choice([0, 1, 60, 60, 60, 61, 62, 64, 67, 72, 127])
    return rng.randint(0, 127)


def gen_velocity(rng):
    return rng.choice([1., 1., .5, rng.uniform(.01, 1.), 1 / 127, 1e-3, 1e-9])


def gen_note(rng, few=True, offs=.3):
    """Note spec [pitch, velocity, frequency or None]."""
    return [gen_pitch(rng, few), 0. if rng.random() < offs else gen_velocity(rng),
            None if rng.random() < .6 else rng.choice([0., 1., 440., round(rng.uniform(20, 12000), 3)])]


def make_note(spec):
    from klang.messages import Note
    if isinstance(spec, dict):
        return spec['plain']
    return Note(*spec)


def note_str(n):
    try:
        return '%s%g%s' % ('+' if n.velocity > 0 else '-', n.pitch, '' if n.velocity in (0, 1) else '*%.3g' % n.velocity)
    except (AttributeError, TypeError):
        return repr(n)


def same_note(a, b):
    """Equal type and content."""
    if not hasattr(a, 'velocity'):
        return type(a) is type(b) and a == b
    return type(a) is type(b) and a.pitch == b.pitch and a.velocity == b.velocity and a.frequency == b.frequency
