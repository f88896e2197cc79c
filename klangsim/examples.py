"""The example scripts of the repository as patches."""
import os
import random
import runpy

import numpy as np

from klangsim import boot
from klangsim.devices.audio import SimAudio
from klangsim.devices.keyboard import SimKeyboard

N = 256
INTERVAL = 256 / 44100
NAMES = ['hello_world', 'arpeggiator_demo', 'aeolian_arp', 'audio_file_demo', 'haunting_envelopes', 'micro_rhythm_demo',
         'reverberation_demo', 'sequencer_demo', 'tempo_aware_effects', 'synthesizer_demo']


class Script:

    """An example script, run as by a user up to its call of run_klang."""

    def __init__(self, name, seed):
        import klang.klang
        self.seed = seed
        path = os.path.join(boot.REPO, 'examples', name + '.py')
        self.blocks = None
        if not os.path.isfile(path):
            return

        def capture(*blocks, **kwargs):
            self.blocks = blocks

        real = klang.klang.run_klang
        klang.klang.run_klang = capture
        self.reseed()
        try:
            runpy.run_path(path, run_name='__main__')
        finally:
            klang.klang.run_klang = real

    def reseed(self):
        random.seed(self.seed)
        np.random.seed(self.seed & 0xffffffff)


def plain_key(char):
    from pynput.keyboard import KeyCode
    return KeyCode.from_char(char)


class Listener:

    """Records what the sound card block is given."""

    def __init__(self, dac):
        from klang.block import Block
        listener = self
        self.cycles = []
        self.dac = dac

        class ListenerBlock(Block):
            def update(self):
                rows = []
                for i in self.inputs:
                    rows += list(np.atleast_2d(np.asarray(i.value, float)))
                listener.cycles.append(np.stack([np.broadcast_to(r, (N,)) for r in rows]).copy())

        self.block = ListenerBlock(nInputs=len(dac.inputs))
        for mine, theirs in zip(self.block.inputs, dac.inputs):
            if theirs.connected:
                theirs.incomingConnection.connect(mine)


def find_dac(blocks):
    from klang.audio.klanggeber import Dac
    from klang.execution import determine_execution_order
    return [b for b in determine_execution_order(blocks) if isinstance(b, Dac)][0]


def render(name, seed, driver, cycles, keys, world, ctx, card=None):
    """Play an example script. Returns array (cycles, channels, N), the bytes
    given to the sound card, or None if there is no such script.
    """
    from klang.clock import ClockMixin
    from klang.execution import determine_execution_order, execute
    from klang.klang import run_klang
    ClockMixin.set_current_time(0.)
    world.keyboard = SimKeyboard(world)
    script = Script(name, seed)
    if script.blocks is None:
        return None
    dac = find_dac(script.blocks)
    listener = Listener(dac)
    blocks = list(script.blocks) + [listener.block]
    if driver == 'live':
        blocks.reverse()
    script.reseed()

    def press(c):
        for at, down, char in keys:
            if at == c:
                world.keyboard.fire(down, plain_key(char))

    raw = []
    if driver == 'manual':
        order = determine_execution_order(blocks)
        for c in range(cycles):
            press(c)
            ClockMixin.set_current_time(c * INTERVAL)
            execute(order)
    elif driver == 'offline':
        run_klang(*blocks, offline=True, duration=(cycles + .5) * INTERVAL)
    else:
        audio = world.audio = SimAudio(world, card)
        audio.before_callback = press
        run_klang(*blocks, duration=(cycles - .5) * INTERVAL)
        world.on_sleep = None
        raw = [out[2] for out in audio.streams[0].out]
    ctx.simTime += cycles * INTERVAL
    return listener.cycles, raw, dac.nChannels


def play(sc, ctx, world):
    name, cycles, seed = sc['example'], sc['cycles'], sc['seed']
    want = render(name, seed, 'manual', cycles, sc['keys'], world, ctx)
    if want is None:
        ctx.nontrivial = False
        return
    want = want[0]
    ctx.count('example ' + name)
    ctx.check(len(want) == cycles, 'cycles', '%s: %d cycles instead of %d', name, len(want), cycles)
    whole = np.concatenate(want, axis=1)
    ctx.check(np.isfinite(whole).all(), 'not-finite', '%s puts out samples which are no numbers', name)
    if not sc['keys'] and cycles >= 40:
        ctx.check(np.abs(whole).max() > 1e-6, 'silent', '%s is silent for %d cycles', name, cycles)
    for v in sc['variants']:
        if v['driver'] == 'offline' and sc['keys']:
            continue
        got, raw, channels = render(name, seed, v['driver'], cycles, sc['keys'], world, ctx, v.get('card'))
        ctx.check(len(got) >= cycles, 'cycles', '%s: %d cycles instead of %d (%s)', name, len(got), cycles, v['driver'])
        for c in range(cycles):
            ctx.check(got[c].shape == want[c].shape and np.array_equal(got[c], want[c]), 'differs',
                      '%s sounds different in cycle %d when driven %s', name, c, v['driver'])
        for c, data in enumerate(raw[:cycles]):
            frames = np.frombuffer(data, np.float32).reshape(N, channels)
            ctx.check(np.array_equal(frames, want[c].T[:, :channels].astype(np.float32)), 'frames', '%s: sound card got other samples in cycle %d', name, c)
        ctx.log(name, v['driver'], len(got))
        ctx.state('example', name, v['driver'])
    ctx.log(name, whole)
    ctx.nontrivial = True
