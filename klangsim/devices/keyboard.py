"""Simulated pynput listener: key events decided by the scenario."""
from klangsim import core


class SimKeyboard:
    def __init__(self, world):
        self.world = world
        self.ctx = world.ctx
        self.listeners = []

    def listener(self, on_press=None, on_release=None, suppress=False, **kwargs):
        ls = SimListener(self, on_press, on_release, suppress)
        self.listeners.append(ls)
        return ls

    def fire(self, press, key):
        for ls in self.listeners:
            ls.fire(press, key)


class SimListener:
    def __init__(self, device, on_press, on_release, suppress):
        self.device = device
        self.on_press, self.on_release, self.suppress = on_press, on_release, suppress
        self.started = False
        self.alive = False
        self.daemon = True
        self.name = 'listener'

    def start(self):
        if self.started:
            raise RuntimeError('threads can only be started once')
        self.started = self.alive = True

    def stop(self):
        self.alive = False

    def is_alive(self):
        return self.alive

    def join(self, timeout=None):
        pass

    def wait(self):
        pass

    @property
    def running(self):
        return self.alive

    def fire(self, press, key):
        if not self.alive:
            return
        callback = self.on_press if press else self.on_release
        if not callback:
            return
        try:
            ret = callback(key)
        except Exception as err:
            self.alive = False
            self.device.ctx.fail('listener-died', '%s of %r ended the listening: %s' % (
                'press' if press else 'release', key, core.short_tb(err, 4)))
        if ret is False:
            self.alive = False
            self.device.ctx.fail('listener-died', '%s of %r ended the listening' % ('press' if press else 'release', key))
