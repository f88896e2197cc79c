"""Simulated MIDI port behind the interface of python-rtmidi."""
from klangsim import core


class SimMidi:

    """Spec: ports (list of names), fail: list of send numbers which fail,
    openFails: bool."""

    def __init__(self, world, spec):
        self.world = world
        self.ctx = world.ctx
        self.spec = spec
        self.outs = []
        self.nSent = 0

    def create(self):
        out = SimMidiOut(self)
        self.outs.append(out)
        return out


class SimMidiOut:
    def __init__(self, device):
        self.device = device
        self.port = None       # int, 'virtual' or None
        self.opens = 0
        self.closes = 0
        self.sent = []         # (message, delivered)

    def error(self, cls, text):
        import rtmidi
        return core.sim_fault(getattr(rtmidi, cls)(text))

    def get_ports(self, encoding='auto'):
        return list(self.device.spec['ports'])

    def get_port_count(self):
        return len(self.device.spec['ports'])

    def get_port_name(self, i, encoding='auto'):
        return self.device.spec['ports'][i]

    def is_port_open(self):
        return self.port is not None

    def open_port(self, port=0, name=None):
        self.device.ctx.log('open_port', port)
        if self.port is not None:
            raise self.error('InvalidUseError', 'already open')
        if not 0 <= port < len(self.device.spec['ports']):
            raise self.error('InvalidPortError', 'no such port')
        if self.device.spec.get('openFails'):
            self.device.ctx.fault('opening the port fails')
            raise self.error('SystemError', 'port is busy')
        self.opens += 1
        self.port = port
        return self

    def open_virtual_port(self, name=None):
        self.device.ctx.log('open_virtual_port')
        if self.port is not None:
            raise self.error('InvalidUseError', 'already open')
        if self.device.spec.get('openFails'):
            self.device.ctx.fault('opening the port fails')
            raise self.error('SystemError', 'no virtual ports')
        self.opens += 1
        self.port = 'virtual'
        return self

    def close_port(self):
        self.device.ctx.log('close_port')
        if self.port is not None:
            self.closes += 1
        self.port = None

    def delete(self):
        self.close_port()

    def send_message(self, message):
        n = -1      # Only the first port fails
        if self is self.device.outs[0]:
            n = self.device.nSent
            self.device.nSent += 1
        msg = []
        for x in message:
            if isinstance(x, float):
                raise TypeError('an integer is required')
            v = x.__index__()
            if not 0 <= v <= 255:
                raise OverflowError('value too large to convert to unsigned char')
            msg.append(v)
        if not msg:
            raise ValueError('message must not be empty')
        if self.port is None:
            self.device.ctx.fail('closed', 'message sent to a port which is not open')
        failed = n in self.device.spec.get('fail', ())
        self.sent.append((msg, not failed))
        self.device.ctx.log('midi', repr(msg), failed)
        if failed:
            self.device.ctx.fault('sending fails')
            raise self.error('SystemError', 'error sending message')
