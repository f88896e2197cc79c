"""Simulated datagram network (UDP and Unix datagram sockets)."""
import errno
import os
import socket

from klangsim.core import EventQueue, HarnessError, sim_fault
from klangsim.seams import REAL

RCVBUF = 212992
MAX_UDP = 65507

SEND_ERRORS = {
    'refused': (ConnectionRefusedError, errno.ECONNREFUSED),
    'again': (BlockingIOError, errno.EAGAIN),
    'nobufs': (OSError, errno.ENOBUFS),
    'msgsize': (OSError, errno.EMSGSIZE),
    'netunreach': (OSError, errno.ENETUNREACH),
    'hostunreach': (OSError, errno.EHOSTUNREACH),
    'noent': (FileNotFoundError, errno.ENOENT),
    'intr': (InterruptedError, errno.EINTR),
    'perm': (PermissionError, errno.EPERM),
    'nomem': (OSError, errno.ENOMEM),
    'gai': (socket.gaierror, socket.EAI_AGAIN),
    'timeout': (socket.timeout, errno.ETIMEDOUT),
}
RECV_ERRORS = {
    'reset': (ConnectionResetError, errno.ECONNRESET),
    'refused': (ConnectionRefusedError, errno.ECONNREFUSED),
    'nomem': (OSError, errno.ENOMEM),
    'netdown': (OSError, errno.ENETDOWN),
}


def make_error(table, kind):
    cls, no = table[kind]
    return sim_fault(cls(no, os.strerror(no) if no > 0 else 'Temporary failure in name resolution'))


class SimNet:

    """Datagrams in flight, bound sockets and scheduled faults.

    fates: list of [lost, copies, delay...] per datagram in sending order.
    sendFaults / recvFaults: {call number: kind of error}.
    """

    def __init__(self, ctx, world, fates=(), sendFaults=None, recvFaults=None, latency=1e-4):
        self.ctx = ctx
        self.world = world
        self.fates = list(fates)
        self.sendFaults = sendFaults or {}
        self.recvFaults = recvFaults or {}
        self.latency = latency
        self.bound = {}
        self.flight = EventQueue()
        self.nSent = 0
        self.nSendCalls = 0
        self.nRecvCalls = 0
        self.failedCalls = []
        self.onDeliver = None     # callable(address, datagram number)
        self.sentLog = []         # (datagram number, address)
        self.partitioned = False
        self.clogged = False

    def socket(self, family=-1, type=-1, proto=-1, fileno=None):
        return SimSocket(self, family)

    def key(self, address):
        return tuple(address[:2]) if isinstance(address, (tuple, list)) else address

    def transmit(self, sock, data, address):
        """One sendto call."""
        n = self.nSendCalls
        self.nSendCalls += 1
        address = self.key(address)
        kind = self.sendFaults.get(n)
        if kind is None and len(data) > MAX_UDP:
            self.failedCalls.append(n)
            raise OSError(errno.EMSGSIZE, 'Message too long')
        if kind is None and isinstance(address, str) and address not in self.bound:
            self.failedCalls.append(n)
            self.ctx.fault('send error: peer missing')
            raise make_error(SEND_ERRORS, 'refused' if os.path.exists(address) else 'noent')
        if kind is not None:
            self.failedCalls.append(n)
            self.ctx.fault('send error: ' + kind)
            self.ctx.log('send error', kind)
            raise make_error(SEND_ERRORS, kind)
        nr = self.nSent
        self.nSent += 1
        self.sentLog.append((nr, address))
        lost, delays = False, [0.]
        if nr < len(self.fates):
            lost = bool(self.fates[nr][0])
            delays = list(self.fates[nr][1:]) or [0.]
        if self.partitioned:
            self.ctx.fault('partition drop')
            lost = True
        elif lost:
            self.ctx.fault('loss')
        if not lost:
            if len(delays) > 1:
                self.ctx.fault('duplication', len(delays) - 1)
            for d in delays:
                if d:
                    self.ctx.fault('delay')
                self.flight.push(self.world.now + self.latency + d, (nr, bytes(data), address))
        return len(data)

    def inject(self, data, address, nr=None):
        """Datagram of a foreign sender."""
        self.flight.push(self.world.now + self.latency, (nr, bytes(data), self.key(address)))

    def progress(self):
        for nr, data, address in self.flight.pop_due(self.world.now):
            sock = self.bound.get(address)
            if sock is None or sock.closed:
                self.ctx.fault('peer missing')
                continue
            if sock.pending() + len(data) > RCVBUF:
                self.ctx.fault('receive buffer full')
                continue
            sock.rx.append(data)
            self.ctx.log('deliver', nr, len(data))
            if self.onDeliver:
                self.onDeliver(address, nr)


class SimSocket:
    def __init__(self, net, family):
        self.net = net
        self.family = family if family != -1 else socket.AF_INET
        self.type = socket.SOCK_DGRAM
        self.proto = 0
        self.rx = []
        self.address = None
        self.peer = None
        self.closed = False
        self.timeout = None

    def pending(self):
        return sum(map(len, self.rx))

    def _alive(self):
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')

    def setblocking(self, flag):
        self.timeout = None if flag else 0.

    def settimeout(self, value):
        self.timeout = value

    def gettimeout(self):
        return self.timeout

    def getblocking(self):
        return self.timeout != 0.

    def setsockopt(self, *args):
        self._alive()

    def getsockopt(self, *args):
        return 0

    def bind(self, address):
        self._alive()
        address = self.net.key(address)
        if address in self.net.bound and not self.net.bound[address].closed:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        if isinstance(address, str):
            # The socket file outlives the socket
            real = REAL['socket'](socket.AF_UNIX, socket.SOCK_DGRAM)
            try:
                real.bind(address)
            finally:
                real.close()
        self.address = address
        self.net.bound[address] = self

    def getsockname(self):
        return self.address or ('0.0.0.0', 0)

    def connect(self, address):
        self._alive()
        address = self.net.key(address)
        if isinstance(address, str) and address not in self.net.bound:
            raise make_error(SEND_ERRORS, 'refused' if os.path.exists(address) else 'noent')
        self.peer = address

    def sendto(self, data, *args):
        self._alive()
        return self.net.transmit(self, data, args[-1])

    def send(self, data, flags=0):
        self._alive()
        return self.net.transmit(self, data, self.peer)

    sendall = send

    def _receive(self, peek=False):
        self._alive()
        n = self.net.nRecvCalls
        self.net.nRecvCalls += 1
        if n in self.net.recvFaults:
            kind = self.net.recvFaults[n]
            self.net.ctx.fault('receive error: ' + kind)
            raise make_error(RECV_ERRORS, kind)
        self.net.progress()
        if not self.rx:
            if self.timeout == 0.:
                raise BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable')
            if self.timeout is None:
                from klangsim.core import Violation
                raise Violation('blocks', 'receiving blocks the audio cycle')
            self.net.world.now += self.timeout
            self.net.progress()
            if not self.rx:
                raise socket.timeout('timed out')
        return self.rx[0] if peek else self.rx.pop(0)

    def recv(self, bufsize, flags=0):
        data = self._receive(bool(flags & socket.MSG_PEEK))
        if len(data) > bufsize:
            self.net.ctx.count('truncated datagrams')
        return data[:bufsize]

    def recvfrom(self, bufsize, flags=0):
        return self.recv(bufsize, flags), ('127.0.0.1', 1)

    def recv_into(self, buffer, nbytes=0, flags=0):
        view = memoryview(buffer).cast('B')
        data = self.recv(nbytes or len(view), flags)
        view[:len(data)] = data
        return len(data)

    def recvfrom_into(self, buffer, nbytes=0, flags=0):
        return self.recv_into(buffer, nbytes, flags), ('127.0.0.1', 1)

    def fileno(self):
        return -1

    def shutdown(self, how):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            if self.address is not None and self.net.bound.get(self.address) is self:
                del self.net.bound[self.address]

    def detach(self):
        raise HarnessError('detach of simulated socket')

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
