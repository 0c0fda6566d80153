"""Loopback helpers shared by checks."""
import os
import select
import selectors
import socket
import socketserver
import struct


def udp_receiver():
    """A bound, non-blocking UDP socket."""
    sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
    sock.bind(("127.0.0.1", 0))
    sock.setblocking(False)
    return sock


def udp_take(sock):
    """Every datagram received so far."""
    out = []
    while True:
        try:
            out.append(sock.recv(1 << 16))
        except BlockingIOError:
            return out


def udp_manager(writer):
    """A client manager on this writer."""
    from vtelem.classes.udp_client_manager import UdpClientManager

    return UdpClientManager(writer)


class VirtualSelector:
    """A selector for servers run by the controlled scheduler: readiness is
    that of the real sockets, waiting is virtual."""

    def __init__(self):
        self.socks = []

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.socks = []

    def register(self, sock, *_):
        self.socks.append(sock)

    def close(self):
        self.socks = []

    def select(self, timeout=None):
        from mc import sched

        def ready():
            if any(s.fileno() == -1 for s in self.socks):
                return True
            return bool(select.select(self.socks, [], [], 0)[0])

        if sched.me() is None:
            return select.select(self.socks, [], [], timeout)[0]
        if sched.CURRENT.aborting:
            raise sched.Abort()
        sched.CURRENT.wait(ready, "select", timeout)
        return self.socks if ready() else []


def virtual_servers():
    """Have servers of socketserver wait in virtual time."""
    socketserver._ServerSelector = VirtualSelector


def tcp_connect(address):
    """A connection that leaves no state behind in the kernel."""
    sock = socket.create_connection(("127.0.0.1", address[1]))
    sock.setsockopt(
        socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)
    )
    sock.setblocking(False)
    return sock


def tcp_take(sock):
    """(what was received so far, whether the peer closed)"""
    data = b""
    while True:
        try:
            part = sock.recv(1 << 16)
        except BlockingIOError:
            return data, False
        except ConnectionError:
            return data, True
        if not part:
            return data, True
        data += part


def open_fds():
    """Number of open descriptors of this process."""
    return len(os.listdir("/proc/self/fd"))


class VirtualLoopSelector(selectors.SelectSelector):
    """The same for event loops."""

    def select(self, timeout=None):
        from mc import sched

        if sched.me() is None or sched.CURRENT.aborting:
            return super().select(0)
        found = super().select(0)
        if found or (timeout is not None and timeout <= 0):
            return found
        real = super().select
        sched.CURRENT.wait(lambda: bool(real(0)), "loop", timeout)
        return real(0)
