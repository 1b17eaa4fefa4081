"""Commands that only tell how they were started, and then exit as told."""
import os, select, socket, struct, subprocess, time
from . import e2e, wire
from .common import CheckError


class FixedListener(e2e.Listener):
    """A control path that is part of the configuration."""

    def really_close(self):
        super().close()

    def stop(self):
        self.really_close()

    def close(self):
        while True:      # late arrivals
            try:
                self.sock.accept()[0].close()
            except OSError:
                break


class Probe:
    """Starts of the puppet, seen through a listener."""

    def __init__(self, listener):
        self.listener = listener

    def hello(self, over, timeout, exit=0):
        """The next start (a hello), or None if over() before; the command is told to exit."""
        end = time.monotonic() + timeout
        while True:
            try:
                s, _ = self.listener.sock.accept()
                break
            except OSError:
                pass
            done = over()
            if select.select([self.listener.sock], [], [], 0 if done else 0.02)[0]:
                continue
            if done or time.monotonic() > end:
                return None
        try:
            s.settimeout(timeout)
            b = b''
            while b'\n' not in b:
                d = s.recv(1 << 20)
                if not d:
                    return None
                b += d
            h = e2e.parse_hello(b.split(b'\n')[0].decode())
            s.sendall(b's 0\nx %d\n' % exit)
            return h
        except OSError:
            return None
        finally:
            s.close()

    def drain(self):
        """Starts nobody asked for."""
        n = 0
        while True:
            try:
                self.listener.sock.accept()[0].close()
                n += 1
            except OSError:
                return n


def run_client(popen, probe, timeout, exit=0):
    """Runs a client to its end; returns (hello or None, status or None if it does not end)."""
    p = popen()
    h = probe.hello(lambda: p.poll() is not None, timeout, exit)
    try:
        st = p.wait(timeout)
    except subprocess.TimeoutExpired:
        st = None
        p.kill()
        p.wait()
    return h, st


def request(port, frames, timeout=10):
    """A raw session: sends the frames; returns the socket."""
    s = socket.socket()
    s.settimeout(timeout)
    s.connect(('127.0.0.1', port))
    s.sendall(b''.join(frames))
    return s


def exit_code(s):
    """Reads a raw session to its end; the exit code or None."""
    f = wire.Frames()
    code = None
    try:
        while True:
            d = s.recv(1 << 16)
            if not d:
                break
            for x in f.feed(d):
                if x[1] == wire.EXIT:
                    code = x[2]
    except OSError:
        pass
    s.close()
    return code
