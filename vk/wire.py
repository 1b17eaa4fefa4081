"""Sessions in which the harness is one of the two ends of the connection.

WireClient: the harness is the client of the real server (and the puppet is the command).
WireServer: the harness is the server, and the command, of the real client."""
import os, random, select, socket, struct, time
from .common import CheckError, expect
from .e2e import FD, NAME, Listener, Session

WD, ENV, ARG, START, STDIN, STDOUT, STDERR, TERMINATE, EXIT = range(9)
KINDS = {'wd': WD, 'env': ENV, 'arg': ARG, 'start': START, 'stdin': STDIN, 'stdout': STDOUT, 'stderr': STDERR, 'terminate': TERMINATE, 'exit': EXIT}


def frame(t, data=b''):
    return bytes([t]) + struct.pack('<I', len(data)) + data


def rst_close(s):
    try:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
    except OSError:
        pass
    s.close()


class Frames:
    """Parses a byte stream into (type, length) headers and payload pieces."""

    def __init__(self):
        self.head = b''
        self.type = self.left = None
        self.at = 0

    def feed(self, data):
        i = 0
        while i < len(data):
            if self.type is None:
                k = min(5 - len(self.head), len(data) - i)
                self.head += data[i:i + k]
                i += k
                if len(self.head) == 5:
                    self.type, self.left = self.head[0], struct.unpack('<I', self.head[1:])[0]
                    self.head = b''
                    value, t = self.left, self.type
                    if t == EXIT:
                        self.type = None
                    yield ('head', t, value)
                    if t != EXIT and not self.left:
                        self.type = None
            else:
                k = min(self.left, len(data) - i)
                piece = data[i:i + k]
                i += k
                self.left -= k
                t = self.type
                if not self.left:
                    self.type = None
                yield ('data', t, piece)

    def partial(self):
        return bool(self.head) or self.type is not None


class Outgoing:
    """What is to be sent on a connection, possibly in many small pieces."""

    def __init__(self, sock, rng, split):
        self.sock, self.rng, self.split = sock, rng, split
        self.q = bytearray()
        self.sent = self.total = 0
        self.broken = False
        self.more = None      # an iterator of messages that are sent whenever nothing else is to be

    def put(self, data):
        self.q += data
        self.total += len(data)

    def pending(self):
        return not self.broken and (self.q or self.more is not None)

    def push(self):
        most = self.sent + (1 << 20)
        while self.pending() and self.sent < most:
            if not self.q:
                m = next(self.more, None)
                if m is None:
                    self.more = None
                    return
                self.put(m)
            n = len(self.q)
            if self.split:
                n = min(n, self.rng.choice([1, 2, 3, 4, 5, 6, 7, 64, 1000, 8191, 8192, 65536, 100000]))
            try:
                w = self.sock.send(self.q[:min(n, 1 << 18)])
            except BlockingIOError:
                return
            except OSError:
                self.broken = True
                self.more = None
                return
            del self.q[:w]
            self.sent += w
            if self.split and self.q and self.rng.randrange(4) == 0:
                time.sleep(0.0002)


def messages(sess, t, stream, at, n):
    """Messages with n bytes of a stream's content, made when they are needed."""
    size = sess.rng.choice([100, 8187, 30000, 65531, 65531])
    while n:
        m = min(n, size)
        yield frame(t, expect(stream, at, m, sess.seed))
        at += m
        n -= m


class WireClient(Session):
    """connect() returns a socket connected to the server."""

    def __init__(self, scratch, connect, schedule, command=b'run', wd=b'.', split=False, **kw):
        super().__init__(scratch, None, schedule, **kw)
        self.connect, self.command, self.wd = connect, command, wd
        self.rng = random.Random(self.seed * 31 + 7)
        self.split = split
        self.frames = Frames()
        self.sock = None
        self.peer = 'open'      # the server's direction of the connection
        self.ended = None

    def begin(self):
        self.ev('Cfg', startable=self.startable, req='open')
        self.sock = self.connect()
        self.sock.setblocking(False)
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.out = Outgoing(self.sock, self.rng, self.split)
        self.readers = {}
        self.frame('wd', self.wd)
        self.frame('arg', self.listener.path.encode())
        for _ in range(self.rng.randrange(3)):
            self.frame(*self.rng.choice([('arg', b''), ('arg', b'x' * self.rng.choice([1, 8187, 8192, 30000])), ('env', b'A=b')]))
        self.frame('start', self.command)

    def frame(self, kind, data=b''):
        self.ev('Frame', k=kind)
        self.out.put(frame(KINDS[kind], data))
        self.out.push()

    def poll(self, left):
        p = select.poll()
        fds = {}

        def add(fd, ev, fn, *a):
            p.register(fd, ev)
            fds[fd] = (fn, a)
        if self.listener.sock is not None:
            add(self.listener.sock.fileno(), select.POLLIN, self.on_accept)
        for c in self.conns:
            if not c.closed:
                add(c.sock.fileno(), select.POLLIN, self.on_conn, c)
        if self.sock is not None:
            e = (select.POLLOUT if self.out.pending() else 0)
            ok = True
            for s in self.flooded:
                ok, left = self.due(s, left)
                break
            if ok and self.peer == 'open' and (self.flow['out'] or self.flow['err'] or self.cmdState != 'run'):
                e |= select.POLLIN
            if e:
                add(self.sock.fileno(), e, self.on_sock)
        order = {self.on_accept: 0, self.on_conn: 1, self.on_sock: 2}
        ready = p.poll(max(1, int(left * 1000)))
        for fd, e in sorted(ready, key=lambda x: order[fds[x[0]][0]]):
            fn, a = fds[fd]
            fn(*a)

    def on_sock(self):
        self.out.push()
        n = 1 << 18
        for s in self.flooded:
            ok, _ = self.due(s, 0)
            if not ok:
                return
            n, wait = self.pace()
            self.flooded[s] = time.monotonic() + wait
            break
        if self.peer != 'open':
            return
        try:
            d = self.sock.recv(n)
        except BlockingIOError:
            return
        except OSError:
            d = b''
        if not d:
            self.peer = 'closed'
            if self.cliState == 'run' and self.ended is None:
                self.ended = -1
                self.cliState = 'end'
                self.ev('CliEnd', st=-1)
            return
        for what, t, v in self.frames.feed(d):
            if self.ended is not None:
                self.ev('AfterEnd')
                return
            if what == 'head':
                if t == EXIT:
                    self.ended = v if v < 1 << 31 else v - (1 << 32)
                    if self.cliState == 'run':
                        self.cliState = 'end'
                        self.ev('CliEnd', st=self.ended)
                elif t == STDIN and v == 0:
                    if self.cliState == 'run':
                        self.ev('StdinClosed')
                elif t in (STDOUT, STDERR):
                    if v == 0:
                        s = NAME[t - STDOUT + 1]
                        self.eof[s] = True
                        if self.cliState == 'run':
                            self.ev('DeliverEof', s=s)
                else:
                    self.ev('BadMessage', t=t)
                    self.peer = 'bad'
                    return
            elif t in (STDOUT, STDERR):
                s = NAME[t - STDOUT + 1]
                if self.cliState == 'run':
                    self.delivered(s, v)
                else:
                    self.dl[s] += len(v)

    def drain_readable(self, s):
        pass

    def order(self, o):
        k = o['op']
        if k == 'give':
            if self.inEnd or self.cliState != 'run':
                return
            n = o['n']
            self.ev('Give', n=n)
            cuts = [n]
            if n > 1 and self.rng.randrange(2):
                c = self.rng.randrange(1, n)
                cuts = [c, n - c]
            for c in cuts:
                self.out.put(frame(STDIN, expect(0, self.inWant, c, self.seed)))
                self.inWant += c
            self.out.push()
        elif k == 'pour':
            if self.cmdState == 'run' and not self.inEnd and self.cliState == 'run':
                self.ev('Give', n=o['n'])
                self.poured = True
                self.out.more = messages(self, STDIN, 0, self.inWant, o['n'])
                self.inWant += o['n']
                self.out.push()
        elif k == 'end':
            if self.inEnd:
                return
            self.ev('EndInput')
            self.inEnd = True
            self.out.put(frame(STDIN))
            self.out.push()
        elif k == 'readergone':
            pass
        else:
            super().order(o)

    def stall(self, what, **kw):
        super().stall('badterm' if what == 'term' and self.notes.get('kill') in ('badtype', 'early') else what, **kw)

    def kill_client(self, how):
        if self.cliState != 'run':
            return
        if self.peer == 'open' and select.select([self.sock], [], [], 0)[0]:
            self.on_sock()
            if self.cliState != 'run':
                return
        how = self.rng.choice(['close', 'rst', 'shutwr', 'terminate', 'badtype', 'cut', 'early'])
        self.out.more = None
        self.flooded = {}
        if self.out.q and how not in ('close', 'rst'):
            how = 'close'      # the message would wait behind others
        if self.split:
            self.out.split = False
        self.notes['kill'] = how
        self.ev('KillClient')
        self.cliState = 'gone'
        try:
            if how == 'close':
                self.sock.close()
                self.sock = None
            elif how == 'rst':
                rst_close(self.sock)
                self.sock = None
            elif how == 'shutwr':
                self.sock.shutdown(socket.SHUT_WR)
            elif how == 'terminate':
                self.sock.send(frame(TERMINATE))
            elif how == 'badtype':
                self.sock.send(bytes([self.rng.choice([0, 1, 2, 3, 5, 6, 8, 9, 100, 255])]) + b'\0\0\0\0')
            elif how == 'cut':
                f = frame(STDIN, b'abcdefgh')
                self.sock.send(f[:self.rng.randrange(1, len(f))])
                self.sock.shutdown(socket.SHUT_WR)
            elif how == 'early':
                self.sock.send(frame(START, b'run'))
        except OSError:
            pass
        self.flow['out'] = True    # goes on reading what the server still sends

    def finish(self):
        super().finish()
        if self.cliState == 'end' and self.ended is not None and self.ended >= 0 and self.peer == 'open' and not self.stalled:
            # nothing after the exit code but the end of the connection
            self.flow['out'] = True
            if not self.pump(lambda: self.peer != 'open'):
                self.notes['no FIN'] = True

    def cleanup(self):
        for c in self.conns:
            c.sock.close()
        self.listener.close()
        if self.sock is not None:
            self.sock.close()
            self.sock = None


class NoListener:
    sock = None

    def __init__(self, path):
        self.path = path

    def close(self):
        pass


class WireServer(Session):
    """`server` is a listening socket at the client's port; expected is the request the client must send: (kind, bytes)."""

    def __init__(self, scratch, launch, schedule, server, expected, split=False, **kw):
        super().__init__(scratch, launch, schedule, listener=NoListener('arg'), **kw)
        self.server, self.expected, self.split = server, expected, split
        self.rng = random.Random(self.seed * 37 + 11)
        self.sock = None
        self.out = None
        self.frames = Frames()
        self.request = []
        self.cur = None
        self.inEofSeen = False
        self.marks = []      # (total at which a write is complete, stream)
        self.connections = 0
        self.paused = False
        self.wantGot = 0

    def poll(self, left):
        p = select.poll()
        fds = {}

        def add(fd, ev, fn, *a):
            p.register(fd, ev)
            fds[fd] = (fn, a)
        add(self.server.fileno(), select.POLLIN, self.on_connect)
        if self.sock is not None:
            e = (select.POLLIN if not self.paused else 0) | (select.POLLOUT if self.out.pending() else 0)
            if e:
                add(self.sock.fileno(), e, self.on_sock)
        if self.stdin is not None and (self.inPos < self.inWant):
            add(self.stdin, select.POLLOUT, self.on_stdin)
        for s, fd in self.readers.items():
            ok, left = self.due(s, left)
            if ok and self.flow[s] and not self.eof[s]:
                add(fd, select.POLLIN, self.on_out, s)
        if self.client is not None and self.cliState == 'run':
            add(self.pidfd, select.POLLIN, self.on_exit)
        order = {self.on_connect: 0, self.on_sock: 1, self.on_stdin: 2, self.on_out: 3, self.on_exit: 4}
        ready = p.poll(max(1, int(left * 1000)))
        for fd, e in sorted(ready, key=lambda x: order[fds[x[0]][0]]):
            fn, a = fds[fd]
            fn(*a)

    def on_connect(self):
        s, _ = self.server.accept()
        self.connections += 1
        if self.connections > 1:
            self.ev('BadRequest', why='second connection')
            s.close()
            return
        self.sock = s
        s.setblocking(False)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.out = Outgoing(s, self.rng, self.split)

    def on_sock(self):
        self.out.push()
        self.check_marks()
        if self.paused:
            return
        try:
            d = self.sock.recv(1 << 18)
        except BlockingIOError:
            return
        except OSError:
            d = b''
        if not d:
            self.sock.close()
            self.sock = None
            self.notes['client closed'] = True
            return
        for what, t, v in self.frames.feed(d):
            self.on_frame(what, t, v)

    def check_marks(self):
        while self.marks and self.out.sent >= self.marks[0][0]:
            s = self.marks.pop(0)[1]
            self.busy[s] = ''
            if self.cliState == 'run' and self.cmdState == 'run':
                self.ev('WriteDone', s=s)

    def on_frame(self, what, t, v):
        if self.cmdState == 'off' and self.startable is not None and not (self.request and self.request[-1][0] == START and self.complete):
            if what == 'head':
                self.request.append([t, b''])
                self.need = v
            else:
                self.request[-1][1] += v
            self.complete = len(self.request[-1][1]) == self.need
            if self.complete and t == START:
                got = [(a, b) for a, b in self.request]
                self.requested = got
                if self.expected is not None and got != self.expected:
                    self.ev('BadRequest', why=repr(got)[:300])
                if self.startable:
                    self.ev('Start')
                    self.cmdState = 'run'
                    self.writers = {'out': {'cmd'}, 'err': {'cmd'}}
            elif t > START or len(self.request) > 100000:
                self.ev('BadRequest', why='type %d' % t)
            return
        if t != STDIN:
            if self.cliState == 'run':
                self.ev('BadInput', t=t)
            return
        over = self.cmdState != 'run' or self.shut
        if self.inEofSeen:
            self.ev('BadInput', why='data after the end')
        elif what == 'head':
            if v == 0:
                self.inEofSeen = True
                self.sawEof = True
                if not over:
                    self.ev('Eof')
        else:
            ok = v == expect(0, self.got, len(v), self.seed)
            self.got += len(v)
            if not over:
                self.ev('Got', n=len(v), ok=ok)
            elif not ok:
                self.ev('BadInput', why='wrong data')

    def put(self, data):
        if self.sock is not None:
            self.out.put(data)
            self.out.push()

    def order(self, o):
        k = o['op']
        s = o.get('s')
        if k == 'read':
            self.wantGot += o['n']
            self.reading = True
        elif k == 'awaitread':
            if self.cmdState == 'run' and not self.shut:
                if not self.pump(lambda: self.got >= self.wantGot or self.inEofSeen or self.gone()):
                    if self.inEnd and self.got == self.inWant:
                        self.stall('eof')
                    else:
                        self.stall('read')
                self.reading = False
        elif k == 'shut':
            if self.cmdState == 'run' and not self.shut:
                self.ev('Shut')
                self.shut = True
                self.put(frame(STDIN))
        elif k == 'write':
            if self.cmdState != 'run' or self.cliState != 'run' or self.busy[s] or 'cmd' not in self.writers[s]:
                return
            n = o['n']
            self.ev('WriteBeg', s=s, who='cmd', n=n)
            self.busy[s] = 'cmd'
            left = n
            while left:
                m = left if self.rng.randrange(2) else self.rng.randrange(1, left + 1)
                self.put(frame(STDOUT if s == 'out' else STDERR, expect(FD[s], self.wBeg[s], m, self.seed)))
                self.wBeg[s] += m
                left -= m
            if self.sock is not None:
                self.marks.append((self.out.total, s))
                self.check_marks()
        elif k == 'flood':
            if self.cmdState != 'run' or self.cliState != 'run' or self.busy[s] or 'cmd' not in self.writers[s] or self.sock is None or self.out.more is not None:
                return
            self.flooded[s] = 0
            self.set_flow(s, True)
            self.ev('WriteBeg', s=s, who='cmd', n=o['n'])
            self.busy[s] = 'cmd'
            self.out.more = messages(self, STDOUT if s == 'out' else STDERR, FD[s], self.wBeg[s], o['n'])
            self.wBeg[s] += o['n']
            self.out.push()
        elif k == 'close':
            if self.cmdState == 'run' and 'cmd' in self.writers[s]:
                self.ev('CloseOut', s=s)
                self.writers[s].discard('cmd')
                self.put(frame(STDOUT if s == 'out' else STDERR))
        elif k == 'exit':
            if self.cmdState == 'run':
                self.cut = None
                self.ev('CmdExit', c=o['c'])
                self.cmdState, self.code = 'exit', o['c']
                self.cmd_ended()
                for s in FD:     # as a server would
                    if s not in self.closedOut():
                        self.put(frame(STDOUT if s == 'out' else STDERR))
                self.put(bytes([EXIT]) + struct.pack('<I', o['c']))
                self.shutdown_later = True
                self.flush_out(lambda: self.sock.shutdown(socket.SHUT_WR))
        elif k == 'die':
            if self.cmdState == 'run':
                self.flooded = {}
                if self.out is not None:
                    self.out.more = None
                self.ev('CmdDie')
                self.cmdState = 'dead'
                self.cmd_ended()
                self.lose()
        elif k in ('hold', 'release'):
            pass
        elif k == 'sleep':
            self.paused = self.rng.randrange(3) == 0
            self.pump(lambda: False, o['ms'] / 1000.0)
            self.paused = False
        elif k == 'start':
            if self.cmdState == 'off' and not self.pump(lambda: self.cmdState != 'off' or self.cliState != 'run'):
                self.stall('start')
        else:
            super().order(o)

    def closedOut(self):
        return [e['s'] for e in self.events if e['e'] == 'CloseOut']

    def flush_out(self, then):
        """Sends what is left, then does `then`; reads the client's streams meanwhile."""
        save = dict(self.flow)
        for s in self.flow:
            self.flow[s] = True      # (between two waits: no obligation is judged meanwhile)
        self.pump(lambda: self.sock is None or not self.out.q or self.out.broken or self.cliState != 'run')
        self.flow.update(save)
        if self.sock is not None:
            try:
                then()
            except OSError:
                pass

    def lose(self):
        """The connection ends without an exit code."""
        how = self.rng.choice(['fin', 'rst', 'badtype', 'cuthead', 'cutdata', 'cutexit', 'shutwr'])
        self.notes['lose'] = how
        if self.sock is None:
            return

        def act():
            s = self.sock
            if how == 'rst':
                self.sock = None
                rst_close(s)
                return
            if how == 'badtype':
                s.send(bytes([self.rng.choice([0, 1, 2, 3, 7, 9, 10, 77, 255])]) + b'\0\0\0\0')
            elif how == 'cuthead':
                s.send(frame(STDOUT, b'abc')[:self.rng.randrange(1, 5)])
            elif how == 'cutdata':
                s.send(bytes([self.rng.choice([STDOUT, STDERR])]) + struct.pack('<I', 10000) + b'')
            elif how == 'cutexit':
                s.send((bytes([EXIT]) + b'\0\0\0\0')[:self.rng.randrange(1, 5)])
            if how in ('badtype', 'shutwr'):
                if how == 'shutwr':
                    s.shutdown(socket.SHUT_WR)
            else:
                self.sock = None
                s.close()
        self.flush_out(act)

    def finish(self):
        if not self.startable and self.cliState == 'run':
            n = self.rng.randrange(3)
            if n:
                self.pump(lambda: self.sock is not None or self.cliState != 'run')
                if n == 2:
                    self.pump(lambda: self.request and self.request[-1][0] == START or self.cliState != 'run', 1)
            else:
                self.pump(lambda: self.sock is not None or self.cliState != 'run')
            self.lose()
            for s in FD:
                self.set_flow(s, True)
            if not self.pump(lambda: self.cliState != 'run'):
                self.stall('end')
            return
        if self.cmdState == 'run' and self.cliState == 'run' and not self.stalled:
            pass
        super().finish()

    def finish_gone(self):
        pass    # the server's part

    def cleanup(self):
        if self.sock is not None:
            self.sock.close()
            self.sock = None
        super().cleanup()
        while True:      # what this client left in the backlog
            try:
                self.server.accept()[0].close()
            except OSError:
                break
