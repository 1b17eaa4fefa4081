"""Drives one remote execution end to end: the real client, the real server, and the puppet as the command.

Carries out a schedule (generated from spec/GenRemoteExec.tla) and records the events that spec/TraceRemoteExec.tla
validates.  An order is recorded before it is given and a report after it is received, so that the recorded order is one in
which things can have happened."""
import os, select, signal, socket, subprocess, time
from .common import CheckError, expect, alive, restless

FD = {'out': 1, 'err': 2}
NAME = {1: 'out', 2: 'err'}


class Conn:
    """A puppet's (or a holder's) control connection."""

    def __init__(self, sock):
        self.sock = sock
        self.buf = b''
        self.hello = None
        self.closed = False

    def lines(self):
        try:
            d = self.sock.recv(1 << 18)
        except BlockingIOError:
            return []
        except OSError:
            d = b''
        if not d:
            self.closed = True
            return []
        self.buf += d
        *ls, self.buf = self.buf.split(b'\n')
        return [l.decode() for l in ls]

    def send(self, s):
        try:
            self.sock.setblocking(True)
            self.sock.sendall(s.encode() + b'\n')
        except OSError:
            pass
        finally:
            self.sock.setblocking(False)


def parse_hello(l):
    w = l.split(' ')
    unhex = lambda s: [bytes.fromhex(x) for x in s[1:].split(',')] if len(s) > 1 else []
    return dict(role=w[1], pid=int(w[2]), ppid=int(w[3]), ignored=int(w[4], 16), blocked=int(w[5], 16), fds=w[6],
                cwd=bytes.fromhex(w[7][1:]), argv=unhex(w[8]), env=unhex(w[9]))


def signals(bits):
    return [i for i in range(64) if bits >> i & 1]


# Signals that this program, and so the server, was told to ignore (subprocess restores some); SIGHUP, which a background server ignores
KEPT = sorted({1} | {int(i) for i in range(1, 32) if i not in (9, 13, 19, 25) and signal.getsignal(i) == signal.SIG_IGN})


class Listener:
    """Accepts the control connections of the command of one session."""
    count = 0

    def __init__(self, scratch):
        Listener.count += 1
        self.path = os.path.join(scratch.ctl, 'c%d.%d' % (os.getpid(), Listener.count))
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.bind(self.path)
        os.chmod(self.path, 0o777)
        self.sock.listen(16)
        self.sock.setblocking(False)

    def close(self):
        self.sock.close()
        try:
            os.unlink(self.path)
        except OSError:
            pass


class Session:
    """One run. `launch(args, stdin, stdout, stderr)` starts the client and returns its Popen."""

    def __init__(self, scratch, launch, schedule, seed=0, startable=True, timeout=8.0, listener=None, files=None):
        self.scratch, self.launch, self.schedule, self.seed, self.timeout = scratch, launch, schedule, seed, timeout
        self.events = []
        self.serverPid = None      # the server, if it is a real one
        self.startable = startable
        self.files = files or {}
        self.listener = listener or Listener(scratch)
        self.conns = []
        self.cmd = None            # Conn of the command
        self.holder = {}           # stream -> Conn
        self.hello = None
        self.client = None
        self.inPos = self.inWant = 0   # bytes written to / given for the client's stdin
        self.inEnd = False
        self.stdin = None
        self.readers = {}          # stream -> fd
        self.flow = {'out': False, 'err': False}
        self.dl = {'out': 0, 'err': 0}
        self.eof = {'out': False, 'err': False}
        self.writers = {'out': set(), 'err': set()}
        self.wBeg = {'out': 0, 'err': 0}
        self.busy = {'out': '', 'err': ''}
        self.got = 0
        self.reading = False
        self.sawEof = False
        self.shut = False
        self.cmdState = 'off'
        self.code = None
        self.cliState = 'run'
        self.status = None
        self.term = False
        self.stalled = False
        self.diag = set()
        self.extra = []            # further hellos (never expected)
        self.notes = {}
        self.poured = False        # the input does not come to an end
        self.flooded = {}          # streams on which the command writes without end: when the next part is read

    def ev(self, e, **kw):
        self.events.append(dict(e=e, **kw))

    def set_flow(self, s, on):
        if self.flow[s] != on:
            self.flow[s] = on
            self.ev('Flow', s=s, on=on)

    # --- observation -----------------------------------------------------------------------------------------------
    # A reader that keeps up with a command that writes without end only just: there is always more.
    PACE = [(32768, 0.005), (65536, 0.002), (4096, 0.0005), (1 << 18, 0.0)]

    def pace(self):
        return self.PACE[self.seed % len(self.PACE)]

    def due(self, s, left):
        """Whether a flooded stream may be read now, and how long poll() may take."""
        wait = self.flooded.get(s, 0) - time.monotonic()
        return (True, left) if wait <= 0 else (False, min(left, wait))

    def pump(self, until, timeout=None):
        end = time.monotonic() + (self.timeout if timeout is None else timeout)
        while True:
            if until():
                return True
            left = end - time.monotonic()
            if left <= 0:
                return False
            self.poll(left)

    def poll(self, left):
        p = select.poll()
        fds = {}

        def add(fd, ev, fn, *a):
            p.register(fd, ev)
            fds[fd] = (fn, a)
        add(self.listener.sock.fileno(), select.POLLIN, self.on_accept)
        for c in self.conns:
            if not c.closed:
                add(c.sock.fileno(), select.POLLIN, self.on_conn, c)
        if self.stdin is not None and (self.inPos < self.inWant):
            add(self.stdin, select.POLLOUT, self.on_stdin)
        for s, fd in self.readers.items():
            ok, left = self.due(s, left)
            if ok and self.flow[s] and not self.eof[s]:
                add(fd, select.POLLIN, self.on_out, s)
        if self.client is not None and self.cliState == 'run':
            add(self.pidfd, select.POLLIN, self.on_exit)
        order = {self.on_accept: 0, self.on_conn: 1, self.on_stdin: 2, self.on_out: 3, self.on_exit: 4}
        ready = p.poll(max(1, int(left * 1000)))
        for fd, e in sorted(ready, key=lambda x: order[fds[x[0]][0]]):
            fn, a = fds[fd]
            fn(*a)

    def on_accept(self):
        try:
            s, _ = self.listener.sock.accept()
        except OSError:
            return
        s.setblocking(False)
        self.conns.append(Conn(s))

    def on_conn(self, c):
        for l in c.lines():
            self.on_line(c, l)
        if c.closed:
            c.sock.close()
            if c is self.cmd and self.cmdState == 'run':
                self.ev('Vanish')
                self.cmdState = 'dead'
                self.cmd_ended()
            for s, h in list(self.holder.items()):
                if h is c:
                    self.notes['holder vanished'] = True

    def cmd_ended(self):
        for s in self.writers:
            self.writers[s].discard('cmd')
            if self.busy[s] == 'cmd':
                self.busy[s] = ''

    def on_line(self, c, l):
        k = l[0]
        if k == 'H':
            c.hello = parse_hello(l)
            if c.hello['role'] == 'holder':
                for s, h in self.holder.items():
                    if h is None:
                        self.holder[s] = c
                        c.send('s %d' % self.seed)
                        return
                c.send('x 0')
                return
            if self.cmd is not None:
                self.extra.append(c.hello)
                self.ev('Start')
                c.send('x 0')
                return
            self.cmd = c
            self.hello = c.hello
            self.ev('Start')
            self.ev('Signals', blocked=signals(c.hello['blocked']), ignored=signals(c.hello['ignored']), kept=KEPT)
            self.cmdState = 'run'
            self.writers = {'out': {'cmd'}, 'err': {'cmd'}}
            c.send('s %d' % self.seed)
            return
        over = c is self.cmd and self.cmdState != 'run'
        if k == 'R':
            n, ok = map(int, l[2:].split())
            self.got += n
            if not over:
                self.ev('Got', n=n, ok=bool(ok))
        elif k == 'E':
            self.sawEof = True
            if not over:
                self.ev('Eof')
        elif k == 'Y':
            if not over:
                self.ev('ReadError', errno=int(l[2:]))
        elif k == 'r':
            self.reading = False
        elif k == 'D':
            s = NAME[int(l[2:])]
            if not over and self.busy[s] in self.writers[s]:
                self.busy[s] = ''
                self.ev('WriteDone', s=s)
        elif k == 'X':
            s = NAME[int(l.split()[1])]
            if not over and self.busy[s] in self.writers[s]:
                self.busy[s] = ''
                self.ev('WriteError', s=s, errno=int(l.split()[2]))
        elif k == 'S':
            n = int(l[2:])
            if n == signal.SIGTERM:
                if not over:
                    self.ev('Term')
                self.term = True
            elif not over:
                self.ev('Signal', n=n)

    def on_stdin(self):
        n = min(self.inWant - self.inPos, 1 << 16)
        try:
            w = os.write(self.stdin, expect(0, self.inPos, n, self.seed))
            self.inPos += w
        except BlockingIOError:
            return
        except OSError:
            self.inPos = self.inWant  # the client no longer takes input
        if self.inPos == self.inWant and self.inEnd:
            self.close_stdin()

    def close_stdin(self):
        if self.stdin is not None:
            os.close(self.stdin)
            self.stdin = None

    def read_out(self, s):
        """One read; returns False at the end of the stream."""
        n = 1 << 18
        if s in self.flooded:
            n, wait = self.pace()
            self.flooded[s] = time.monotonic() + wait
        try:
            d = os.read(self.readers[s], n)
        except BlockingIOError:
            return None
        if not d:
            return False
        self.delivered(s, d)
        return True

    def delivered(self, s, d):
        want = expect(FD[s], self.dl[s], len(d), self.seed)
        self.dl[s] += len(d)
        k = len(d)
        if s in self.diag:
            k = 0
        elif d != want:
            self.diag.add(s)
            k = next(i for i in range(len(d)) if d[i] != want[i])
        if k and s in self.flooded and self.events[-1]['e'] == 'Deliver' and self.events[-1]['s'] == s and self.events[-1]['ok']:
            self.events[-1]['n'] += k
        elif k:
            self.ev('Deliver', s=s, n=k, ok=True)
        if k < len(d):
            self.ev('Deliver', s=s, n=len(d) - k, ok=False, text=d[k:k + 200].decode('latin1'))

    def on_out(self, s):
        if self.read_out(s) is False:
            self.eof[s] = True
            if self.writers[s] or self.dl[s] < self.wBeg[s]:
                # not expected while the client runs: see whether this is the client's end
                r, _, _ = select.select([self.pidfd], [], [], 1.0)
                if r:
                    return
            if self.cliState == 'run' and not select.select([self.pidfd], [], [], 0)[0]:
                self.ev('DeliverEof', s=s)

    def on_exit(self):
        st = self.client.wait()
        for s in ('out', 'err'):
            while s in self.readers and not self.eof[s]:
                if self.read_out(s) is not True:
                    break
        for s, f in self.files.items():
            if s in FD and f.endswith('.out'):
                self.read_file(s, f)
        self.status = st
        self.cliState = 'end'
        self.ev('CliEnd', st=st)

    def read_file(self, s, f):
        with open(f, 'rb') as i:
            d = i.read()
        if d:
            self.delivered(s, d)

    # --- orders ----------------------------------------------------------------------------------------------------
    def begin(self):
        pipes = {}
        args = {}
        r, w = os.pipe()
        closed = [fd for fd, k in enumerate(('in', 'out', 'err')) if self.files.get(k) == 'closed']
        if self.files.get('in') == 'closed':
            os.close(r), os.close(w)
            pre = 0
        elif self.files.get('in'):
            os.close(r), os.close(w)
            fin = open(self.files['in'], 'rb')
            pre = int(self.files.get('inlen', 0))
            args['stdin'] = fin
        else:
            args['stdin'] = r
            self.stdin = w
            os.set_blocking(w, False)
        outs = {}
        for s in ('out', 'err'):
            if self.files.get(s) == 'closed':
                outs[s] = None
            elif s in self.files:
                outs[s] = open(self.files[s], 'wb')
                args['std' + s] = outs[s]
            else:
                a, b = os.pipe()
                self.readers[s] = a
                os.set_blocking(a, False)
                args['std' + s] = b
        self.ev('Cfg', startable=self.startable, req='start')
        if self.files.get('in'):
            if pre:
                self.ev('Give', n=pre)
            self.inWant = self.inPos = pre
            self.ev('EndInput')
            self.inEnd = True
        for s in outs:
            if not self.files[s].endswith('.out'):
                self.ev('ReaderGone', s=s)   # a device that takes nothing
                self.eof[s] = True
        if closed:
            args['closed'] = closed
        self.client = self.launch([self.listener.path], **args)
        args.pop('closed', None)
        self.pidfd = os.pidfd_open(self.client.pid)
        for a in args.values():
            if isinstance(a, int):
                os.close(a)
            else:
                a.close()

    def gone(self):
        return self.cliState != 'run'

    def over(self):
        return self.cliState != 'run' or self.cmdState != 'run'

    def order(self, o):
        k = o['op']
        if k == 'give':
            if self.inEnd or self.cliState != 'run':
                return
            self.ev('Give', n=o['n'])
            self.inWant += o['n']
            if self.stdin is not None:
                self.on_stdin()
        elif k == 'pour':
            if self.cmdState == 'run':
                self.poured = True
                self.order(dict(op='give', n=o['n']))
        elif k == 'end':
            if self.inEnd:
                return
            self.ev('EndInput')
            self.inEnd = True
            if self.inPos == self.inWant:
                self.close_stdin()
        elif k == 'start':
            if self.cmdState == 'off' and not self.pump(lambda: self.cmdState != 'off' or self.cliState != 'run'):
                self.stall('start')
        elif k == 'sleep':
            self.pump(lambda: False, o['ms'] / 1000.0)
        elif k == 'flow':
            self.set_flow(o['s'], o['on'])
        elif k == 'readergone':
            s = o['s']
            if s not in self.files and not self.eof[s]:
                self.drain_readable(s)
                self.ev('ReaderGone', s=s)
                os.close(self.readers.pop(s))
                self.eof[s] = True
                self.notes['readergone'] = True
        elif k == 'awaitout':
            s = o['s']
            self.set_flow(s, True)
            if s not in self.files and not self.pump(lambda: (self.dl[s] >= self.wBeg[s] and self.busy[s] == '') or self.gone() or self.eof[s]
                             or (self.cmdState == 'dead' and not self.writers[s])):
                if self.busy[s]:
                    self.stall('write', s=s)
                self.stall('out', s=s)
        elif k == 'kill':
            self.kill_client(o['how'])
        elif k == 'rest':
            self.rest()
        elif self.cmdState == 'run' or k in ('write', 'awaitwrite', 'release', 'awaitclose'):
            if k == 'read':
                self.reading = True
                self.wantGot = self.got + o['n']
                self.cmd.send('r %d' % o['n'])
            elif k == 'awaitread':
                if not self.pump(lambda: not self.reading or self.over()):
                    self.stall('read')
                    if self.inEnd and self.got == self.inWant:
                        self.stall('eof')
            elif k == 'shut':
                self.ev('Shut')
                self.shut = True
                self.cmd.send('c 0')
            elif k == 'write':
                s, who = o['s'], o['who']
                c = self.cmd if who == 'cmd' else self.holder.get(s)
                if c is None or c.closed or who not in self.writers[s] or self.busy[s] or self.cliState != 'run':
                    return
                self.ev('WriteBeg', s=s, who=who, n=o['n'])
                c.send('w %d %d %d' % (FD[s], o['n'], self.wBeg[s]))
                self.wBeg[s] += o['n']
                self.busy[s] = who
            elif k == 'flood':
                s = o['s']
                if self.cliState == 'run' and not self.busy[s] and 'cmd' in self.writers[s]:
                    self.flooded[s] = 0
                    self.set_flow(s, True)
                    self.order(dict(o, op='write', who='cmd'))
            elif k == 'awaitwrite':
                s = o['s']
                if not self.pump(lambda: self.busy[s] not in self.writers[s] or self.gone()):
                    self.stall('write', s=s)
            elif k == 'close':
                s = o['s']
                if 'cmd' in self.writers[s]:
                    self.ev('CloseOut', s=s)
                    self.writers[s].discard('cmd')
                    self.cmd.send('c %d' % FD[s])
            elif k == 'awaitclose':
                s = o['s']
                self.set_flow(s, True)
                if s not in self.files and not self.writers[s] and not self.pump(lambda: self.eof[s] or self.over()):
                    self.stall('close', s=s)
            elif k == 'hold':
                s = o['s']
                self.holder[s] = None
                self.cmd.send('h %d' % FD[s])
                if not self.pump(lambda: self.holder[s] is not None or self.gone(), 20):
                    raise CheckError('holder did not start')
                if self.holder[s] is None:
                    del self.holder[s]
                    return
                self.ev('Hold', s=s)
                self.writers[s].add('hold')
            elif k == 'release':
                s = o['s']
                h = self.holder.get(s)
                if h is not None and 'hold' in self.writers[s]:
                    self.ev('Release', s=s)
                    self.writers[s].discard('hold')
                    h.send('x 0')
            elif k == 'exit':
                self.ev('CmdExit', c=o['c'])
                self.cmdState, self.code = 'exit', o['c']
                self.cmd_ended()
                self.cmd.send('x %d' % o['c'])
            elif k == 'die':
                self.flooded = {}
                self.ev('CmdDie')
                self.cmdState = 'dead'
                self.cmd_ended()
                self.cmd.send('k %d' % o['sig'])
            else:
                raise CheckError('unknown order %r' % o)

    def processes(self):
        """Those of the system: client, server, session."""
        r = [self.client.pid] if self.client is not None and self.cliState == 'run' else []
        if self.serverPid is not None:
            r.append(self.serverPid)
            if self.hello is not None:
                r.append(self.hello['ppid'])
        return r

    def rest(self):
        if self.cliState != 'run' or self.reading and self.got < self.inWant:
            return
        busy, used = restless(self.processes, lambda s: self.pump(self.gone, s), self.timeout / 4, self.gone)
        if self.cliState == 'run':
            self.ev('Rest', busy=busy, percent=int(used * 100))

    def drain_readable(self, s):
        while self.read_out(s) is True:
            pass

    def kill_client(self, how):
        if self.cliState != 'run':
            return
        if select.select([self.pidfd], [], [], 0)[0]:
            self.on_exit()
            return
        self.ev('KillClient')
        self.cliState = 'gone'
        os.kill(self.client.pid, getattr(signal, 'SIG' + how))
        try:
            self.client.wait(10)
        except subprocess.TimeoutExpired:
            os.kill(self.client.pid, signal.SIGKILL)
            self.client.wait()
        for s in list(self.readers):
            os.close(self.readers.pop(s))
            self.eof[s] = True
        self.close_stdin()

    def stall(self, what, **kw):
        self.ev('Stall', what=what, **kw)
        self.stalled = True

    # --- the whole -------------------------------------------------------------------------------------------------
    def run(self):
        self.begin()
        try:
            for o in self.schedule:
                if self.stalled or self.cliState == 'end':
                    break
                self.order(o)
            self.finish()
        finally:
            self.cleanup()
        return self.events

    def finish(self):
        if self.cliState == 'gone':
            return self.finish_gone()
        if self.cmdState == 'off' and self.startable and self.cliState == 'run':
            self.order(dict(op='start'))
            if self.cliState == 'run' and self.cmdState == 'off':
                return
        for s in FD:
            self.set_flow(s, True)
        if (self.flooded or self.poured) and self.cmdState == 'run':
            self.order(dict(op='die', sig=9))
        if self.cmdState == 'run' and self.cliState == 'run':
            # only after a stall: let everything come to its end, to see what is lost rather than late
            if not self.shut:
                self.order(dict(op='end'))
                if not self.reading:
                    self.order(dict(op='read', n=1 << 40))
                if not self.pump(lambda: self.sawEof or self.over()):
                    self.stall('lost')
                    self.stall('eof')
            for s in FD:
                self.order(dict(op='release', s=s))
                if self.busy[s] == 'cmd':
                    self.order(dict(op='awaitwrite', s=s))
                if self.busy[s]:
                    self.order(dict(op='die', sig=9))
                    break
            else:
                self.order(dict(op='exit', c=0))
        for s in FD:
            if 'hold' in self.writers[s]:
                if self.busy[s] == 'hold':
                    self.pump(lambda: self.busy[s] == '' or self.gone())
                self.order(dict(op='release', s=s))
        if self.cliState == 'run' and not self.pump(lambda: self.cliState != 'run'):
            self.stall('end')
            self.notes['stuck'] = True

    def finish_gone(self):
        if self.cmdState == 'off' and self.startable:
            # killed before the command was seen: it may or may not have been started
            self.pump(lambda: self.cmdState != 'off', 0.5)
        if self.cmdState == 'run':
            if not self.pump(lambda: self.term or self.cmdState != 'run'):
                self.stall('term')
            elif self.cmdState == 'run':
                pid = self.hello['ppid']
                if not self.pump(lambda: not alive(pid), 0.0):
                    end = time.monotonic() + self.timeout
                    while alive(pid) and time.monotonic() < end:
                        time.sleep(0.005)
                    if alive(pid):
                        self.stall('session')

    def cleanup(self):
        if self.client is not None and self.client.returncode is None:
            try:
                os.kill(self.client.pid, signal.SIGKILL)
            except OSError:
                pass
            self.client.wait()
        # end the command and its holders (they leave when their control connection is closed)
        for c in self.conns:
            c.sock.close()
        self.listener.close()
        self.close_stdin()
        for fd in self.readers.values():
            os.close(fd)
        self.readers = {}
        if self.client is not None:
            os.close(self.pidfd)
