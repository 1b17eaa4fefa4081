"""C09-C12: lives of real servers, validated against spec/Server.tla (by spec/TraceServer.tla)."""
import concurrent.futures, errno, os, random, select, shutil, signal, socket, stat, subprocess, threading, time
from . import campaign, common, e2e, sessionchecks, sessions, tlc, wire
from .common import CheckError, expect, listeners, quote, restless, wait_for
from .probe import FixedListener

SIGS = {'TERM': signal.SIGTERM, 'INT': signal.SIGINT, 'HUP': signal.SIGHUP}
SHORT = {'--background': '-b', '--disable-client-executables': '-d', '--keep-client-executables': '-k', '--generate-local-executables': '-l',
         '--overwrite-client-executables': '-o', '--no-wait': '-w', '--executable-directory': '-e', '--max-connections': '-m', '--pidfile': '-p', '--timeout': '-t'}


def my_children():
    r = []
    for t in os.listdir('/proc/self/task'):
        try:
            with open('/proc/self/task/%s/children' % t) as f:
                r += [int(x) for x in f.read().split()]
        except OSError:
            pass
    return r


def children_of(pid):
    try:
        with open('/proc/%d/task/%d/children' % (pid, pid)) as f:
            return [int(x) for x in f.read().split()]
    except OSError:
        return []


class Live:
    """A session on the server."""

    def __init__(self, i, sock):
        self.i, self.sock = i, sock
        self.cmd = None
        self.frames = wire.Frames()
        self.code = None
        self.eof = False
        self.inAt = self.outAt = self.outGot = 0
        self.outEnd = 0
        self.bad = None
        self.ok = True
        self.term = self.dropped = False
        self.done = 0          # writes completed by the command
        self.wrote = 0
        self.readDone = 0
        self.reads = 0


class Life:
    """One server, from its start to its end."""

    def __init__(self, rig, case, timeout, number):
        self.s, self.case, self.timeout = rig.scratch, case, timeout
        self.cfg = dict(case['cfg'])
        self.rng = random.Random(case['seed'])
        self.listener = rig.listener()
        self.root = self.s.mkdir('life%d' % number)
        self.events = []
        self.notes = {}
        self.live, self.ended, self.leftovers = {}, [], []
        self.launcher = self.server = None
        self.status = None
        self.told = self.late = self.settled = False
        self.accepted = 0
        self.pending = {}          # connections to the control path, not yet claimed

    # --- recording -------------------------------------------------------------------------------------------------
    def ev(self, e, **kw):
        if self.timed and not self.late and time.monotonic() >= self.spawned + self.cfg['time'] / 1000.0:
            self.late = True
            self.events.append(dict(e='Late'))
        self.events.append(dict(e=e, **kw))

    # --- set up ----------------------------------------------------------------------------------------------------
    def real(self, n):
        return 'no/' + n if self.cfg['before'][n] == 'nowhere' and not self.cfg['nodir'] else n

    def setup(self):
        c, r = self.cfg, self.rng
        self.timed = c['time'] != 99 and bool(c['own']) and not c['badnum']
        self.max = -1 if c['max'] == 99 or not c['own'] or c['badnum'] else c['max']
        self.names = sorted(set(c['own']) | set(c['others']))
        self.exec = self.root + '/exec'
        form = r.choice(['abs', 'abs', 'slash', 'rel', 'dotrel', 'updown', 'cwd']) if not c['nodir'] else r.choice(['abs', 'rel'])
        if not c['nodir']:
            self.s.mkdir(self.exec)
        self.cwd = self.exec if form == 'cwd' else self.root
        self.dirarg = {'abs': self.exec, 'slash': self.exec + '/', 'rel': 'exec', 'dotrel': './exec/', 'updown': '../%s//exec' % os.path.basename(self.root), 'cwd': None}[form]
        for n in self.names:
            k = c['before'][n]
            p = self.exec + '/' + n
            if k == 'file':
                with open(p, 'w') as o:
                    o.write('theirs ' + n)
            elif k == 'link':
                os.symlink('/nonexistent/theirs', p)
            elif k == 'dir':
                os.mkdir(p)
            elif k == 'ours':
                os.symlink(self.s.bin + '/k8psh', p)
            if k != 'absent' and k != 'nowhere':
                os.chown(p, self.s.uid, self.s.uid, follow_symlinks=False)
        # the configuration
        self.port = self.s.ports.get()
        sec, cmd = [], []

        def option(name, value=None):
            short = r.randrange(2) and SHORT[name]
            place = sec if c['own'] and r.randrange(3) == 0 else cmd
            x = [short or name] + ([value] if value is not None else [])
            if value is not None and not short and r.randrange(2):
                x = [name + '=' + value]
            place.append(x)
        if self.dirarg:
            option('--executable-directory', self.dirarg)
        for f, n in (('dis', '--disable-client-executables'), ('keep', '--keep-client-executables'), ('local', '--generate-local-executables'),
                     ('over', '--overwrite-client-executables'), ('nowait', '--no-wait')):
            if c[f]:
                option(n)
        if c['bg']:
            option('--background')
        self.forkless = c['badnum'] and c['bg'] and r.randrange(2) == 0      # cannot become a daemon
        if c['badnum'] and not self.forkless:
            option(r.choice(['--max-connections', '--timeout']), r.choice(['abc', '', 'x1']))
        else:
            if self.max >= 0:
                option('--max-connections', str(self.max))
            elif r.randrange(4) == 0:
                option('--max-connections', r.choice(['-1', '-5', '1000000', '9223372036854775807']))
            if self.timed:
                option('--timeout', str(c['time']))
            elif r.randrange(4) == 0:
                option('--timeout', r.choice(['-1', '-7', '3600000', '9223372036854775807', '4294967296', '2147483648']))
        self.pidpath = self.root + '/srv.pid'
        if c['pid'] == 'bad':
            self.pidpath = self.root + '/none/srv.pid'
        if c['pid'] == 'exists':
            with open(self.pidpath, 'w') as o:
                o.write('12345\n')
            if r.randrange(2):
                os.chown(self.pidpath, self.s.uid, self.s.uid)
        if c['pid'] != 'none':
            option('--pidfile', r.choice([self.pidpath, os.path.relpath(self.pidpath, self.cwd), self.pidpath]))
        elif c['bg']:
            option('--pidfile', '')
        elif r.randrange(3) == 0:
            option('--pidfile', self.pidpath)      # not in the foreground
        self.pidless = c['pid'] == 'none'
        r.shuffle(sec)
        r.shuffle(cmd)
        pup = quote(self.s.bin + '/puppet') + ' ' + quote(self.listener.path)
        own = ['%s %s' % (quote(self.real(n)), pup) for n in c['own']] + ['%s %s' % (quote(self.real(n)), pup) for n in c['others'] if c['own'] and r.randrange(4) == 0]
        other = ['%s /none/such' % quote(self.real(n)) for n in c['others']]
        q = lambda x: quote(x) if r.randrange(2) or not x or set(x) & set(" '\"#=$") else x
        mine = '[srv:%d] %s\n%s\n' % (self.port, ' '.join(' '.join(q(y) for y in x) for x in sec), '\n'.join(own))
        theirs = '[other:%d] --keep-client-executables --max-connections 0\n%s\n' % (self.s.ports.get(), '\n'.join(other))
        # (the last definition of a command is the one that counts)
        text = theirs + mine if len(own) == len(c['own']) and r.randrange(2) else mine + theirs
        base = self.s.mkdir(self.root, 'base')
        self.conf = self.s.write(os.path.join(self.root, 'k8psh.conf'), 'baseDirectory = %s\n' % quote(base) + text)
        program = self.s.bin + '/k8pshd'
        self.argv = [r.choice([program, program, os.path.relpath(program, self.cwd), 'k8pshd'])] + r.choice([['--config', self.conf, '--name', 'srv'], ['-n', 'srv', '--config=' + self.conf]]) + [y for x in cmd for y in x]
        self.occupant = None
        if c['busy']:
            self.occupant = socket.socket()
            self.occupant.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.occupant.bind((r.choice(['127.0.0.1', '0.0.0.0']), self.port))
            self.occupant.listen(1)
        tc = {k: c[k] for k in ('own', 'others', 'before', 'dis', 'keep', 'local', 'over', 'bg', 'nowait', 'badnum', 'busy', 'pid')}
        tc.update(max=self.max if self.max < 1000 else -1, timed=self.timed)
        self.events.append(dict(e='Cfg', cfg=tc))
        self.notes['argv'] = ' '.join(self.argv)
        self.notes['conf'] = text

    # --- looking at it ---------------------------------------------------------------------------------------------
    def kind(self, n):
        while True:
            try:
                return self.kind_(n)
            except FileNotFoundError:      # it has just changed
                pass

    def kind_(self, n):
        p = self.exec + '/' + self.real(n)
        before = self.cfg['before'][n]
        try:
            st = os.lstat(p)
        except (FileNotFoundError, NotADirectoryError):
            return 'nowhere' if before == 'nowhere' else 'absent'
        if stat.S_ISLNK(st.st_mode):
            t = os.readlink(p)
            if os.path.realpath(p) == os.path.realpath(self.s.bin + '/k8psh'):
                return 'ours'
            return 'link' if t == '/nonexistent/theirs' else 'other'
        if stat.S_ISDIR(st.st_mode):
            return 'dir'
        with open(p, 'rb') as f:
            d = f.read(100)
        return 'file' if d == b'theirs ' + n.encode() else 'other'

    def pidstate(self):
        try:
            with open(self.pidpath, 'rb') as f:
                d = f.read(100)
        except OSError:
            return 'absent'
        if d == b'12345\n':
            return 'theirs'
        return 'ours' if self.server and d.strip() == str(self.server).encode() else 'other'

    def look(self):
        extra = 0
        for d, known in ((self.exec, set(self.names) | {'srv.pid', 'no'}), (self.root, {'exec', 'base', 'k8psh.conf', 'srv.pid', 'out', 'lack', 'lack.new'})):
            try:
                extra += len(set(os.listdir(d)) - known)
            except OSError:
                pass
        return dict(files={n: self.kind(n) for n in self.names}, extra=extra, pid=self.pidstate())

    def listening(self):
        return bool(listeners(self.port))

    def ended_now(self):
        """Whether the server has ended (its status is kept)."""
        if self.status is not None:
            return True
        if self.server == self.launcher.pid:
            self.status = self.launcher.poll()
        elif self.server is not None:
            try:
                p, st = os.waitpid(self.server, os.WNOHANG)
            except OSError:
                p, st = self.server, 0xff00
            if p:
                self.status = os.waitstatus_to_exitcode(st)
        return self.status is not None

    def expected(self):
        return dict(files=self.case['files'], extra=0, pid=self.case['pid'])

    # --- its life --------------------------------------------------------------------------------------------------
    def run(self):
        self.setup()
        try:
            self.begin()
            if self.forkless and self.status == 0 and os.path.exists(self.lackpath):      # it does without fork()
                return self.events[:1]
            return self.events
        finally:
            for x in list(self.live.values()) + self.ended:
                x.sock.close()
                if x.cmd:
                    x.cmd.sock.close()
            for c in self.leftovers:
                c.sock.close()
            if self.occupant:
                self.occupant.close()
            if self.launcher:
                if self.launcher.poll() is None:
                    self.launcher.kill()
                self.launcher.wait()
                for f in (self.launcher.stdin, self.launcher.stdout):
                    if f:
                        f.close()
            self.s.killall()
            self.listener.close()
            shutil.rmtree(self.root, ignore_errors=True)

    def begin(self):
        c, r = self.cfg, self.rng
        before = set(my_children())
        env = {'PATH': '/usr/bin:/bin' + (':' + self.s.bin if self.argv[0] == 'k8pshd' else '')}
        shim = self.case.get('shim', '')
        if c['early']:
            shim = 'slink=%d' % r.choice([0, 2000, 10000, 30000])
        self.lackpath = self.root + '/lack'
        if any(o['op'] == 'lack' for o in self.case['ops']) or self.forkless:
            shim = ','.join([x for x in [shim] if x] + ['lack=' + self.lackpath])
        if self.forkless:
            self.lack('fork 0')
        if shim:
            env['LD_PRELOAD'], env['VSHIM'] = self.s.bin + '/shim.so', shim
        self.spawned = time.monotonic()
        out = subprocess.PIPE if c['bg'] else open(self.root + '/out', 'wb')
        dice = random.Random(self.case['seed'] * 7 + 3)      # without some of the standard descriptors?
        closed = [] if dice.randrange(6) else dice.choice([[0], [0, 1, 2], [0, 1], [0, 2], [1, 2], [2]])
        self.notes['closed'] = closed
        self.launcher = self.s.popen(self.argv, env=env, cwd=self.cwd, closed=closed, stdin=subprocess.PIPE, stdout=out, stderr=subprocess.STDOUT)
        before.add(self.launcher.pid)
        if not c['bg']:
            out.close()
            self.server = self.launcher.pid
        if c['early']:
            time.sleep(r.choice([0, 0.0005, 0.001, 0.002, 0.004, 0.008, 0.015, 0.03, 0.06]))
            g = r.choice(['TERM', 'INT'] + (['HUP'] if not c['bg'] else []))
            self.ev('Early', sig=g)
            self.told = True
            self.launcher.send_signal(SIGS[g])
        if c['bg']:
            if not wait_for(lambda: self.launcher.poll() is not None, self.timeout):
                self.ev('Stall', what='launcher')
                return
            up = self.listening()
            kids = [p for p in my_children() if p not in before]
            self.server = kids[0] if kids else self.launcher.pid
            self.ev('Launched', status=self.launcher.returncode, listening=up)
            if not kids:
                self.status = self.launcher.returncode
        want = self.expected()
        runs = self.case['runs']

        def there():
            return self.ended_now() or (runs and self.listening() and self.look() == want)
        end = time.monotonic() + self.timeout
        ok = wait_for(there, self.timeout, 0.001)
        if not self.ended_now():
            if not ok:
                if c['busy'] or not self.listening():
                    self.ev('Stall', what='up' if runs else 'start')
                    return
            self.ev('Up', **self.look())
            if not ok:
                return
            try:
                self.serve()
                self.finish()
            except Stop:
                return
        if self.status is not None:
            self.ev('Exit', status=self.status, **self.look())
        self.last()

    def serve(self):
        c = self.cfg
        if c['bg'] and not c['early']:
            self.detached()
        time.sleep(0.002)
        cwd, fds = self.s.inspect(self.server)
        self.fds = len(fds) if cwd else 1000
        for o in self.case['ops']:
            if self.ended_now():
                break
            self.op(o)

    def detached(self):
        def ok():
            if self.ended_now():
                return True
            try:
                with open('/proc/%d/stat' % self.server) as f:
                    w = f.read().rsplit(')', 1)[1].split()
                cwd, fds = self.s.inspect(self.server)
                return int(w[3]) == self.server and cwd == '/' and [x for i, x in fds if i < 3] == ['/dev/null'] * 3
            except OSError:
                return False
        good = bool(wait_for(ok, self.timeout))
        end = time.monotonic() + self.timeout
        eof = False
        while good and time.monotonic() < end:      # nobody else has the launcher's output
            if select.select([self.launcher.stdout], [], [], 0.1)[0] and not os.read(self.launcher.stdout.fileno(), 65536):
                eof = True
                break
        self.ev('Detached', ok=good and eof)

    def may_stop(self):
        return self.told or self.settled or self.timed or (0 <= self.max <= self.accepted)

    def settle(self):
        if self.settled:
            return
        limit = self.timeout + (max(0, self.spawned + self.cfg['time'] / 1000.0 - time.monotonic()) if self.timed else 0)
        poke = self.timed and not self.told and self.max < 0 and self.rng.randrange(3) > 0
        last = [time.monotonic()]

        def gone():
            if not self.listening():
                return True
            if poke and time.monotonic() - last[0] > min(0.1, self.cfg['time'] / 3000.0):      # that others keep coming does not matter
                s = self.connect()
                if s is not None:
                    s.close()
                    self.ev('BadConnect', got='closed')
                last[0] = time.monotonic()
        if not wait_for(gone, limit):
            self.ev('Stall', what='settle')
            raise Stop()
        self.ev('Settled')
        self.settled = True

    # --- sessions --------------------------------------------------------------------------------------------------
    def claim(self, name, over, timeout, role='command'):
        """The control connection of the session that has this name."""
        end = time.monotonic() + timeout
        while True:
            for k, c in list(self.pending.items()):
                if c.hello is None:
                    if select.select([c.sock], [], [], 0)[0]:
                        ls = c.lines()
                        if ls:
                            c.hello = e2e.parse_hello(ls[0])
                        elif c.closed:
                            del self.pending[k]
                            continue
                if c.hello and c.hello['role'] == role and (role == 'holder' or c.hello['argv'][-1] == name):
                    del self.pending[k]
                    return c
            try:
                s, _ = self.listener.sock.accept()
                s.setblocking(False)
                self.pending[id(s)] = e2e.Conn(s)
                continue
            except OSError:
                pass
            left = end - time.monotonic()
            if left <= 0:
                return None
            if over():      # a last look
                over, end = (lambda: False), min(end, time.monotonic() + 0.05)
                continue
            select.select([self.listener.sock] + [c.sock for c in self.pending.values() if c.hello is None], [], [], min(left, 0.02))

    def connect(self):
        s = socket.socket()
        s.settimeout(self.timeout)
        try:
            s.connect(('127.0.0.1', self.port))
            return s
        except OSError:
            s.close()
            return None

    def open(self, i, how='connect', part=0):
        name = b'id%d' % i
        before = set(children_of(self.server))
        s = self.connect()
        if s is None:
            self.ev('Connect', got='refused')
            return
        own = self.real(self.rng.choice(sorted(self.cfg['own']))).encode()
        req = wire.frame(wire.WD, b'.') + wire.frame(wire.ARG, name) + wire.frame(wire.ENV, b'A=%d' % i) + wire.frame(wire.START, own)
        if how == 'idle':
            req = req[:part]
        try:
            if self.rng.randrange(4) == 0 and how != 'idle':
                k = self.rng.randrange(len(req))
                s.sendall(req[:k])
                time.sleep(0.003)
                s.sendall(req[k:])
            else:
                s.sendall(req)
        except OSError:
            pass
        if how == 'idle':
            if wait_for(lambda: set(children_of(self.server)) - before or self.ended_now(), self.timeout):
                x = Live(i, s)
                x.idle = True
                self.live[i] = x
                self.accepted += 1
                self.ev('Idle')
            else:
                s.close()
                self.ev('Connect', got='stuck')
            return
        gone = lambda: self.readable_end(s)
        c = self.claim(name, gone, self.timeout)
        if c is None:
            self.ev('Connect', got='refused' if gone() else 'stuck')
            s.close()
            return
        self.accepted += 1
        self.ev('Connect', got='served')
        self.ev('Inherited', fds=c.hello['fds'])
        x = Live(i, s)
        x.idle = False
        x.cmd = c
        c.send('s %d' % i)
        s.setblocking(False)
        self.live[i] = x

    @staticmethod
    def readable_end(s):
        try:
            s.setblocking(False)
            return s.recv(1, socket.MSG_PEEK) == b''
        except BlockingIOError:
            return False
        except OSError:
            return True
        finally:
            s.setblocking(True)

    def pump(self, x, until, read=True, timeout=None):
        end = time.monotonic() + (timeout or self.timeout)
        while not until():
            left = end - time.monotonic()
            if left <= 0:
                return False
            fs = ([x.sock] if read and not x.eof else []) + ([x.cmd.sock] if x.cmd and not x.cmd.closed else [])
            if not fs:
                return False
            for f in select.select(fs, [], [], left)[0]:
                if f is x.sock:
                    try:
                        d = x.sock.recv(1 << 18)
                    except BlockingIOError:
                        continue
                    except OSError:
                        d = b''
                    if not d:
                        x.eof = True
                    for what, t, v in x.frames.feed(d):
                        if what == 'head':
                            if t == wire.EXIT:
                                x.code = v
                        elif t == wire.STDOUT:
                            if v != expect(1, x.outGot, len(v), x.i):
                                x.bad = 'output differs'
                            x.outGot += len(v)
                        elif t == wire.STDERR:
                            x.bad = 'unexpected stderr'
                else:
                    for l in x.cmd.lines():
                        if l[0] == 'R':
                            if l.split()[2] != '1':
                                x.bad = 'input differs'
                        elif l[0] == 'r':
                            x.readDone += 1
                        elif l[0] == 'D':
                            x.done += 1
                        elif l[0] == 'S':
                            if int(l[2:]) == signal.SIGTERM:
                                x.term = True
                            else:
                                x.bad = 'signal'
                        elif l[0] in 'EYX' and not x.dropped:
                            x.bad = l
        return True

    def send(self, x, data):
        end = time.monotonic() + self.timeout
        while data:
            try:
                data = data[x.sock.send(data):]
            except BlockingIOError:
                if time.monotonic() > end:
                    return False
                select.select([], [x.sock], [], 0.1)
            except OSError:
                return False
        return True

    def verdict(self, x, ok, why=''):
        ok = bool(ok) and x.bad is None
        if not ok:
            self.notes['session %d' % x.i] = why + ' ' + str(x.bad) + ' code %s eof %s term %s got %d of %d' % (x.code, x.eof, x.term, x.outGot, x.outEnd)
        self.ev('Session', ok=ok)

    def talk(self, x, n):
        if x.idle or x.bad:
            return
        ok = self.send(x, wire.frame(wire.STDIN, expect(0, x.inAt, n, x.i)))
        x.inAt += n
        x.reads += 1
        x.cmd.send('r %d' % n)
        ok = ok and self.pump(x, lambda: x.readDone == x.reads)
        x.wrote += 1
        x.cmd.send('w 1 %d %d' % (n, x.outEnd))
        x.outEnd += n
        ok = ok and self.pump(x, lambda: x.outGot >= x.outEnd and x.done == x.wrote)
        self.verdict(x, ok and not x.term and not x.eof, 'talk')

    def op(self, o):
        k = o['op']
        if k in ('connect', 'idle'):
            if k == 'idle' and self.may_stop():
                return
            self.open(o['i'], k, o.get('part', 0))
        elif k == 'bad':
            self.bad(o['how'])
        elif k == 'lack':
            if not self.may_stop():
                self.lacking(o['i'], o['what'])
        elif k == 'signal':
            self.ev('Signal', sig=o['sig'])
            eff = o['sig'] != 'HUP' or not self.cfg['bg']
            self.told = self.told or eff
            try:
                os.kill(self.server, SIGS[o['sig']])
            except OSError:
                pass
            if eff and o['settle']:
                self.settle()
            elif not eff:
                time.sleep(0.02)
        elif k == 'storm':
            if not self.may_stop() or self.timed:
                self.storm(o['sig'])
        elif k == 'sleep':
            time.sleep(o['ms'] / 1000.0)
        elif k == 'snap':
            v = self.look()
            if self.listening():
                self.ev('Snap', **v)
        elif k == 'quiet':
            self.quiet()
        elif k == 'rest':
            self.rest()
        elif o.get('i') in self.live:
            x = self.live[o['i']]
            if k == 'talk':
                self.talk(x, o['n'])
            elif k == 'clog':
                if not x.idle and x.done == x.wrote:
                    x.wrote += 1
                    x.cmd.send('w 1 %d %d' % (o['n'], x.outEnd))
                    x.outEnd += o['n']
            else:
                self.end(x, k, o)

    def storm(self, sig):
        """Connections come without end: it must stop nevertheless."""
        self.ev('Storm')
        p = subprocess.Popen([self.s.bin + '/storm', str(self.port), str(int(1000 * (3 * self.timeout + self.cfg['time'] / 1000.0)))])
        try:
            time.sleep(0.03)
            if sig != 'none':
                self.op(dict(op='signal', sig=sig, settle=False))
            self.settle()
        finally:
            p.kill()
            p.wait()

    def end(self, x, how, o):
        del self.live[x.i]
        self.ended.append(x)
        if x.idle:
            self.ev('Ending')
            if how != 'drop' or o['how'] == 'fin':
                x.sock.close()
            elif o['how'] == 'rst':
                wire.rst_close(x.sock)
            else:
                self.send(x, b'\xff' * 40)
                x.sock.close()
            return
        if how == 'drop':
            self.ev('Ending')
            h = o['how']
            x.dropped = True
            if h == 'bad':
                if not self.send(x, wire.frame(77, b'?')):
                    h = 'fin'
            if h == 'fin':
                x.sock.close()
                x.eof = True
            elif h == 'rst':
                wire.rst_close(x.sock)
                x.eof = True
            ok = self.pump(x, lambda: x.term, read=not x.eof)
            self.verdict(x, ok and x.code is None, 'drop ' + h)
            if self.rng.randrange(2):
                x.cmd.send('x 0')
            else:
                self.leftovers.append(x.cmd)
                x.cmd = None
            return
        ok = self.pump(x, lambda: x.outGot >= x.outEnd and x.done == x.wrote)
        if how == 'finish' and o.get('hold'):
            x.cmd.send('h 0')
            c = self.claim(None, lambda: x.eof, self.timeout, role='holder')
            if c:
                c.send('s 0')
                self.leftovers.append(c)
        self.ev('Ending')
        if how == 'finish':
            x.cmd.send('x %d' % o['code'])
            ok = self.pump(x, lambda: x.code is not None or x.eof) and ok
            self.verdict(x, ok and x.code == o['code'], 'finish')
        else:
            x.cmd.send('k %d' % o['sig'])
            ok = self.pump(x, lambda: x.eof or x.code is not None) and ok
            self.verdict(x, ok and x.code is None, 'die')
        x.sock.close()

    def bad(self, how):
        s = self.connect()
        if s is None:
            self.ev('Connect', got='refused')
            return
        r = self.rng
        ok = wire.frame(wire.WD, b'.')
        data = {'invalid': ok + wire.frame(r.choice([9, 200, wire.STDOUT, wire.EXIT]), b'x'), 'drop': b'', 'unknown': ok + wire.frame(wire.START, b'nothing'),
                'nodir': wire.frame(wire.WD, b'no/such') + wire.frame(wire.START, self.real(sorted(self.cfg['own'])[0]).encode()),
                'partial': (ok + wire.frame(wire.ARG, b'abc'))[:r.randrange(1, 13)], 'http': b'GET / HTTP/1.1\r\nHost: localhost\r\n\r\n'}[how]
        try:
            s.sendall(data)
        except OSError:
            pass
        self.accepted += 1
        if how in ('drop', 'partial'):
            if r.randrange(2):
                wire.rst_close(s)
            else:
                s.close()
            self.ev('BadConnect', got='closed')
            return
        got = 'stuck'
        s.settimeout(self.timeout)
        try:
            while s.recv(65536):
                pass
            got = 'closed'
        except socket.timeout:
            pass
        except OSError:
            got = 'closed'
        s.close()
        self.ev('BadConnect', got=got)

    def lack(self, what):
        path = self.root + '/lack.new'
        with open(path, 'w') as f:
            f.write(what + '\n')
        os.rename(path, self.lackpath)

    def lacking(self, i, what):
        if what not in ('fork', 'command'):      # for a moment: it is served nevertheless, a little later
            self.lack('accept %d' % getattr(errno, what))
            t = threading.Timer(self.rng.choice([0.005, 0.03]), os.unlink, [self.lackpath])
            t.start()
            try:
                self.open(i)
            finally:
                t.join()
            return
        self.bad('unknown')      # those before have got their processes
        self.lack('fork %d' % (self.server if what == 'fork' else -self.server))
        s = self.connect()
        if s is None:
            self.ev('Connect', got='refused')
            return
        ok = wire.frame(wire.WD, b'.') + wire.frame(wire.ARG, b'none')
        if what == 'command':
            ok += wire.frame(wire.START, self.real(sorted(self.cfg['own'])[0]).encode())
        try:
            s.sendall(ok)
        except OSError:
            pass
        self.accepted += 1
        got, code, frames = 'stuck', None, wire.Frames()
        wait_for(lambda: not os.path.exists(self.lackpath) or self.ended_now(), self.timeout, 0.002)
        if os.path.exists(self.lackpath):      # it does without
            os.unlink(self.lackpath)
            s.close()
            self.ev('BadConnect', got='closed')
            return
        s.settimeout(self.timeout)
        try:
            while True:
                d = s.recv(65536)
                if not d:
                    break
                for x, t, v in frames.feed(d):
                    if x == 'head' and t == wire.EXIT:
                        code = v
            got = 'closed' if code is None else 'code'
        except socket.timeout:
            pass
        except OSError:
            got = 'closed'
        s.close()
        self.ev('BadConnect', got=got)

    def quiet(self):
        if self.live or self.may_stop():
            return

        def state():
            n = len(children_of(self.server))
            return n, 0 if n else max(0, len(self.s.inspect(self.server)[1]) - self.fds)
        a, b = (0, 0) if wait_for(lambda: state() == (0, 0) or self.ended_now(), self.timeout, 0.01) else state()
        if not self.ended_now():
            self.ev('Quiet', children=a, fds=b)

    def rest(self):
        if self.ended_now():
            return
        busy, used = restless(lambda: [self.server] + children_of(self.server), time.sleep, self.timeout / 3, self.ended_now)
        if not self.ended_now():
            self.ev('Rest', busy=busy, percent=int(used * 100))

    # --- its end ---------------------------------------------------------------------------------------------------
    def finish(self):
        c, r = self.cfg, self.rng
        if not self.ended_now():
            if not self.told and not self.settled and not (0 <= self.max <= self.accepted) and not self.timed:
                g = r.choice(['TERM', 'INT'] + ([] if c['bg'] else ['HUP']))
                self.ev('Signal', sig=g)
                self.told = True
                try:
                    os.kill(self.server, SIGS[g])
                except OSError:
                    pass
            self.settle()
            s = self.connect()
            if s is not None:
                s.close()
                self.ev('Connect', got='served')
            else:
                self.ev('Connect', got='refused')
        if self.live and r.randrange(2):      # told again
            for g in r.choice([['TERM'], ['INT'], ['TERM', 'TERM'], ['INT', 'TERM'], ['HUP']]):
                if self.ended_now():
                    break
                self.ev('Signal', sig=g)
                try:
                    os.kill(self.server, SIGS[g])
                except OSError:
                    pass
                time.sleep(r.choice([0.001, 0.02]))
        if any(o['op'] == 'rest' for o in self.case['ops']) and self.live:      # while it waits for them
            self.rest()
        if not c['nowait']:
            if self.live and r.randrange(2):
                v = self.look()
                if not self.ended_now() and set(x for x in self.live if not self.live[x].idle):
                    self.ev('Snap', **v)
            for i in sorted(self.live):
                if self.ended_now() and not self.live[i].idle:
                    break
                x = self.live[i]
                if r.randrange(2):
                    time.sleep(0.02)
                if self.ended_now():
                    break
                if not x.idle and r.randrange(2):
                    self.talk(x, r.choice([1, 5000]))
                self.end(x, r.choice(['finish', 'finish', 'drop']), dict(code=r.randrange(256), hold=r.randrange(3) == 0, how=r.choice(['fin', 'rst'])))
        if not wait_for(self.ended_now, self.timeout):
            self.ev('Stall', what='exit')

    def last(self):
        """Sessions go on after the server's end."""
        for i in sorted(self.live):
            x = self.live[i]
            if x.idle:
                continue
            self.talk(x, 3000)
            self.end(x, 'finish', dict(code=self.rng.randrange(256), hold=False))


class Stop(Exception):
    pass


class LifeRig(campaign.Rig):
    n = 0

    def listener(self):
        return self.thing('fixed', lambda: FixedListener(self.scratch))

    def execute(self, case, timeout):
        self.n += 1
        life = Life(self, case, timeout, self.n)
        return life.run(), life.notes


KINDS = {'absent', 'file', 'link', 'dir', 'ours', 'nowhere'}
OPTS = {'dis', 'keep', 'local', 'over', 'nowait'}
SESSION = {'connect', 'talk', 'clog', 'finish', 'drop', 'die', 'bad', 'idle', 'sleep', 'snap', 'quiet', 'hold', 'lack'}
DEFAULTS = dict(Bgs={False, True}, BeforeKinds={'absent'}, Pids={'none', 'new'}, Maxes={99}, Times={99}, Faults=set(), Ops=SESSION, Lengths={0, 4, 10},
                Owns={1}, Opts=set())


def generate(profiles, seed, limit):
    states = 0

    def make(i):
        c = dict(DEFAULTS)
        c.update(profiles[i][0])
        return tlc.schedules('GenServer', c, max(30, int(limit * profiles[i][1])), 60, seed * 100 + i)
    with concurrent.futures.ThreadPoolExecutor(common.CPUS) as ex:
        got = list(ex.map(make, range(len(profiles))))
    order = []
    rng = random.Random(seed)
    for sch, res in got:
        states += res.states
        for k, c in enumerate(sch):
            c['seed'] = rng.randrange(1 << 30)
            order.append(((k + 0.5) / len(sch), c))
    order.sort(key=lambda x: x[0])
    return [c for _, c in order], states


def model(ctx):
    big = ctx.thorough
    ctx.model('MCServer', 'the server\'s life: guarantees follow from its steps', spec='Spec', constraint='Bounded', heap='12g',
              invariants=['Consistent', 'Untouched', 'NoLeftovers', 'BusyChangesNothing'], properties=['WaitsForSessions', 'StopsWhenTold', 'EndsWhenStopped'],
              consts=dict(Own={'a'}, Others={'b', 'c'} if big else {'b'}, MaxAccept=2, Limit=1, Befores={'absent', 'file', 'dir', 'nowhere'} if big else {'absent', 'file', 'dir'}))


RIGHT = dict(CloseExit=True, CloseListener=True, ShutDown=True, OwnFiles=True, Reap=True, WaitAll=True, ExitFirst=True, TimeFirst=True, Survive=True, Recycle=False, Configs=tlc.Raw('<-Some'))


def loop(ctx, wrong):
    """The design of the serving loop provides what Server says; designs that differ in one decision do not."""
    consts = dict(RIGHT, N=ctx.pick(2, 3))
    every = dict(properties=['Refines', 'Stops', 'StopsInTime', 'NoWaitEnds'], invariants=['Refuses', 'Serving', 'NoZombies', 'Inherits', 'Belongings', 'AtMost'])
    w = ctx.pick(2, 8)
    todo = [lambda: ctx.model('ServerLoop', 'the serving loop provides the server\'s guarantees; sessions may stay forever', spec='StaySpec', consts=consts, workers=w, **every),
            lambda: ctx.model('ServerLoop', 'sessions end', spec='EndSpec', consts=consts, properties=['Ends'], workers=w),
            lambda: ctx.model('ServerLoop', 'sessions come without end', spec='EndSpec', consts=dict(consts, N=2, Recycle=True), properties=['Stops', 'StopsInTime'], workers=w)]
    for name, guarantee, spec, more in wrong:
        todo.append(lambda name=name, guarantee=guarantee, spec=spec, more=more: ctx.refuted(
            'ServerLoop', 'without ' + name, spec=spec, consts=dict(RIGHT, N=2, **{name: False}, **more), workers=1,
            **{'invariants' if guarantee in every['invariants'] else 'properties': [guarantee]}))
    together(ctx, todo)


def together(ctx, todo):
    if ctx.thorough:
        for t in todo:
            t()
    else:
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(t) for t in todo]:
                f.result()


def lives(ctx, profiles, n, seconds):
    cases, states = generate(profiles, ctx.seed, n)
    ctx.add('histories_generated_by_TLC', len(cases))
    ctx.add('generator_states', states)
    conf, unconf, st = campaign.run(cases, LifeRig, {ctx.prop}, module='TraceServer', invariants=(), seconds=seconds, timeout=5.0)
    sessionchecks.report(ctx, st, conf, unconf, 'lives')
    return st


EVERYTHING = {'C01', 'C02', 'C03', 'C04', 'C05'}


def crowd(ctx, n, seconds):
    """Sessions among others must be what they are alone: executions as RemoteExec describes them."""
    both, plain = ['e2e', 'srv'], ['plain', 'medium', 'slow']
    calm, wild = sessions.ALL - {'kill'}, sessions.ALL | {'kill'}
    big = dict(Sizes=sessions.BIG, MaxIn=300000, MaxOut=300000)
    mine, _, s1 = sessions.generate([(both, plain, dict(On=calm, MinLen=10), 0.3), (both, plain, dict(big, On=calm, MinLen=10), 0.3), (both, plain, dict(On=wild, MinLen=6), 0.2),
                                     (both, plain, dict(On=sessions.ALL - {'exit', 'die', 'kill'}, Sleeps={5, 100}, MinLen=8), 0.2)], ctx.seed + 1000, n)
    other, _, s2 = sessions.generate([(both, plain, dict(On=wild, MinLen=6), 0.3), (both, plain, dict(big, On=wild, MinLen=8), 0.2), (both, plain, dict(On={'start', 'write', 'give', 'sleep', 'hold', 'kill'}, MinLen=4), 0.2),
                                      (both, plain, dict(On={'give', 'end', 'nostart', 'sleep'}, MinLen=1), 0.1), (both, plain, dict(On=sessionchecks.FLOOD | {'flood', 'pour', 'kill'}, MinLen=4, Pour=1500000), 0.02),
                                      (both, plain, dict(On={'start', 'exit', 'die', 'kill', 'write'}, Codes=set(range(256)), MinLen=2), 0.2)], ctx.seed + 2000, n)
    ctx.add('generator_states', s1 + s2)
    rng = random.Random(ctx.seed)
    for i, c in enumerate(mine):
        c['others'] = [other[(i * 3 + k) % len(other)] for k in range(rng.choice([1, 2, 3]))]
    conf, unconf, st = campaign.run(mine, sessions.CrowdRig, EVERYTHING, seconds=seconds)
    alone = []
    for x in conf:       # what fails alone, too, is not the others' doing
        again, maybe, _ = campaign.run([dict(x.case, others=[])] * 8, sessions.CrowdRig, EVERYTHING, seconds=60, retries=3)
        if again or maybe:
            alone.append(x)
    if alone:
        ctx.add('sessions_rejected_that_are_rejected_alone', len(alone))
    sessionchecks.report(ctx, st, [x for x in conf if x not in alone], unconf, 'crowd')


def c09(ctx):
    model(ctx)
    loop(ctx, [('CloseListener', 'Inherits', 'StaySpec', {}), ('CloseExit', 'Inherits', 'StaySpec', {}), ('OwnFiles', 'Refines', 'StaySpec', {}),
               ('OwnFiles', 'Belongings', 'StaySpec', {}), ('Reap', 'NoZombies', 'StaySpec', {})])
    crowd(ctx, ctx.pick(900, 12000), ctx.seconds(15, 500))
    lives(ctx, [
        (dict(Lengths={4, 10, 20}), 0.6),
        (dict(Lengths={30, 60}, Ops=SESSION - {'clog'}), 0.2),
        (dict(Lengths={6, 12}, Ops=SESSION | {'signal'}, Opts={'nowait'}), 0.2),
    ], ctx.pick(1500, 30000), ctx.seconds(26, 700))


def c10(ctx):
    model(ctx)
    loop(ctx, [('CloseExit', 'Stops', 'StaySpec', {}), ('ShutDown', 'Refuses', 'StaySpec', {}), ('WaitAll', 'Refines', 'StaySpec', {}),
               ('ExitFirst', 'Stops', 'EndSpec', dict(Recycle=True)), ('Survive', 'Refines', 'StaySpec', {}), ('TimeFirst', 'StopsInTime', 'EndSpec', dict(Recycle=True))])
    s = SESSION | {'signal'}
    lives(ctx, [
        (dict(Lengths={2, 5, 9}, Ops=s, Opts={'nowait', 'keep'}), 0.4),
        (dict(Lengths={1, 5, 9}, Ops=s, Maxes={0, 1, 2, 3, 5}, Opts={'nowait'}), 0.22),
        (dict(Lengths={1, 5, 9}, Ops=s - {'signal'}, Times={0, 1, 50, 300, 600}, Opts={'nowait'}), 0.2),
        (dict(Lengths={3, 6}, Ops={'connect', 'idle', 'signal', 'talk', 'sleep', 'finish', 'hold'}, Times={99, 300}, Maxes={99, 2}, Opts={'nowait'}), 0.15),
        (dict(Lengths={1, 4}, Ops={'connect', 'idle', 'storm', 'storm', 'talk', 'finish'}, Times={99, 300, 600, 1000}, Opts={'nowait'}), 0.06),
    ], ctx.pick(1500, 30000), ctx.seconds(30, 900))


def c11(ctx):
    model(ctx)
    lives(ctx, [
        (dict(Lengths={0}, BeforeKinds=KINDS, Opts=OPTS, Owns={0, 1}), 0.25),
        (dict(Lengths={0, 2}, BeforeKinds={'absent', 'ours', 'file'}, Opts=OPTS | {'over'}, Owns={0, 1, 1}, Maxes={99, 0, 1}, Times={99, 0}), 0.2),
        (dict(Lengths={0}, BeforeKinds=KINDS, Opts=OPTS, Faults={'badnum', 'busy', 'nodir'}, Owns={0, 1}), 0.15),
        (dict(Lengths={0}, BeforeKinds={'absent'}, Opts=OPTS, Faults={'badnum', 'busy'}, Owns={1}), 0.1),
        (dict(Lengths={0}, BeforeKinds={'absent'}, Opts=OPTS, Faults={'early'}, Pids={'none', 'new', 'exists'}, Owns={0, 1}), 0.15),
        (dict(Lengths={3, 6}, BeforeKinds={'absent'}, Ops=SESSION | {'signal'}, Opts=OPTS), 0.15),
    ], ctx.pick(3000, 60000), ctx.seconds(30, 900))


def c12(ctx):
    model(ctx)
    pids = {'none', 'new', 'exists', 'bad'}
    lives(ctx, [
        (dict(Lengths={0, 2}, Bgs={True}, Pids=pids, Opts=OPTS), 0.35),
        (dict(Lengths={0}, Bgs={True}, BeforeKinds=KINDS - {'nowhere'}, Pids=pids, Opts=OPTS, Maxes={99, 0}, Times={99, 0}), 0.15),
        (dict(Lengths={0, 2}, Bgs={False}, Opts=OPTS, Pids={'none'}), 0.1),
        (dict(Lengths={0}, Bgs={True}, Pids=pids, Faults={'badnum', 'busy', 'early'}, Opts=OPTS), 0.2),
        (dict(Lengths={2, 5}, Bgs={True}, Pids={'new'}, Ops=SESSION | {'signal'}, Opts=OPTS), 0.2),
    ], ctx.pick(3000, 60000), ctx.seconds(30, 900))


def replay(ctx, r):
    if r['module'] == 'crowd':
        conf, unconf, st = campaign.run([r['case']], sessions.CrowdRig, EVERYTHING, seconds=60, retries=20)
        return sessionchecks.report(ctx, st, conf, unconf, 'crowd')
    conf, unconf, st = campaign.run([r['case']], LifeRig, {ctx.prop}, module='TraceServer', invariants=(), seconds=60, retries=20)
    sessionchecks.report(ctx, st, conf, unconf, 'lives')
