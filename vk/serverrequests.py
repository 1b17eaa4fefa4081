"""C08: what a server makes of requests."""
import os, random, socket
from . import campaign, common, e2e, sessionchecks, sessions, tlc, wire
from .common import CheckError, quote
from .probe import FixedListener
from .world import World


NAMES = [b'', b'ru', b'runn', b'RUN', b'run\0', b'run ', b' run', b'./run', b'otherrun', b'srv', b'=run', b'sub/run', b'\0', b'run=', b'r' * 9000,
         b'wd', b'*', b'[srv]', b'\xff', b'run\n']
PADS = [0, 1, 2, 3, 100, 8170] + list(range(8176, 8196)) + [9000, 16384, 20000, 65531, 65536, 70000]


class RequestSession(wire.WireClient):
    def __init__(self, scratch, connect, case, world, listener, **kw):
        self.case, self.world = case, world
        super().__init__(scratch, connect, [], split=case['seed'] % 3 == 0, seed=case['seed'], listener=listener, startable=case['startable'], **kw)
        self.args, self.dir = [], None

    def data(self, k):
        r = self.rng
        if k == 'wdok':
            d = r.choice(['.', 'sub', 'sub/../sub', 'sub/./deep', './sub//deep', ''])
            self.dir = os.path.realpath(os.path.join(self.world.base, d))
            return WDT, d.encode()
        if k == 'wdbad':
            return WDT, r.choice([b'no/such', b'sub/file', b'x' * 300, b'sub/no/..' * 3])
        if k == 'arg':
            n = r.choice(PADS) if r.randrange(2) else r.randrange(20)
            a = bytes(r.choice(b'abc \'"\\$-=/\n\xff') for _ in range(min(n, 40))) + b'z' * max(0, n - 40)
            self.args.append(a)
            return wire.ARG, a
        if k == 'env':
            return wire.ENV, r.choice([b'A=1', b'A', b'PATH=/x', b'=', b'', b'LD_PRELOAD=x', b'A==', b'A=' + b'v' * r.choice(PADS)])
        if k == 'start':
            self.name = r.choice([b'run', b'dup'])
            return wire.START, self.name
        if k == 'unknown':
            return wire.START, r.choice(NAMES)
        if k in ('type9', 'type255'):
            return int(k[4:]), r.choice([b'', b'abc'])
        if k == 'stdin':
            return wire.STDIN, b'abc'
        if k == 'stdin0':
            return wire.STDIN, b''
        if k in ('terminate', 'exit'):
            return wire.KINDS[k], b''
        return wire.KINDS[k], r.choice([b'', b'abc'])

    def begin(self):
        self.ev('Cfg', startable=False, req='open')
        self.sock = self.connect()
        self.sock.setblocking(False)
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.out = wire.Outgoing(self.sock, self.rng, self.split)
        self.readers = {}
        decided = False
        together = self.rng.randrange(2)      # all at once, or one by one
        for k in self.case['frames']:
            if not decided:
                self.ev('Frame', k=k)
            t, d = self.data(k)
            self.out.put(wire.frame(t, d))
            if not together:
                self.out.push()
                if self.rng.randrange(8) == 0:
                    self.pump(lambda: False, 0.002)
            decided = decided or k not in ('wdok', 'wdbad', 'arg', 'env')
        self.out.push()

    def on_line(self, c, l):
        n = len(self.events)
        super().on_line(c, l)
        if l[0] == 'H' and c.hello['role'] == 'command' and c is self.cmd:
            want = [self.world.s.bin.encode() + b'/puppet', self.listener.path.encode()]
            if getattr(self, 'name', None) == b'dup':
                want.append(b'mine')
            got = c.hello
            diff = dict()
            if got['argv'] != want + self.args:
                diff['argv'] = repr(got['argv'])[:300]
            if got['cwd'] != (self.dir or os.path.realpath(self.world.base)).encode():
                diff['cwd'] = repr(got['cwd'])
            if diff and any(e['e'] == 'Start' for e in self.events[n:]):
                self.ev('BadStart', **diff)

    def finish(self):
        how, req = self.case['how'], self.case['req']
        if req == 'start':
            if not self.case['startable']:
                if not self.pump(lambda: self.cliState != 'run'):
                    self.stall('end')
                self.pump(lambda: False, 0.01)
                return
            if not self.pump(lambda: self.cmdState != 'off' or self.cliState != 'run'):
                self.stall('start')
                return
            self.order(dict(op='exit', c=self.rng.randrange(256)))
            for s in e2e.FD:
                self.set_flow(s, True)
            if not self.pump(lambda: self.cliState != 'run'):
                self.stall('end')
            return
        if req == 'bad':
            if not self.pump(lambda: self.cliState != 'run'):
                self.stall('reject')
            self.pump(lambda: False, 0.02)
            return
        # an incomplete request
        self.pump(lambda: not self.out.q or self.cliState != 'run')
        self.pump(lambda: self.cliState != 'run', 0.005 if self.rng.randrange(4) else 0.3)
        if self.cliState != 'run':
            return
        self.ev('KillClient')
        self.cliState = 'gone'
        if how in ('wait', 'close'):
            self.sock.close()
            self.sock = None
        elif how == 'rst':
            wire.rst_close(self.sock)
            self.sock = None
        else:
            t, d = self.rng.choice([(WDT, b'sub'), (wire.ARG, b'abcdef'), (wire.ENV, b'A=1'), (wire.START, b'runrun')])
            if how == 'cutname':      # enough to look like a command, but not all of it
                m = wire.frame(wire.START, b'run' + b'run' * self.rng.randrange(3) + b'x')[:8]
                if self.rng.randrange(3) == 0:
                    m = bytes([wire.START]) + self.rng.choice([b'\xff\xff\xff\xff', b'\x03\0\0\x80', b'\x03\x01\0\0', b'\x03\0\x01\0']) + b'run'
            elif how == 'cuthead':
                m = wire.frame(t, d)[:self.rng.randrange(1, 5)]
            elif how == 'cutbody':
                m = wire.frame(t, d)[:self.rng.randrange(5, 5 + len(d))]
            else:
                m = b''
            try:
                if m:
                    self.sock.send(m)
                if self.rng.randrange(2):
                    self.pump(lambda: False, 0.005)
                self.sock.shutdown(socket.SHUT_WR)
                if self.rng.randrange(2):
                    self.sock.close()
                    self.sock = None
            except OSError:
                pass
        self.peer = 'ignored'
        if self.rng.randrange(3) and self.case['variant'] != 'latekill':
            self.pump(lambda: False, 0.01)
        else:
            self.pump(lambda: False, 0.1)


WDT = wire.WD


class RequestRig(sessions.SessionRig):
    def world(self, variant):
        lst = self.thing('fixed', lambda: FixedListener(self.scratch))
        key = ('reqworld', variant)
        if key not in self.things:
            pup = quote(self.scratch.bin + '/puppet') + ' ' + quote(lst.path)
            other = self.scratch.ports.get()
            w = World(self.scratch, commands={'run': pup, 'dup': pup + ' mine'}, shim=sessions.VARIANTS[variant][0],
                      sections='[other:%d]\notherrun %s other\ndup %s theirs\n' % (other, pup, pup), connect_ms=60000)
            os.makedirs(w.base + '/sub/deep')
            open(w.base + '/sub/file', 'w').close()
            self.things[key] = w
        return super().world_started(self.things[key])

    def execute(self, case, timeout):
        if case['kind'] != 'request':
            return super().execute(case, timeout)
        self.notes = {}
        w = self.world(case['variant'])

        def connect():
            c = socket.socket()
            c.settimeout(10)
            c.connect(('127.0.0.1', w.port))
            return c
        s = RequestSession(self.scratch, connect, case, w, self.things['fixed'], timeout=timeout)
        events = s.run()
        return events, dict(s.notes, **self.notes)


def uid_listeners(uid):
    """[(address, port)] of all listening TCP sockets of a user."""
    r = []
    for f, n in (('/proc/net/tcp', 4), ('/proc/net/tcp6', 16)):
        with open(f) as i:
            for line in i.read().split('\n')[1:]:
                w = line.split()
                if len(w) > 7 and w[3] == '0A' and int(w[7]) == uid:
                    a, p = w[1].rsplit(':', 1)
                    b = bytes.fromhex(a)
                    r.append(('.'.join(str(x) for x in b[::-1]) if n == 4 else a, int(p, 16)))
    return sorted(set(r))


class PortRig(campaign.Rig):
    """Starts servers of generated configurations and looks where they listen."""

    def execute(self, case, timeout):
        rng = random.Random(case['seed'])
        n = rng.randrange(1, 5)
        idx = rng.randrange(n)
        explicit = []
        sections = ''
        base = self.scratch.ports.lo + rng.randrange(480)
        for i in range(n):
            p = 0
            if i == 0 or rng.randrange(3) == 0:
                p = base + rng.randrange(15)
            explicit.append(p)
            sections += '[%s%s]\nc%d /bin/true\n' % ('s%d' % i, ':%d' % p if p else '', i)
        conf = self.scratch.write('ports.conf', sections)
        for _ in range(3):      # (a port may be taken by a connection of somebody else's)
            s = self.scratch.popen([self.scratch.bin + '/k8pshd', '--config', conf, '--name', 's%d' % idx, '-d'])
            try:
                got = common.wait_for(lambda: uid_listeners(self.scratch.uid) or s.poll() is not None, timeout)
                got = uid_listeners(self.scratch.uid)
            finally:
                s.kill()
                s.wait()
            if got:
                break
        ev = [dict(e='Cfg', startable=True, req='open'),
              dict(e='Listen', explicit=explicit, index=idx + 1, addresses=[dict(host=a, port=p) for a, p in got])]
        return ev, {}


def c08(ctx):
    n = ctx.pick(3, 4)
    ctx.model('GenRequest', 'all requests of up to %d messages and what may come of them' % n, spec='GenSpec',
              consts=dict(MaxFrames=n, MaxPost=0, Emit=False), invariants=['StartedOnlyIfValid', 'NoCodeForBad', 'CodeOnlyOfCommand'],
              properties=['Decided'])
    res = tlc.run('GenRequest', spec='GenSpec', consts=dict(MaxFrames=n, MaxPost=2, Emit=True), workers=1)
    reqs = tlc.printed(res.out, 'SCHEDULE')
    rng = random.Random(ctx.seed)
    variants = list(sessions.VARIANTS) + ['latekill'] * 2
    cases = [dict(kind='request', variant=rng.choice(variants), seed=rng.randrange(100000), **r) for r in reqs for _ in range(8 if r['req'] == 'start' and r['startable'] else 1)]
    cases += [dict(kind='request', variant='latekill', seed=rng.randrange(100000), **r) for r in reqs for _ in range(3)
              if r['how'] in ('cutname', 'cutbody') and r['frames'][-1:] == ['wdok']]
    rank = {id(c): rng.random() * (2.5 if c['req'] == 'bad' else 1) for c in cases}      # (most are invalid)
    cases.sort(key=lambda c: rank[id(c)])
    ctx.note('requests_enumerated', len(cases))
    conf, unconf, st = campaign.run(cases, RequestRig, {'C08'}, seconds=ctx.seconds(30, 600), timeout=4.0)
    ctx.note('requests_executed', st.n['cases'])
    sessionchecks.report(ctx, st, conf, unconf, 'requests')
    if ctx.violations:
        return
    # in the middle of the execution of a command, and what a client's messages mean then
    k = {'start', 'kill', 'give', 'write', 'exit'}
    sessionchecks.campaign_of(ctx, [(['srv'], variants, dict(On=k, MinLen=2), 1.0)], ctx.pick(300, 6000), ctx.seconds(8, 120))
    ports = [dict(kind='ports', seed=rng.randrange(1 << 30)) for _ in range(ctx.pick(120, 1500))]
    conf, unconf, st = campaign.run(ports, PortRig, {'C08'}, seconds=ctx.seconds(6, 60))
    sessionchecks.report(ctx, st, conf, unconf, 'ports')


def replay(ctx, r):
    rig = {'requests': RequestRig, 'ports': PortRig}.get(r['module'], sessions.SessionRig)
    conf, unconf, st = campaign.run([r['case']], rig, {ctx.prop}, seconds=60, retries=20)
    sessionchecks.report(ctx, st, conf, unconf, r['module'])
