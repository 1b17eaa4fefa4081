"""Cases that are sessions: end to end (e2e), the real server alone (srv), the real client alone (cli)."""
import concurrent.futures, os, random, socket, threading, time
from . import campaign, e2e, tlc, wire
from .common import CPUS, CheckError, listeners, wait_for
from .world import World

# What the kernel may do to the programs (LD_PRELOAD shim): (server's, client's)
VARIANTS = {
    'plain': ('', ''),
    'small': ('rcv=3,snd=7,rd=64,wr=33,eintr=20', 'rcv=5,snd=3,rd=9,eintr=20'),
    'medium': ('rcv=900,snd=5000,rd=3000,wr=700,eintr=10', 'rcv=1300,snd=4000,rd=7000,eintr=10'),
    'slow': ('delay=3000,delayp=25,rcv=20000,wr=4000,eintr=10', 'delay=3000,delayp=25,rcv=30000,eintr=10'),
    'nostd': ('', ''),      # a server that is started without standard descriptors
    'narrow': ('sbuf=16384,rbuf=8192,rd=64', 'sbuf=16384,rbuf=8192'),      # a connection that takes little before it must be read (little input: passes cost)
    'torrent': ('rcv=2000,delay=500,delayp=100', ''),
    'server': ('rcv=40,snd=100,wr=20,eintr=30,delay=300', ''),
    'latekill': ('kill=40', ''),      # (what must not be started has the time to be seen)
    'client': ('', 'rcv=40,snd=100,rd=50,eintr=30,delay=300'),
}


CLOSED = {'nostd': (0, 1, 2)}


class SessionRig(campaign.Rig):
    header = ''

    def world(self, variant):
        w = self.thing(('world', variant), lambda: World(self.scratch, shim=VARIANTS[variant][0], connect_ms=60000, closed=CLOSED.get(variant, ())))
        return self.world_started(w)

    def world_started(self, w):
        if not w.running():
            if w.server is not None:
                self.notes['server died'] = w.serverlog()[-500:]
                w.stop()
            for _ in range(5):
                if w.start():
                    break
                w.stop()
                time.sleep(0.3)
            else:
                raise CheckError('server does not start: ' + w.serverlog())
        return w

    def execute(self, case, timeout):
        self.notes = {}
        s = self.session(case, timeout)
        events = s.run()
        notes = dict(s.notes, **self.notes)
        self.finished(case, s)
        return events, notes

    def session(self, case, timeout):
        v = case.get('variant', 'plain')
        kind = case['kind']
        startable = case.get('startable', True)
        if kind == 'e2e':
            w = self.world(v)
            cmd = 'run' if startable else 'nostart'
            files = self.files(case)
            s = e2e.Session(self.scratch, lambda a, **k: w.client(a, command=cmd, shim=VARIANTS[v][1], **k), case['sched'],
                            seed=case['seed'], startable=startable, timeout=timeout, files=files)
            s.serverPid = w.server.pid
        elif kind == 'srv':
            w = self.world(v)

            def connect():
                c = socket.socket()
                c.settimeout(10)
                if case.get('rbuf'):
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, case['rbuf'])
                c.connect(('127.0.0.1', w.port))
                return c
            s = wire.WireClient(self.scratch, connect, case['sched'], command=b'run' if startable else b'nostart',
                                split=case['seed'] % 3 == 0, seed=case['seed'], startable=startable, timeout=timeout)
            s.serverPid = w.server.pid
        elif kind == 'cli':
            w = self.thing('cliworld', lambda: World(self.scratch, stubs=False, connect_ms=60000))
            srv = self.thing('clisock', lambda: FakeListener(w.port)).sock
            expected = None
            s = wire.WireServer(self.scratch, lambda a, **k: w.client(a, shim=VARIANTS[v][1], **k), case['sched'], srv, expected,
                                split=case['seed'] % 3 == 0, seed=case['seed'], startable=startable, timeout=timeout, files=self.files(case))
        else:
            raise CheckError('unknown kind ' + kind)
        return s

    def finished(self, case, s):
        if case.get('files'):
            for f in s.files.values():
                if isinstance(f, str) and f.startswith(self.scratch.dir):
                    os.unlink(f)

    def files(self, case):
        f = case.get('files')
        if not f:
            return None
        r = {}
        if f.get('in') == 'closed':
            r['in'] = 'closed'
        elif 'in' in f:
            p = self.scratch.path('stdin.%d' % case['seed'])
            with open(p, 'wb') as o:
                o.write(e2e.expect(0, 0, f['in'], case['seed']))
            r['in'] = p
            r['inlen'] = f['in']
        for s in ('out', 'err'):
            if s in f:
                if f[s] == 'full':
                    r[s] = '/dev/full'
                elif f[s] == 'closed':
                    r[s] = 'closed'
                else:
                    r[s] = self.scratch.path('%s.%d.out' % (s, case['seed']))
        return r


class CrowdRig(SessionRig):
    """A session among others: those of case['others'] use the same server at the same time, and are not judged."""

    def execute(self, case, timeout):
        self.notes = {}
        others = [self.session(dict(o, variant=case['variant']), 2.0) for o in case['others']]
        s = self.session(case, timeout)

        def run(o):
            try:
                o.run()
            except Exception:      # whatever happens to it
                pass
        threads = [threading.Thread(target=run, args=(o,)) for o in others]
        for t in threads:
            t.start()
        try:
            events = s.run()
        finally:
            for t in threads:
                t.join()
        notes = dict(s.notes, **self.notes)
        return events, notes


class FakeListener:
    def __init__(self, port):
        self.sock = socket.socket()
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(('127.0.0.1', port))
        self.sock.listen(16)
        self.sock.setblocking(False)

    def stop(self):
        self.sock.close()


ALL = {'give', 'end', 'start', 'read', 'shut', 'write', 'flow', 'out', 'close', 'hold', 'sleep', 'exit', 'die', 'kill'}
BIG = {1, 2, 5, 100, 4096, 8187, 8188, 8192, 65530, 65535, 65536, 70000, 200000}
MID = {1, 2, 3, 5, 17, 100, 1000, 4096, 8187, 8192}
CODES = {0, 1, 2, 3, 126, 127, 128, 134, 200, 255}


def generate(profiles, seed, limit):
    """profiles: [(kinds, variants, consts, share)].  Returns cases interleaved, and the schedules' number and TLC states."""
    states, distinct = 0, 0
    rng = random.Random(seed)

    def make(i):
        kinds, variants, consts, share = profiles[i]
        c = dict(On=ALL, Sizes=MID, Codes=CODES, Signals={9, 15, 6, 11}, Sleeps={1, 5, 20}, MaxIn=20000, MaxOut=20000, MinLen=8, Pipe=60000, Given=0, Flood=1500000000, Pour=100000000)
        c.update(consts)
        c.pop('Files', None)
        return tlc.schedules('GenRemoteExec', c, max(20, int(limit * share)), 80, seed * 100 + i)
    with concurrent.futures.ThreadPoolExecutor(CPUS) as ex:
        generated = list(ex.map(make, range(len(profiles))))
    out = []
    for (kinds, variants, consts, share), (sch, res) in zip(profiles, generated):
        states += res.states
        distinct += len(sch)
        files = [f.split(':') for f in consts.get('Files', [])]
        on = consts.get('On', ALL)
        cases = []
        for s in sch:
            kind = rng.choice(kinds)
            case = dict(kind=kind, variant=rng.choice(variants), seed=rng.randrange(100000), startable='nostart' not in on,
                        sched=[o for o in s if kind != 'cli' or o['op'] != 'hold'])
            if files or 'file' in on:
                case['files'] = dict(files)
                if 'file' in on and case['files'].get('in') != 'closed':
                    case['files']['in'] = consts['Given']
            cases.append(case)
        out.append(cases)
    # interleave in proportion
    order = []
    for p in out:
        for k, c in enumerate(p):
            order.append(((k + 0.5) / len(p), c))
    order.sort(key=lambda x: x[0])
    return [c for _, c in order], distinct, states
