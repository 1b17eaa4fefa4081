"""C15: clients that connect to servers which are not always there."""
import os, random, select, socket, subprocess, threading, time
from . import campaign, sessionchecks, tlc, wire
from .common import cpu, quote

FAR = {'2147483648': 1 << 31, '4294967301': 1 << 32, '9223372036854775807': 1 << 62, '9223372036854775': 1 << 53, '-1': -1, '-5': -1, '-9223372036854775808': -1, '(absent)': 30000, '30000': 30000, '86400000': 86400000}
SLACK = 700
MAX = 2000000000


def millis(t):
    n = FAR[t] if t in FAR else int(t)
    return min(n, MAX)


class Scene(threading.Thread):
    """One client, and what listens at its server's port."""

    def __init__(self, rig, c, number, timeout):
        super().__init__(daemon=True)
        self.rig, self.c, self.number, self.timeout = rig, c, number, timeout
        self.rng = random.Random(c['seed'])
        self.error = None
        self.obs = None

    def run(self):
        try:
            self.obs = self.watch()
        except Exception as e:
            self.error = e

    def ms(self):
        return int((time.monotonic() - self.zero) * 1000)

    def watch(self):
        c, s, rng = self.c, self.rig.scratch, self.rng
        with self.rig.lock:
            port = s.ports.get()
        t = millis(c['timeout'])
        line = '' if c['timeout'] == '(absent)' else rng.choice(['connectTimeoutMs=%s\n', 'connectTimeoutMs = %s\n']) % c['timeout']
        conf = s.write('conn%d.conf' % self.number, line + "[srv:%d]\nrun /none\n" % port)
        d = s.mkdir('conn%d' % self.number)
        exe = s.bin + '/k8psh'
        if c['form'] == 'stub':
            exe = d + '/run'
            os.symlink(s.bin + '/k8psh', exe)
        argv = [exe] + ([] if c['form'] == 'stub' else ['run'] if c['form'] == 'env' else ['-c', conf, 'run']) + ['once']
        env = {'PATH': '/usr/bin:/bin'}
        if c['form'] != 'plain':
            env['K8PSH_CONFIG'] = conf
        if c['self'] and not (c['ups'] and c['ups'][0]['a'] == 0):
            env['LD_PRELOAD'], env['VSHIM'] = s.bin + '/shim.so', 'self=%d' % c['self']
        ups = [dict(u) for u in c['ups']]
        o = dict(t=t, ups=[], conns=[], reqs=0, fate='serve' if c['how'] in ('serve', 'slow', 'late') else 'drop', lag=0, hold=0, code=c['code'], end=-1, status=0, watch=0, used=0)
        lst, todo, held = None, list(ups), []
        self.zero = time.monotonic()
        if todo and todo[0]['a'] == 0:
            lst = self.listen(port)
            o['ups'].append(dict(a=0, b=todo[0]['b']))
            todo.pop(0)
        # long enough to see what is owed
        want = 300 + max([0] + [u['a'] + 1000 + SLACK for u in ups])
        if 0 <= t <= 10000:
            want = max(want, t + SLACK + 300)
        else:
            want = max(want, rng.choice([400, 2500, 4500]))
        self.zero = time.monotonic()
        p = s.popen(argv, env=env, cwd=d)
        live, acceptAt, gone = [], None, None
        closeAt = ups[0]['b'] if lst and ups[0]['b'] >= 0 else None
        limit = want
        try:
            while True:
                now = self.ms()
                if o['end'] < 0:      # (also that of a process that has ended, until it is waited for)
                    o['used'] = max(o['used'], (cpu(p.pid) or 0) // 1000000)
                if p.poll() is not None and o['end'] < 0:
                    o['end'] = self.ms()
                    o['status'] = 1000 - p.returncode if p.returncode < 0 else p.returncode
                    gone = now
                if lst is None and todo and now >= todo[0]['a']:
                    x = self.listen(port)
                    if x is not None:
                        lst = x
                        u = todo.pop(0)
                        a = self.ms()
                        o['ups'].append(dict(a=max(1, a), b=-1))
                        closeAt = a + u['b'] - u['a'] if u['b'] >= 0 else None
                if lst is not None and closeAt is not None and now >= closeAt and acceptAt is None:
                    for q in self.pending(lst):
                        o['conns'].append(self.ms())
                        held.append(q)
                        self.meet(q, o, live)
                    b = self.ms()
                    lst.close()
                    lst, closeAt = None, None
                    o['ups'][-1]['b'] = b
                if gone is not None and now > gone + 60 and not live:
                    break
                if now > limit and not live and acceptAt is None:
                    break
                if now > limit + 5000 + self.timeout * 1000:
                    break
                if lst is not None and c['how'] == 'late' and acceptAt is None and not o['conns']:
                    if select.select([lst], [], [], 0)[0]:
                        acceptAt = now + self.rng.choice([200, 900, 1800])
                        o['lag'] = 1800
                if lst is not None and (acceptAt is None and not (c['how'] == 'late' and not o['conns']) or acceptAt is not None and now >= acceptAt):
                    acceptAt = None
                    for q in self.pending(lst):
                        o['conns'].append(self.ms())
                        held.append(q)
                        self.meet(q, o, live)
                        limit = max(limit, self.ms() + 400 + self.hold + SLACK)
                        o['hold'] = self.hold
                for x in list(live):
                    if not self.session(x, o):
                        live.remove(x)
                rd = [x['sock'] for x in live if not x['done']] + ([lst] if lst is not None and acceptAt is None else [])
                select.select(rd, [], [], 0.01) if rd else time.sleep(0.005)
            o['watch'] = self.ms()
            return o
        finally:
            if p.poll() is None:
                p.kill()
            p.wait()
            for x in held + [lst]:
                if x is not None:
                    x.close()

    hold = 0

    def listen(self, port):
        x = socket.socket()
        try:
            x.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            x.bind(('127.0.0.1', port))
            x.listen(16)
            x.setblocking(False)
            return x
        except OSError:
            x.close()
            return None

    def pending(self, lst):
        r = []
        while True:
            try:
                q, _ = lst.accept()
            except OSError:
                return r
            q.setblocking(False)
            r.append(q)

    def meet(self, q, o, live):
        how = self.c['how']
        if how == 'close':
            q.close()
        elif how == 'reset':
            wire.rst_close(q)
        else:
            if how == 'slow':
                self.hold = max(self.hold, min(3000, 600 + max(0, o['t'] if o['t'] < 2400 else 0)))
            live.append(dict(sock=q, frames=wire.Frames(), got=[], need=0, done=False, at=None))

    def session(self, x, o):
        """Whether the session goes on."""
        if x['done']:
            if self.ms() < x['at'] + self.hold:
                return True
            try:
                x['sock'].setblocking(True)
                x['sock'].sendall(wire.frame(wire.STDOUT) + wire.frame(wire.STDERR) + bytes([wire.EXIT]) + self.c['code'].to_bytes(4, 'little'))
                x['sock'].shutdown(socket.SHUT_WR)
            except OSError:
                pass
            return False
        try:
            d = x['sock'].recv(65536)
        except BlockingIOError:
            return True
        except OSError:
            d = b''
        if not d:
            return False
        for what, t, v in x['frames'].feed(d):
            if what == 'head':
                x['got'].append([t, b''])
                x['need'] = v
            else:
                x['got'][-1][1] += v
            if t == wire.START and len(x['got'][-1][1]) == x['need']:
                x['done'], x['at'] = True, self.ms()
        if x['done']:
            if [a for a in x['got'] if a[0] in (wire.ARG, wire.START)] == [[wire.ARG, b'once'], [wire.START, b'run']]:
                o['reqs'] += 1
            else:
                o['reqs'] += 2
            if self.c['how'] == 'unread':
                x['sock'].close()
                return False
        return True


class ConnectRig(campaign.Rig):
    n = 0

    def __init__(self, b):
        super().__init__(b)
        self.lock = threading.Lock()

    def execute(self, case, timeout):
        scenes = []
        for c in case['scenes']:
            self.n += 1
            scenes.append(Scene(self, c, self.n, timeout))
        for x in scenes:
            x.start()
            time.sleep(0.01)
        for x in scenes:
            x.join()
        for x in scenes:
            if x.error:
                raise x.error
        return [dict(e='Client', c=x.c, o=x.obs) for x in scenes], {}


def model(ctx):
    far = ctx.thorough
    c = dict(Timeouts={999999, 0, 1, 5, 50, 300, 700, 1500, 2500} | ({31, 32, 33, 96, 992, 1992, 5000, 100000} if far else set()),
             Starts={0, 1, 20, 200, 700, 1500, 2500} | ({32, 96, 100, 991, 993, 1991, 4000} if far else set()), Lengths={5, 300, 1400}, Delays={0, 3, 40} if far else {0, 20},
             Horizon=7000 if far else 4500, First=32, Cap=1000, Last=True)
    ctx.model('MCConnect', 'a client that backs off does what is allowed, whoever listens when', spec='Spec', invariants=['Good', 'Single'], consts=c)
    for what, d in (('pauses of up to 1.5 s', dict(Cap=1500)), ('no attempt when the timeout expires', dict(Last=False)), ('a first pause of 4 s', dict(First=4000, Cap=4000))):
        ctx.refuted('MCConnect', what, spec='Spec', invariants=['Good', 'Single'], consts=dict(c, **d))


def c15(ctx):
    model(ctx)
    cases = scenes_of(ctx, ctx.pick(6000, 60000))
    st = judge(ctx, cases, ctx.seconds(24, 900))
    ctx.add('clients', st.events['Client'])


def scenes_of(ctx, n):
    scenes, res = tlc.schedules('GenConnect', dict(Far=set(FAR)), n, 6, ctx.seed)
    ctx.add('generator_states', res.states)
    rng = random.Random(ctx.seed)
    for c in scenes:
        c['seed'] = rng.randrange(1 << 30)
    return [dict(scenes=scenes[i:i + 30]) for i in range(0, len(scenes) - 29, 30)]


def judge(ctx, cases, seconds, good='ConnectGood'):
    conf, unconf, st = campaign.run(cases, ConnectRig, {ctx.prop}, module='JudgeConnect', consts=dict(Good=tlc.Raw('<-' + good), Slack=SLACK), invariants=(),
                                    seconds=seconds, timeout=5.0, retries=3)
    for x in conf:      # (the others have nothing to do with it)
        x.case = dict(scenes=x.case['scenes'][x.at:x.at + 1])
    sessionchecks.report(ctx, st, conf, unconf, 'ConnectRig')
    return st


def replay(ctx, r):
    judge(ctx, [r['case']], 60)
