"""C19: what is logged, and that nothing depends on it."""
import os, pty, random, re, signal, subprocess, threading, time, tty
from . import campaign, common, sessionchecks, tlc, wire, world
from .common import CheckError, listeners, quote, wait_for

HEAD = re.compile(rb'\[(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{6}), (DEBUG|INFO|WARN|ERROR), +(\d+)\] ')
SOURCES = ['Main', 'Configuration', 'Process', 'Socket', 'Utilities']
SURE = dict(select={'Main'}, served={'Main', 'Process'})


def parsed(data, whole=True):
    """The messages of a log, everything in them numbered."""
    ids, times, texts, r = {}, sorted({m.group(1) for m in HEAD.finditer(data)}), {}, []
    times = {t: i for i, t in enumerate(times)}
    torn = dict(p=0, t=0, lv='torn', name='', n=0)
    lines = data.split(b'\n')
    if whole and lines[-1]:
        r.append(torn)
    for line in lines:
        ms = list(HEAD.finditer(line))
        at = ms[0].start() == 0 if ms else False
        if whole and (len(ms) > at or line and not ms and not r):
            r.append(torn)
        if at:
            m = ms[0]
            lv, rest, name = m.group(2).decode(), line[m.end():], ''
            if lv == 'DEBUG':
                n = re.match(rb'\((\w+)\) ', rest)
                name = n.group(1).decode() if n else '?'
            r.append(dict(p=ids.setdefault(m.group(3), len(ids) + 1), t=times[m.group(1)], lv=lv, name=name, n=texts.setdefault(rest, len(texts))))
    return r


class Sink:
    """Where a stream of a program goes, and what arrived there."""

    def __init__(self, s, kind, path):
        self.kind, self.path, self.data, self.th, self.fd = kind, path, b'', None, None
        self.read = kind in ('file', 'append', 'pipe', 'pty')
        if kind in ('file', 'append'):
            self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC | (os.O_APPEND if kind == 'append' else 0), 0o644)
        elif kind in ('pipe', 'gone', 'leaves'):
            r, self.fd = os.pipe()
            self.start(r)
        elif kind == 'pty':
            r, self.fd = pty.openpty()
            tty.setraw(self.fd)
            self.start(r)
        else:
            self.fd = os.open('/dev/full' if kind == 'full' else '/dev/null', os.O_WRONLY)

    def start(self, r):
        if self.kind == 'gone':
            os.close(r)
            return

        def work():
            try:
                while True:
                    d = os.read(r, 65536 if self.kind != 'leaves' else 1000)
                    if not d:
                        return
                    self.data += d
                    if self.kind == 'leaves' and len(self.data) >= 1000:
                        return
            except OSError:
                pass
            finally:
                os.close(r)
        self.th = threading.Thread(target=work, daemon=True)
        self.th.start()

    def given(self):
        if self.fd is not None:
            os.close(self.fd)
            self.fd = None

    def end(self, timeout):
        self.given()
        if self.th:
            self.th.join(timeout)
            if self.th.is_alive():
                raise CheckError('the log is still open')
        if self.kind in ('file', 'append'):
            with open(self.path, 'rb') as f:
                self.data = f.read()
            os.unlink(self.path)


class LogRig(campaign.Rig):
    n = 0

    def execute(self, case, timeout):
        self.n += 1
        if case['kind'] == 'select':
            return [self.select(case, timeout)], {}
        return [self.serve(case, timeout)], {}

    def text(self, case):
        rng = random.Random(case['seed'])
        f = {'as is': lambda x: x, 'upper': str.upper, 'lower': str.lower, 'mixed': lambda x: ''.join(rng.choice([c.upper(), c.lower()]) for c in x)}[case['case']]
        return f(''.join(case['list']))

    def sources(self, kind, timeout):
        """The source files that log in such a run."""
        def find():
            names = set(SURE[kind])
            for l in (['all'], [','.join(SOURCES)]):
                c = dict(kind=kind, list=l, case='as is', seed=0, out='file', err='file', sessions=['run'], par=False, end='term', strays=False, many=1)
                x = self.run_client(l[0], timeout) if kind == 'select' else self.serve(c, timeout, True)['out']
                names |= {e['name'] for e in x if e['lv'] == 'DEBUG'}
            return [dict(name=n, codes=list(n.encode())) for n in sorted(names)]
        return self.thing('sources ' + kind, lambda: Names(find())).names

    def run_client(self, text, timeout):
        conf = self.thing('dead', lambda: Names(self.scratch.write('dead.conf', 'connectTimeoutMs = 0\n[srv:%d]\nrun true\n' % self.scratch.ports.get()))).names
        p = self.scratch.popen([self.scratch.bin + '/k8psh', '-c', conf, 'run', 'a'], env={} if text is None else {'K8PSH_DEBUG': text}, stdout=subprocess.PIPE)
        try:
            out = p.communicate(timeout=timeout)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            out = p.communicate()[0] + b'?'
        return parsed(out, False)

    def select(self, case, timeout):
        src = self.sources('select', timeout)
        text = self.text(case)
        out = self.run_client(text if text or case['seed'] % 2 else None, timeout)
        return dict(e='Select', list=list(text.encode()), sources=src, out=out)

    def serve(self, c, timeout, plain=False):
        s, text = self.scratch, self.text(c)
        src = [] if plain else self.sources('served', timeout)
        rng = random.Random(c['seed'])
        root = s.mkdir('log%d' % self.n)
        stubs = s.mkdir('log%d' % self.n, 'stubs')
        port = s.ports.get()
        others = ['o%d' % i for i in range(c['many'])]
        conf = s.write('log%d/k8psh.conf' % self.n, "baseDirectory = %s\nconnectTimeoutMs = 20000\n[srv:%d]\nrun /bin/sh -c 'printf %%s \"$1\"; exit \"$2\"' sh\nlong /bin/sleep 30\nnostart /no/such/program\n[other]\n%s"
                       % (root, port, ''.join('%s true\n' % o for o in others)))
        end, want = c['end'], c['sessions']
        prior = []
        if end == 'taken':
            prior = [rng.choice(others)]
            os.symlink('/nowhere', stubs + '/' + prior[0])
            want = []
        if end in ('time', 'storm'):
            want = want[:1] if end == 'time' else []
        opts = {'max': ['-m', str(len(want))], 'time': ['-t', '1500']}.get(end, [])
        out = Sink(s, c['out'], root + '/out')
        err = out if c['err'] == 'same' else Sink(s, c['err'], root + '/err')
        closed = [i + 1 for i, k in ((0, c['out']), (1, c['err'])) if k == 'closed']
        env = {'PATH': '/usr/bin:/bin'}
        if text or c['seed'] % 2:
            env['K8PSH_DEBUG'] = text
        p = s.popen([s.bin + '/k8pshd', '-c', conf, '-n', 'srv', '-e', stubs] + opts, env=env, cwd=root, stdout=out.fd, stderr=err.fd, closed=closed)
        out.given()
        err.given()
        sessions, left, status = [], None, 'none'
        try:
            over = lambda: p.poll() is not None
            if end == 'storm':
                time.sleep(rng.choice([0, 0.001, 0.002, 0.003, 0.004, 0.006, 0.01]))
                stop = time.monotonic() + timeout
                while p.poll() is None and time.monotonic() < stop:
                    p.send_signal(rng.choice([signal.SIGTERM, signal.SIGINT, signal.SIGHUP]))
                    time.sleep(rng.choice([0, 0.0001, 0.0005]))
            elif end != 'taken':
                wait_for(lambda: listeners(port) and len(os.listdir(stubs)) == len(others) or over(), timeout)
                if c['par']:
                    ts = [self.begin(s, how, conf, port, root, i) for i, how in enumerate(want)]
                    sessions = [x(timeout) for x in ts]
                else:
                    sessions = [self.begin(s, how, conf, port, root, i)(timeout) for i, how in enumerate(want)]
                if c['strays'] and end not in ('max', 'time') and not over():
                    os.unlink(stubs + '/' + rng.choice(others))
                if end in ('term', 'int', 'hup'):
                    p.send_signal(dict(term=signal.SIGTERM, int=signal.SIGINT, hup=signal.SIGHUP)[end])
            try:
                st = p.wait(timeout + 2)
                status = '0' if st == 0 else 'signalled' if end == 'storm' and st in (-signal.SIGTERM, -signal.SIGINT, -signal.SIGHUP) else 'fails'
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                s.killall()
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        left = sorted(os.listdir(stubs))
        out.end(timeout)
        if err is not out:
            err.end(timeout)
        same = err is out
        common.shutil.rmtree(root, ignore_errors=True)
        return dict(e='Served', list=list(text.encode()), sources=src, status=status, early=end == 'storm', fails=end == 'taken', prior=prior, left=left, sessions=sessions,
                    outread=out.read and not same, out=parsed(out.data) if out.read and not same else [],
                    errread=err.read and not same, err=parsed(err.data, False) if err.read and not same else [], c=c)

    def begin(self, s, how, conf, port, root, i):
        """Begins a session; what is returned ends it and says what became of it."""
        code, word = 7 + 41 * i, 'word%d' % i
        if not listeners(port):
            return lambda timeout: dict(how=how, want='accepted', got='refused')
        if how in ('bad', 'vanish'):
            x = common.socket.create_connection(('127.0.0.1', port), 10)
            x.settimeout(10)
            x.sendall(wire.frame(wire.WD, b'.'))
            if how == 'bad':
                x.sendall(wire.frame(wire.EXIT, b''))

            def over(timeout):
                if how == 'vanish':
                    x.shutdown(common.socket.SHUT_WR)
                try:
                    d = x.recv(100)
                except ConnectionError:
                    d = b''
                except OSError:
                    d = b'?'
                x.close()
                return dict(how=how, want='', got=d.decode('latin1'))
            return over
        cmd = dict(run='run', unknown='none', kill='long', nostart='nostart')[how]
        if how == 'unknown':
            return self.unknown(port)
        p = s.popen([s.bin + '/k8psh', '-c', conf, cmd] + ([word, str(code)] if how == 'run' else []), env={}, cwd=root, stdout=subprocess.PIPE)

        def ended(timeout):
            if how == 'kill':
                time.sleep(0.05)
                p.kill()
            try:
                o = p.communicate(timeout=timeout)[0].decode('latin1')
                st = 'killed' if p.returncode == -9 else 'fails' if p.returncode < 0 else str(p.returncode)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                o, st = '', 'none'
            return dict(how=how, want=dict(run='%s %d' % (word, code), kill=' killed', nostart=' fails')[how], got='%s %s' % (o, st))
        return ended

    def unknown(self, port):
        x = common.socket.create_connection(('127.0.0.1', port), 10)
        x.settimeout(10)
        x.sendall(wire.frame(wire.WD, b'.') + wire.frame(wire.START, b'none'))

        def over(timeout):
            try:
                d = x.recv(100)
            except ConnectionError:
                d = b''
            except OSError:
                d = b'?'
            x.close()
            return dict(how='unknown', want='', got=d.decode('latin1'))
        return over


class Names:
    def __init__(self, names):
        self.names = names

    def stop(self):
        pass


def models(ctx):
    c = dict(Chars=set(), MaxLen=0)
    big = dict(Messages=ctx.pick(2, 3), Forks=2)
    kw = dict(spec='LSpec', invariants=['Once', 'Ordered', 'None', 'Cleans', 'Judged'])
    ctx.model('MCLog', 'every message once, in order, whatever becomes of the processes and the reader', consts=dict(c, Wrong=set(), **big), **kw)
    for w, inv in (('buffered', 'Judged'), ('buffered', 'None'), ('atforks', 'None'), ('dies', 'Cleans')):
        ctx.refuted('MCLog', 'wrong: %s (%s)' % (w, inv), spec='LSpec', invariants=[inv], consts=dict(c, Wrong={w}, Messages=2, Forks=2))
    ctx.model('MCLog', 'all short lists', spec='ListSpec', invariants=['Alike', 'Joined', 'Parts', 'Alone'],
              consts=dict(Messages=0, Forks=0, Wrong=set(), Chars={ord(x) for x in 'mMaAl,; '}, MaxLen=ctx.pick(4, 6)))


def c19(ctx):
    models(ctx)
    cases = []
    for i, (pc, n) in enumerate(((0, ctx.pick(4000, 60000)), (100, ctx.pick(3000, 40000)))):
        got, res = tlc.schedules('GenLog', dict(Known=set(SOURCES), ServedPercent=pc), n, 6, ctx.seed + i)
        ctx.add('generator_states', res.states)
        cases.append(got)
    for k, x in enumerate(cases[0] + cases[1]):
        x['seed'] = k + 1000000 * ctx.seed
    sessionchecks.judge(ctx, cases[0], LogRig, 'JudgeLog', 'LogGood', ctx.seconds(6, 200))
    sessionchecks.judge(ctx, cases[1], LogRig, 'JudgeLog', 'LogGood', ctx.seconds(28, 900))


def replay(ctx, r):
    sessionchecks.judge(ctx, [r['case']], LogRig, 'JudgeLog', 'LogGood', 60)
