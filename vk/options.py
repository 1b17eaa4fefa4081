"""C14: servers with options in both places."""
import json, os, random, shutil, signal, socket, stat, subprocess, time
from . import campaign, sessionchecks, tlc
from .common import listeners, quote, wait_for
from .lifecycle import my_children

DIRS = ('.', 'D1', 'D2', 'D2=D1')
NAMES = ('o1', 'a1', 'h1', 'o2', 'a2')


def text(w):
    return w['o'] + '=' + w['v'] if w['o'] else w['v']


class OptionsRig(campaign.Rig):
    n = 0

    def kind(self, p):
        try:
            st = os.lstat(p)
        except OSError:
            return 'absent'
        if stat.S_ISLNK(st.st_mode):
            t = os.readlink(p)
            return 'link' if t == '/nonexistent/theirs' else 'ours' if os.path.realpath(p) == os.path.realpath(self.scratch.bin + '/k8psh') else 'other'
        try:
            with open(p, 'rb') as f:
                return 'file' if f.read(100) == b'theirs' else 'other'
        except OSError:
            return 'dir'

    def look(self, root, server):
        files = {d: {n: self.kind(os.path.join(root, d, n)) for n in NAMES} for d in DIRS}
        pids, extra = {}, 0
        for d in DIRS:
            for e in os.listdir(os.path.join(root, d)):
                if e in NAMES or d == '.' and e in DIRS + ('A', 'B', 'k8psh.conf'):
                    continue
                try:
                    with open(os.path.join(root, d, e), 'rb') as f:
                        b = f.read(100)
                except OSError:
                    extra += 1
                    continue
                if d != '.':
                    extra += 1
                elif b == b'12345\n':
                    pids[e] = 'theirs'
                else:
                    pids[e] = 'ours' if server and b.strip() == str(server).encode() else 'other'
        return files, pids, extra

    def execute(self, case, timeout):
        self.n += 1
        s, x, rng = self.scratch, case['x'], random.Random(case['seed'])
        root = s.mkdir('opt%d' % self.n)
        try:
            return self.live(case, timeout, root, rng)
        finally:
            s.killall()
            shutil.rmtree(root, ignore_errors=True)

    def live(self, case, timeout, root, rng):
        s, x = self.scratch, case['x']
        for d in DIRS[1:]:
            s.mkdir(root, d)
        for d in DIRS:
            for n in NAMES:
                k, p = x['before'][d][n], os.path.join(root, d, n)
                if k == 'file':
                    with open(p, 'w') as o:
                        o.write('theirs')
                elif k != 'absent':
                    os.symlink('/nonexistent/theirs' if k == 'link' else s.bin + '/k8psh', p)
                if k != 'absent':
                    os.chown(p, s.uid, s.uid, follow_symlinks=False)
        with open(root + '/PX', 'w') as o:
            o.write('12345\n')
        os.chown(root + '/PX', s.uid, s.uid)
        base = os.path.relpath(root, s.dir)
        ports = {}
        plain = lambda t: t and not set(t) & set(" '\"#=$\\[]") and rng.randrange(2)
        for c, servers in case['configs'].items():
            out = []
            for name, v in servers.items():
                port = s.ports.get()
                ports[port] = [c, name]
                ws = ' '.join(text(w) if plain(text(w)) else quote(text(w)) for w in v['words'])
                out.append('[%s:%d]%s\n%s' % (name, port, ' ' + ws if ws else '', ''.join('%s /none/such\n' % n for n in v['own'])))
            rng.shuffle(out)
            s.write(os.path.join(base, c), ''.join(out))
        argv = [s.bin + ('/k8psh' if x['form'] == 'k8psh -s' else '/k8pshd')] + [text(w) for w in x['cli']]
        env = {'PATH': '/usr/bin:/bin'}
        if x['name'] != '(unset)':
            env['K8PSH_NAME'] = x['name']
        if x['config'] != '(unset)':
            env['K8PSH_CONFIG'] = x['config']
        g = dict(ended=False, status=-1000, launcher=-1000, server=['', ''], files={}, pids={}, after={}, pidsAfter={}, accepts=0, self=False, waited=False, extra=0, done=False)
        before = set(my_children())
        p = s.popen(argv, env=env, cwd=root)
        before.add(p.pid)
        server, status, held = p.pid, None, []
        want = dict(x['pids'])
        if case['pid']:
            want[case['pid']] = 'ours'

        def on():
            for port in ports:
                if listeners(port):
                    return port
            return None

        def ended():
            nonlocal server, status
            if status is not None:
                return True
            if p.poll() is not None and server == p.pid:
                kids = [] if held else [k for k in my_children() if k not in before]      # (or sessions that it has left)
                if not kids:
                    status = p.returncode
                    return True
                server = kids[0]
            if server != p.pid:
                try:
                    k, st = os.waitpid(server, os.WNOHANG)
                except OSError:
                    k, st = server, 0xff00
                if k:
                    status = os.waitstatus_to_exitcode(st)
                    return True
            return False

        def there():
            if ended():
                return True
            if not case['runs'] or not on() or (case['bg'] and p.poll() is None):
                return False
            f, q, e = self.look(root, server)
            return f == case['files'] and q == want
        ok = wait_for(there, timeout, 0.003)
        port = on()
        if ended() or not port:
            g['ended'] = ended()
        else:
            g['server'] = ports[port]
            if p.poll() is not None:
                g['launcher'] = p.returncode
            g['files'], g['pids'], g['extra'] = self.look(root, server)
            try:
                most = case['max'] if 0 <= case['max'] < 3 else 3
                for i in range(3):
                    c = socket.socket()
                    c.settimeout(timeout)
                    try:
                        c.connect(('127.0.0.1', port))
                    except OSError:
                        c.close()
                        break
                    held.append(c)
                    g['accepts'] += 1
                    if i + 1 >= most and case['ends']:
                        wait_for(lambda: not on(), timeout)
                    else:
                        time.sleep(rng.choice([0, 0, 0.01, 0.05]))
                hasty = any(text(w).endswith('300') for w in x['cli']) or any(text(w).endswith('300') for c in case['configs'].values() for v in c.values() for w in v['words'])
                g['self'] = bool(wait_for(lambda: not on(), timeout if case['ends'] else 0.45 if hasty else 0.03))
                if not g['self']:
                    try:
                        os.kill(server, rng.choice([signal.SIGTERM, signal.SIGINT]))
                    except OSError:
                        pass
                    wait_for(lambda: not on(), timeout)
                if held:
                    g['waited'] = not wait_for(ended, timeout if case['nowait'] else 0.08)
            finally:
                for c in held:
                    c.close()
            g['done'] = bool(wait_for(ended, timeout))
        if g['ended']:
            g['done'] = True
        g['status'] = status if status is not None else -1000
        g['after'], g['pidsAfter'], e = self.look(root, server)
        g['extra'] += e
        return [dict(e='Server', x=x, configs=case['configs'], got=g)], {}


def c14(ctx):
    ctx.model('MCOptions', 'the server\'s two passes over its options come to what the rules say', spec='Spec', invariants=['Agree', 'CliDecides'],
              consts=dict(MaxWords=ctx.pick(2, 3), Limited=True))
    ctx.refuted('MCOptions', 'an option of the section takes its value from the command line', spec='Spec', invariants=['Agree', 'CliDecides'], consts=dict(MaxWords=2, Limited=False))
    host = socket.gethostname()
    cases, states = [], 0
    for i, (wrong, drop, lax, share) in enumerate(((0, 0, 0, 0.4), (12, 6, 0, 0.25), (0, 30, 0, 0.2), (50, 0, 80, 0.15))):
        got, res = tlc.schedules('GenOptions', dict(Host=host, Wrong=wrong, Drop=drop, Lax=lax), int(ctx.pick(4000, 60000) * share), 6, ctx.seed + i)
        states += res.states
        cases += [(k, i, c) for k, c in enumerate(got)]
    cases.sort(key=lambda x: x[:2])
    cases = [c for _, _, c in cases]
    ctx.add('generator_states', states)
    for i, c in enumerate(cases):
        c['seed'] = i
    ctx.note('expected_outcomes', {k: sum(c['out'] == k for c in cases) for k in ('run', 'info', 'error', 'unsaid')})
    sessionchecks.judge(ctx, cases, OptionsRig, 'JudgeOptions', 'OptionsGood', ctx.seconds(30, 900))


def replay(ctx, r):
    sessionchecks.judge(ctx, [r['case']], OptionsRig, 'JudgeOptions', 'OptionsGood', 60)
