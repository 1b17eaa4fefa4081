"""C06: from the client's arguments and directory to the command's."""
import os, random, subprocess
from . import campaign, probe, sessionchecks, sessions, tlc
from .common import quote
from .world import World

SPECIAL = {'LONG2': 'M' * 8186, 'LONG': 'L' * 70000, 'BYTES': '\xff\xfe\x80\xc3', 'NL': 'a\nb\r\n', 'LONGDIR': '/'.join(['d' * 200] * 12), 'ODD': ' -x\\"%s\xff'}


def real(t):
    return SPECIAL.get(t, t).encode('latin1')


NAMES = {v: k for k, v in SPECIAL.items()}


def unreal(b):
    t = b.decode('latin1')
    return NAMES.get(t, t)


class InvokeRig(campaign.Rig):
    def build(self):
        s = self.scratch
        lst = self.thing('fixed', lambda: probe.FixedListener(s))
        root = s.mkdir('inv')
        sbase = s.mkdir('inv', 'server', 'base')
        dirs = [(), ('sub',), ('sub', 'deep'), ('sp ace',), ('..x',), ('NL',), ('cbase',), ('LONGDIR',), ('sub', 'ODD'), ('...',)]
        mk = lambda b, d: os.makedirs(os.path.join(b.encode(), *map(real, d)), exist_ok=True)
        for d in dirs:
            mk(sbase, d)
            mk(root + '/cbase', d)
        for d in [('only',), ('file',), ('sub', 'only')]:
            mk(root + '/cbase', d)
        open(sbase + '/file', 'w').close()
        for d in [('cbase2', 'sub'), ('other',), ('cbas',), ('links',), ('tools',)]:
            mk(root, d)
        os.symlink(s.bin + '/puppet', sbase + '/sub/prog')
        os.symlink(s.bin + '/puppet', root + '/tools/puppet')
        for n in ('run', 'two', 'tool', 'rel', 'ghost', 'far', 'nope', 'k8psh2', 'k8pshd2', "it's"):
            os.symlink(s.bin + '/k8psh', root + '/links/' + n)
        pup = quote(s.bin + '/puppet') + ' ' + quote(lst.path)
        p1, p2 = s.ports.get(), s.ports.get()
        w = {}
        for name, port, cmds in (('srv', p1, {'run': pup, 'k8psh2': pup, 'k8pshd2': pup, 'two': pup + " 'a b' '' -c 'it''s' \"\\xff\\xFE\\x80\\xc3\"", 'tool': 'PATH=%s puppet %s' % (quote(root + '/tools'), quote(lst.path)),
                                              'rel': './prog ' + quote(lst.path)}),
                                 ('srv2', p2, {'run': pup + ' second', 'far': pup + ' far'})):
            w[name] = World(s, name=name, port=port, commands={n: 'SRV=%s %s' % (name, c) for n, c in cmds.items()}, base=sbase, stubs=False)
            for _ in range(4):      # a server that never starts runs no command: the clients tell
                if w[name].start():
                    break
                w[name].stop()
            self.things['world ' + name] = w[name]
        # what the clients think of the commands' executables does not matter
        conf = lambda base, secs: 'baseDirectory = %s\nconnectTimeoutMs = 15000\n' % base + ''.join(
            '[%s:%d]\n%s' % (n, p, ''.join('%s /none/such client-side\n' % c for c in cs)) for n, p, cs in secs)
        a = conf(quote(root + '/cbase'), [('srv', p1, ['run', 'two', 'tool', 'rel', 'ghost', 'k8psh2', 'k8pshd2']), ('srv2', p2, ['far'])])
        b = conf(quote(root + '/cbase/sub/'), [('srv2', p2, ['run']), ('srv', p1, ['two'])])
        n = conf(quote(root + '/other/.././cbase'), [('srv', p1, ['far']), ('srv2', p2, ['two'])])
        conf_dir = s.mkdir('inv', 'conf')
        # relative to the file's directory
        self.files = {'A': s.write('inv/conf/A.conf', a), 'B': s.write('inv/conf/B.conf', b.replace(quote(root + '/cbase/sub/'), '../cbase/sub/', 1)),
                      'N': s.write('inv/conf/N.conf', n), 'nofile': conf_dir + '/none.conf'}
        s.write('inv/cbase/k8psh.conf', a.replace(quote(root + '/cbase'), '.', 1))
        s.write('inv/cbase2/k8psh.conf', a)
        s.write('inv/cbase/sub/k8psh.conf', b.replace('baseDirectory = %s\n' % quote(root + '/cbase/sub/'), '', 1))
        for d, _, fs in os.walk(root):
            os.chown(d, s.uid, s.uid)
        self.root, self.sbase, self.lst = root, os.path.realpath(sbase).encode(), lst
        return True

    def config(self, t):
        if t.startswith('--config='):
            return b'--config=' + self.files.get(t[9:], t[9:]).encode()
        return self.files[t].encode()

    def execute(self, case, timeout):
        self.thing('built', lambda: self.build())
        inv = case['inv']
        rng = random.Random(case['seed'])
        pr = probe.Probe(self.lst)
        pr.drain()
        argv, own, k = [], inv['form'] == 'plain', 0
        for i, t in enumerate(inv['argv']):
            x = real(t)
            if own:      # the client's own options take files
                if k:
                    x, k = self.files.get(t, t).encode(), 0
                elif t in ('-c', '--config'):
                    k = 1
                elif t.startswith('--config='):
                    x = self.config(t)
                else:
                    own = t in ('-h', '--help', '-v', '--version')
            argv.append(x)
        if sum(len(x) + 9 for x in argv) > 1500000:      # more than a process can be given
            return [], {}
        env = {b'PATH': (self.root + '/links:/usr/bin:/bin').encode(), b'HOME': b'/none'}
        if inv['env'] != '(unset)':
            env[b'K8PSH_CONFIG'] = self.files[inv['env']].encode()
        name = inv['name']
        if inv['form'] == 'plain':
            head = [self.scratch.bin.encode() + b'/k8psh']
            exe = head[0]
        elif inv['form'] == 'stub':
            exe = head = None
            head = [(self.root + '/links/' + name).encode()]
            exe = head[0]
        else:
            head, exe = [name.encode()], (self.root + '/links/' + name).encode()
        cwd = os.path.join(self.root.encode(), *map(real, inv['cwd']))
        env.update(self.shim(rng))
        code = rng.randrange(1, 120)
        how = {}
        if inv['cwd'][-1:] == ['GONE']:
            os.makedirs(cwd, exist_ok=True)
            how['preexec_fn'] = lambda: os.rmdir(os.getcwdb())
        h, st = probe.run_client(lambda: self.scratch.popen(head + argv, executable=exe, env=env, cwd=cwd, stdin=subprocess.DEVNULL, **how), pr, timeout, code)
        starts = []
        if h is not None:
            srv = [x[4:].decode('latin1') for x in h['env'] if x.startswith(b'SRV=')]
            a = [unreal(x) for x in h['argv']]
            a = ['PUPPET' if x == self.scratch.bin + '/puppet' else 'CTL' if x == self.lst.path else x for x in a]
            d = h['cwd']
            d = [unreal(x) for x in d[len(self.sbase):].split(b'/') if x] if d == self.sbase or d.startswith(self.sbase + b'/') else [d.decode('latin1'), '?']
            if '/'.join(d) == SPECIAL['LONGDIR']:
                d = ['LONGDIR']
            starts.append(dict(server=srv[0] if srv else '?', argv=a, dir=d))
        starts += [dict(server='?', argv=['unexpected'], dir=[])] * pr.drain()
        return [dict(e='Invoke', inv=inv, code=code, got=dict(status=1000 if st is None else st, starts=starts))], {}

    def shim(self, rng):
        v = rng.choice(list(sessions.VARIANTS))
        x = sessions.VARIANTS[v][1]
        return {b'LD_PRELOAD': (self.scratch.bin + '/shim.so').encode(), b'VSHIM': x.encode()} if x and rng.randrange(3) == 0 else {}


def c06(ctx):
    toks = {'-c', '--config', '--config=B', 'A', '-v', 'run', 'two', 'x', 'far', ''}
    ctx.model('MCInvoke', 'consequences of the rules, for all short argument lists', spec='Spec', invariants=['ArgsKept', 'OnlyBelowBase'], properties=['Extends'],
              consts=dict(MaxArgs=ctx.pick(3, 4), Tokens=toks))
    cases, res = tlc.schedules('GenInvoke', dict(Lengths={0, 1, 2, 3, 5, 40}), ctx.pick(5000, 100000), 10, ctx.seed)
    more, res2 = tlc.schedules('GenInvoke', dict(Lengths={300}), ctx.pick(40, 300), 10, ctx.seed)
    ctx.add('generator_states', res.states + res2.states)
    cases = more[:8] + cases
    for i, c in enumerate(cases):
        c['seed'] = i
    ctx.note('expected_outcomes', {k: sum(c['expected']['out'] == k for c in cases) for k in ('run', 'ok', 'fail')})
    sessionchecks.judge(ctx, cases, InvokeRig, 'JudgeInvoke', 'InvokeGood', ctx.seconds(25, 900))


def replay(ctx, r):
    sessionchecks.judge(ctx, [r['case']], InvokeRig, 'JudgeInvoke', 'InvokeGood', 60)
