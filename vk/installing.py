"""C17: installing the running executable."""
import os, random, shutil, subprocess, tempfile
from . import campaign, sessionchecks, tlc

PRIORS = ['absent', 'absent', 'absent', 'shorter', 'longer', 'equal', 'empty', 'linked', 'itself', 'tolink', 'tofile', 'dangling', 'elsewhere', 'elsewherelonger',
          'dir', 'missing', 'forbidden', 'readonly', 'full', 'throughfile']


class InstallRig(campaign.Rig):
    n = 0

    def build(self):
        s = self.scratch
        with open(s.bin + '/k8psh', 'rb') as f:
            self.content = f.read()
        self.shm = None
        try:
            d = tempfile.mkdtemp(prefix='vkinst.', dir='/dev/shm')
            os.chown(d, s.uid, s.uid)
            self.shm = d
        except OSError:
            pass
        return self

    def stop(self):
        if self.shm:
            shutil.rmtree(self.shm, ignore_errors=True)

    def execute(self, case, timeout):
        self.thing('built', self.build)
        self.n += 1
        s, c, rng = self.scratch, case, random.Random(case['seed'])
        root = s.mkdir('inst%d' % self.n)
        try:
            return self.install(c, timeout, root, rng)
        finally:
            shutil.rmtree(root, ignore_errors=True)
            if self.shm:
                for f in os.listdir(self.shm):
                    os.unlink(os.path.join(self.shm, f))

    def install(self, c, timeout, root, rng):
        s = self.scratch
        own = lambda p: os.chown(p, s.uid, s.uid, follow_symlinks=False)

        def put(p, data, mode=c['mode']):
            with open(p, 'wb') as f:
                f.write(data)
            own(p)
            os.chmod(p, mode)
        # the executable
        d = root + '/bin'
        if c['source'] == 'deep':
            d += ('/' + 'd' * 200) * rng.choice([1, 2, 6, 12])
        s.mkdir(d)
        exe = real = d + '/k8psh'
        put(real, self.content, 0o755)
        if c['source'] == 'symlink':
            s.mkdir(root + '/links')
            exe = root + '/links/k8psh'
            os.symlink(real, exe)
        # the destination
        prior, n = c['prior'], len(self.content)
        w = s.mkdir(root + '/to')
        dest = w + '/' + rng.choice(['k8psh', 'x', 'sp ace', '-c', 'k8pshd'])
        noise = lambda k: rng.randbytes(k)
        if prior in ('shorter', 'longer', 'equal', 'empty'):
            put(dest, noise(dict(shorter=rng.choice([1, 8192, n - 1]), longer=n + rng.choice([1, 8192, 100000]), equal=n, empty=0)[prior]))
        elif prior == 'linked':
            os.link(real, dest)
        elif prior == 'itself':
            dest = rng.choice([real, exe])
        elif prior == 'tolink':
            os.symlink(real, dest)
        elif prior == 'tofile':
            put(w + '/target', noise(rng.choice([10, n + 10])))
            os.symlink(rng.choice(['target', w + '/target']), dest)
        elif prior == 'dangling':
            os.symlink('target', dest)
        elif prior in ('elsewhere', 'elsewherelonger'):
            dest = (self.shm or w) + '/' + os.path.basename(dest)
            if prior != 'elsewhere':
                put(dest, noise(n + 5000))
        elif prior == 'dir':
            s.mkdir(dest)
        elif prior == 'missing':
            dest = w + '/none/' + os.path.basename(dest)
        elif prior == 'throughfile':
            put(w + '/f', b'x')
            dest = w + '/f/' + os.path.basename(dest)
        elif prior == 'forbidden':
            os.chown(w, 0, 0)
            os.chmod(w, 0o755)
        elif prior == 'readonly':
            put(dest, noise(100), 0o444)
        elif prior == 'full':
            dest = '/dev/full'
        created = not os.path.exists(dest)
        cwd = root
        arg = dest
        if c['rel'] and prior != 'full' and '/shm' not in dest:
            cwd = s.mkdir(root + '/cwd')
            arg = rng.choice(['', './']) + os.path.relpath(dest, cwd)
        argv = dict(separate=['--install', arg], joined=['--install=' + arg], config=['-c', 'nowhere', '--install', arg, 'more'])[c['form']]
        lines = []
        for k in ('link', 'openr', 'openw', 'read', 'write'):
            lines += ['%s %d' % (k, v) for v in c[k]]
        env = {'PATH': '/usr/bin:/bin'}
        if lines:
            env['LD_PRELOAD'] = s.bin + '/shim.so'
            env['VSHIM'] = 'fault=' + s.write(os.path.relpath(root, s.dir) + '/script', '\n'.join(lines) + '\n')
        argv = [exe] + argv
        if c['source'] == 'deleted':
            argv = ['/usr/bin/python3', '-c', 'import os,sys\nf=os.open(sys.argv[1],os.O_RDONLY)\nos.unlink(sys.argv[1])\nos.set_inheritable(f,True)\nos.execve(f,sys.argv[1:],os.environ)'] + argv
        p = s.popen(argv, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, umask=c['umask'])
        try:
            p.communicate(timeout=timeout)
            st = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            st = 1000

        def content(path):
            try:
                if os.path.isfile(path):
                    with open(path, 'rb') as f:
                        return f.read()
            except OSError:
                pass
            return None
        intact = c['source'] == 'deleted' or content(real) == self.content and os.stat(real).st_mode & 0o777 == 0o755 and not os.path.islink(real)
        same = content(dest) == self.content
        o = dict(prior=prior, source=c['source'], faults=bool(lines), status=st, same=same, created=created, exec=same and bool(os.stat(dest).st_mode & 0o100), intact=bool(intact))
        return [dict(e='Install', c=c, o=o)], {}


def c17(ctx):
    big = ctx.thorough
    n = 6 if big else 4
    kw = dict(spec='ISpec', invariants=['Complete', 'Unmodified'])
    ctx.model('MCInstall', 'success means a complete copy, whatever fails at each step, whatever the destination was', consts=dict(Wrong=set(), Length=n), **kw)
    for w in ('compare', 'truncate', 'read', 'short', 'write'):
        ctx.refuted('MCInstall', 'wrong: ' + w, consts=dict(Wrong={w}, Length=n), **kw)
    cases, states = [], 0
    for i, f in enumerate((20, 100)):
        got, res = tlc.schedules('GenInstall', dict(Priors=set(PRIORS), FaultPercent=f), ctx.pick(6000, 80000), 6, ctx.seed + i)
        states += res.states
        cases += [(k, i, x) for k, x in enumerate(got)]
    cases.sort(key=lambda x: x[:2])
    cases = [x for _, _, x in cases]
    ctx.add('generator_states', states)
    for i, x in enumerate(cases):
        x['seed'] = i
    sessionchecks.judge(ctx, cases, InstallRig, 'JudgeInstall', 'InstallGood', ctx.seconds(20, 600))


def replay(ctx, r):
    sessionchecks.judge(ctx, [r['case']], InstallRig, 'JudgeInstall', 'InstallGood', 60)
