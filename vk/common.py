"""Paths, builds, scratch areas and process control shared by all checks."""
import ctypes, fcntl, glob, hashlib, json, os, random, shutil, signal, socket, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
NATIVE = os.path.join(VERIF, 'native')
BUILD = os.path.join(VERIF, 'build')
WORK = os.path.join(VERIF, 'work')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CPUS = os.cpu_count() or 1


class CheckError(Exception):
    """The check itself failed: neither "holds" nor "violated"."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --- builds ------------------------------------------------------------------------------------------------------------

def _hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as i:
            h.update(i.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def sources():
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        r += [os.path.join(d, f) for f in fs]
    return r


def _compile(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        raise CheckError('cannot build %s:\n%s\n%s' % (what, ' '.join(cmd), p.stdout[-4000:]))


def build():
    """Builds k8psh (dynamically linked, as the tests' Debug build otherwise), the unit driver, the puppet and the shim
    from the current working tree; returns the directory that holds them."""
    native = [os.path.join(NATIVE, f) for f in ('puppet.c', 'shim.c', 'unit.cxx', 'storm.c')]
    key = _hash(sources() + [f for f in native if os.path.exists(f)])
    out = os.path.join(BUILD, key)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'ok')):
            os.utime(out)
            return out
        old = sorted((d for d in glob.glob(os.path.join(BUILD, '*')) if os.path.isdir(d)), key=os.path.getmtime)
        for d in old[:-4]:
            shutil.rmtree(d, ignore_errors=True)
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        src = os.path.join(REPO, 'src')
        jobs = [(['g++', '-std=c++11', '-O1', '-g', '-DDEBUG', '-w', '-I' + src, os.path.join(src, 'k8psh.cxx'), '-o', tmp + '/k8psh', '-lpthread'], 'k8psh'),
                (['gcc', '-O2', '-w', native[0], '-o', tmp + '/puppet', '-lpthread'], 'puppet'),
                (['gcc', '-O2', '-w', '-shared', '-fPIC', native[1], '-o', tmp + '/shim.so', '-ldl'], 'shim'),
                (['gcc', '-O2', '-w', native[3], '-o', tmp + '/storm'], 'storm')]
        if os.path.exists(native[2]):
            jobs.append((['g++', '-std=c++11', '-O1', '-g', '-w', '-I' + src, native[2], '-o', tmp + '/unit', '-lpthread'], 'unit driver'))
        ps = [(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), c, w) for c, w in jobs]
        for p, c, w in ps:
            o, _ = p.communicate(timeout=600)
            if p.returncode and w != 'unit driver':      # (what needs that one finds out)
                raise CheckError('cannot build %s:\n%s\n%s' % (w, ' '.join(c), o[-4000:]))
        os.symlink('k8psh', tmp + '/k8pshd')
        open(tmp + '/ok', 'w').close()
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out


# --- the pattern all streams are made of -------------------------------------------------------------------------------

PATLEN = 1048573


def _pattern():
    r = random.Random(20221119)
    b = bytearray()
    while len(b) < PATLEN:
        k = r.randrange(6)
        if k == 0:
            b += bytes([r.choice([0, 10, 13, 26, 255, 4])]) * r.randrange(1, 40)
        elif k == 1:  # looks like protocol messages
            b += bytes([r.randrange(0, 10)]) + r.choice([0, 0, 1, 5, 3000]).to_bytes(4, 'little')
        elif k == 2:
            b += r.choice([b'exit\n', b'\r\n', b'${HOME}', b'\x1b[0m', b'\xc3\xa9', b'%s%n'])
        else:
            b += r.randbytes(r.randrange(1, 300))
    return bytes(b[:PATLEN])


PATTERN = _pattern().replace(b'[', b'{')       # what the tool's own messages begin with is never taken for output
_PAT2 = PATTERN * 2


def expect(stream, offset, n, seed):
    """The n bytes at offset of stream 0 (stdin), 1 (stdout) or 2 (stderr)."""
    a = (offset + seed * 7919 + stream * 350003) % PATLEN
    if n <= PATLEN:
        return _PAT2[a:a + n]
    r = bytearray()
    while n:
        m = min(n, PATLEN)
        r += _PAT2[a:a + m]
        a = (a + m) % PATLEN
        n -= m
    return bytes(r)


# --- scratch areas -----------------------------------------------------------------------------------------------------

UIDS = range(30000, 60000)


def free_uid():
    """A user nobody has processes of (other checks may be running that share the processes, but not the files, that are seen here)."""
    r = random.Random(os.urandom(8))
    while True:
        u = r.choice(UIDS)
        if not uid_processes(u):
            return u


def uid_processes(uid):
    r = []
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                if os.stat('/proc/' + p).st_uid == uid:
                    r.append(int(p))
            except OSError:
                pass
    return r


def kill_uid(uid):
    """Ends every process of a worker's own (otherwise unused) user."""
    if uid not in UIDS:
        raise CheckError('bad uid')
    for _ in range(200):
        ps = uid_processes(uid)
        if not ps:
            return
        for p in ps:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except OSError:
            pass
        time.sleep(0.01)


def become_subreaper():
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)


_slots = []


def slot():
    """A number no other running check uses (a range of ports goes with it)."""
    for i in range(40):
        f = open('/tmp/.vk.slot.%d' % i, 'w')
        try:
            fcntl.flock(f, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            f.close()
            continue
        x = socket.socket(socket.AF_UNIX)
        try:
            x.bind('\0vk.slot.%d' % i)      # (whoever shares the network shares these names)
        except OSError:
            f.close()
            x.close()
            continue
        _slots.append((f, x))
        return i
    raise CheckError('no free slot')


class Scratch:
    """A directory of its own, with copies of the programs, owned by an unprivileged user of its own."""

    def __init__(self, builddir, tag='w'):
        self.index = index = slot()
        self.uid = free_uid()
        self.dir = tempfile.mkdtemp(prefix='vk%s%d.' % (tag, index), dir='/tmp')
        os.chmod(self.dir, 0o755)
        self.bin = self.path('bin')
        os.mkdir(self.bin)
        for f in ('k8psh', 'puppet', 'shim.so', 'unit', 'storm'):
            s = os.path.join(builddir, f)
            if os.path.exists(s):
                shutil.copy(s, self.bin)
                os.chmod(os.path.join(self.bin, f), 0o755)
        os.symlink('k8psh', self.bin + '/k8pshd')
        self.ctl = self.mkdir('ctl')
        with open(self.ctl + '/pattern', 'wb') as o:
            o.write(PATTERN)
        os.chmod(self.ctl + '/pattern', 0o644)
        self.ports = PortPool(index)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def mkdir(self, *p):
        d = self.path(*p)
        os.makedirs(d, exist_ok=True)
        os.chown(d, self.uid, self.uid)
        return d

    def write(self, name, data, mode=0o644):
        p = self.path(name)
        with open(p, 'wb') as o:
            o.write(data if isinstance(data, bytes) else data.encode('latin1'))
        os.chown(p, self.uid, self.uid)
        os.chmod(p, mode)
        return p

    def popen(self, argv, env=None, cwd=None, closed=(), **kw):
        """closed: which of the standard descriptors the program starts without."""
        if closed:
            argv = ['/bin/sh', '-c', 'exec "$@" ' + ' '.join('%d%s&-' % (fd, '<' if fd == 0 else '>') for fd in closed), 'sh'] + list(argv)
        kw.setdefault('stdin', subprocess.DEVNULL)
        kw.setdefault('stdout', subprocess.DEVNULL)
        kw.setdefault('stderr', subprocess.DEVNULL)
        return subprocess.Popen(argv, env=env if env is not None else {'PATH': '/usr/bin:/bin'}, cwd=cwd or self.dir,
                                user=self.uid, group=self.uid, extra_groups=[], start_new_session=True, close_fds=True, **kw)

    def inspect(self, pid):
        """(working directory, [(descriptor, what it is)]) of a process of this user (which only the user may know)."""
        p = self.popen(['/bin/sh', '-c', 'cd /proc/%d || exit 1; readlink cwd; cd fd && for f in *; do echo "$f $(readlink $f)"; done' % pid], stdout=subprocess.PIPE)
        out = p.communicate(timeout=20)[0].decode('latin1').split('\n')
        if p.returncode or not out[0]:
            return None, []
        return out[0], [(int(x.split(' ', 1)[0]), x.split(' ', 1)[1]) for x in out[1:] if ' ' in x and x.split(' ')[0].isdigit()]

    def killall(self):
        kill_uid(self.uid)

    def close(self):
        self.killall()
        shutil.rmtree(self.dir, ignore_errors=True)


class PortPool:
    """Ports below the ephemeral range, disjoint between workers."""

    def __init__(self, index):
        self.lo = 10240 + (index % 40) * 500
        self.n = random.Random(os.getpid() * 7 + index).randrange(500)

    def get(self):
        for _ in range(500):
            self.n = (self.n + 1) % 500
            p = self.lo + self.n
            s = socket.socket()
            try:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind(('127.0.0.1', p))
                s.close()
                s = socket.socket()
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind(('0.0.0.0', p))
                return p
            except OSError:
                continue
            finally:
                s.close()
        raise CheckError('no free port')


def listeners(port):
    """Addresses (hex, as in /proc/net/tcp) listening on a TCP port."""
    r = []
    for f in ('/proc/net/tcp', '/proc/net/tcp6'):
        try:
            with open(f) as i:
                for line in i.read().split('\n')[1:]:
                    w = line.split()
                    if len(w) > 3 and w[3] == '0A' and int(w[1].rsplit(':', 1)[1], 16) == port:
                        r.append(w[1].rsplit(':', 1)[0])
        except OSError:
            pass
    return r


def wait_for(cond, timeout, step=0.005):
    end = time.monotonic() + timeout
    while True:
        v = cond()
        if v:
            return v
        if time.monotonic() > end:
            return None
        time.sleep(step)


def cpu(pid):
    """Processor time a process has used, in ns, or None."""
    try:
        return time.clock_gettime_ns((~pid) << 3 | 2)
    except OSError:
        return None


def restless(pids, pause, seconds, over=lambda: False, window=0.06):
    """Whether one of the processes uses more than a tenth of a processor in every one of the windows of time that follow, for
    `seconds`; what it used in the last one.  pause(seconds) is what is done meanwhile."""
    end = time.monotonic() + seconds
    while True:
        a, t = {p: cpu(p) for p in pids()}, time.monotonic_ns()
        pause(window)
        t = time.monotonic_ns() - t
        b = {p: cpu(p) for p in a}
        used = max([0] + [(b[p] - a[p]) / t for p in a if a[p] is not None and b[p] is not None])
        if used <= 0.1 or over():
            return False, used
        if time.monotonic() > end:
            return True, used


def alive(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            return f.read().rsplit(')', 1)[1].split()[0] not in 'ZX'
    except OSError:
        return False


def quote(s):
    """A configuration word with exactly this (byte-valued) text."""
    return "'" + s.replace("'", "''") + "'"
