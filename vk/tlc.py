"""Runs TLC and reads its results."""
import json, os, re, shutil, subprocess, tempfile, time
from .common import SPEC, CheckError, CPUS

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Result:
    pass


def value(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(value(x) for x in sorted(v, key=lambda x: (str(type(x)), x))) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(value(x) for x in v) + '>>'
    if isinstance(v, Raw):
        return v.text
    raise CheckError('no TLA+ value for %r' % (v,))


class Raw:
    def __init__(self, text):
        self.text = text


def run(module, **kw):
    """As once(); TLC's workers share values that they normalize in place, so that it fails now and then with several of them."""
    for more in (dict(), dict(), dict(workers=1)):
        try:
            return once(module, **dict(kw, **more))
        except Failed as x:
            error = x
            if (kw.get('workers') or 1) == 1:
                break
    raise error


class Failed(CheckError):
    pass


def once(module, spec=None, consts=None, invariants=(), properties=(), constraint=None, action_constraint=None, init=None, next=None,
        postcondition=None, deadlock=False, symmetry=None, view=None, simulate=None, depth=None, seed=None, workers=None, timeout=600,
        heap=None, extra=(), dfid=None, coverage=False, queue=None, quiet=False):
    """Runs TLC on SPEC/module.tla; returns a Result with .ok, .violation (None or text), .states, .distinct, .depth, .out.
    Raises CheckError for everything that is neither a clean run nor a property violation."""
    tmp = tempfile.mkdtemp(prefix='vktlc.', dir='/tmp')
    try:
        cfg = []
        if spec:
            cfg.append('SPECIFICATION ' + spec)
        if init:
            cfg.append('INIT ' + init)
        if next:
            cfg.append('NEXT ' + next)
        for k, v in (consts or {}).items():
            cfg.append('CONSTANT %s %s %s' % (k, '<-' if isinstance(v, Raw) and v.text.startswith('<-') else '=',
                                              v.text[2:] if isinstance(v, Raw) and v.text.startswith('<-') else value(v)))
        for i in invariants:
            cfg.append('INVARIANT ' + i)
        for p in properties:
            cfg.append('PROPERTY ' + p)
        if constraint:
            cfg.append('CONSTRAINT ' + constraint)
        if action_constraint:
            cfg.append('ACTION_CONSTRAINT ' + action_constraint)
        if postcondition:
            cfg.append('POSTCONDITION ' + postcondition)
        if symmetry:
            cfg.append('SYMMETRY ' + symmetry)
        if view:
            cfg.append('VIEW ' + view)
        cfg.append('CHECK_DEADLOCK %s' % ('TRUE' if deadlock else 'FALSE'))
        with open(tmp + '/m.cfg', 'w') as o:
            o.write('\n'.join(cfg) + '\n')
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + (heap or '2g'), '-Djava.io.tmpdir=' + tmp]
        if queue:
            cmd.append('-Dtlc2.tool.queue.IStateQueue=' + queue)
        cmd += ['-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-config', tmp + '/m.cfg', '-metadir', tmp + '/meta', '-workers', str(workers or 1)]
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate, '-depth', str(depth or 100)]
        if seed is not None:
            cmd += ['-seed', str(seed)]
        if coverage:
            cmd += ['-coverage', '1']
        cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
        t = time.monotonic()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC on %s exceeded %ds' % (module, timeout))
        out = p.stdout.decode('utf-8', 'replace')
        r = Result()
        r.out, r.rc, r.wall = out, p.returncode, time.monotonic() - t
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out.replace(',', ',').replace('\u00a0', ''))
        m2 = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found.*?([\d,]+) states left', out)
        r.states = int(m2[-1][0].replace(',', '')) if m2 else 0
        r.distinct = int(m2[-1][1].replace(',', '')) if m2 else 0
        if simulate:
            m = re.search(r'The number of states generated: ([\d,]+)', out)
            r.states = int(m.group(1).replace(',', '')) if m else 0
        m = re.search(r'The depth of the complete state graph search is (\d+)', out)
        r.depth = int(m.group(1)) if m else 0
        r.violation = None
        # 0 success; 12 safety, 13 liveness, 11 deadlock, 10 assumption, 14 assert ...
        if p.returncode in (11, 12, 13):
            r.violation = out
        elif p.returncode != 0:
            raise Failed('TLC on %s failed (exit %d):\n%s' % (module, p.returncode, '\n'.join(l for l in out.split('\n') if not re.match('Parsing|Semantic proc|Running|TLC2', l))[-1500:]))
        r.ok = r.violation is None
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def printed(out, tag):
    """Strings printed with PrintT("TAG " \\o ToJson(...)), decoded."""
    r = []
    pre = '"' + tag + ' '
    for line in out.split('\n'):
        if line.startswith(pre):
            r.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return r


def tuples(out, tag):
    """Lines <<"TAG", ...>> printed with PrintT (flat tuples of ints, strings, booleans, and one set of strings)."""
    r = []
    for line in out.split('\n'):
        if line.startswith('<<"%s"' % tag):
            r.append(line)
    return r


def schedules(module, consts, num, depth, seed, tag='SCHEDULE', spec='GenSpec', limit=None):
    res = run(module, spec=spec, consts=consts, simulate=num, depth=depth, seed=seed)
    if not res.ok:
        raise CheckError('generator %s reports a violation:\n%s' % (module, res.out[-2000:]))
    seen, r = set(), []
    for s in printed(res.out, tag):
        k = json.dumps(s, sort_keys=True)
        if k not in seen:
            seen.add(k)
            r.append(s)
    return r, res
