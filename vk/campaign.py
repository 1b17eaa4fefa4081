"""Runs many cases on the real programs in parallel, validates what was recorded with TLC, and confirms what is rejected."""
import collections, hashlib, json, os, pickle, random, re, resource, signal, struct, sys, time, traceback
from . import common, tlc
from .common import CheckError, CPUS, Scratch, WORK, log


class Rejection:
    def __init__(self, case, trace, at, blame, notes=None):
        self.case, self.trace, self.at, self.blame, self.notes = case, trace, at, blame, notes


class Stats:
    def __init__(self):
        self.n = collections.Counter()
        self.events = collections.Counter()
        self.samples, self.errors = [], []
        self.stalled = []

    def merge(self, o):
        self.n.update(o.n)
        self.events.update(o.events)
        self.stalled += o.stalled
        self.errors = (self.errors + o.errors)[:3]
        self.samples = (self.samples + o.samples)[:6]


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('<Q', len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def get(n):
        r = b''
        while len(r) < n:
            d = os.read(fd, n - len(r))
            if not d:
                return None
            r += d
        return r
    h = get(8)
    if h is None:
        return None
    return pickle.loads(get(struct.unpack('<Q', h)[0]))


def parallel(n, fn):
    """Runs fn(0..n-1) in processes of their own; returns the results; a worker's failure is a CheckError."""
    ks = []
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                common.become_subreaper()
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                try:
                    res = ('ok', fn(i))
                except CheckError as e:
                    res = ('err', str(e))
                except BaseException:
                    res = ('err', traceback.format_exc())
                _send(w, res)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        os.close(w)
        ks.append((pid, r))
    out, errs = [], []
    for pid, r in ks:
        res = _recv(r)
        os.close(r)
        os.waitpid(pid, 0)
        if res is None:
            errs.append('worker died')
        elif res[0] == 'err':
            errs.append(res[1])
        else:
            out.append(res[1])
    if errs:
        raise CheckError('worker failed:\n' + '\n'.join(errs[:3]))
    return out


class Rig:
    """What a worker needs to run cases; subclasses override execute()."""

    def __init__(self, builddir):
        self.builddir = builddir
        self.scratch = Scratch(builddir)
        self.things = {}

    def thing(self, key, make):
        if key not in self.things:
            self.things[key] = make()
        return self.things[key]

    def execute(self, case, timeout):
        """Returns (trace, notes)."""
        raise NotImplementedError

    def close(self):
        for t in self.things.values():
            try:
                t.stop()
            except Exception:
                pass
        self.scratch.close()


def parse_rejects(out):
    """[(tid, l, {blame})] and {tid: taint}."""
    rej, acc = [], {}
    flat = re.sub(r'\n\s+', ' ', out)
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', flat):
        rej.append((int(m.group(1)), int(m.group(2)), set(re.findall(r'"([^"]+)"', m.group(3)))))
    for m in re.finditer(r'<<\s*"ACCEPT",\s*(\d+),\s*(TRUE|FALSE)\s*>>', flat):
        acc[int(m.group(1))] = m.group(2) == 'TRUE'
    return rej, acc


def validate(module, traces, check, tmpdir, consts=None, invariants=('TraceSafety',), workers=1, heap=None):
    """Rejections [(index, at, blame)], accepted count, tainted count and TLC's result."""
    if not traces:
        return [], 0, 0, None
    path = os.path.join(tmpdir, 'traces%d.json' % os.getpid())
    with open(path, 'w') as o:
        json.dump(traces, o)
    try:
        res = tlc.run(module, spec='TraceSpec', consts=dict(TraceFile=path, Check=set(check), **(consts or {})), invariants=invariants,
                      workers=workers, heap=heap, timeout=600)
    finally:
        os.unlink(path)
    if res.violation:
        raise CheckError('trace specification %s violates its invariant:\n%s' % (module, res.out[-3000:]))
    rej, acc = parse_rejects(res.out)
    first = {}
    for t, l, b in rej:
        if t not in first or l < first[t][0]:
            first[t] = (l, b)
    missing = [i + 1 for i in range(len(traces)) if i + 1 not in acc and i + 1 not in first]
    if missing:
        raise CheckError('%s neither accepts nor rejects trace %d:\n%s\n%s' % (module, missing[0], json.dumps(traces[missing[0] - 1])[:2000], res.out[-1500:]))
    rejections = [(t - 1, l - 1, b) for t, (l, b) in sorted(first.items()) if t not in acc]
    for t, l, b in rejections:
        if b & {'HARNESS'}:
            raise CheckError('harness error: %s at %d of %s' % (b, l, json.dumps(traces[t])[:6000]))
    return rejections, sum(1 for t in acc if not acc[t]), sum(1 for t in acc if acc[t]), res


def run(cases, rig, check, module='TraceRemoteExec', seconds=40, workers=None, batch=120, timeout=6.0, retries=8, consts=None, builddir=None,
        max_confirmed=1, invariants=('TraceSafety',)):
    """Runs as many of the cases as fit into the time; returns (confirmed rejections, unconfirmed rejections, Stats)."""
    builddir = builddir or common.build()
    workers = min(workers or CPUS, max(1, len(cases)))
    deadline = time.monotonic() + seconds

    def work(i):
        r = rig(builddir)
        st = Stats()
        rejected = []
        try:
            mine = cases[i::workers]
            pend = []
            stalls = 0

            def flush():
                nonlocal pend, stalls
                rej, ok, tainted, res = validate(module, [t for _, t, _ in pend], check, r.scratch.dir, consts, invariants)
                st.n['accepted'] += ok
                st.n['tainted'] += tainted
                if res is not None:
                    st.n['states'] += res.distinct
                    st.n['transitions'] += res.states
                for k, at, blame in rej:
                    case, trace, notes = pend[k]
                    rejected.append(Rejection(case, trace, at, blame, notes))
                pend, stalls = [], 0
            for case in mine:
                if time.monotonic() > deadline or len(rejected) >= 3:
                    break
                # what is rejected is repeated with more time: save it once stalls are common
                slow = sum(n for k, n in st.n.items() if k.startswith('stall'))
                try:
                    trace, notes = r.execute(case, timeout if slow < 2 else timeout / 3 if slow < 6 else timeout / 6)
                except CheckError:
                    raise
                except Exception:      # the programs did what the harness cannot follow: leave the case
                    st.n['harness errors'] += 1
                    st.errors = (st.errors + [traceback.format_exc()])[:3]
                    continue
                st.n['cases'] += 1
                for e in trace:
                    st.events[e['e']] += 1
                if len(st.samples) < 1:
                    st.samples.append(dict(case=case, trace=trace[:40]))
                pend.append((case, trace, notes))
                for e in trace:
                    if e['e'] == 'Stall':
                        st.n['stall ' + e['what']] += 1
                        st.stalled = (st.stalled + [(case, trace[-30:])])[:2]
                stalls += any(e['e'] == 'Stall' for e in trace)
                if len(pend) >= batch or stalls >= 2:
                    flush()
            flush()
        finally:
            r.close()
        return st, rejected

    st = Stats()
    suspects = []
    for s, rj in parallel(workers, work):
        st.merge(s)
        suspects += rj
    confirmed, unconfirmed = [], []
    if suspects:
        log('%d rejected execution(s); repeating' % len(suspects))
        suspects.sort(key=lambda x: len(x.trace))
        suspects = suspects[:10]

        def again(i):
            # alone on the machine first, with more time, then (for what depends on load) several at once
            r = rig(builddir)
            try:
                end = time.monotonic() + 60
                for sus in suspects:
                    left = min(end, time.monotonic() + 25)
                    for n in range(retries):
                        if time.monotonic() > left:
                            break
                        try:
                            trace, notes = r.execute(sus.case, timeout * 2)
                        except Exception:
                            continue
                        rej, _, _, _ = validate(module, [trace], check, r.scratch.dir, consts, invariants)
                        if rej and rej[0][2] & sus.blame:
                            return [Rejection(sus.case, trace, rej[0][1], rej[0][2], notes)]
                    if time.monotonic() > end:
                        break
                return []
            finally:
                r.close()
        res = parallel(1, again)[0]
        if not res:
            for x in parallel(min(4, CPUS), again):
                res += x
        confirmed = res[:max_confirmed]
        unconfirmed = suspects if not res else []
    if st.n['harness errors']:
        log('%d case(s) could not be followed:\n%s' % (st.n['harness errors'], st.errors[0]))
        if not confirmed and st.n['harness errors'] > 3 + st.n['cases'] // 5:
            raise CheckError('too many cases could not be followed')
    return confirmed, unconfirmed, st
