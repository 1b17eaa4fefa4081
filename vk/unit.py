"""Calls functions of k8psh through the unit driver (native/unit.cxx)."""
import json, os, re, select, subprocess, time
from . import campaign, common, tlc
from .common import CheckError


def hx(b):
    return b.hex() or '-'


def unhx(s):
    return b'' if s == '-' else bytes.fromhex(s)


class Unit:
    """The driver; a request it does not survive (or answer in time) is answered 'CRASH' (or 'HANG')."""

    def __init__(self, scratch, setup=None):
        self.scratch, self.p, self.setup = scratch, None, setup
        if not os.path.exists(scratch.bin + '/unit'):
            raise CheckError('the unit driver could not be built from these sources')

    def start(self):
        self.p = self.scratch.popen([self.scratch.bin + '/unit'], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        self.buf = b''
        if self.setup:
            self.one(self.setup)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def one(self, line, timeout=5.0):
        return self.many([line], timeout)[0]

    def many(self, lines, timeout=5.0):
        out = []
        while len(out) < len(lines):
            if self.p is None:
                self.start()
            todo = lines[len(out):len(out) + 200]
            try:
                self.p.stdin.write(('\n'.join(todo) + '\n').encode())
                self.p.stdin.flush()
            except OSError:
                pass
            got, end = 0, time.monotonic() + timeout
            while got < len(todo):
                n = self.buf.find(b'\n')
                if n >= 0:
                    out.append(self.buf[:n].decode())
                    self.buf = self.buf[n + 1:]
                    got += 1
                    end = time.monotonic() + timeout
                    continue
                r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.monotonic()))
                d = os.read(self.p.stdout.fileno(), 1 << 20) if r else None
                if not d:
                    out.append('HANG' if d is None else 'CRASH')
                    self.stop()
                    break
                self.buf += d
        return out


def batches(events, n=150):
    return [events[i:i + n] for i in range(0, len(events), n)]


def judge_events(ctx, make, module, good, what):
    """make(i, n, unit) gives the i-th of n shares of events; all are judged by TLC; returns the rejected ones."""
    bd = common.build()

    def work(i):
        s = common.Scratch(bd)
        try:
            u = Unit(s)
            evs = make(i, common.CPUS, u)
            u.stop()
            traces = batches(evs)
            bad, states = [], 0
            for k in range(0, len(traces), 60):
                rej, acc = judged(module, good, traces[k:k + 60], s.dir)
                bad += rej
                states += sum(map(len, traces[k:k + 60]))
                if bad:
                    break
            return len(evs), len(traces), states, bad[:3], evs[:1] + evs[len(evs) // 2:][:1]
        finally:
            s.close()
    n = t = 0
    bad = []
    for a, b, c, d, smp in campaign.parallel(common.CPUS, work):
        n += a
        t += b
        ctx.states += c
        bad += d
        for x in smp:
            ctx.sample(x, 8)
    ctx.add(what, n)
    ctx.traces += t
    return bad


def judged(module, good, traces, tmpdir):
    path = os.path.join(tmpdir, 'events.json')
    with open(path, 'w') as o:
        json.dump(traces, o)
    res = tlc.run(module, spec='TraceSpec', consts=dict(TraceFile=path, Check={'HELD'}, Good=tlc.Raw('<-' + good)), timeout=800, heap='2g')
    os.unlink(path)
    rej, acc = campaign.parse_rejects(res.out)
    for i in range(1, len(traces) + 1):
        if i not in acc and not any(t == i for t, _, _ in rej):
            raise CheckError('%s did not judge a trace:\n%s' % (module, res.out[-1500:]))
    return [traces[t - 1][l - 1] for t, l, _ in rej], len(acc)
