"""C13: what configuration texts mean."""
import itertools, json, os, random, subprocess
from . import campaign, common, tlc, unit
from .unit import hx, unhx

INTERESTING = b"ab1=:-# \t\n\r'\"\\${}[]?xn0A/.\x0b\xe9"


def parse(answer):
    """A driver's answer to C."""
    w = answer.split(' ')[1:]
    k = 0

    def take():
        nonlocal k
        k += 1
        return w[k - 1]
    b = lambda: list(unhx(take()))
    seq = lambda: [b() for _ in range(int(take()))]

    def command():
        key, name, host, port = b(), b(), b(), int(take())
        opts, exe, env = seq(), seq(), seq()
        return dict(name=name if key == name else key + [-1] + name, host=host, port=port, opts=opts, exe=exe,
                    env=[dict(name=env[i], value=env[i + 1]) for i in range(0, len(env), 2)])
    r = dict(base=b(), timeout=list(take().encode()), all=[command() for _ in range(int(take()))], hosts=[])
    while k < len(w):
        n = int(take())
        r['hosts'].append(dict(none=n < 0, defs=[command() for _ in range(max(n, 0))]))
    return r


def load(u, case):
    """case: text, env [[name, value]], work, hosts (lists of codes) -> event"""
    ev = dict(text=case['text'], env=case['env'])
    e = ['E', str(len(case['env']))] + [hx(bytes(x)) for p in case['env'] for x in p]
    u.setup = ' '.join(e)
    if 'work' not in case:
        a = u.many([' '.join(e), 'S ' + hx(bytes(case['text']))])[-1]
        if a in ('CRASH', 'HANG'):
            return dict(ev, e=a)
        return dict(ev, e='Expand', ok=a[0] == '=', r=list(unhx(a[2:])) if a[0] == '=' else [])
    ev.update(work=case['work'])
    c = ['C', hx(bytes(case['work'])), hx(bytes(case['text'])), str(len(case['hosts']))] + [hx(bytes(h)) for h in case['hosts']]
    a = u.many([' '.join(e), ' '.join(c)])[-1]
    if a in ('CRASH', 'HANG'):
        return dict(ev, e=a)
    if a[0] != '=':
        return dict(ev, e='Config', ok=False)
    r = parse(a)
    for h, n in zip(r['hosts'], case['hosts']):
        h['name'] = n
    return dict(ev, e='Config', ok=True, **r)


def links(u, case):
    """What a server that has no commands of its own creates from it."""
    sc = u.scratch
    d = sc.mkdir('links')
    conf = sc.write('links.conf', bytes(case['text']))
    env = {bytes(a): bytes(b) for a, b in case['env'] if 0 not in b}
    p = sc.popen([sc.bin + '/k8pshd', '-c', conf, '-n', 'nobody\x01', '-e', d], env=env or {b'UNRELATED': b'1'})
    try:
        st = p.wait(10)
    except subprocess.TimeoutExpired:
        st = 1000
        sc.killall()
        p.wait()
    names = [list(x) for x in os.listdir(d.encode())]
    for n in names:
        os.unlink(d.encode() + b'/' + bytes(n))
    return dict(e='Links', text=case['text'], env=case['env'], work=[47], status=st, links=names)


def mutate(rng, case, others):
    t = bytes(case['text'])
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(t) + 1)
        k = rng.randrange(7)
        if k == 0:
            t = t[:i] + t[i + 1:]
        elif k in (1, 2):
            t = t[:i] + bytes([rng.choice(INTERESTING)]) + t[i:]
        elif k == 3:
            t = t[:i] + bytes([rng.choice(INTERESTING)]) + t[i + 1:]
        elif k == 4:
            t = t[:i]
        elif k == 5:
            j = rng.randrange(len(t) + 1)
            t = t[:i] + t[j:j + rng.randrange(12)] + t[i:]
        else:
            o = bytes(rng.choice(others)['text'])
            j = rng.randrange(len(o) + 1)
            t = t[:i] + o[j:j + rng.randrange(20)] + t[i:]
    return dict(case, text=[c for c in t if c])


CONTEXTS = [b'[h]\nk %s\n', b'[h]\n%s\nl', b'baseDirectory=%s\n', b'%s\n[h]\nk', b'[%s]\nk', b'[h] %s\nk', b'[h:%s]\nk A=1', b'connectTimeoutMs=%s']
ALPHABET = b'a\'"\\$ #=\n'
WIDE = ALPHABET + b'\r\t[]:{}?-0\x0b\x80'
EXPANSION = b'a${}:- \\'
ENV = [[[97], [39, 32]], [[97, 97], []]]


def small(n, m):
    """All short texts, in every place."""
    for k in range(n + 1):
        for t in itertools.product(ALPHABET, repeat=k):
            for c in CONTEXTS:
                yield dict(text=list(c.replace(b'%s', bytes(t))), env=ENV, work=[47, 119], hosts=[[104], [97]])
    for t in itertools.product(WIDE, repeat=2 if n < 4 else 3):
        for c in CONTEXTS:
            yield dict(text=list(c.replace(b'%s', bytes(t))), env=ENV, work=[47, 119], hosts=[[104], [97]])
    for k in range(m + 1):
        for t in itertools.product(EXPANSION, repeat=k):
            yield dict(text=list(t), env=ENV)
    for t in itertools.product(b'-+0129 a', repeat=3):
        for c in (b'[h:%s]\nk', b'connectTimeoutMs=%s', b'connectTimeoutMs="%s"'):
            yield dict(text=list(c.replace(b'%s', bytes(t))), env=ENV, work=[47, 119], hosts=[[104]])
    for p in (0, 1, 1119, 9999, 32768, 65534, 65535, 65536, 65537, 99999, 131072, 2 ** 31, 2 ** 32, 2 ** 32 + 80, 2 ** 63, 2 ** 64, 2 ** 64 + 80, 10 ** 30):
        for s in ('[a:%d]\nk\n', '[a:%d]\nk\n[b]\nl\n', '[a:%d]\n[b]\n[c]\nl\n', '[a:0%d]\nk', 'connectTimeoutMs=%d', 'connectTimeoutMs=-%d'):
            yield dict(text=list((s % p).encode()), env=[], work=[47], hosts=[[97], [98], [99]])


def make(ctx, cases, copies):
    n1, n2 = ctx.pick((3, 4), (5, 6))

    def events(i, n, u):
        rng = random.Random(ctx.seed * 977 + i)
        evs = []
        for k, c in enumerate(small(n1, n2)):
            if k % n == i:
                evs.append(load(u, c))
        for c in cases[i::n]:
            evs.append(load(u, c))
            evs.append(links(u, c))
            for _ in range(copies):
                m = mutate(rng, c, cases)
                evs.append(load(u, m))
                if rng.randrange(4) == 0:
                    evs.append(links(u, m))
        return evs
    return events


def c13(ctx):
    ctx.model('MCConfig', 'quoting says exactly what is quoted; words, lines and servers are delimited sanely', spec='Spec', invariants=['Values', 'Texts'],
              consts=dict(Chars={97, 39, 34, 92, 36, 123, 125, 32, 35, 10, 61, 91, 93}, MaxLen=ctx.pick(4, 5)))
    cases = generate(ctx, ctx.pick(1200, 20000))
    ctx.note('generated', {k: sum(c['st'] == k for c in cases) for k in ('ok', 'bad')})
    ctx.note('exhaustive', 'all texts of up to %d characters of %r (%d of %r) in %d places; all expansions of up to %d characters of %r' %
             (ctx.pick(3, 5), ALPHABET.decode(), ctx.pick(2, 3), WIDE.decode('latin1'), len(CONTEXTS), ctx.pick(4, 6), EXPANSION.decode()))
    bad = unit.judge_events(ctx, make(ctx, cases, ctx.pick(4, 10)), 'JudgeConfig', 'BothGood', 'configurations')
    report(ctx, bad)


def generate(ctx, n):
    def gen(i):
        res = tlc.run('GenConfig', spec='GenSpec', consts=dict(Servers_=3, Commands_=3, Words_=3), invariants=['Says'], simulate=n // common.CPUS + 1, depth=6, seed=ctx.seed * 100 + i, timeout=900)
        if not res.ok:
            raise common.CheckError('GenConfig: a generated text does not say what is meant:\n' + res.out[-4000:])
        return tlc.printed(res.out, 'SCHEDULE'), res.states
    cases = []
    for c, s in campaign.parallel(common.CPUS, gen):
        cases += c
        ctx.add('generator_states', s)
    return cases


def show(e):
    if e['e'] == 'Links':
        return 'a server with %r in %r: status %d, links %r' % (bytes(e['text']), [(bytes(a), bytes(b)) for a, b in e['env']], e['status'], [bytes(x) for x in e['links']])
    return '%s of %r in %r: %s' % ('load' if 'work' in e else 'substituteEnvironmentVariables', bytes(e['text']), [(bytes(a), bytes(b)) for a, b in e['env']],
                                   e['e'] if e['e'] in ('CRASH', 'HANG') else 'rejected' if not e['ok'] else {k: v for k, v in e.items() if k in ('base', 'timeout', 'all', 'hosts', 'r')})


def report(ctx, bad):
    for e in sorted(bad, key=lambda e: len(e['text']))[:1]:
        ctx.violate(dict(links=e['e'] == 'Links', text=e['text'], env=e['env'], **(dict(work=e['work'], hosts=[h['name'] for h in e.get('hosts', [])]) if 'work' in e else {})), show(e))


def replay(ctx, r):
    report(ctx, unit.judge_events(ctx, lambda i, n, u: [links(u, r) if r['links'] else load(u, r)] if i == 0 else [], 'JudgeConfig', 'BothGood', 'configurations'))
