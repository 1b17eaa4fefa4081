"""C16: path computations, exhaustively for short paths."""
import itertools, random
from . import common, unit
from .unit import hx, unhx

CHARS = b'/.ab'


def ask(u, reqs):
    """[(function, path, parent or None)] -> events"""
    lines = [f + ' ' + (hx(q) + ' ' + hx(p) if f == 'R' else hx(p)) for f, p, q in reqs]
    evs = []
    for (f, p, q), a in zip(reqs, u.many(lines)):
        if a in ('CRASH', 'HANG'):
            e = dict(e=a, f=f, p=list(p))
        else:
            e = dict(e='Path', f=f, p=list(p), ok=a[0] == '=', r=list(unhx(a[2:])) if a[0] == '=' else [])
        if q is not None:
            e['q'] = list(q)
        evs.append(e)
    return evs


def short(n):
    for k in range(n + 1):
        for t in itertools.product(CHARS, repeat=k):
            yield bytes(t)


def component(rng):
    k = rng.randrange(12)
    if k < 2:
        return b'.'
    if k < 4:
        return b'..'
    if k == 4:
        return rng.choice([b'...', b'.a', b'a.', b'..a', b'a..', b' ', b'a b', b'-', b'~', b'\\', b'\xff', b'\n'])
    if k == 5:
        return rng.choice([b'x', b'y']) * rng.randrange(1, 300)
    return rng.choice([b'a', b'b', b'ab', b'abc', b'b1', b'a1'])


def long_path(rng, absolute=None, n=12):
    cs = [component(rng) for _ in range(rng.randrange(n))]
    sep = lambda: b'/' * rng.choice([1, 1, 1, 2, 3])
    r = sep() if (absolute if absolute is not None else rng.randrange(2)) else b''
    for c in cs:
        r += c + sep()
    if rng.randrange(2):
        r = r.rstrip(b'/') if len(r.rstrip(b'/')) else r
    return r


def related(rng):
    """A parent, and a path that is related to it in some way."""
    p = long_path(rng, True, 6)
    if rng.randrange(3):
        p = b'/'.join(c for c in p.split(b'/') if c != b'..') or b'/'
        p = p if p[:1] == b'/' else b'/' + p
    k = rng.randrange(6)
    q = p
    if k == 0:
        q = p + long_path(rng, rng.randrange(2), 4)                # possibly a longer last component
    elif k == 1:
        q = p[:rng.randrange(len(p) + 1)]
    elif k == 2:
        q = p.replace(b'/', b'/./', 1) + b'/' + long_path(rng, False, 4)
    elif k == 3:
        i = rng.randrange(len(p))
        q = p[:i] + rng.choice([b'/', b'.', b'a', b'//', b'/./']) + p[i + rng.randrange(2):] + rng.choice([b'', b'/b'])
    elif k == 4:
        q = p.rstrip(b'/') + b'/' + long_path(rng, False, 4)
    if rng.randrange(4) == 0:
        p += rng.choice([b'/', b'/.', b'//', b'/./', b'.'])
    return p, q


def make(ctx):
    one, pair, rnd = ctx.pick((7, 4, 4000), (9, 5, 200000))

    def events(i, n, u):
        rng = random.Random(ctx.seed * 1000 + i)
        reqs = []
        for k, p in enumerate(short(one)):
            if k % n == i:
                reqs += [(f, p, None) for f in 'NBPA']
        ps = list(short(pair))
        # absolute parents with all paths
        for k, (q, p) in enumerate(itertools.product([b'/' + x for x in ps if len(x) < pair], ps)):
            if k % n == i:
                reqs.append(('R', p, q))
        for _ in range(rnd // n):
            p = long_path(rng)
            reqs += [(f, p, None) for f in 'NBPA']
            q, p = related(rng)
            reqs.append(('R', p, q))
        return ask(u, reqs)
    return events


def show(e):
    b = lambda k: bytes(e[k]) if k in e else None
    return '%s(%s%r) = %s' % (dict(N='normalizePath', R='relativizePath', B='getBasename', P='getParentDirectory', A='isAbsolutePath')[e['f']],
                              '%r, ' % b('q') if 'q' in e else '', b('p'), e['e'] if e['e'] != 'Path' else repr(b('r')) if e['ok'] else 'error')


def c16(ctx):
    ctx.model('MCPaths', 'every location has exactly one normal path; being below', spec='Spec', invariants=['One1', 'Two2'],
              consts=dict(Chars=set(CHARS), MaxLen=ctx.pick(7, 9), MaxPair=ctx.pick(3, 4)))
    ctx.note('exhaustive', 'all paths of up to %d characters of "/.ab"; all absolute parents and paths of up to %d' % ctx.pick((7, 4), (9, 5)))
    bad = unit.judge_events(ctx, make(ctx), 'JudgePaths', 'PathGood', 'path computations')
    report(ctx, bad)


def report(ctx, bad):
    for e in sorted(bad, key=lambda e: len(e['p']) + len(e.get('q', [])))[:1]:
        ctx.violate(e, show(e))


def replay(ctx, r):
    bad = unit.judge_events(ctx, lambda i, n, u: ask(u, [(r['f'], bytes(r['p']), bytes(r['q']) if 'q' in r else None)]) if i == 0 else [],
                            'JudgePaths', 'PathGood', 'path computations')
    report(ctx, bad)
