"""C07: the environments that commands get."""
import os, random, re
from . import campaign, common, probe, sessionchecks, tlc, wire
from .common import quote
from .world import World

SIGIL = {'plain': '', 'opt': '?', 'inh': '='}


def render(d):
    """A declaration as configuration text."""
    t = ''
    for p in d['parts']:
        t += p['v'] if p['t'] == 'lit' else '${%s}' % p['n'] if p['t'] == 'ref' else '${%s:-%s}' % (p['n'], p['v'])
    head = SIGIL[d['kind']] + d['name'] + '='
    q = d['quote']
    if q == 'sq':
        return head + ("'" + t.replace("'", "''") + "'")
    if q == 'bare' and re.match(r'^[A-Za-z0-9_=${}:%\\-]*$', t):
        return head + t
    return head + '"' + t.replace('\\', '\\\\').replace('"', '\\"' if len(t) % 2 else '""') + '"'


SPECIAL = {'LONG': 'L' * 9000, 'BYTES': '\xff\xfe\x80\xc3'}   # (what TLC knows by name)


def real(v):
    for k, x in SPECIAL.items():
        v = v.replace(k, x)
    return v.encode('latin1')


def unreal(b):
    v = b.decode('latin1')
    for k, x in SPECIAL.items():
        v = v.replace(x, k)
    return v


class EnvRig(campaign.Rig):
    def execute(self, case, timeout):
        lst = self.thing('fixed', lambda: probe.FixedListener(self.scratch))
        lst.close()
        pr = probe.Probe(lst)
        pup = quote(self.scratch.bin + '/puppet') + ' ' + quote(lst.path)
        server = {n.encode(): real(v) for n, v in case['server']}
        w = World(self.scratch, commands={'c%d' % k: ' '.join([render(d) for d in c['ds']] + [pup]) for k, c in enumerate(case['cmds'])},
                  section=' '.join(render(d) for d in case['section']), env=server or {'UNRELATED': '1'}, stubs=False, connect_ms=15000,
                  before="[another] SX=leak ?VA=leak =VB=leak LEAK='${LEAK2:-x}'\nc0 VC=leak c1=leak /bin/false\n")
        rng = random.Random(case['seed'])
        ev, notes = [], {}
        pairs = lambda env: [list(x.split('=', 1)) if '=' in x else [x, 'NO ='] for x in map(unreal, env)]
        try:
            if not w.start():
                return [dict(e='NoServer', log=w.serverlog()[-300:])], dict(config=w.confText)
            for k, c in enumerate(case['cmds']):
                for client in c['clients']:
                    how = rng.choice(['client', 'client', 'wire'])
                    if how == 'client':
                        h, st = probe.run_client(lambda: w.client([], command='c%d' % k, pre=['--config', w.conf], env={n.encode(): real(v) for n, v in client} or {'UNRELATED': '2'}), pr, timeout)
                    else:
                        fr = [wire.frame(wire.ENV, n.encode() + b'=' + real(v)) for n, v in client]
                        # what no declaration asks for
                        declared = {d['name'] for d in case['section'] + c['ds']}
                        fr += [wire.frame(wire.ENV, x.encode()) for x in ('SECRET', 'SX', 'NEW=1', 'LD_DEBUG', 'HOME', '=', '', '?VA=2', '=VA=3', 'PATH=/none')
                               if x.split('=')[0] not in declared and rng.randrange(2)]
                        # (values that references may be to: the client's own ones have no meaning there)
                        rng.shuffle(fr)
                        fr = [wire.frame(wire.WD, b'.')] + fr + [wire.frame(wire.START, b'c%d' % k)]
                        s = probe.request(w.port, fr)
                        h = pr.hello(lambda: False, timeout)
                        st = probe.exit_code(s)
                    if h is None:
                        ev.append(dict(e='NoStart', how=how, status=st, ds=case['section'] + c['ds']))
                    else:
                        ev.append(dict(e='Env', ds=case['section'] + c['ds'], client=client, server=case['server'] or [['UNRELATED', '1']], got=pairs(h['env']), how=how))
        finally:
            w.stop()
        return ev, dict(config=w.confText)


def c07(ctx):
    ctx.model('MCEnv', 'consequences of the resolution rules, for all small lists of declarations', spec='Spec', invariants=['Inv'],
              consts=dict(MaxDecls=ctx.pick(2, 3), Vars={'A', 'B'}, Vals={'1', ''} if not ctx.thorough else {'1'}))
    cases, res = tlc.schedules('GenEnv', dict(Commands=6, Clients=3), ctx.pick(400, 8000), 60, ctx.seed)
    ctx.add('generator_states', res.states)
    for i, c in enumerate(cases):
        c['seed'] = i
    sessionchecks.judge(ctx, cases, EnvRig, 'JudgeEnv', 'EnvGood', ctx.seconds(25, 900))


def replay(ctx, r):
    sessionchecks.judge(ctx, [r['case']], EnvRig, 'JudgeEnv', 'EnvGood', 60)
