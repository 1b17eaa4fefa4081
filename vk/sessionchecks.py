"""C01-C05: executions of commands, as RemoteExec describes them."""
import concurrent.futures
from . import campaign, sessions, tlc
from .common import log
from .sessions import ALL, BIG, MID, CODES

E2E, SRV, CLI = ['e2e'], ['srv'], ['cli']
ANY = [v for v in sessions.VARIANTS if v not in ('torrent', 'narrow', 'latekill')]
TINY = {1, 2, 3, 4, 5, 6, 7, 8}
EVERY = set(range(256))


ARRIVALS = ['OutputArrives', 'CloseArrives', 'EndArrives', 'TermArrives']


def design(ctx, what, reading=False, properties=('Refines',), wrong=False, out='NoOut', **consts):
    """The design of client and server (Session), as it is, or with one decision taken differently (which must be noticed)."""
    c = dict(Codes={0}, MaxIn=1, MaxOut=tlc.Raw('<-' + out), Up=1, Down=1, Room=1, Noise=set(), Events=set(), Pending=True, ClientBatch=1, ServerBatch=1,
             NoWait=True, Linger=True, EofAfter=True, Outlive=True, Watched=set())
    c.update(consts)
    kw = dict(spec='ReadingSpec' if reading else 'DesignSpec', consts=c, properties=list(properties), workers=8 if ctx.thorough else 3, heap='8g' if ctx.thorough else '2g')
    if wrong:
        ctx.refuted('MCSession', what, **kw)
    else:
        ctx.model('MCSession', what, invariants=['TypeOK', 'Safety'], **kw)


def models(ctx):
    if ctx.thorough:
        c = dict(Sizes={1, 2}, Codes={0, 3}, MaxIn=2, MaxOut=1, MaxErr=1)
    else:
        c = dict(Sizes={1}, Codes={0}, MaxIn=1, MaxOut=1, MaxErr=0)
    todo = [lambda: ctx.model('MCRemoteExec', 'the contract itself: its guarantees follow from its actions', spec='Spec', consts=c, constraint='Bound',
                              invariants=['TypeOK', 'Safety'], properties=['OutputComplete', 'ExitFidelity', 'Monotone'])]

    def add(*a, **k):
        todo.append(lambda: design(ctx, *a, **k))
    if ctx.prop == 'C01':
        add('client and server loops provide the contract', reading=True, properties=['Refines', 'InputArrives'], MaxIn=2)
        add('the end of the input is passed on before all of the input', wrong=True, MaxIn=2, EofAfter=False)
    if ctx.prop == 'C02':
        add('client and server loops provide the contract', properties=['Refines', 'OutputArrives'], out='SmallOut', MaxIn=0, Events={'hold'})
        add('the connection is closed with unread input', wrong=True, Linger=False)
    if ctx.prop == 'C03':
        add('client and server loops provide the contract', properties=['Refines', 'EndArrives'], Events={'die', 'nostart', 'lose'})
        add('the connection is closed with unread input', wrong=True, Linger=False)
    if ctx.prop == 'C04':
        add('everything arrives, whatever never ends in the output', reading=True, properties=['Refines', 'InputArrives'] + ARRIVALS, Noise={'out'})
        add('everything arrives, whatever never ends in either direction', properties=ARRIVALS, Noise={'in', 'out'})
        add('the client waits for the server to take its input (a deadlock)', wrong=True, properties=['EndArrives'], MaxIn=0, Noise={'in', 'out'}, Pending=False)
        add('the server handles messages for as long as there are any (starvation)', wrong=True, properties=['EndArrives'], MaxIn=0, Noise={'in'}, ServerBatch=0)
        add('the client handles messages for as long as there are any (starvation)', wrong=True, reading=True, properties=['InputArrives'], Noise={'out'}, ClientBatch=0)
        add('the server waits for the command to take its input (a deadlock)', wrong=True, properties=['EndArrives'], MaxIn=2, NoWait=False)
    if ctx.prop == 'C05':
        add('the command of a client that is gone is terminated', properties=['Refines', 'TermArrives'], Events={'kill', 'close'}, MaxIn=0)
        add('the client is not looked at once the command has closed its output', wrong=True, properties=['TermArrives'], Events={'kill', 'close'}, MaxIn=0, Outlive=False)
    if ctx.thorough:
        if ctx.prop in ('C01', 'C02', 'C03', 'C05'):
            add('client and server loops provide the contract, whatever happens around them', out='SmallOut', Events={'hold', 'close', 'shut', 'die', 'nostart', 'lose', 'kill'})
        if ctx.prop == 'C04':
            for n in (set(), {'out'}):
                add('everything arrives', reading=True, properties=['InputArrives'] + ARRIVALS, out='SmallOut', Noise=n, Events={'kill'})
            add('everything arrives, with more room', reading=True, properties=['InputArrives'] + ARRIVALS, out='SmallOut', MaxIn=2, Up=2, Down=2, ClientBatch=2, ServerBatch=2)
    if ctx.thorough:
        for t in todo:
            t()
    else:
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(t) for t in todo]:
                f.result()


def report(ctx, st, confirmed, unconfirmed, what):
    ctx.states += st.n['states']
    ctx.transitions += st.n['transitions']
    ctx.traces += st.n['accepted'] + st.n['tainted']
    ctx.add('executions', st.n['cases'])
    ctx.add('traces_judged_only_in_part', st.n['tainted'])
    if st.n['harness errors']:
        ctx.add('cases_not_followed', st.n['harness errors'])
    ev = ctx.cover.setdefault('events', {})
    for k, v in st.events.items():
        ev[k] = ev.get(k, 0) + v
    ctx.cover['unconfirmed_rejections'] = ctx.cover.get('unconfirmed_rejections', []) + [dict(case=x.case, blame=sorted(x.blame), tail=x.trace[max(0, x.at - 5):x.at + 1]) for x in unconfirmed[:3]]
    for s in st.samples[:2]:
        ctx.sample(dict(what=what, **s))
    for x in confirmed:
        e = x.trace[x.at] if x.at < len(x.trace) else None
        ctx.violate(dict(case=x.case, blame=sorted(x.blame), module=what),
                    'rejected at event %d: %s of %s (%s)\n%s' % (x.at, e, x.case, x.notes, x.trace[max(0, x.at - 12):x.at + 1]))


def campaign_of(ctx, profiles, n, seconds, check=None, rig=sessions.SessionRig, module='TraceRemoteExec'):
    cases, distinct, states = sessions.generate(profiles, ctx.seed, n)
    ctx.add('schedules_generated_by_TLC', distinct)
    ctx.add('generator_states', states)
    conf, unconf, st = campaign.run(cases, rig, check or {ctx.prop}, module=module, seconds=seconds)
    report(ctx, st, conf, unconf, module)
    return st


def replay(ctx, r):
    conf, unconf, st = campaign.run([r['case']], sessions.SessionRig, {ctx.prop}, module=r['module'], seconds=60, retries=20)
    report(ctx, st, conf, unconf, r['module'])


def judge(ctx, cases, rig, module, good, seconds, timeout=6.0):
    """Executes cases; a specification that EXTENDS Judging judges what was observed."""
    conf, unconf, st = campaign.run(cases, rig, {ctx.prop}, module=module, consts=dict(Good=tlc.Raw('<-' + good)), invariants=(),
                                    seconds=seconds, timeout=timeout)
    report(ctx, st, conf, unconf, rig.__name__)
    return st


def standard(ctx, profiles):
    models(ctx)
    campaign_of(ctx, profiles, ctx.pick(2600, 60000), ctx.seconds(30, 1200))


IN = {'give', 'end', 'start', 'read', 'shut', 'sleep', 'exit', 'die'}
OUT = {'start', 'write', 'flow', 'out', 'close', 'sleep', 'exit', 'die'}
HUGE = dict(Sizes=BIG, MaxIn=600000, MaxOut=600000)


def c01(ctx):
    big = dict(HUGE, On=IN, MinLen=8)
    standard(ctx, [
        (E2E, ANY, dict(On=IN, MinLen=8), 0.2),
        (E2E, ['plain', 'medium', 'slow'], big, 0.15),
        (SRV, ANY, dict(On=IN, MinLen=8), 0.15),
        (SRV, ['plain', 'medium', 'slow'], big, 0.1),
        (CLI, ANY, dict(On=IN, MinLen=8), 0.1),
        (CLI, ['plain', 'medium', 'slow'], big, 0.1),
        (E2E, ANY, dict(On=IN - {'give', 'end'} | {'file'}, Given=0, MinLen=4), 0.02),
        (E2E, ANY, dict(On=IN - {'give', 'end'} | {'file'}, Given=5, MinLen=4), 0.03),
        (E2E, ['plain', 'medium', 'slow'], dict(HUGE, On=IN - {'give', 'end'} | {'file'}, Given=65535, MinLen=6), 0.03),
        (E2E, ['plain', 'medium', 'slow'], dict(HUGE, On=IN - {'give', 'end'} | {'file'}, Given=300000, MinLen=6), 0.03),
        (E2E, ['plain'], dict(On={'file', 'start', 'read', 'sleep', 'exit'}, Given=9500000, Sizes={1, 65536, 3000000, 9500000, 9500001}, MaxIn=12000000, Sleeps={5, 150}, MinLen=5), 0.012),
        (SRV, ['plain'], dict(On={'give', 'end', 'start', 'read', 'sleep', 'exit'}, Sizes={1, 3000000, 6000000}, MaxIn=12000000, Sleeps={5, 150}, MinLen=7), 0.012),
        (E2E, ANY, dict(On=IN - {'give', 'end'} | {'file', 'write', 'out'}, Given=0, MinLen=4, Files=['in:closed']), 0.03),
        (E2E + SRV, ANY, dict(On=ALL, MinLen=12), 0.1),
    ])


def c02(ctx):
    big = dict(HUGE, On=OUT | {'hold'}, MinLen=8, Codes={0, 3})
    cbig = dict(HUGE, On=OUT, MinLen=8, Codes={0, 3})
    standard(ctx, [
        (E2E, ANY, dict(On=OUT | {'hold'}, MinLen=8, Codes={0, 3}), 0.2),
        (E2E, ['plain', 'medium', 'slow'], big, 0.15),
        (SRV, ANY, dict(On=OUT | {'hold'}, MinLen=8, Codes={0, 3}), 0.12),
        (SRV, ['plain', 'medium', 'slow'], big, 0.1),
        (CLI, ANY, dict(On=OUT, MinLen=8, Codes={0, 3}), 0.1),
        (CLI, ['plain', 'medium', 'slow'], cbig, 0.1),
        (E2E + SRV, ['plain'], dict(On={'start', 'hold', 'write', 'sleep', 'exit'}, Sleeps={320}, MinLen=3, Codes={0, 3}), 0.008),
        (E2E, ANY, dict(On=OUT | {'hold', 'readergone'}, MinLen=6, Codes={0}), 0.05),
        (CLI, ANY, dict(On=OUT | {'readergone'}, MinLen=6, Codes={0}), 0.05),
        (E2E, ['plain'], dict(HUGE, On=OUT, MinLen=4, Codes={0}, Files=['out:full']), 0.03),
        (E2E, ['plain'], dict(HUGE, On=OUT, MinLen=4, Codes={0}, Files=['err:full']), 0.03),
        (E2E + CLI, ['plain'], dict(HUGE, On=OUT, MinLen=4, Codes={0}, Files=['out:closed']), 0.02),
        (E2E + CLI, ['plain'], dict(HUGE, On=OUT, MinLen=4, Codes={0}, Files=['err:closed']), 0.02),
        (E2E, ['plain'], dict(On=OUT | {'read', 'file'}, MinLen=4, Codes={0}, Files=['in:closed', 'out:closed']), 0.02),
        (E2E, ['plain'], dict(On=OUT | {'read', 'file'}, MinLen=4, Codes={0}, Files=['in:closed', 'err:closed']), 0.02),
        (E2E, ANY, dict(HUGE, On=OUT - {'out', 'flow'}, MinLen=6, Files=['out:file', 'err:file']), 0.04),
        (E2E + SRV, ANY, dict(On=ALL, MinLen=12), 0.1),
    ])


def c03(ctx):
    ends = {'give', 'start', 'read', 'shut', 'write', 'close', 'exit', 'die', 'end', 'sleep'}
    standard(ctx, [
        (E2E, ANY, dict(On={'give', 'start', 'exit', 'shut', 'close'}, MinLen=2, Codes=EVERY), 0.2),
        (SRV, ANY, dict(On={'give', 'start', 'exit', 'shut', 'close'}, MinLen=2, Codes=EVERY), 0.1),
        (CLI, ANY, dict(On={'give', 'start', 'exit', 'shut', 'close', 'write'}, MinLen=2, Codes=EVERY), 0.1),
        (E2E + SRV, ['plain', 'medium', 'slow'], dict(HUGE, On={'give', 'start', 'exit', 'shut'}, MinLen=4, Codes=EVERY), 0.1),
        (E2E, ANY, dict(On=ends, MinLen=4, Codes=EVERY), 0.1),
        (CLI, ANY, dict(On=ends - {'exit'}, MinLen=3), 0.15),
        (E2E + SRV, ANY, dict(On=ends - {'exit'}, MinLen=3, Signals={1, 2, 3, 6, 8, 9, 11, 13, 14, 15}), 0.1),
        (E2E + SRV, ['plain', 'medium'], dict(On={'start', 'die'}, MinLen=1, Signals=set(range(1, 16)) | {16, 24, 25, 26, 27, 29, 30, 31, 34, 64}), 0.06),
        (E2E + SRV + CLI, ANY, dict(On={'give', 'end', 'sleep', 'nostart'}, MinLen=1), 0.1),
        (E2E, ANY, dict(On=ends | {'hold', 'out'}, MinLen=8), 0.05),
    ])


FLOOD = {'start', 'give', 'read', 'write', 'out', 'sleep', 'die'}


def c04(ctx):
    io = {'give', 'end', 'start', 'read', 'write', 'flow', 'out', 'sleep', 'exit', 'close'}
    standard(ctx, [
        (E2E, ANY, dict(On=io, MinLen=12), 0.25),
        (SRV, ANY, dict(On=io, MinLen=12), 0.15),
        (CLI, ANY, dict(On=io, MinLen=12), 0.15),
        (E2E, ['plain', 'medium', 'slow'], dict(HUGE, On=io, MinLen=12), 0.2),
        (SRV + CLI, ['plain', 'medium', 'slow'], dict(HUGE, On=io, MinLen=12), 0.1),
        (E2E, ANY, dict(On={'start', 'read', 'give', 'write', 'out', 'hold', 'exit', 'shut', 'close'}, MinLen=10), 0.15),
        (E2E + SRV + CLI, ['plain', 'medium'], dict(On=FLOOD | {'flood'}, MinLen=8), 0.04),
        (E2E + SRV + CLI, ['torrent'], dict(On=FLOOD | {'pour'}, MinLen=8), 0.02),
        (E2E + SRV + CLI, ['plain', 'medium'], dict(On=FLOOD | {'pour'}, MinLen=8, Pour=1500000), 0.02),
        (E2E, ['narrow'], dict(On=FLOOD | {'pour', 'flood'}, MinLen=8, Pour=5000000), 0.03),
        (E2E, ['plain', 'medium'], dict(On=FLOOD | {'pour', 'flood'}, MinLen=8, Pour=1500000), 0.02),
    ])


def c05(ctx):
    k = ALL - {'exit', 'die'}
    standard(ctx, [
        (E2E, ANY, dict(On=k, MinLen=4), 0.25),
        (SRV, ANY, dict(On=k, MinLen=4), 0.3),
        (E2E + SRV, ['plain', 'medium', 'slow'], dict(HUGE, On=k, MinLen=6), 0.15),
        (E2E + SRV, ANY, dict(On={'start', 'kill', 'close', 'shut', 'hold'}, MinLen=2), 0.15),
        (E2E + SRV, ['plain'], dict(On={'start', 'close', 'shut', 'sleep', 'exit', 'end'}, Sleeps={300, 600, 1100}, MinLen=5), 0.1),
        (E2E + SRV, ['plain', 'medium'], dict(On=FLOOD - {'die'} | {'kill', 'pour', 'flood'}, MinLen=3, Pour=1500000), 0.04),
        (E2E + SRV, ['plain'], dict(On={'start', 'close', 'shut', 'sleep', 'kill', 'end'}, Sleeps={300, 600}, MinLen=4), 0.05),
    ])
