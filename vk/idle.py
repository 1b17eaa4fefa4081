"""C18: waiting costs nothing.  Executions, lives of servers and clients without servers, in which nothing is asked for at times."""
from . import connecting, lifecycle, sessionchecks, sessions
from .lifecycle import OPTS, SESSION
from .sessionchecks import ANY, CLI, E2E, HUGE, SRV, design


def models(ctx):
    todo = []

    def add(*a, **k):
        todo.append(lambda: design(ctx, *a, reading=True, properties=['ComesToRest'], **k))
    add('client and server come to rest', Events={'close', 'shut'})
    if ctx.thorough:
        add('client and server come to rest', Events={'close', 'shut', 'hold'}, out='SmallOut')
        add('client and server come to rest, whatever happens around them', MaxIn=2, out='SmallOut', Events={'hold', 'close', 'shut', 'die', 'nostart', 'lose', 'kill'})
    add('input that has ended is still watched', wrong=True, Watched={'stdin'})
    add('room for messages is watched without any', wrong=True, Watched={'room'})
    add('room for input is watched without any', wrong=True, Watched={'in'})
    add('output that has ended is still watched', wrong=True, Events={'close'}, Watched={'closed'})
    lifecycle.together(ctx, todo)


REST = {'rest', 'give', 'end', 'start', 'read', 'shut', 'write', 'flow', 'out', 'close', 'hold', 'exit', 'die'}
LAST = {'rest', 'give', 'end', 'start', 'read', 'shut', 'write', 'flow', 'out', 'close', 'hold', 'die'}


def c18(ctx):
    models(ctx)
    sessionchecks.campaign_of(ctx, [
        (E2E, ANY, dict(On=REST, MinLen=10), 0.25),
        (SRV, ANY, dict(On=REST, MinLen=10), 0.15),
        (CLI, ANY, dict(On=REST, MinLen=10), 0.1),
        (E2E + SRV, ['plain', 'medium'], dict(HUGE, On=REST, MinLen=10), 0.15),
        (CLI, ['plain', 'medium'], dict(HUGE, On=REST, MinLen=10), 0.05),
        (E2E + SRV + CLI, ['plain', 'nostd'], dict(On={'rest', 'give', 'end', 'start', 'shut', 'close', 'hold', 'exit'}, MinLen=5), 0.15),
        (E2E + SRV, ['plain'], dict(On={'rest', 'start', 'shut'}, MinLen=2), 0.04),
        (E2E + SRV, ['plain'], dict(On={'rest', 'start', 'close', 'end', 'shut'}, MinLen=3), 0.04),
        (E2E, ['plain', 'medium'], dict(HUGE, On=LAST - {'give', 'end'} | {'file'}, Given=0, MinLen=6), 0.04),
        (E2E, ['plain', 'medium'], dict(HUGE, On=LAST - {'give', 'end'} | {'file'}, Given=300000, MinLen=6), 0.05),
        (E2E, ['plain'], dict(On=LAST - {'give', 'end'} | {'file'}, Given=9500000, MinLen=4), 0.01),
        (E2E, ['plain'], dict(On=LAST - {'give', 'end'} | {'file'}, Given=0, MinLen=5, Files=['in:closed']), 0.02),
        (E2E, ['plain'], dict(On=LAST - {'out', 'flow'}, MinLen=5, Files=['out:file', 'err:file']), 0.02),
        (E2E, ['plain'], dict(On=LAST | {'readergone'}, MinLen=6), 0.04),
    ], ctx.pick(1300, 40000), ctx.seconds(22, 700))
    lifecycle.lives(ctx, [
        (dict(Lengths={3, 6, 9}, Ops=SESSION | {'rest'}), 0.4),
        (dict(Lengths={2, 5, 8}, Ops={'connect', 'idle', 'finish', 'drop', 'signal', 'rest', 'talk'}, Opts={'nowait'}, Bgs={True, False}), 0.3),
        (dict(Lengths={3, 6}, Ops={'connect', 'idle', 'finish', 'rest', 'bad'}, Maxes={1, 2, 3}), 0.2),
        (dict(Lengths={3, 6}, Ops={'connect', 'idle', 'finish', 'rest'}, Times={300, 600, 5000}), 0.1),
    ], ctx.pick(500, 12000), ctx.seconds(14, 400))
    cases = connecting.scenes_of(ctx, ctx.pick(2000, 20000))
    st = connecting.judge(ctx, cases, ctx.seconds(8, 300), good='IdleGood')
    ctx.add('clients', st.events['Client'])


def replay(ctx, r):
    c = r['case']
    if 'scenes' in c:
        connecting.judge(ctx, [c], 60, good='IdleGood')
    elif 'cfg' in c:
        lifecycle.replay(ctx, r)
    else:
        sessionchecks.replay(ctx, r)
