"""Writes MANIFEST.json: python3 -m vk.manifest"""
import json, os
from .common import VERIF

TECH = 'TLA+ specification (%s) checked with TLC; executions of the real programs, driven by behaviours generated from it, validated against it with TLC'
TRUST = ' Trusted: TLC, the harness (vk/, native/), the Linux loopback and pipes as a reliable transport.'
CLAIMS = {
    'C01': ('RemoteExec', 'The contract is checked exhaustively for small byte counts; conformance of the code is sampled: TLC-generated schedules (end to end, server alone, client alone, under reduced and interrupted system calls) are executed and every recorded trace is validated.'),
    'C02': ('RemoteExec', 'As C01, with output schedules including left-behind writers, full devices, vanished readers and regular files.'),
    'C03': ('RemoteExec', 'As C01, over all 256 exit codes, signals, commands that cannot be started, and seven ways of losing the connection.'),
    'C04': ('RemoteExec', 'Obligations ("Owes...") of the contract measured against traces: what is owed must happen within seconds without further help; rejected only when repeatable.'),
    'C05': ('RemoteExec', 'As C04: clients killed, disconnected, reset, or breaking the protocol in generated states of the session.'),
    'C06': ('Invoke', 'Argument lists are enumerated to a small length for the consequences of the rules; TLC-generated invocations (option lists, configuration files, directories, arguments) are executed with real clients and servers and every outcome is judged by the specification.'),
    'C07': ('Env', 'Declarations are enumerated to a small number for the consequences of the rules; TLC-generated declarations and environments are executed with real clients, servers and raw connections and every environment is judged by the specification.'),
    'C08': ('ServerSession', 'All requests up to a small number of messages are enumerated by TLC and sent to the real server (split, delayed, truncated, reset), and what becomes of them is validated; listening addresses of generated configurations are checked.'),
    'C09': ('Server', 'The server\'s life is model-checked step by step for a few commands; TLC-generated histories of sessions (talking, clogged, dropped, killed, invalid, idle) are run against real servers in the foreground and background and validated.'),
    'C10': ('Server', 'As C09, with histories of signals, connection limits and timeouts; liveness (stops when told) is checked in the model and by generous deadlines on the code.'),
    'C11': ('Server', 'All combinations of options, prior entries and failures are model-checked for a few commands; TLC-generated configurations, including failures and early signals, are run against real servers and the directory is compared with the specification at every stage.'),
    'C12': ('Server', 'As C11, for background servers: launcher, PID file, detachment, clean-up with absolute and relative paths.'),
    'C13': ('Config', 'All short texts over the significant characters, in every place of a configuration, and TLC-generated configurations with mutations of them are loaded by the real parser (unit driver) and by real servers; every result is compared with the meaning the specification gives the text. That the generated texts say what is meant is an invariant of the generator.'),
    'C14': ('Options', 'Every placement of one or two options (command line, file, both) is model-checked for the consequences of the rules; TLC-generated option lists, including failures, are run against real servers and everything observable of the resulting server is compared with the meaning the specification gives them.'),
    'C15': ('Connect', 'The connection loop is model-checked with time as a counter (timeouts, back-off, a server that appears and disappears); TLC-generated schedules of listening, refusing and full servers are run against real clients and the recorded attempts are validated, including the clock.'),
    'C16': ('Paths', 'Every path (pair of paths) up to a small length over the significant characters, and random longer ones, is computed by the real functions (unit driver) and judged by the specification.'),
    'C17': ('Install', 'The copying is model-checked step by step with faults at every point; TLC-generated installations (targets, prior entries, faults in system calls) are run with the real executable and the resulting files and statuses are judged by the specification.'),
    'C18': ('Session, RemoteExec, Server, Connect', 'The design of the session loops is model-checked to come to rest (and designs that watch for more than they can use are refuted); TLC-generated executions, lives of servers and waiting clients include rests in states in which the specification leaves nothing to be done, and the processor time that the real processes use there is judged.'),
    'C19': ('Log', 'The way of messages into the log (buffers, forks, aborts, a reader that leaves) is model-checked for a few messages and processes, the meaning of lists for all short lists; TLC-generated lists are given to real clients, and TLC-generated servers (destinations of the log, sessions, ways of ending) are run; every log and outcome is judged by the specification.'),
}
NOT_YET = 'No check is built for this property yet.'


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='./check --setup', checks=[], not_applicable=[],
             notes='Specifications: spec/*.tla (TLA+, TLC). No hooks in /repo. Every check builds k8psh from /repo/src into /verif/build and runs it as an unprivileged user in a scratch directory. See DESIGN.md.')
    for p in props:
        c = CLAIMS.get(p['id'])
        if c is None:
            m['not_applicable'].append(dict(property=p['id'], reason=NOT_YET))
            continue
        m['checks'].append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
                                evidence_file='evidence/%s.json' % p['id'], technique=TECH % c[0], level='model_checking', level_note=c[1] + TRUST))
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as o:
        json.dump(m, o, indent=1)
        o.write('\n')


main()
