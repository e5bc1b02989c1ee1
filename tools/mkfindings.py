#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects (from /repo's log and the
table below) and the open findings (tools/open_findings.json)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {  # start of the subject -> (properties, what failed)
 'record calls and samples of a frame': (['C01', 'C04'], 'calls or samples of a function already on the stack at the start were lost'),
 'do not subtract the overhead of the return': (['C02'], 'profiler overhead was subtracted twice from each call'),
 'do not record ignored frames': (['C05'], 'an ignored frame on top was recorded, under the wrong caller'),
 'Runnable is not running when': (['C12'], 'a failed start left the object running forever'),
 'refused start of a running': (['C12'], 'a refused start cleared the statistics'),
 'CPU and wall time of a result': (['C15'], 'CPU and wall time kept growing after stop'),
 'CPU time of a tracing result': (['C15'], 'the CPU time could be negative'),
 'threads record nothing after': (['C14'], 'threads started while profiling were recorded after stop'),
 'tracing sampler keeps the sampled time': (['C17'], 'a live thread was sampled twice within an interval after 10000 samples; a thread with a reused identifier was not sampled'),
 'sort keys of strings and tuples': (['C11'], 'inverting a name order raised TypeError'),
 'sort statistics without name': (['C11', 'C22'], 'sorting children with and without a module raised TypeError'),
 'greenlet timer restores': (['C13'], 'an earlier greenlet trace function was removed'),
 'tracing sampler restores': (['C13'], 'an earlier profile function was removed'),
 'show the time of the result': (['C22'], 'the header never showed the time of the result'),
 'carry rounded times': (['C24'], '1000ms, 60.0sec and 1m60s were shown'),
 'receive a message which arrives': (['C18', 'C29'], 'a segmented message on a non-blocking socket was taken for a closed connection'),
 'server survives clients which fail': (['C20'], 'an error on sending the greeting or a result was raised out of the server or ignored'),
 'server runs one profiling loop': (['C20'], 'a second nested loop failed with Not started'),
 'select server sends whole messages': (['C19', 'C20'], 'a partly sent message was followed by the next one'),
 'gevent server sends one message': (['C19', 'C20'], 'messages were mixed, a stalled client blocked all others'),
 'asyncio server can be imported': (['C19', 'C20'], 'SyntaxError; TypeError on disconnection'),
 'viewing client retries': (['C29'], 'ValueError when nobody listens on the socket file'),
 'failing start of a profiler': (['C21'], 'a failing start left the background thread waiting forever'),
 'all deferred calls run': (['C30'], 'deferred calls were skipped after one that raised'),
 'timeit-profile repeats all': (['C27'], 'only the first line of the statement was repeated'),
 'timeit-profile leaves the names': (['C27'], 'the loop set the variable _ of the statement; a setup which defines range changed the count'),
 'live-profile does not block': (['C31'], 'a program which writes more than 64 KB to the standard error hung under live-profile'),
 'invalid endpoint or viewer source': (['C25'], 'ValueError traceback instead of a usage error'),
 'interval in the configuration': (['C25'], 'interval = 0.5 in a configuration file was rejected'),
 'invalid values in the configuration': (['C25'], 'a malformed configuration value ended in a ValueError traceback'),
 'module run by -m does not': (['C26'], 'a module run by -m saw the global names of profiling.__main__'),
 'profiled script can import the modules beside it after': (['C26'], 'imports failed after the script changed the directory'),
 'profiled script can import': (['C26'], 'a script could not import modules beside it'),
 'hidden root of the viewer': (['C22', 'C23'], 'left or - on the hidden root emptied the table'),
 'resuming a running context': (['C16'], 'resuming a context that was running set its reading back'),
 'greenlet timer forgets which': (['C16'], 'after a restart the clock of a greenlet paused in an earlier run stood still'),
 'tell functions of different files': (['C01', 'C07'], 'functions differing in their file only shared one node'),
}
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True)
fs = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    for k, (props, what) in PROP.items():
        if s[5:].startswith(k):
            break
    else:
        raise SystemExit('no entry for: ' + s)
    for p in props:
        fs.append({'property': p, 'status': 'fixed', 'commit': h, 'what': what,
                   'record': 'fixed: property=%s %s %s' % (p, h, what)})
p = os.path.join(HERE, 'tools', 'open_findings.json')
if os.path.exists(p):
    fs += json.load(open(p))
with open(os.path.join(HERE, 'known_findings.json'), 'w') as f:
    json.dump({'findings': fs}, f, indent=1)
    f.write('\n')
print(len(fs))
