from hypothesis import strategies as st

from pbt.gens import mix

QUICK = (2400, 8)
THOROUGH = (60000, 8)
TECHNIQUE = 'property-based testing of command lines and configuration files against a precedence model'
NOTE = ('The commands run in-process with the server loop, the terminal loop and fork replaced by recording stand-ins; '
        'every text is generated along with what it denotes. Some commands follow others of the same process, under other configuration files. spawn mode eventlet is left out (not installed).')
RULE = ('A case is a command, options in several spellings and two configuration files; non-trivial: the options come '
        'from at least two sources, one is invalid, or a source is viewed.')

VALUES = {
    'profiler': [('tracing', 'tracing'), ('sampling', 'sampling'), ('sampling', 'sampling')],
    'timer': [('basic', 'Timer'), ('thread', 'ThreadTimer'), ('greenlet', 'GreenletTimer'), ('Thread', 'ThreadTimer'),
              ('GREENLET', 'GreenletTimer')],
    'sampler': [('itimer', 'ItimerSampler'), ('tracing', 'TracingSampler'), ('Tracing', 'TracingSampler')],
    'sampling-interval': [('0.5', .5), ('1', 1.0), ('2.5e-1', .25), ('100', 100.0), ('0.001', .001)],
    'pickle-protocol': [(str(i), i) for i in range(6)],
    'interval': [('1', 1.0), ('0.5', .5), ('30', 30.0), ('1e-1', .1)],
    'spawn': [('threading', 'threading'), ('threading', 'threading'), ('gevent', 'gevent')],
    'signum': [('USR1', 10), ('usr1', 10), ('SIGUSR1', 10), ('sigusr2', 12), ('10', 10), ('12', 12), ('HUP', 1), ('1', 1),
               ('SIGWINCH', 28), ('Alrm', 14)],
    'endpoint': [('127.0.0.1:0', ['127.0.0.1', 0]), ('127.0.0.2:0', ['127.0.0.2', 0]), ('localhost:0', ['localhost', 0]),
                 ('127.7.0.3:0', ['127.7.0.3', 0])],
}
WRONG = {
    'profiler': ['bogus', 'Trace', 'sampler'],
    'timer': ['bogus', 'timer', 'itimer', 'runnable'],
    'sampler': ['bogus', 'basic', 'thread', 'runnable'],
    'sampling-interval': ['x', '1ms', '1,5'],
    'pickle-protocol': ['x', '1.5', 'highest'],
    'interval': ['x', '1s'],
    'spawn': ['process', 'thread', 'asyncio'],
    'signum': ['FOO', 'SIG_IGN', 'SIG_DFL', 'SIG', '_BLOCK', '1.5', '0', '-1', '65', '1000', '\u00b2'],
    'endpoint': ['x', 'a:b', '1:2:3', '127.0.0.1', '127.0.0.1:', '::', '127.0.0.1:65536',
                 'localhost:-1', ':', '127.0.0.1:99999999999999999999'],
}
# what is special in configuration files
ANYWHERE = ['50%', '%(x)s', '%(timer)s', '%']
# the default endpoint is not bound: it may be in use
VIEWS = [('127.0.0.1:8912', ['127.0.0.1', 8912]), ('example.org:80', ['example.org', 80]), ('h:1', ['h', 1]),
         ('10.0.0.1:65535', ['10.0.0.1', 65535])]


def option(name, bad):
    good = st.sampled_from([list(v) for v in VALUES[name]])
    if not bad:
        return good
    return mix([good] * bad + [st.sampled_from(WRONG[name] + ANYWHERE).map(lambda w: [w, None])])


def options(names, bad):
    return st.lists(st.sampled_from(names), unique=True, max_size=len(names)).flatmap(
        lambda ns: st.fixed_dictionaries({n: option(n, bad) for n in ns}))


def plan(tier):
    names = sorted(VALUES)
    cli = mix([options(names, 0), options(names, 8)])
    files = mix([st.none(), options(names, 0), options(names, 0), options(names, 6)])

    before = st.fixed_dictionaries({
        '.profiling': files, 'setup.cfg': files, 'elsewhere': st.booleans(),
        'argv': st.sampled_from([['timeit', '-n', '1', '-d', 'before.out', 'pass'], ['timeit', '-n1', '--dump=x.out', '-T', '0'],
                                 ['view', 'missing'], ['timeit', '--bogus', '0'], ['--help'], ['remote', '--help']])})

    def fix(p):
        # the command line has no text for a wrong kind of profiler
        c = p['cli'].get('profiler')
        if c is not None and c[1] is None:
            del p['cli']['profiler']
        # something other than the default has to be bound
        if p['cmd'] == 'remote' and not any('endpoint' in (p[s] or ()) for s in ('cli', 'setup.cfg', '.profiling')):
            p['cli']['endpoint'] = ['127.0.0.1:0', ['127.0.0.1', 0]]
        if p['cmd'] == 'view':
            p['cli'].pop('endpoint', None)
        return p

    def commands(cmd):
        alias = {'profile': ['profile', ''], 'timeit': ['timeit', 'timeit-profile'], 'live': ['live', 'live-profile'],
                 'remote': ['remote', 'remote-profile'], 'view': ['view']}[cmd]
        return st.fixed_dictionaries({
            'before': mix([st.just([])] * 2 + [st.lists(before, min_size=1, max_size=2)]),
            'cmd': st.just(cmd), 'alias': st.sampled_from(alias),
            'cli': cli, '.profiling': files, 'setup.cfg': files,
            'styles': st.lists(st.integers(0, 3), min_size=1, max_size=5),
            'dump': mix([st.just(True)] * 3 + [st.just(False)]), 'mono': st.booleans(), 'verbose': st.booleans(),
            'rotate': st.integers(0, 12), 'at': st.integers(0, 12), 'between': st.booleans(),
            'source': mix([st.just(k) for k in ['none', 'none', 'endpoint', 'dump', 'dump', 'sock', 'sock', 'dir', 'fifo', 'missing']]),
            'link': mix([st.just(False)] * 2 + [st.just(True)]),
            'name': st.sampled_from(['x.prof', 'x', 'host:80', '1:2:3', 'dir', '-x']).map(
                lambda n: './-x' if n == '-x' else n),
            'view-endpoint': mix([st.sampled_from([list(v) for v in VIEWS])] * 3 + [st.sampled_from(WRONG['endpoint']).map(
                lambda w: [w, None])]),
        }).map(fix)
    return mix([commands(c) for c in ['profile', 'profile', 'timeit', 'live', 'remote', 'view']])
