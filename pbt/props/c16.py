from hypothesis import strategies as st
from pbt import gens

QUICK = (4000, 8)
THOROUGH = (120000, 8)
TECHNIQUE = 'model-based testing of pause/resume histories, and of generated greenlet programs under generated schedules, with a virtual clock'
NOTE = 'Real greenlets are switched, thrown into and left to die at points chosen by the generated programs; trusts the models in exe/c16.py and exe/threads.py.'
RULE = ('A case is a history of pausing, resuming and reading contexts, or a program of up to 4 greenlets run under the '
        'tracing profiler with a greenlet timer; non-trivial: at least two readings of a context followed another '
        'and two contexts took part, or calls of two greenlets were recorded with at least two switches.')


def contexts():
    ctx = gens.pick(4)
    imp = st.booleans()
    op = gens.mix([gens.op('T', st.integers(0, 50))] * 3 + [gens.op('switch', ctx)] + [
        gens.op('pause', ctx, imp), gens.op('resume', ctx, imp), gens.op('read', ctx, imp),
        gens.op('read', ctx, imp)])
    return st.fixed_dictionaries({
        'mode': st.just('contexts'), 'start': st.integers(0, 1000),
        'ops': st.lists(op, min_size=4, max_size=40)})


def greenlets(tier):
    extra = [gens.op('Z')] * 4 + [gens.op('F', st.integers(1, 3))] + [gens.op('W')] + [gens.op('R')] * 2
    # sessions which end in another greenlet than the one where the next begins
    away = st.tuples(st.integers(0, 1), st.integers(0, 20), st.integers(1, 20)).map(
        lambda t: gens.Fragment([['Z']] * t[0] + [['Q'], ['Z'], ['T', t[1]], ['S'], ['C', 0, [['T', t[2]]]]]))
    hop = gens.programs(tier, extra=extra + [away] * 3, startstop=True, gens=False, exc=False, max_depth=2)
    prog = gens.programs(tier, extra=extra, startstop=False, gens=False, max_depth=3)
    main = gens.programs(tier, extra=extra, startstop=True, gens=False, max_depth=3)
    fork = st.integers(1, 3).map(lambda j: gens.Fragment([['F', j], ['Z']]))
    forks = st.lists(fork, min_size=1, max_size=3).map(gens.flat)
    def made(programs):
        return st.tuples(forks, *programs, st.integers(0, 2)).map(
            lambda t: [t[1][:t[5]] + t[0] + t[1][t[5]:], t[2], t[3], t[4]])

    return st.fixed_dictionaries({
        'mode': st.just('greenlets'),
        'threads': gens.mix([made((main, gens.mix([prog, main]), prog, prog)), made((main, hop, prog, hop)),
                             made((hop, hop, hop, hop))]),
        'schedule': st.lists(st.integers(0, 11), min_size=1, max_size=30),
        'die': gens.pick(2),
        'auto': st.sampled_from([True, True, True, False])})


def plan(tier):
    return gens.timed(gens.mix([contexts(), greenlets(tier), greenlets(tier)]))
