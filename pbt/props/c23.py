from hypothesis import strategies as st
from pbt.props import c22

QUICK = (2000, 8)
THOROUGH = (60000, 8)
TECHNIQUE = 'model-based testing: generated sequences of keys, results, pauses and resizes against a reference model of focus, expansion, order, layout and pausing'
NOTE = 'The trees of one result consist of distinct functions, so that the model is exact; C22 also has repeated ones. Page keys move the focus anywhere.'
RULE = c22.RULE


def plan(tier):
    return st.fixed_dictionaries({
        'exact': st.just(True), 'cols': st.integers(70, 160),
        'rows': st.sampled_from([4, 6, 9, 15, 40, 40, 40, 80, 80]), 'ops': c22.history(tier, c22.unique(tier), sizes=True)})
