import math
from hypothesis import strategies as st

QUICK = (8000, 8)
THOROUGH = (300000, 8)
TECHNIQUE = 'property-based testing of the formatters: the text is parsed back and compared with the value, exactly'
NOTE = 'Values are drawn near every unit boundary and rounding point as well as over the whole range; counts have up to 300 digits.'
RULE = 'A case is a set of times, counts and ratios; non-trivial: at least 3 values.'


def near(points):
    def wiggle(t):
        x, ulps, rel = t
        for _ in range(abs(ulps)):
            x = math.nextafter(x, math.inf if ulps > 0 else 0)
        return max(0.0, x * (1 + rel))
    return st.tuples(st.sampled_from(points), st.integers(-3, 3), st.sampled_from([0, 0, 1e-3, -1e-3, 1e-6, -1e-6])
                     ).map(wiggle)


def plan(tier):
    tpoints = [5e-7, 1e-6, 9.995e-4, 9.994e-4, 9.996e-4, 1e-3, 1.5e-3, 0.9995, 0.9994, 1.0, 1.05, 9.95, 59.94, 59.95, 59.96,
               60.0, 60.5, 119.5, 119.4, 120.0, 599.4, 599.5, 599.6, 600.0, 659.5, 660.0, 3600.0, 1e6]
    mins = st.integers(1, 12).flatmap(lambda m: st.integers(-6, 6).map(lambda t: m * 60 + t / 10.0))
    time = st.one_of(near(tpoints), mins, st.floats(0, 1e-3), st.floats(0, 1), st.floats(0, 100),
                     st.floats(0, 1200), st.floats(0, 1e9), st.integers(0, 5000))
    k = st.integers(0, 9).flatmap(lambda e: st.tuples(
        st.sampled_from([1, 999, 1000, 999.94, 999.95, 999.96, 1.05, 10, 100]), st.integers(-60, 60)).map(
            lambda t: int(t[0] * 1000) * 1000 ** e // 1000 + t[1]))
    count = st.one_of(k, k.map(lambda n: -n), st.integers(-2000, 2000), st.integers(0, 10 ** 30),
                      st.integers(-10 ** 300, 10 ** 300))
    rpoints = [0.0, 0.0949, 0.0950, 0.0951, 0.1, 0.3, 0.7, 0.9, 0.9949, 0.995, 0.9951, 1.0, 1.005, 0.00005]
    ratio = st.one_of(
        st.tuples(near(rpoints), st.just(1)), st.tuples(st.floats(0, 2), st.just(1)),
        st.tuples(st.integers(0, 1000), st.integers(0, 1000)),
        st.tuples(st.floats(0, 1e6), st.floats(1e-6, 1e6)), st.tuples(st.floats(0, 1e6), st.just(0)),
        st.tuples(st.floats(0, 1e6), st.just(0.0))).map(list)
    return st.fixed_dictionaries({
        'times': st.lists(time, max_size=8), 'counts': st.lists(count, max_size=8),
        'ratios': st.lists(ratio, max_size=8), 'na': st.booleans(), 'unit': st.booleans()})
