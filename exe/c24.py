# -*- coding: utf-8 -*-
from fractions import Fraction as Q
import re

from base import expect, expect_eq
from profiling.viewer import fmt

EPS = Q(1, 10 ** 9)


def number(text):
    expect(re.match(r'^-?\d+(\.\d+)?$', text), 'not a number: %r', text)
    return Q(text), (len(text.split('.')[1]) if '.' in text else 0)


def near(shown, digits, value, what, scale=1):
    half = Q(1, 2 * 10 ** digits) * (1 + EPS) + abs(value) * EPS / 1000
    expect(abs(shown - value) <= half, '%s: shows %s for %s', what, float(shown), float(value))


def percent(v, denom, unit):
    text = fmt.format_percent(v, denom, unit=unit)
    if unit:
        expect(text.endswith('%'), 'percent without unit: %r', text)
        text = text[:-1]
    else:
        expect(not text.endswith('%'), 'unexpected unit: %r', text)
    shown, digits = number(text)
    ratio = Q(v) / Q(denom) if denom else Q(0)
    near(shown, digits, ratio * 100, 'percentage of %r/%r' % (v, denom))
    expect((digits == 2 and ratio < Q('0.1')) or (digits == 1 and Q('0.09') < ratio < 1) or
           (digits == 0 and ratio > Q('0.99')), 'percentage of %r: %r', float(ratio), text)
    r = v / float(denom) if denom else 0
    attr = ('danger' if r > 0.9 else 'caution' if r > 0.7 else 'warning' if r > 0.3 else
            'notice' if r > 0.1 else 'zero' if r <= 0 else None)
    expect_eq(fmt.attr_ratio(v, denom), attr, 'colour of the ratio %r' % r)
    expect_eq(fmt.markup_percent(v, denom, unit=unit), (attr, text + ('%' if unit else '')), 'markup')
    return shown


UNITS = ['', 'k', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y']


def count(n, na):
    text = (fmt.format_int_or_na if na else fmt.format_int)(n)
    attr = None if n else 'zero'
    markup = (fmt.markup_int_or_na if na else fmt.markup_int)(n)
    expect_eq(markup, (attr, text), 'markup')
    if na and n == 0:
        expect_eq(text, 'n/a', 'no calls')
        return Q(0)
    if text in ('o/f', 'u/f'):
        expect(abs(n) >= Q('999.9') * 10 ** 24, '%d shows as %s', n, text)
        expect((n > 0) == (text == 'o/f'), '%d shows as %s', n, text)
        return Q(10 ** 40) * (1 if n > 0 else -1)
    unit = text[-1] if text[-1] in UNITS else ''
    shown, digits = number(text[:-1] if unit else text)
    k = UNITS.index(unit)
    if k == 0:
        expect(digits == 0 and shown == n, '%d shows as %s', n, text)
    else:
        expect(digits == 1, '%d shows as %s', n, text)
        near(shown, 1, Q(n) / 1000 ** k, 'count %d' % n)
        expect(abs(shown) >= 1, '%d shows as %s', n, text)
    expect(abs(shown) < 1000, '%d shows as %s', n, text)
    return shown * 1000 ** k


def seconds(v):
    text = fmt.format_time(v)
    attr = ('zero' if v == 0 else 'usec' if v < 1e-3 else 'msec' if v < 1 else 'sec' if v < 60 else 'min')
    expect_eq(fmt.attr_time(v), attr, 'colour of the time %r' % v)
    expect_eq(fmt.markup_time(v), (attr, text), 'markup')
    q = Q(v)
    if text == '0':
        expect(v == 0, '%r shows as 0', v)
        return Q(0)
    m = re.match(r'^(\d+(?:\.\d+)?)(us|ms|sec)$', text)
    if m:
        unit = Q({'us': 10 ** 6, 'ms': 1000, 'sec': 1}[m.group(2)])
        shown, digits = number(m.group(1))
        near(shown, digits, q * unit, 'time %r' % v)
        if m.group(2) == 'sec':
            expect(shown < 60, '%r shows as %s', v, text)
            expect(digits == 1 and shown >= 1, '%r shows as %s', v, text)
        else:
            expect(shown < 1000, '%r shows as %s', v, text)
            expect(m.group(2) == 'us' or shown >= 1, '%r shows as %s', v, text)
            expect(digits == 0, '%r shows as %s', v, text)
        return shown / unit
    m = re.match(r'^(\d+)m(\d+)s$', text)
    if m:
        mins, secs = int(m.group(1)), int(m.group(2))
        expect(1 <= mins < 10 and 0 <= secs < 60, '%r shows as %s', v, text)
        near(Q(mins * 60 + secs), 0, q, 'time %r' % v)
        return Q(mins * 60 + secs)
    m = re.match(r'^(\d+)m$', text)
    expect(m, '%r shows as %r', v, text)
    mins = int(m.group(1))
    expect(mins >= 10, '%r shows as %s', v, text)
    # completed minutes of the whole seconds
    slack = Q(1, 2) + q * EPS
    expect(mins * 60 - slack <= q <= mins * 60 + 60 - Q(1, 2) + q * EPS, '%r shows as %s', v, text)
    return Q(mins * 60)


def ordered(pairs, what):
    pairs.sort(key=lambda p: p[0])
    for (v1, s1), (v2, s2) in zip(pairs, pairs[1:]):
        expect(s1 <= s2, '%s: %r shows as more than %r', what, v1, v2)


def run(plan, out):
    ordered([(Q(v), seconds(v)) for v in plan['times']], 'times')
    ordered([(n, count(n, plan['na'])) for n in plan['counts']], 'counts')
    rs = []
    for v, d in plan['ratios']:
        rs.append((Q(v) / Q(d) if d else Q(0), percent(v, d, plan['unit'])))
    ordered(rs, 'percentages')
    for v in plan['times']:
        out.tag(fmt.attr_time(v))
    for n in plan['counts']:
        t = fmt.format_int(n)
        out.tag('unit-' + (t[-1] if not t[-1].isdigit() and '/' not in t else t if '/' in t else 'none'))
    out.nontrivial = len(plan['times']) + len(plan['counts']) + len(plan['ratios']) >= 3
