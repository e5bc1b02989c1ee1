# -*- coding: utf-8 -*-
import servers
from base import Violation

FOCUS = 'C19'


def judge(rec, out, focus):
    for prop, text in rec.problems:
        if prop == focus:
            raise Violation(text)
    out.tag(*sorted(rec.tags))


def run(plan, out, focus=FOCUS):
    rec = getattr(servers, 'run_' + plan['server'])(plan)
    out.tag(plan['server'])
    judge(rec, out, focus)
    out.nontrivial = rec.results >= 2 and len(rec.clients) >= 2


ISOLATE = False
