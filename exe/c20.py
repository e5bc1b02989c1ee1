# -*- coding: utf-8 -*-
import c19


def run(plan, out):
    c19.run(plan, out, 'C20')


ISOLATE = False
