#!/usr/bin/env python3
"""Brings the rule, note and bounds of DESIGN.md in line with pbt/props (run with python3-vt)."""
import importlib
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
head, *parts = re.split(r'(?m)^(?=### C\d\d )', text)
for i, part in enumerate(parts):
    mod = importlib.import_module('pbt.props.c' + part[5:7])
    rest = ''
    m = re.search(r'(?m)^## ', part)
    if m:
        part, rest = part[:m.start()], part[m.start():]
    lines = part.split('\n')
    for j, line in enumerate(lines):
        if line.startswith('A case is '):
            lines[j] = mod.RULE
        elif line.startswith('Trusted and left out: '):
            lines[j] = 'Trusted and left out: ' + mod.NOTE
        elif line.startswith('Bounds: ') and 'cases quick' in line:
            lines[j] = re.sub(r'\d+ cases quick, \d+ thorough',
                              '%d cases quick, %d thorough' % (mod.QUICK[0], mod.THOROUGH[0]), line)
    parts[i] = '\n'.join(lines) + rest
open(path, 'w').write(head + ''.join(parts))
