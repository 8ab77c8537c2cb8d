#!/usr/bin/env python3
"""Replay a violation: python3-vt replay.py <replay file>"""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import judge

v = json.load(open(sys.argv[1]))
if not v.get('case'):
    print(json.dumps(v, indent=1))
    sys.exit(1)
d = judge.judge(v['property'], v['case'])
print('\n'.join(d) or 'the property holds on this input now')
sys.exit(1 if d else 0)
