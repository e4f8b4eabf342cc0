#!/usr/bin/env python3
"""Replays a schedule written by check.py against a fresh build of /repo's working tree, with a symbolised trace.
usage: replay.py FILE.sched"""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from plan import PLAN
import check
name = re.search(r'^scenario (\S+)', open(sys.argv[1]).read(), re.M).group(1)
h = next(s['harness'] for p in PLAN.values() for s in p if s['scenario'] == name)
b = check.build([h])[h]
sys.exit(subprocess.run([sys.executable, os.path.join(HERE, 'tools', 'symtrace.py'), b, sys.argv[1]]).returncode)
