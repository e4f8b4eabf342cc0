#!/usr/bin/env python3
"""Replays a schedule file with tracing and prints it with source locations.  usage: symtrace.py BINARY SCHEDULE [from]"""
import re, subprocess, sys
binary, sched = sys.argv[1:3]
p = subprocess.run([binary, '--replay', sched, '--trace'], capture_output=True, text=True)
lines = [l.split() for l in p.stderr.splitlines() if l.startswith('@ ')]
pcs = sorted({l[5] for l in lines})
out = subprocess.run(['addr2line', '-Cfie', binary] + ['%x' % (int(x, 16) - 1) for x in pcs] , capture_output=True, text=True).stdout
# addr2line -i prints several pairs per address: ask one by one for those few
cache = {}
def sym(pc):
    if pc not in cache:
        o = subprocess.run(['addr2line', '-Cfie', binary, '%x' % (int(pc, 16) - 1)], capture_output=True, text=True).stdout.splitlines()
        fr = []
        for i in range(0, len(o) - 1, 2):
            f, loc = o[i], o[i + 1]
            if '/usr/' in loc and i + 2 < len(o):
                continue
            fr.append(re.sub(r'\(.*', '', f).replace('cocpp::', '') + '@' + loc.split('/')[-1].split(' ')[0])
        cache[pc] = ' < '.join(fr[:3])
    return cache[pc]
for l in lines:
    print(l[1], 'T' + l[2], l[3], l[4], sym(l[5]), l[6])
print(p.stdout)
