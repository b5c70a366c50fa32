#!/usr/bin/env python3
"""Tells which planted bugs change no line of the original repository (they would not count)."""
import os, subprocess
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
BASE = '36e9d53'
for i in sorted(os.listdir(V + '/seeded')):
    f, ok, minus = None, False, 0
    for l in open('%s/seeded/%s/patch.diff' % (V, i)):
        if l.startswith('--- a/'):
            f = set(x.strip() for x in subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + l[6:].strip()], capture_output=True, text=True).stdout.splitlines())
        elif l.startswith('-') and l[1:].strip():
            minus += 1
            ok |= l[1:].strip() in f and not l[1:].strip().startswith('//') and len(l.strip()) > 3
    if not ok: print(i, 'removes', minus, 'lines, none of the original')
