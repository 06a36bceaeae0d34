#!/usr/bin/env python3
"""development aid: mkpatch.py ID FILE <<< "OLD\n=====\nNEW" : writes seeded/ID/patch.diff replacing OLD by NEW (once) in /repo/FILE (several edits: separate with #####FILE lines)"""
import sys, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id = sys.argv[1]; edits = sys.stdin.read()
import re
parts = re.split(r'^#####(.*)\n', edits, flags=re.M)[1:]
try:
    for f, e in zip(parts[::2], parts[1::2]):
        f = f.strip(); old, new = e.rstrip('\n').split('\n=====\n') if '\n=====\n' in e else (e.rstrip('\n').split('\n=====')[0], '')
        p = '/repo/' + f; s = open(p).read()
        if s.count(old) != 1: sys.exit(f'{f}: {s.count(old)} matches of\n{old}')
        open(p, 'w').write(s.replace(old, new))
    d = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    os.makedirs(f'{V}/seeded/{id}', exist_ok=True)
    open(f'{V}/seeded/{id}/patch.diff', 'w').write(d)
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
