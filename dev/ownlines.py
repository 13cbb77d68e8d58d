#!/usr/bin/env python3
""" which planted bugs only change lines that commits of this work added """
import glob
import os
import re
import subprocess
REPO = '/repo'
FIRST = subprocess.run(['git', '-C', REPO, 'log', '--reverse', '--format=%H %s'], capture_output=True, text=True).stdout.split('\n')
own = {l.split()[0] for l in FIRST if l and ' fix: ' in ' ' + l.split(' ', 1)[1]} if FIRST else set()
blame = {}


def lines(path):
    if path not in blame:
        out = subprocess.run(['git', '-C', REPO, 'blame', '-l', '-s', '--root', path], capture_output=True, text=True).stdout.split('\n')
        blame[path] = [l.split()[0].lstrip('^') for l in out if l]
    return blame[path]


base = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()
n = int(os.environ.get('OWN', '30'))
own = set(subprocess.run(['git', '-C', REPO, 'rev-list', '-%d' % n, 'HEAD'], capture_output=True, text=True).stdout.split())
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    path = None
    hit = orig = 0
    for l in open(p, errors='replace'):
        if l.startswith('--- '):
            path = l[4:].strip().split('/', 1)[1]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            at = int(m.group(1))
            continue
        if l.startswith('-') and not l.startswith('---'):
            if lines(path)[at - 1] in own:
                hit += 1
            elif l[1:].strip():
                orig += 1
        if path and (l.startswith('-') and not l.startswith('---') or l.startswith(' ')):
            at += 1
    if not orig:
        print(os.path.basename(os.path.dirname(p)), 'own lines' if hit else 'only additions')
