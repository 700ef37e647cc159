#!/usr/bin/env python3
"""Which planted bugs change only lines that commits in /repo added."""
import os
import re
import subprocess
import sys

SEEDED = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'seeded')
BASE = '0f1c9ff'


def blame(name):
    out = subprocess.run(
        ['git', '-C', '/repo', 'blame', '-s', BASE + '..HEAD', '--', name],
        stdout=subprocess.PIPE, text=True).stdout
    return [i.startswith('^') for i in out.split('\n')]


for seed in sorted(os.listdir(SEEDED)):
    orig = own = added = 0
    with open(os.path.join(SEEDED, seed, 'patch.diff')) as fp:
        for line in fp:
            if line.startswith('--- a/'):
                lines = blame(line[6:].strip())
            m = re.match(r'@@ -(\d+)', line)
            if m:
                n = int(m.group(1)) - 1
            elif line.startswith('-') and not line.startswith('---'):
                if lines[n]:
                    orig += 1
                else:
                    own += 1
                n += 1
            elif line.startswith('+') and not line.startswith('+++'):
                added += 1
            elif line.startswith(' '):
                n += 1
    if own or '-v' in sys.argv:
        print(seed, 'original', orig, 'own', own, 'added', added)
