#!/usr/bin/env python3
"""
Make a planted bug: mkseed.py SPEC.py. The spec defines ID, PROPERTY, NEEDS,
BREAKS, EDITS = [(file, old, new), ...], DEMO (python source run with pypy3).
"""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seed

DEMO_SH = '''#!/bin/bash
# {what}
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /usr/bin/pypy3 "$here/demo.py"
'''


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    for s in spec['SEEDS']:
        d = os.path.join(seed.SEEDED, s['id'])
        os.makedirs(d, exist_ok=True)
        path = seed.scratch()
        for name, old, new in s['edits']:
            fn = os.path.join(path, name)
            with open(fn) as fp:
                text = fp.read()
            if text.count(old) != 1:
                print(s['id'], name, 'old text found', text.count(old))
                sys.exit(1)
            with open(fn, 'w') as fp:
                fp.write(text.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=path,
                              stdout=subprocess.PIPE).stdout
        with open(os.path.join(d, 'patch.diff'), 'wb') as fp:
            fp.write(diff)
        seed.shutil.rmtree(path)
        with open(os.path.join(d, 'demo.sh'), 'w') as fp:
            fp.write(s.get('demo_sh') or DEMO_SH.format(what=s['breaks']))
        if s.get('demo'):
            with open(os.path.join(d, 'demo.py'), 'w') as fp:
                fp.write(s['demo'].lstrip('\n'))
        with open(os.path.join(d, 'meta.json'), 'w') as fp:
            json.dump({'property': s['property'], 'needs': s['needs'],
                       'what_it_breaks': s['breaks']}, fp, indent=1)
            fp.write('\n')
        if not seed.verify(s['id']):
            print(s['id'], 'NOT OK')


main()
