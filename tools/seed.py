#!/usr/bin/env python3
"""
Work on planted bugs in a scratch copy of /repo (never in /repo itself).

  seed.py verify ID...   build, tests, demo on both trees, checks
  seed.py check ID       only run the check of the property of the seed
  seed.py mk ID          make patch.diff from seeded/ID/edit.py-style stdin
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           LANG='C.UTF-8', HOME='/root')


def scratch():
    path = '/tmp/seedwork/{}'.format(os.getpid())
    if os.path.exists(path):
        shutil.rmtree(path)
    os.makedirs('/tmp/seedwork', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', path])
    return path


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=kw.pop('env', ENV),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def tests(path):
    base = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passed', 'stable', 'tests'):
        if k in base:
            base = set(base[k])
            break
    out = '/tmp/seedwork/res.{}'.format(os.getpid())
    open(out + '.txt', 'w').close()
    with open('/opt/vp/runner.py') as fp:
        runner = fp.read().replace("'/repo'", repr(path)).replace(
            "'/repo/'", repr(path + '/'))
    with open(out + '.py', 'w') as fp:
        fp.write(runner)
    r = run(['/usr/bin/pypy3', out + '.py', out + '.txt', 'discover',
             '-v', '--pattern=test_*.py'], path, timeout=60)
    run(['/usr/bin/python3', '/opt/vp/results.py', out + '.json',
         'lines:' + out + '.txt'], path)
    got = json.load(open(out + '.json'))
    for k in ('passed', 'stable', 'tests'):
        if k in got:
            got = set(got[k])
            break
    return sorted(base - got), r.stdout[-1500:]


def check(path, prop):
    env = dict(ENV, ALCHECK_REPO=path, ALCHECK_EVIDENCE='/tmp/seedwork/ev')
    return run([os.path.join(VERIF, 'check'), prop], VERIF, env=env)


def demo(path, d):
    tmp = '/tmp/seedwork/demo.{}'.format(os.getpid())
    if os.path.exists(tmp):
        shutil.rmtree(tmp)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns(
        '*.diff', '*.patch', 'meta.json'))
    env = dict(os.environ, HOME='/root')
    for k in ('PYTHONHASHSEED', 'PYTHONDONTWRITEBYTECODE'):
        env.pop(k, None)
    return run(['bash', os.path.join(tmp, 'demo.sh')], path, env=env,
               timeout=300)


def verify(sid, only_check=False, props=None):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    path = scratch()
    ok = True
    try:
        if not only_check:
            r = demo(path, d)
            if r.returncode:
                print(sid, 'demo fails on unchanged tree', r.stdout[-800:])
                ok = False
        r = run(['git', 'apply', os.path.join(d, 'patch.diff')], path)
        if r.returncode:
            print(sid, 'patch does not apply', r.stdout)
            return False
        if not only_check:
            missing, out = tests(path)
            if missing:
                print(sid, 'tests fail', missing[:5], out)
                ok = False
            r = demo(path, d)
            if not r.returncode:
                print(sid, 'demo passes with patch', r.stdout[-800:])
                ok = False
        for prop in props or [meta['property']]:
            r = check(path, prop)
            hit = (r.returncode == 1 and
                   'VIOLATION property={} '.format(prop) in r.stdout)
            print(sid, prop, 'CAUGHT' if hit else 'missed rc={}'.format(
                r.returncode))
            if r.returncode not in (0, 1) or '-v' in sys.argv:
                print(r.stdout[-3000:])
            elif hit:
                print('   ', r.stdout.split('\n')[0][:200])
    finally:
        shutil.rmtree(path)
    return ok


def main():
    cmd = sys.argv[1]
    ids = [i for i in sys.argv[2:] if not i.startswith('-')]
    if not ids:
        ids = sorted(os.listdir(SEEDED))
    if cmd in ('verify', 'check'):
        for sid in ids:
            if not verify(sid, cmd == 'check'):
                print(sid, 'NOT OK')


if __name__ == '__main__':
    main()
