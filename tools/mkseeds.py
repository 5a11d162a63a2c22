"""Writes /verif/seeded from seeds.py and tries the planted bugs.

mkseeds.py write              write patch.diff, demo.sh, meta.json
mkseeds.py test [ID ...]      tests pass, demo passes / fails
mkseeds.py check [ID ...]     run the property's quick check on each
"""
import concurrent.futures
import difflib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import seeds

VERIF = os.path.dirname(HERE)
OUT = os.path.join(VERIF, 'seeded')
WORK = '/tmp/seedwork'
REPO = '/repo'


def patched(sid):
    files = {}
    for f, old, new in seeds.SEEDS[sid]['edits']:
        if f not in files:
            with open(os.path.join(REPO, f)) as fd:
                files[f] = fd.read()
        if files[f].count(old) != 1:
            raise SystemExit('%s: %d matches of\n%s'
                             % (sid, files[f].count(old), old))
        files[f] = files[f].replace(old, new)
    return files


def write(sid):
    s = seeds.SEEDS[sid]
    d = os.path.join(OUT, sid)
    os.makedirs(d, exist_ok=True)
    diff = []
    for f, text in sorted(patched(sid).items()):
        with open(os.path.join(REPO, f)) as fd:
            orig = fd.read()
        diff += difflib.unified_diff(orig.splitlines(True),
                                     text.splitlines(True),
                                     'a/' + f, 'b/' + f)
    with open(os.path.join(d, 'patch.diff'), 'w') as fd:
        fd.writelines(diff)
    with open(os.path.join(d, 'demo.py'), 'w') as fd:
        fd.write(s['demo'].lstrip())
    shutil.copy(os.path.join(HERE, 'seedlib', 'lib.py'), d)
    with open(os.path.join(d, 'demo.sh'), 'w') as fd:
        fd.write('#!/bin/bash\n'
                 'here=$(cd "$(dirname "$0")" && pwd)\n'
                 'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
                 'LC_ALL=C.UTF-8\n'
                 'exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    with open(os.path.join(d, 'meta.json'), 'w') as fd:
        json.dump({'property': s['prop'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']}, fd, indent=2)
        fd.write('\n')


def prepare(sid):
    w = os.path.join(WORK, sid)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    r = os.path.join(w, 'repo')
    subprocess.check_call(['cp', '-a', REPO, r])
    subprocess.check_call(['git', '-C', r, 'apply',
                           os.path.join(OUT, sid, 'patch.diff')])
    return w, r


def test(sid):
    w, r = prepare(sid)
    try:
        drv = os.path.join(w, 'driver')
        shutil.copytree('/opt/vp/driver', drv)
        os.symlink('/opt/vp/keys', os.path.join(w, 'keys'))
        for f in ('check_sources.py', 'test_specs.py'):
            p = os.path.join(drv, f)
            with open(p) as fd:
                t = fd.read()
            with open(p, 'w') as fd:
                fd.write(t.replace("REPO = '/repo'", 'REPO = %r' % r))
        env = dict(os.environ, PYTHONPATH=r, PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8')
        p = subprocess.run(
            ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-W', 'ignore',
             '-c', drv + '/pytest.ini', '--rootdir=' + drv, '-p',
             'no:cacheprovider', '-n', '4', '--timeout=120', '--tb=no', drv],
            cwd=r, env=env, capture_output=True, text=True)
        last = p.stdout.strip().splitlines()[-1]
        fails = [x for x in p.stdout.splitlines() if x.startswith('FAILED')]
        demo = ['bash', os.path.join(OUT, sid, 'demo.sh')]
        a = subprocess.run(demo, cwd=REPO, capture_output=True, text=True)
        b = subprocess.run(demo, cwd=r, capture_output=True, text=True)
        ok = p.returncode == 0 and a.returncode == 0 and b.returncode != 0
        return '%s %s tests: %s; demo clean %d, patched %d %s%s' % (
            sid, 'OK  ' if ok else 'BAD ', last, a.returncode, b.returncode,
            (a.stdout + a.stderr)[-300:] if a.returncode else
            b.stdout.strip()[-100:], '\n    '.join([''] + fails[:3]))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def check(sid):
    w, r = prepare(sid)
    try:
        t = time.time()
        prop = seeds.SEEDS[sid]['prop']
        env = dict(os.environ, VERIF_REPO=r)
        p = subprocess.run(['python3-vt', 'check.py', prop], cwd=VERIF,
                           env=env, capture_output=True, text=True)
        lines = [x for x in p.stdout.splitlines()
                 if x.startswith('VIOLATION')]
        ok = p.returncode == 1 and lines
        return '%s %s %s exit %d %.0f s %s' % (
            sid, prop, 'CAUGHT' if ok else 'MISSED', p.returncode,
            time.time() - t, (lines or [''])[0][:150])
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(seeds.SEEDS)
    if cmd == 'write':
        for s in ids:
            write(s)
    elif cmd == 'test':
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for r in ex.map(test, ids):
                print(r, flush=True)
    elif cmd == 'check':
        for s in ids:
            print(check(s), flush=True)


main()
