"""Plant a bug: python3 tools/seed.py ID PROPERTY < spec   (spec: JSON-free text, see below)

NEEDS: ...
BREAKS: ...
DEMO
<python program: exits 0 on the unchanged tree, non-zero with the change>
EDIT file
OLD
====
NEW
"""
import os, re, subprocess, sys, json, shutil, tempfile

BASE = 'ec6efd7'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    sid, prop = sys.argv[1:3]
    spec = sys.stdin.read()
    head, *edits = re.split(r'^EDIT (.*)\n', spec, flags=re.M)
    m = re.match(r'NEEDS: (.*?)\nBREAKS: (.*?)\nDEMO\n(.*)', head, re.S)
    needs, breaks, demo = m.groups()
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write(demo)
    with open(d + '/demo.sh', 'w') as f:
        f.write('#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': ' '.join(needs.split()), 'what_it_breaks': ' '.join(breaks.split())}, open(d + '/meta.json', 'w'), indent=1)
    w = tempfile.mkdtemp(prefix='seed')
    ok = True
    try:
        sh(f'cp -a /repo {w}/repo')
        r = w + '/repo'
        x = sh(f'{d}/demo.sh', cwd=r)
        if x.returncode:
            ok = False
            print('DEMO FAILS ON CLEAN TREE', x.stdout[-1500:])
        for i in range(0, len(edits), 2):
            fn = f'{r}/pdfsyntax/{edits[i].strip()}'
            old, new = edits[i + 1].split('\n====\n')
            s = open(fn).read()
            old, new = old.rstrip('\n'), new.rstrip('\n')
            if s.count(old) != 1:
                print('OLD TEXT OCCURS', s.count(old), 'times:', old)
                ok = False
                continue
            # the lines changed must be of the original tree
            open(fn, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=r).stdout
        open(d + '/patch.diff', 'w').write(diff)
        for fn in set(re.findall(r'^--- a/(.*)$', diff, re.M)):
            mine = set()
            for n, l in enumerate(sh(f'git blame -s {BASE}..HEAD -- {fn}', cwd=r).stdout.splitlines(), 1):
                if not l.startswith('^'):
                    mine.add(n)
            n = 0
            for l in sh(f'git diff -U0 -- {fn}', cwd=r).stdout.splitlines():
                m = re.match(r'@@ -(\d+)', l)
                if m:
                    n = int(m[1])
                elif l.startswith('-') and not l.startswith('---'):
                    if n in mine:
                        print('CHANGES A LINE OF A FIX:', fn, n, l)
                        ok = False
                    n += 1
        x = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -5', cwd=r, env={**os.environ, 'PYTHONDONTWRITEBYTECODE': '1'})
        if 'failed' in x.stdout or 'error' in x.stdout or 'passed' not in x.stdout:
            ok = False
            print('TESTS', x.stdout[-600:])
        x = sh(f'{d}/demo.sh', cwd=r)
        if x.returncode == 0:
            ok = False
            print('DEMO PASSES WITH THE CHANGE')
        else:
            print('demo with change:', x.stdout.strip()[-200:])
    finally:
        shutil.rmtree(w)
    print('OK' if ok else 'NOT OK', sid)


main()
