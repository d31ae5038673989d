#!/usr/bin/env python3
"""mkseed.py ID: writes seeded/ID/{patch.diff,demo.sh,demo.cpp,meta.json} from
tools/seeds.py, against /repo's HEAD (in a scratch worktree)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
d=$(mktemp -d /tmp/demo-XXXXXX)
trap 'rm -rf "$d"' EXIT
%(cxx)s %(flags)s -I"$root/include" "$here/demo.cpp" %(extra)s -o "$d/demo" || exit 2
"$d/demo"
'''


def make(i):
    s = seeds.S[i]
    w = tempfile.mkdtemp(prefix='seedw-', dir='/tmp')
    subprocess.check_call(['git', '-C', REPO, 'worktree', 'add', '-q',
                           '--detach', w + '/r', 'HEAD'])
    try:
        for f, a, b in s['edits']:
            p = os.path.join(w, 'r', f)
            t = open(p).read()
            assert t.count(a) == 1, (i, f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        d = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
    finally:
        subprocess.call(['git', '-C', REPO, 'worktree', 'remove', '--force',
                         w + '/r'])
        shutil.rmtree(w, ignore_errors=True)
    o = os.path.join(ROOT, 'seeded', i)
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'wb').write(d)
    open(o + '/demo.cpp', 'w').write(s['demo'])
    open(o + '/demo.sh', 'w').write(SH % dict(
        cxx=s.get('cxx', 'g++ -O1'), flags=s['flags'],
        extra=s.get('extra', '"$root/src/fp16.cpp"')))
    os.chmod(o + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'],
               'what_it_breaks': s['what']}, open(o + '/meta.json', 'w'),
              indent=1)


for i in sys.argv[1:] or seeds.S:
    make(i)
