"""mkseed.py ID PROPERTY FILE <<< json {"old","new","needs","breaks","demo"}; writes seeded/ID (old/new may be lists of pairs with files)."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(sid, prop, edits, needs, breaks, demo):
    w = tempfile.mkdtemp(prefix='/tmp/mkseed.')
    try:
        subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
        for f, old, new in edits:
            p = os.path.join(w, 'repo', f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = subprocess.check_output(['git', '-C', w + '/repo', 'diff'], text=True)
    finally:
        shutil.rmtree(w)
    o = os.path.join(V, 'seeded', sid)
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    open(o + '/demo.py', 'w').write(demo.lstrip('\n'))
    open(o + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository root\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" '
                                    'exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + '/meta.json', 'w'), indent=1)
