#!/usr/bin/env python3
"""seed.py <definition.py>...: makes seeded/<id>/ from a definition: id, prop, needs, breaks, edits=[(file, old, new)], demo (python text using demolib)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
def make(id, prop, needs, breaks, edits, demo):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    w = '/tmp/seedwt-' + id
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune']); shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + w, shell=True, check=True)
    subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x', shell=True, cwd=w, check=True)
    for f, old, new, *nth in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert (nth or s.count(old) == 1) and old in s, (id, f, s.count(old), old)
        i = -1
        for _ in range(nth[0] if nth else 1): i = s.index(old, i + 1)
        open(p, 'w').write(s[:i] + new + s[i + len(old):])
    diff = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n'); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n' + demo)
    shutil.copy(os.path.join(HERE, 'demolib.py'), d)
    shutil.rmtree(w)
    print('made', id)
for f in sys.argv[1:]:
    exec(open(f).read(), dict(make=make))
