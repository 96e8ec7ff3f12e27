#!/usr/bin/env python3
"""plant.py SPEC.py [ids...]: SPEC defines BUGS = [dict(id, prop, file, old, new, what, needs, demo)].
Makes /verif/seeded/<id>/ from each bug that passes the stable tests and whose demo tells the trees apart;
then runs the property's check against the changed scratch copy and prints what it said."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
SH = '#!/bin/sh\nexport OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n'

def run(cmd, cwd=None, env=None, t=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout

def tests(repo, w):
    s = open('/opt/vp/test.sh').read().replace('REPO=/repo', 'REPO=' + repo).replace('W=/opt/vp/work', 'W=' + w).replace('PYTHONPATH=/opt/vp/plugin\n', 'PYTHONPATH=/opt/vp/plugin:%s\n' % repo).replace('/opt/vp/plugin:$REPO/xmps', '/opt/vp/plugin:$REPO/xmps:$REPO')
    f = os.path.join(w, 't.sh'); open(f, 'w').write(s)
    run(['bash', f, os.path.join(w, 'o.json')])
    o = json.load(open(os.path.join(w, 'o.json')))
    return sorted(STABLE - set(o['passed']))

def one(b):
    td = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(td, 'repo'); w = os.path.join(td, 'w'); os.makedirs(w)
        run(['git', 'clone', '-q', '/repo', repo]); 
        edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
        for f, old, new in edits:
            s = open(os.path.join(repo, f)).read()
            if s.count(old) != 1: return b, 'BAD: old text found %d times in %s' % (s.count(old), f), ''
            open(os.path.join(repo, f), 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], repo)[1]
        d = os.path.join(td, 'seed'); os.makedirs(d)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0, o0 = run(['sh', os.path.join(d, 'demo.sh')], '/repo', {'PYTHONPATH': ''})
        if r0: return b, 'BAD: demo fails on the unchanged tree', o0[-800:]
        r1, o1 = run(['sh', os.path.join(d, 'demo.sh')], repo)
        if not r1: return b, 'BAD: demo passes with the change', ''
        lost = tests(repo, w)
        if lost: return b, 'BAD: breaks stable tests %s' % lost[:4], ''
        out = ''
        if os.path.exists(os.path.join(V, 'props', b['prop'] + '.py')):
            rc, out = run(['./check', b['prop']], V, {'XMPS_REPO': repo})
            verdict = 'CAUGHT' if rc == 1 and 'VIOLATION property=%s' % b['prop'] in out else 'MISSED rc=%d' % rc
        else: verdict = 'NO CHECK'
        dst = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
        lines = [l for l in out.splitlines() if 'VIOLATION' in l or 'UNDECIDED' in l]
        return b, verdict, '\n'.join(l[:200] for l in lines[:3]) + '\n' + (out.splitlines() or [''])[-1]
    finally:
        shutil.rmtree(td, ignore_errors=True)

g = {}
exec(open(sys.argv[1]).read(), g)
ids = sys.argv[2:]
with ThreadPoolExecutor(4) as ex:
    for b, v, o in ex.map(one, [b for b in g['BUGS'] if not ids or b['id'] in ids]):
        print('%-28s %s  %s' % (b['id'], b['prop'], v)); print('    ' + o.strip().replace('\n', '\n    '), flush=True)
