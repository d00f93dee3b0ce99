#!/usr/bin/env python3
"""plant.py BATCH.py [ids...]: BATCH defines BUGS = [dict(id, prop, file, edits=[(old,new)], needs, breaks, demo)]"""
import sys, os, json, subprocess, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
BASE = subprocess.run("git -C /repo log --format=%H --grep=^fix: --invert-grep | head -1", shell=True, capture_output=True, text=True).stdout.strip()
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def ns(copy, cmd, timeout=900):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (copy, cmd), timeout=timeout)
SH = '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$d/demo.py"\n'
def one(b):
    copy = '/tmp/w/cp/' + b['id']
    shutil.rmtree(copy, ignore_errors=True)
    sh('cp -a /repo ' + copy)
    try:
        edits = b['edits']
        for e in edits:
            f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
            p = os.path.join(copy, 'x7/geom', f)
            s = open(p).read()
            if s.count(old) != 1: return b['id'], 'EDIT matches %d times: %r' % (s.count(old), old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % copy).stdout
        note = ''
        cur = None
        for l in diff.splitlines():
            if l.startswith('+++ '): cur = sh('git -C /repo show %s:%s' % (BASE, l[6:])).stdout.splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in cur: note += ' NOT-ORIGINAL(%s)' % l[1:].strip()[:40]
        d = '/verif/seeded/' + b['id']
        tmp = '/tmp/w/cp/%s.demo' % b['id']
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(tmp + '/demo.sh', 'w').write(SH); os.chmod(tmp + '/demo.sh', 0o755)
        a = sh('cd /repo && bash %s/demo.sh' % tmp, timeout=300)
        if a.returncode: return b['id'], 'DEMO fails unpatched: ' + (a.stdout + a.stderr)[-400:]
        c = ns(copy, 'bash %s/demo.sh' % tmp, 300)
        if not c.returncode: return b['id'], 'DEMO passes patched'
        t = ns(copy, 'bash /opt/vp/test.sh /tmp/w/cp/%s.json' % b['id'])
        o = json.load(open('/tmp/w/cp/%s.json' % b['id']))
        miss = set(stable) - set(o.get('passed') or [k for k, v in o.items() if v in ('pass', 'passed', True)])
        if miss: return b['id'], 'TESTS fail: %s' % sorted(miss)[:3]
        bl = ns(copy, 'bash /opt/vp/build.sh')
        if bl.returncode: return b['id'], 'BUILD fails'
        os.makedirs(d, exist_ok=True)
        for f in ('demo.py', 'demo.sh'): shutil.copy(tmp + '/' + f, d + '/' + f)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        k = ns(copy, 'cd /verif && ./run_check %s --no-evidence' % b['prop'])
        viol = [l for l in k.stdout.splitlines() if l.startswith('  facet ')]
        res = 'caught' if k.returncode == 1 else 'MISSED' if k.returncode == 0 else 'ERROR rc=%d %s' % (k.returncode, (k.stdout + k.stderr)[-300:])
        return b['id'], res + note + ' | ' + (viol[0].strip()[:150] if viol else '') + ' | demo: ' + (c.stdout + c.stderr).strip().splitlines()[-1][:80]
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree('/tmp/w/cp/%s.demo' % b['id'], ignore_errors=True)
bugs = runpy.run_path(sys.argv[1])['BUGS']
if len(sys.argv) > 2: bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, bugs): print('%-12s %s' % r, flush=True)
