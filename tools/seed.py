#!/usr/bin/env python3
"""Development tool: tools/seed.py make ID PROPERTY FILE  <<< OLD====NEW  |  tools/seed.py test [-c] ID...
make writes seeded/ID/patch.diff from a text replacement; test confirms it (builds, passes the tests, the demo fails only with it);
-c also runs the property's check against it.  /repo is left as it was."""
import sys, os, subprocess, json
V = '/verif'; R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
def clean(): sh('git -C /repo checkout -- .')
def make(id, prop, file):
    R = '/tmp/seedrepo'; sh('rm -rf /tmp/seedrepo; git clone -q /repo /tmp/seedrepo')
    old, new = sys.stdin.read().rstrip('\n').split('\n====\n')
    p = os.path.join(R, file); s = open(p, encoding='latin-1').read()
    assert s.count(old) == 1, 'found %d times' % s.count(old)
    open(p, 'w', encoding='latin-1').write(s.replace(old, new))
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'ab' if '+' in sys.argv else 'wb').write(subprocess.run('git -C /tmp/seedrepo diff', shell=True, capture_output=True).stdout)
    sh('rm -rf /tmp/seedrepo')
    m = d + '/meta.json'
    if not os.path.exists(m): json.dump(dict(property=prop, needs='', what_it_breaks=''), open(m, 'w'), indent=1)
def tests():
    r = sh('bash /opt/vp/test.sh /tmp/w/t.json')
    try: return set(json.load(open('/tmp/w/t.json'))['passed'])
    except Exception: return set()
def demo(id): return sh('cp -r %s/seeded/%s /tmp/w/demo_%s; cd /repo; bash /tmp/w/demo_%s/demo.sh; echo rc=$?; rm -rf /tmp/w/demo_%s' % (V, id, id, id, id), timeout=300)
def rc(r): return r.stdout.strip().split('rc=')[-1]
def test(ids, check):
    base = json.load(open('/opt/vp/BASELINE.json')); base = set(base['stable'])
    clean(); sh('bash /opt/vp/build.sh')
    res = {}
    for i in ids: r = demo(i); res[i] = [rc(r)]; 
    for i in ids:
        if res[i][0] != '0': print(i, 'demo fails on the unchanged tree', demo(i)); continue
        a = sh('git -C /repo apply %s/seeded/%s/patch.diff' % (V, i))
        if a.returncode: print(i, 'does not apply', a.stderr); continue
        try:
            t = tests(); ok = base <= t
            d = demo(i)
            msg = '%s tests %s demo rc=%s' % (i, 'pass' if ok else 'FAIL %s' % sorted(base - t)[:3], rc(d))
            if check:
                pid = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
                c = sh('cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 check.py --property %s' % pid, timeout=1000)
                msg += ' | check rc=%d %s' % (c.returncode, [l for l in c.stdout.split('\n') if 'VIOLATION' in l or 'discharged' in l])
            print(msg, flush=True)
        finally: clean()
    sh('bash /opt/vp/build.sh')
if sys.argv[1] == 'make': make(*sys.argv[2:5])
else: test([a for a in sys.argv[2:] if a != '-c'], '-c' in sys.argv)
