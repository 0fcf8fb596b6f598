import sys, os, time
sys.path.insert(0, '/verif')
from cv import front, spec, unit, prove
from concurrent.futures import ThreadPoolExecutor
import tempfile, shutil
# dev: python3 -m cv.dev TU,TU qual [-v] [-k]
tus = sys.argv[1].split(','); quals = [a for a in sys.argv[2:] if not a.startswith('-')]
build = '/tmp/w/build'; shutil.rmtree(build, ignore_errors=True); os.makedirs(build)
front.gen_headers(build + '/gen')
P = front.Program(tus, build + '/gen')
G = unit.Global(P, spec.load('/verif/specs'), build, '/verif/theories')
pool = ThreadPoolExecutor(8)
os.makedirs('/tmp/w/cache', exist_ok=True); prove.CACHE = '/tmp/w/cache'
for q in quals:
    fs = {}
    for f in P.fns.values():
        if f.qual.endswith(q) and G.contract_of(f) and not G.contract_of(f).trusted:
            for t in G.targets(f):
                if t[0].body is not None: fs[t[0].mangled] = t
    if not fs: print('no contract/definition for', q)
    for f, sp, kinds in fs.values():
        if [a for a in sys.argv if a.startswith("-f")] and not any(a[2:] in f.sig for a in sys.argv if a.startswith("-f")): continue
        try:
            u = unit.Unit(G, f, sp, kinds)
            txt = u.build()
        except unit.TransError as e: print('TRANS', f.sig, e); continue
        p = '%s/%s.mlw' % (build, f.qual.replace('::', '_').replace('~','_')); open(p, 'w').write(txt)
        if '-v' in sys.argv: print(txt)
        t0 = time.time()
        obs = [] if "-n" in sys.argv else prove.obligations(p, [build], build + '/o_' + __import__('re').sub(r'\W+', '_', f.sig))
        pat = [a[2:] for a in sys.argv if a.startswith('-e')]
        L_ = txt.split('\n')
        if pat: obs = [o for o in obs if __import__('re').search(pat[0], o.expl + ' @' + o.loc + ' ' + (L_[int(o.loc) - 1] if o.loc else ''))]; print(len(obs), 'chosen')
        fut = prove.discharge(obs, pool, 12)
        bad = 0; reach = {}
        for x in fut:
            o = x.result()
            if o.expl.startswith('Reach'):
                reach.setdefault(o.expl, []).append(o.ok); continue
            if not o.ok:
                bad += 1; print('  FAIL', o.i, o.name, 'line', o.loc, '|', txt.split('\n')[int(o.loc)-1].strip()[:160] if o.loc else ''); print('      ', o.why, o.files['Z3'])
            elif o.t > 3: print('  slow', o.i, o.name, o.by, '%.1f' % o.t)
        for k, v in reach.items():
            if all(v): print('  VACUOUS', k)
        print(f.sig, len(obs), 'obligations', bad, 'failed', '%.1fs' % (time.time() - t0))
for a in sys.argv:
    if a.startswith('-t'):
        obs = prove.obligations(build + '/' + a[2:] + '.mlw', [build], build + '/o_th_' + a[2:])
        for x in prove.discharge(obs, pool, 12):
            o = x.result()
            if not o.ok: print('  FAIL', o.i, o.name, 'line', o.loc, o.why, o.files['Z3'])
        print('theory', a[2:], len(obs))
