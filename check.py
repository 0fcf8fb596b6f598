#!/usr/bin/env python3
"""Decide one property on /repo's current sources.

  check.py --property ID        environment: VERIF_TIER (quick or thorough), VERIF_SEED

1. clang's AST of the current sources is translated to WhyML, function by function, with the contracts in specs/.
2. why3 makes the proof obligations, z3 and cvc5 discharge them; the theories the contracts use are proved too.
3. The real code runs against an oracle (replay/): this gives the failing input when an obligation fails,
   and is the labelled bounded check of what is not under contract.
"""
import sys, os, json, time, tempfile, shutil, subprocess, argparse, threading, re, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from concurrent.futures import ThreadPoolExecutor
from cv import front, spec, unit, prove, props
from cv.types import TransError

def log(*a): print(*a, flush=True)

# ------------------------------------------------------------------ the replay harness
class Harness:
    def __init__(self, name, tmp):
        self.name = name; self.tmp = tmp; self.bin = None; self.err = ''
        self.t = threading.Thread(target=self.build); self.t.start()
    def build(self):
        try: self.build_()
        except Exception as e: self.err = 'harness: %s' % e
    def build_(self):
        srcs, flags, libs = props.HARNESS[self.name]
        d = os.path.join(self.tmp, 'h'); os.makedirs(d, exist_ok=True)
        gen = os.path.join(self.tmp, 'hgen'); front.gen_headers(gen)
        base = ['clang++', '-std=c++14', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] + front.inc_flags(gen) + ['-I' + os.path.join(VERIF, 'replay')] + flags
        files = [os.path.join(front.REPO, s) for s in srcs] + [os.path.join(VERIF, 'replay', 'h_%s.cpp' % self.name)]
        js = []
        for i, f in enumerate(files):
            o = os.path.join(d, '%d.o' % i)
            js.append((f, o, subprocess.Popen(base + ['-c', f, '-o', o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
        for f, o, p in js:
            _, e = p.communicate()
            if p.returncode: self.err += 'compiling %s: %s' % (f, e[-1500:])
        if self.err: return
        b = os.path.join(d, 'harness')
        r = subprocess.run(base + [o for _, o, _ in js] + ['-o', b] + libs, capture_output=True, text=True)
        if r.returncode: self.err = r.stderr[:600] + r.stderr[-900:]; return
        self.bin = b
    def run(self, pid, seed, secs):
        """(status, text): ok, fail or error"""
        self.t.join()
        if not self.bin: return 'error', self.err
        w = os.path.join(self.tmp, 'run'); os.makedirs(w, exist_ok=True)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=4000', UBSAN_OPTIONS='print_stacktrace=1', CV_SCRATCH=w, TMPDIR=w)
        try: r = subprocess.run([self.bin, pid, str(seed), str(secs)], capture_output=True, cwd=w, env=env, timeout=secs * 8 + 120)
        except subprocess.TimeoutExpired: return 'error', 'the harness did not end'
        out = r.stdout.decode('utf-8', 'replace'); e = r.stderr.decode('utf-8', 'replace')
        if r.returncode == 0 and out.rstrip().endswith('OK'): return 'ok', out
        if 'FAIL case:' in e: return 'fail', e
        return 'error', 'exit %s: %s' % (r.returncode, e[-1500:])

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('--property', required=True); ap.add_argument('--no-harness', action='store_true')
    a = ap.parse_args()
    pid = a.property; P = props.PROPS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='cv-%s-' % pid, dir='/tmp')
    rc = 2
    try: rc = check(pid, P, tier, seed, tmp, t0, a)
    except front.FrontError as e: log('ERROR: the sources cannot be read: %s' % e)
    except Exception: traceback.print_exc(file=sys.stdout)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(pid, P, tier, seed, tmp, t0, a):
    H = Harness(P['harness'], tmp) if P.get('harness') else None
    build = os.path.join(tmp, 'b')
    pool = ThreadPoolExecutor(8)
    front.gen_headers(os.path.join(tmp, 'gen'))
    prog = front.Program(P['tus'], os.path.join(tmp, 'gen'))
    specs = spec.load(os.path.join(VERIF, 'specs'))
    G = unit.Global(prog, specs, build, os.path.join(VERIF, 'theories'))
    problems = []      # functions that could not be brought to the verifier: bounded only
    fns = []
    queue = []
    for q in P['fns']:
        m = re.match(r'^(.*?)(?:\((.*)\))?$', q)
        c = [f for f in prog.fns.values() if f.qual == m.group(1) and G.contract_of(f) and (m.group(2) is None or ','.join(f.ptypes) == m.group(2))]
        c = [t for f in c for t in G.targets(f) if t[0].body is not None]
        if not c: problems.append((q, 'not in the source, or its parameters do not fit the contract'))
        queue += c
    own = {re.match(r'^[^(]*', q).group(0) for q in P['fns']}
    # what the functions call through contracts is verified as well, here or by the check of another property
    done = set(); jobs = []; trusted = {}; inlined = set(); elsewhere = {}
    cut = P.get('cut', {})
    lock = threading.Lock()
    def prep(t):
        f, sp, kinds = t
        u = unit.Unit(G, f, sp, kinds)
        txt = u.build()
        nm = re.sub(r'\W+', '_', f.sig)[:150]
        p = os.path.join(build, 'u_%s.mlw' % nm); open(p, 'w').write(txt)
        return u, txt, prove.obligations(p, [build], os.path.join(build, 'o_' + nm))
    theory_jobs = [(t, pool.submit(prove.obligations, os.path.join(build, t + '.mlw'), [build], os.path.join(build, 'o_t_' + t))) for t in P.get('theories', [])]
    frontier = queue
    while frontier:
        todo = []
        for t in frontier:
            f = t[0]
            if f.sig in done: continue
            done.add(f.sig)
            if f.qual in cut and f.qual not in own: elsewhere[f.sig] = cut[f.qual]; continue
            if t[1].trusted: trusted[f.sig] = t[1].trusted; continue
            if f.body is None: trusted[f.sig] = 'no body in the sources read'; continue
            todo.append(t)
        frontier = []
        for f, j in [(t[0], pool.submit(prep, t)) for t in todo]:
            try: u, txt, obs = j.result()
            except (TransError, prove.WhyError, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError) as e:
                problems.append((f.sig, '%s: %s' % (type(e).__name__, str(e)[:600]))); continue
            jobs.append((f, u, txt, obs)); inlined |= u.inlined
            for m in u.vals:
                g = prog.fns.get(m)
                if g is None: continue
                if g.qual in cut and g.qual not in own: elsewhere[g.qual] = cut[g.qual]; continue
                frontier += [t for t in G.targets(g) if t[0].sig not in done]
    long = 30 if tier == 'quick' else 120
    futs = [(f.sig, u, txt, obs, prove.discharge(obs, pool, long)) for f, u, txt, obs in jobs]
    tfuts = []
    for t, j in theory_jobs:
        obs = j.result(); tfuts.append(('theory ' + t, None, open(os.path.join(build, t + '.mlw')).read(), obs, prove.discharge(obs, pool, long)))
    failed = []; total = 0; ok = 0; by = {}; stime = 0.0; slow = (0, ''); fnrec = []; vacuous = []
    for name, u, txt, obs, fs in futs + tfuts:
        n = d = 0; reach = {}; st = 0.0
        for o in [x.result() for x in fs]:
            stime += o.t; st += o.t
            if o.expl.startswith('Reach'): reach.setdefault(o.expl, []).append(o.ok); continue
            n += 1
            if o.t > slow[0]: slow = (round(o.t, 1), '%s / %s' % (name, o.name))
            if o.ok: d += 1; by[o.by] = by.get(o.by, 0) + 1
            else: failed.append((name, o, txt))
        for k, v in reach.items():
            if all(v): vacuous.append('%s: %s' % (name, k))
        if n == 0: vacuous.append('%s: no obligations' % name)
        total += n; ok += d
        fnrec.append(dict(function=name, obligations=n, discharged=d, solver_s=round(st, 1)))
    if any(v.endswith('Reach 0') or 'no obligations' in v for v in vacuous): raise RuntimeError('vacuous contract: %s' % vacuous)
    tp = time.time() - t0
    # ---- the real code against the oracle
    secs = P.get('secs', 8) if tier == 'quick' else 120
    if problems or failed: secs = max(secs, 30)
    hs, htext = ('none', '') if H is None or a.no_harness else H.run(pid, seed, secs)
    log('%s: %d of %d obligations discharged for %d functions and %d theories in %.0f s; not under the verifier: %d; real code against the oracle: %s' % (pid, ok, total, len(futs), len(tfuts), tp, len(problems), hs))
    for p in problems: log('BOUNDED ONLY %s: %s' % p)
    for name, o, _ in failed[:20]: log('NOT DISCHARGED %s / %s (line %s): %s' % (name, o.name, o.loc, o.why[:200]))
    cov = dict(obligations=total, discharged=ok, checker_cmd='python3 check.py --property %s (clang AST -> WhyML -> why3 split_vc -> z3 4.8.12, z3-new 5.x, cvc5 1.1.2)' % pid,
               functions=fnrec, by_solver=by, solver_s=round(stime, 1), slowest=list(slow), inlined=sorted(inlined), trusted_functions=trusted, proved_by_the_check_of=elsewhere,
               bounded_only=[dict(function=p[0], reason=p[1]) for p in problems] + P.get('bounded', []),
               unreachable_points=vacuous, reachability='entry of every function: false is not provable under its preconditions',
               trusted_base=trusted_base(build, P, trusted))
    m = re.search(r'CASES (\d+)\nDISTINCT (\d+)', htext) if hs == 'ok' else None
    if m:
        cov['evaluations'] = int(m.group(1)); cov['distinct_nontrivial'] = int(m.group(2)); cov['rule'] = 'bounded: runs of the real code (address and undefined-behaviour sanitizers) against an oracle written from the property, replay/h_%s.cpp; distinct by their whole input' % P['harness']
        cov['samples'] = re.findall(r'^SAMPLE (.*)$', htext, re.M)[:8]
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=ASSUME + P.get('assume', []), wall_s=0, violations=0)
    viol = None
    if hs == 'fail':
        viol = 'input'
    elif failed: viol = 'obligation'
    if hs == 'error':
        log('ERROR: the harness of the real code: %s' % htext[-3000:])
        if not failed: write_ev(ev, t0); return 2
    if viol:
        known = known_findings(pid)
        if viol == 'input':
            case = '\n'.join(l for l in htext.split('\n') if l.startswith('FAIL'))
            for k in known:
                if k in case: log('KNOWN-FINDING: property=%s %s' % (pid, k)); write_ev(ev, t0); return 0
        d = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, '%s.txt' % pid)
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            if hs == 'fail': f.write('\nFailing input (run on the real code):\n%s\nTo run it again: python3 %s/replay/run.py %s %d %s\n\nFull output:\n%s\n' % (case, VERIF, pid, seed, secs, htext[-20000:]))
            for name, o, txt in failed:
                ln = txt.split('\n')[int(o.loc) - 1].strip() if o.loc else ''
                f.write('\nObligation not discharged: %s / %s\n  at: %s\n  solvers: %s\n' % (name, o.name, ln, o.why))
            for p in problems: f.write('\nNot brought to the verifier: %s: %s\n' % p)
        ev['violations'] = 1
        write_ev(ev, t0)
        log('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if viol == 'input' else ' no-failing-input-found'))
        return 1
    write_ev(ev, t0)
    return 0

def write_ev(ev, t0):
    ev['wall_s'] = round(time.time() - t0, 1)
    d = os.path.join(VERIF, 'evidence'); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, ev['property'] + '.json'), 'w'), indent=1)

def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^finding: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == pid: out.append(m.group(2))
    return out

ASSUME = [
  'machine integers are bounded: unsigned arithmetic wraps, every signed operation is checked for overflow',
  'the standard library behaves as its contracts in theories/cxx.mlw say; allocation does not fail and a string is at most 2^62 bytes long',
  'objects passed by reference to one call do not overlap; destructors of locals and stack unwinding have no effect on the state the contracts mention',
  'what the translation drops is listed in DESIGN.md',
]

def trusted_base(build, P, trusted):
    """axioms and bodiless functions of the theories that no proof here discharges"""
    out = ['clang 18 front end, cv/ (translation), why3 1.7, z3, cvc5']
    t = open(os.path.join(build, 'cxx.mlw')).read()
    out.append('theories/cxx.mlw: machine model, %d axioms and %d library contracts' % (len(re.findall(r'^\s*axiom ', t, re.M)), len(re.findall(r'^\s*val (?!function|ref|constant)', t, re.M))))
    for k, v in trusted.items(): out.append('assumed contract: %s (%s)' % (k, v))
    return out + P.get('trusted', [])

if __name__ == '__main__': main()
