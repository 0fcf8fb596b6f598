"""WhyML module -> obligations (why3) -> solvers."""
import os, re, subprocess, time, glob, hashlib, threading, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONF = os.path.join(VERIF, 'cv', 'why3.conf')
CACHE = os.environ.get('CV_CACHE')   # development only: never set by a registered command

class Ob:
    """one proof obligation"""
    def __init__(self, i, goal, expl, loc): self.i = i; self.goal = goal; self.expl = expl; self.loc = loc; self.files = {}; self.ok = None; self.by = ''; self.t = 0.0; self.why = ''
    @property
    def name(self): return '%s: %s' % (self.goal, self.expl)

class WhyError(Exception): pass

def why3(args, timeout=300):
    return subprocess.run(['why3', '-C', CONF] + args, capture_output=True, text=True, timeout=timeout)

def obligations(path, libdirs, out):
    """split the module at path into obligations and write the solver files"""
    L = [x for d in libdirs for x in ('-L', d)]
    jobs = []
    for p in ('Z3', 'CVC5'):
        d = os.path.join(out, p)
        os.makedirs(d, exist_ok=True)
        jobs.append((p, d, subprocess.Popen(['why3', '-C', CONF, 'prove', '-a', 'split_vc'] + L + ['-P', p, '-o', d, path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    try: return obligations_(path, L, jobs)
    finally:
        for p, d, j in jobs:
            if j.poll() is None: j.kill(); j.wait()

def plain(f):
    """the triggers why3 writes for a mutable variable x are about (contents (ref'mk x)), which the solvers' matching does not see as x"""
    s = open(f).read()
    t = re.sub(r'\(contents\d*\s+\(refqtmk\d*\s+([^\s()]+)\)\)', r'\1', s)
    if t != s: open(f, 'w').write(t)

def obligations_(path, L, jobs):
    r = why3(['prove', '-a', 'split_vc'] + L + ['-P', 'Names', path])
    obs = []
    loc = ''
    if r.returncode not in (0, 2) or 'Prover result' not in r.stdout:
        raise WhyError((r.stderr + r.stdout).strip()[-1500:] or 'no obligations')
    if r.stderr.strip() and 'warning' not in r.stderr.lower(): raise WhyError(r.stderr.strip()[-1500:])
    for blk in r.stdout.split('Prover result is')[:-1]:
        blk = re.sub(r'\s+', ' ', blk)
        m = re.search(r'File "[^"]*", line (\d+), characters', blk)
        loc = m.group(1) if m else ''
        m = re.search(r'(?:Sub-goal (.*) of goal (\S+)|Goal (\S+))\. $', blk)
        if not m: raise WhyError('cannot read: ' + blk[-300:])
        obs.append(Ob(len(obs), (m.group(2) or m.group(3)).replace("'vc", ''), m.group(1) or 'Goal', loc))
    for p, d, j in jobs:
        j.wait()
        fs = [f for f in glob.glob(os.path.join(d, '*.smt2')) if '.pruned' not in f]
        # files of one goal: X.smt2, X1.smt2, ...; goals in the order of the file
        by = {}
        for f in fs:
            plain(f)
            b = os.path.basename(f)[:-5]
            m = re.match(r'^(.*qtvc|.*?)(\d*)$', b)
            g = m.group(1); k = int(m.group(2) or 0)
            by.setdefault(g, {})[k] = f
        order = []
        for o in obs:
            if not order or order[-1][0] != o.goal: order.append([o.goal, []])
            order[-1][1].append(o)
        mod = None
        for goal, os_ in order:
            gq = goal.replace("'", 'qt')
            cand = [g for g in by if g.endswith('-' + gq + 'qtvc') or g.endswith('-' + gq)]
            if len(cand) != 1: raise WhyError('solver files of %s: %s' % (goal, sorted(by)))
            files = by[cand[0]]
            if len(files) != len(os_): raise WhyError('solver files of %s: %d for %d obligations' % (goal, len(files), len(os_)))
            for k, o in zip(sorted(files), os_): o.files[p] = files[k]
    return obs

SOLVERS = {
  'Z3':   lambda f, t: ['z3', '-smt2', 'auto_config=false', 'smt.mbqi=false', 'smt.auto_config=false', 'sat.random_seed=42', 'smt.random_seed=42', '-T:%d' % t, f],
  'Z3N':  lambda f, t: ['z3-new', '-smt2', 'auto_config=false', 'smt.mbqi=false', 'smt.auto_config=false', 'sat.random_seed=42', 'smt.random_seed=42', '-T:%d' % t, f],
  'CVC5': lambda f, t: ['cvc5', '--tlimit=%d000' % t, '--lang=smt2', f],
}
FILES = {'Z3': 'Z3', 'Z3N': 'Z3', 'CVC5': 'CVC5'}

def run1(solver, f, t):
    t0 = time.time()
    key = None
    if CACHE:
        key = os.path.join(CACHE, hashlib.md5((solver + open(f).read()).encode()).hexdigest())
        if os.path.exists(key): return 'unsat', 0.0
    try:
        r = subprocess.run(SOLVERS[solver](f, t), capture_output=True, text=True, timeout=t + 5)
        a = (r.stdout.strip().split('\n') or [''])[0].strip()
    except subprocess.TimeoutExpired: a = 'timeout'
    if a == 'unsat' and key: open(key, 'w').write('')
    return a, time.time() - t0

TOK = re.compile(r'[^\s()]+')
def forms(s):
    """the top level forms of an SMT file"""
    out = []; i = 0; n = len(s)
    while i < n:
        c = s[i]
        if c == ';': i = s.find('\n', i) % (n + 1)
        elif c == '(':
            d = 0; j = i
            while True:
                ch = s[j]
                if ch == '(': d += 1
                elif ch == ')':
                    d -= 1
                    if d == 0: break
                elif ch == '|': j = s.index('|', j + 1)
                elif ch == '"': j = s.index('"', j + 1)
                elif ch == ';': j = s.index('\n', j)
                j += 1
            out.append(s[i:j+1]); i = j + 1
        else: i += 1
    return out

def prune(f, rounds=2):
    """a copy of the obligation without the quantified hypotheses about other variables than those connected to the goal; leaving out a hypothesis is always sound"""
    F = forms(open(f).read())
    loc = set()
    for t in F:
        m = re.match(r'\((?:declare-const\s+(\S+)|declare-fun\s+(\S+)\s+\(\s*\)|define-fun\s+(\S+)\s+\(\s*\))', t)
        if m: loc.add(m.group(1) or m.group(2) or m.group(3))
    A = [i for i, t in enumerate(F) if t.startswith('(assert')]
    sy = {i: set(TOK.findall(F[i])) & loc for i in A}
    q = {i: '(forall' in F[i] or '(exists' in F[i] for i in A}
    goal = A[-1]; R = set(sy[goal])
    for _ in range(rounds): R = R.union(*[sy[i] for i in A if not q[i] and sy[i] & R])
    drop = {i for i in A if i != goal and q[i] and sy[i] and not sy[i] <= R}
    p = f[:-5] + '.pruned%d.smt2' % rounds
    open(p, 'w').write('\n'.join(t for i, t in enumerate(F) if i not in drop) + '\n')
    return p

def relevant(f):
    """a copy of the obligation without the axioms of the theories about functions that the goal does not speak of; also always sound"""
    F = forms(open(f).read())
    funs = set(); loc = set()
    for t in F:
        m = re.match(r'\((?:declare-fun|define-fun|declare-const)\s+(\S+)\s*(\(\s*\))?', t)
        if m: (loc if m.group(2) or t.startswith('(declare-const') else funs).add(m.group(1))
    A = [i for i, t in enumerate(F) if t.startswith('(assert')]
    tk = {i: set(TOK.findall(F[i])) for i in A}
    S = tk[A[-1]] & funs
    for fam in (r'h(get|set)\d*$', r'l(len|get|set|snoc|cons|sub|cat|rem|ins|empty)\d*$', r's(len|empty)\d*$'):
        k = {x for x in funs if re.match(fam, x)}
        if k & S: S |= k
    drop = {i for i in A[:-1] if not tk[i] & loc and not tk[i] & funs <= S}
    p = f[:-5] + '.relevant.pruned.smt2'
    open(p, 'w').write('\n'.join(t for i, t in enumerate(F) if i not in drop) + '\n')
    return p

def discharge(obs, pool, long=25, log=None):
    """every obligation by the first solver that proves it; once two have failed, the others get less time"""
    nfail = []
    def one(o):
        why = []
        if o.expl.startswith('Reach'):
            a, dt = run1('Z3', o.files['Z3'], 2); o.ok = a == 'unsat'; o.t += dt; return o
        small = {}
        for t, ss, less in ((1, ('Z3',), None), (1, ('Z3N',), relevant), (1, ('CVC5', 'Z3N'), None), (2, ('Z3', 'CVC5'), relevant), (3, ('Z3N', 'CVC5', 'Z3'), prune), (5, ('Z3N', 'CVC5', 'Z3'), None),
                            (long, ('CVC5', 'Z3N', 'Z3'), prune), (8, ('Z3N', 'CVC5'), relevant), (long, ('CVC5', 'Z3N', 'Z3'), None)):
            for s in ss:
                if t == long and len(nfail) >= 2: continue
                f = o.files[FILES[s]]
                if less:
                    if (f, less) not in small: small[f, less] = less(f)
                    f = small[f, less]
                a, dt = run1(s, f, t)
                o.t += dt
                if a == 'unsat': o.ok = True; o.by = s; return o
                why.append('%s%s: %s after %.1fs' % (s, ' (fewer hypotheses)' if less else '', a or 'no answer', dt))
        nfail.append(o); o.ok = False; o.why = '; '.join(why)
        return o
    return [pool.submit(one, o) for o in obs]
