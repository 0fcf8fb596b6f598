"""One verified function: everything the WhyML module needs, and the text of the module."""
import re, os, json
from .types import Types, TransError, BITS, rng
from .trans import Trans, var_decls, V, LV, It, inner, strip, qt, dqt, strval, exc_code, ilit, paren, KEYWORDS
from . import lib

HEAP = ('Measurement', 'DataMeasurement', 'TextData', 'PlainText', 'StringText', 'NumericData', 'IntegerNumeric', 'FloatNumeric', 'DoubleNumeric',
        'BooleanNumeric', 'MeasurementFile', 'MeasurementVisitor', 'CompareVisitor', 'DifferenceVisitor', 'XMLParseData')
# the classes objects are made of, with the number that stands for each in the model
CONCRETE = {'PlainText': 1, 'StringText': 2, 'IntegerNumeric': 3, 'FloatNumeric': 4, 'DoubleNumeric': 5, 'BooleanNumeric': 6, 'MeasurementFile': 7,
            'DifferenceVisitor': 11, 'CompareVisitor': 12, 'XMLParseData': 21}
SINGLE = ('RegressionTest', 'Regression', 'tfPipeToXMLRegressionTest')

def lit_name(b):
    t = ''.join(chr(c) if (48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123) else '_%02x' % c for c in b)
    if len(t) > 40:
        import hashlib
        t = t[:24] + '_h' + hashlib.md5(b).hexdigest()[:10]
    return 'lit_' + t if b else 'sempty'

def lit_decl(b):
    n = lit_name(b)
    if n == 'sempty': return ''
    out = ['  val constant %s : str' % n, '  axiom %s_len : slen %s = %d' % (n, n, len(b))]
    if len(b) <= 10:
        for i, c in enumerate(b): out.append('  axiom %s_%d : sget %s %d = %s' % (n, i, n, i, ilit(c if c < 128 else c - 256)))
    return '\n'.join(out)

def lits_in(txt):
    out = []
    def f(m):
        b = strval({'value': m.group(1)}); out.append(b); return lit_name(b)
    return re.sub(r'LIT\(("(?:[^"\\]|\\.)*")\)', f, txt), out

class Global:
    """shared between units: program, contracts, generated theories"""
    def __init__(self, prog, specs, build, theories):
        self.prog = prog; self.specs = specs; self.build = build; self.types = Types(prog, HEAP, SINGLE)
        self.thlits = set(); self.byqual = {}
        pf = os.path.join(os.path.dirname(theories), 'specs', 'locals.json')
        self.pinned = json.load(open(pf)) if os.path.exists(pf) else {}
        for s in specs: self.byqual.setdefault(s.qual, []).append(s)
        os.makedirs(build, exist_ok=True)
        self.thfiles = []
        for f in sorted(os.listdir(theories)):
            if not f.endswith('.mlw'): continue
            txt, ls = lits_in(open(os.path.join(theories, f)).read())
            self.thlits |= set(ls)
            open(os.path.join(build, f), 'w').write(txt); self.thfiles.append(f)
        self.recs = {}
        open(os.path.join(build, 'lits.mlw'), 'w').write('module Lits\n  use cxx.Str\n%s\nend\n' % '\n'.join(lit_decl(b) for b in sorted(self.thlits)))
        open(os.path.join(build, 'recs.mlw'), 'w').write(self.recs_text())
    RECS = ('PathName', 'Base64', 'edit', 'partition', 'line', 'fumoffu')
    def recs_text(self):
        out = ['module Recs', '  use cxx.Cxx']
        done = []
        def do(c):
            if c in done: return
            done.append(c)
            cl = self.prog.classes.get(c)
            if not cl: return
            fs = []
            for nm, ty, _ in cl['fields']:
                t = self.types.parse(ty)
                for x in deps(t): do(x)
                fs.append('f_%s_%s : %s' % (c, nm, self.types.wty(t)))
            if not fs: fs = ['f_%s__none : int' % c]
            out.append('  type r_%s = { %s }' % (c, '; '.join(fs)))
            self.recs[c] = [f.split(' : ')[0] for f in fs]
        def deps(t):
            if t[0] == 'rec': return [t[1]]
            return [d for x in t[1:] if isinstance(x, tuple) for d in deps(x)] if t[0] in ('list', 'pair', 'mmap', 'arr') else []
        for c in self.RECS:
            try: do(c)
            except TransError as e: done.append(c)
        out.append('end\n')
        return '\n'.join(out)
    def spec_for(self, f):
        for s in self.byqual.get(f.qual, ()):
            if s.ptypes is not None and [norm(x) for x in s.ptypes] != [norm(x) for x in f.ptypes]: continue
            if s.ptypes is None and len(s.names) != len(f.params): continue
            if s.const is not None and s.const != f.const: continue
            return s
        return None
    def is_virtual(self, f): return bool(self.base_method(f, lambda b: b.virtual))
    def base_method(self, f, ok):
        """the method itself or one it overrides that satisfies ok"""
        if not f.cls or f.kind != 'CXXMethodDecl': return None
        for c in self.prog.bases(f.cls):
            b = self.method_in(c, f)
            if b is not None and ok(b): return b
        return None
    def method_in(self, c, f):
        ix = self.__dict__.setdefault('_mix', {})
        if not ix:
            for g in self.prog.fns.values():
                if g.cls: ix.setdefault((g.cls, g.name, tuple(norm(t) for t in g.ptypes), g.const), g)
        return ix.get((c, f.name, tuple(norm(t) for t in f.ptypes), f.const))
    def contract_of(self, f):
        """the contract a call of f is checked against: its own, or the one of the virtual function it overrides"""
        s = self.spec_for(f)
        if s is not None: return s
        b = self.base_method(f, lambda b: (lambda t: t is not None and t.virtual)(self.spec_for(b)))
        return self.spec_for(b) if b is not None else None
    def overriders(self, f):
        """final overrider -> classes it is the final overrider of"""
        out = {}
        for k in CONCRETE:
            if k in self.prog.classes and f.cls in self.prog.bases(k):
                for c in self.prog.bases(k):
                    g = self.method_in(c, f)
                    if g is not None: out.setdefault(g.mangled, []).append(k); break
        return out
    def targets(self, f):
        """what has to be verified for the contract of f: (function, contract, classes or None)"""
        s = self.contract_of(f)
        if s is None: return []
        if not s.virtual: return [(f, s, None)]
        root = self.base_method(f, lambda b: self.spec_for(b) is s) or f
        return [(self.prog.fns[m], s, ks) for m, ks in self.overriders(root).items()]

def norm(s): return re.sub(r'\s+', '', s)

class Unit:
    def __init__(self, g, fn, spec, kinds=None):
        self.kinds = kinds; tag = ''
        self.g = g; self.prog = g.prog; self.types = g.types; self.fn = fn; self.spec = spec; self.tag = tag
        self.lits = {}; self.tables = {}; self.mems = []; self.globs = {}; self.vals = {}; self.inlined = set(); self.excs = set(); self.ninl = 0
        self.loops_seen = set(); self.points_used = set(); self.param_locals = []; self.mut_params = set(); self.diverges = False
        self.contracts = set(); self.tkb = {}; self.uses = []; self.locals = []
        self.local_map = self.map_locals()
    def map_locals(self):
        """the names the contract uses for the locals: a renamed local is found again by its place and type"""
        if self.fn.body is None: return {}
        cur = var_decls(self.fn.body)
        pin = self.g.pinned.get(self.fn.sig)
        if pin is None or [c[1] for c in cur] == [p[0] for p in pin]: return {}
        have = [c[1] for c in cur]; want = [p[0] for p in pin]
        m = {}
        free = [c for c in cur if c[1] not in want]
        for nm, ty in pin:
            if nm in have: continue
            # between the same neighbours, with the same type
            k = next((c for c in free if c[2] == ty), None)
            if k is not None: m[k[0]] = nm; free.remove(k)
        return m
    # ---- declarations on demand
    def need_type(self, t):
        if t[0] == 'rec' and t[1] not in self.g.recs and t[1] != 'stat': raise TransError('class %s is not modelled' % t[1])
        for x in t[1:]:
            if isinstance(x, tuple): self.need_type(x)
    def need_mem(self, t):
        k = self.types.key(t)
        if k == 'b': return
        if k not in [m[0] for m in self.mems]: self.mems.append((k, self.types.wty(t)))
    def str_lit(self, b):
        self.lits[b] = 1; return lit_name(b)
    def float_lit(self, v, ty): return lib.float_lit(self, v, ty)
    def glob(self, name, w):
        """a global reference (static object or field)"""
        if name not in self.globs: self.globs[name] = w
        return name
    def heap_field(self, tr, t, owner, fname):
        ty = self.field_type(owner, fname)
        return LV(('hf', self.glob('h_%s_%s' % (owner, fname), '(hmap %s)' % self.types.wty(ty)), t), [], ty)
    def single_field(self, tr, owner, fname):
        ty = self.field_type(owner, fname)
        return LV(('glob', self.glob('g_%s_%s' % (owner, fname), self.types.wty(ty))), [], ty)
    def field_type(self, owner, fname):
        for nm, ty, node in self.prog.classes[owner]['fields']:
            if nm == fname:
                try: return self.types.parse(node['type']['qualType'])
                except TransError: return self.types.parse(ty)
        raise TransError('field %s::%s' % (owner, fname))
    def table_kb(self, t): return self.tkb.get(t)
    def global_(self, tr, d, n):
        tu = tr.cur[-1].tu
        node = self.prog.byid.get((tu, d['id']))
        nm = d.get('name', '')
        if nm in ('cout', 'cerr', 'clog', 'cin'): return V({'cout': '1', 'cerr': '2', 'clog': '2', 'cin': '3'}[nm], ('istream' if nm == 'cin' else 'ostream', ''))
        if nm == 'npos': return V('npos', ('int', 'u64'), (1 << 64) - 1)
        if nm in ('in', 'out', 'binary', 'app', 'ate', 'trunc', 'beg', 'cur', 'end', 'badbit', 'failbit', 'eofbit', 'goodbit', '_S_in', '_S_out', '_S_bin', '_S_beg', '_S_cur', '_S_end'):
            v = lib.ENUMS[nm]; return V(str(v), ('int', 's32'), v, x=v)
        cls = None
        if node is not None:
            cls = node.get('_cls')
            if 'parentDeclContextId' in node:
                p = self.prog.byid.get((tu, node['parentDeclContextId']))
                if p: cls = p.get('name')
        q = (cls + '::' if cls else '') + nm
        gd = self.prog.globals.get(q)
        if gd is None: return lib.extern_global(tr, nm, n)
        ty = self.types.parse(dqt(gd) or qt(gd))
        ini = [c for c in inner(gd) if not c['kind'].endswith('Attr')]
        const = 'const' in qt(gd)
        if ty[0] == 'arr' and const and ini and strip(ini[-1])['kind'] in ('InitListExpr', 'StringLiteral'):
            if q not in self.tables:
                s = strip(ini[-1]); sub = Trans(self, tr.fn, self.spec)
                if s['kind'] == 'StringLiteral': vals = [c if c < 128 else c - 256 for c in strval(s)] + [0]; 
                else: vals = [sub.ex(e).x for e in inner(s)]
                if any(v is None for v in vals): raise TransError('table ' + q)
                vals += [0] * (ty[2] - len(vals)) if ty[2] and ty[2] - len(vals) > 0 else []
                tn = 'tbl_' + re.sub(r'\W', '_', q)
                self.tables[q] = (tn, vals)
                self.tkb[tn] = None if min(vals) < 0 else (1 << max(vals).bit_length()) - 1
            tn, vals = self.tables[q]
            return V(tn, ('table', ty[1]), x=ty[2] or len(vals))
        if const and ini:
            sub = Trans(self, tr.fn, self.spec); sub.cur = [type('T', (), {'tu': gd['_tu'], 'qual': q})()]
            v = sub.ex(ini[-1])
            if isinstance(v, V) and (v.x is not None or ty[0] in ('int', 'bool')) and not sub.out:
                return V(v.t, ty, v.kb, 0, v.x)
            if ty == ('str',) and isinstance(v, V):
                if v.ty == ('str',) and not sub.out: return v
            if ty[0] == 'cstr' and isinstance(v, V): return v
            if ty[0] in ('float', 'double') and not sub.out: return V(v.t, ty)
        if const: raise TransError('constant ' + q)
        return LV(('glob', self.glob('g_' + re.sub(r'\W', '_', q), self.types.wty(ty))), [], ty)
    # ---- functions
    def lookup(self, tu, id):
        m = self.prog.fnid.get((tu, id))
        return self.prog.fns.get(m) if m else None
    def definition(self, f): return self.prog.fns.get(f.mangled, f)
    def spec_of(self, f, tr):
        return self.g.contract_of(f)
    def is_qualified(self, tr, me):
        f = tr.cur[-1]
        b = me.get('range', {}).get('begin', {}); e = me.get('range', {}).get('end', {})
        try:
            src = self.prog.src(b.get('_f') or '')
            t = src.encode('latin-1')[b['offset']:e['offset'] + e.get('tokLen', 0)].decode('latin-1')
            return bool(re.search(r'::\s*\w+$', t.strip()))
        except Exception: return False
    def inline_ok(self, tr, f, obj): return lib.inline_ok(tr, f, obj)
    def dyncast(self, tr, n): return lib.dyncast(tr, n)
    def ret_type(self, f):
        if f.kind in ('CXXConstructorDecl', 'CXXDestructorDecl'): return ('void',)
        q = f.rtype
        try: return self.types.parse(q)
        except TransError:
            dq = f.node['type'].get('desugaredQualType', '')
            if '(' in dq: return self.types.parse(dq[:dq.index('(')])
            raise
    def param_names(self, f, sp):
        return [n if n not in KEYWORDS else n + '_' for n in sp.names]
    def param_model(self, f, sp, prm, t):
        m = sp.model.get(sp.names[f.params.index(prm)] if prm in f.params else prm.get('name', ''))
        if m == 'bytes': return ('ptr', ('int', 'u8'))
        if m == 'cstr': return ('cstr',)
        if m == 'cstrs': return ('ptr', ('cstr',))
        if m in self.g.types.heap: return ('loc', m)
        return t
    def rename(self, txt, tr):
        txt, ls = lits_in(txt)
        for b in ls: self.lits[b] = 1
        for h, w in re.findall(r'\b([hg]_[A-Za-z]\w*)\b(\s*:)?', txt): self.mention(h)
        for k in re.findall(r'\bmem_(\w+)\b', txt): self.mention_mem(k)
        return txt
    def mention_mem(self, k):
        if k == 'b' or k in [m[0] for m in self.mems]: return
        self.mems.append((k, 'int' if k in BITS or k == 'loc' else 'r_' + k if k in self.g.recs else k))
    def mention(self, h):
        if h in self.globs or h.startswith('h_') is False and h.startswith('g_') is False: return
        m = re.match(r'^([hg])_(\w+?)_(\w+)$', h)
        for c in sorted(self.prog.classes, key=lambda x: -len(x)):
            if h[2:].startswith(c + '_'):
                fn = h[2 + len(c) + 1:]
                for nm, ty, node in self.prog.classes[c]['fields']:
                    if nm == fn:
                        w = self.types.wty(self.field_type(c, fn))
                        self.globs[h] = '(hmap %s)' % w if h[0] == 'h' else w
                        return
        raise TransError('the contracts mention %s, which the source does not have' % h)

    # ---- contract text
    def contract(self, f, sp, tr, own):
        """(parameters, requires, ensures, raises) of a contract; own: for the function being verified"""
        T = self.types; ps = []; req = []; ens = []
        refs = []
        cls = f.cls
        if cls and not f.static and f.kind != 'CXXConstructorDecl':
            t = tr.ty_of_class(cls)
            if t[0] == 'loc': ps.append('(this:int)'); req.append(self.class_of('this', cls, tr))
            elif t[0] == 'single': pass
            elif f.const: ps.append('(this:%s)' % T.wty(t))
            else: ps.append('(ref this:%s)' % T.wty(t)); refs.append('this')
        elif f.kind == 'CXXConstructorDecl' and tr.ty_of_class(cls)[0] == 'loc': ps.append('(this:int)')
        for prm, nm in zip(f.params, self.param_names(f, sp)):
            mode, t = tr.param_mode(prm); t = self.param_model(f, sp, prm, t)
            self.need_type(t)
            ps.append('(%s%s:%s)' % ('ref ' if mode == 'ref' else '', nm, T.wty(t)))
            if mode == 'ref': refs.append(nm)
            if t[0] == 'loc' and T.isref(qt(prm)): req.append(self.class_of(nm, t[1], tr))
            if t[0] == 'int': req.append(('%s is in the range of its type' % nm, 'in_%s %s' % (t[1], nm)))
            if t[0] == 'int' and mode == 'ref': ens.append(('%s is in the range of its type' % nm, 'in_%s %s' % (t[1], nm)))
        if not ps: ps = ['(_u:unit)']
        rt = self.ret_type(f)
        if tr.returns_this(f): rt = ('void',)
        if rt[0] == 'int': ens.append(('result is in the range of its type', 'in_%s result' % rt[1]))
        for i, c in enumerate(sp.requires): req.append((c.label or 'precondition %d' % (i+1), self.rename(c.text, tr)))
        for i, c in enumerate(sp.ensures): ens.append((c.label or 'postcondition %d' % (i+1), self.rename(c.text, tr)))
        return ps, req, ens, refs, rt

    def class_of(self, nm, cls, tr):
        if 'obj.Obj' not in self.uses: self.uses.append('obj.Obj')
        ks = [CONCRETE[k] for k in CONCRETE if k in self.prog.classes and cls in self.prog.bases(k)]
        return '%s is an object of its class' % nm, ' \\/ '.join('hget dyn %s = %d' % (nm, k) for k in ks) or 'false'
    def use_contract(self, f, sp):
        nm = 'c_' + re.sub(r'\W+', '_', f.qual)
        if sp.virtual and f.cls: f = self.g.base_method(f, lambda b: self.g.spec_for(b) is sp) or f; nm = 'c_' + re.sub(r'\W+', '_', f.qual)
        key = f.mangled
        if key in self.vals: return self.vals[key][0]
        same = [v for v in self.vals.values() if v[0].startswith(nm)]
        if same: nm += '_%d' % (len(same) + 1)
        self.vals[key] = (nm, '')
        tr = Trans(self, f, sp)
        ps, req, ens, refs, rt = self.contract(f, sp, tr, False)
        out = ['  val %s%s %s : %s' % ('function ' if sp.pure else '', nm, ' '.join(ps), self.types.wty(rt))]
        for l, r in req: out.append('    requires { [@expl:%s: %s] %s }' % (f.name, l, r))
        for l, e in ens: out.append('    ensures { %s }' % e)
        w = [self.wname(x) for x in sp.writes]
        ws = list(dict.fromkeys(w + refs))
        if ws: out.append('    writes { %s }' % ', '.join(ws))
        for e, fml in sp.raises: out.append('    raises { %s -> %s }' % (('Cxx exc' if e == 'Cxx' else e), self.rename(fml, tr)))
        txt = '\n'.join(out)
        rd = self.reads(txt, ws)
        if rd: out.append('    reads { %s }' % ', '.join(rd))
        self.vals[key] = (nm, '\n'.join(out))
        self.contracts.add(f.sig)
        for u in sp.uses:
            if u not in self.uses: self.uses.append(u)
        return nm
    BUILTIN = ('msz', 'mem_b')
    def wname(self, x):
        if x not in self.BUILTIN and not x.startswith('mem_') and x[:2] in ('h_', 'g_'): self.mention(x)
        if x.startswith('mem_'): self.mention_mem(x[4:])
        return x
    def reads(self, txt, ws):
        names = set(self.globs) | set('mem_' + m[0] for m in self.mems) | set(self.BUILTIN) | lib.GLOBREFS
        return sorted(n for n in names if n not in ws and re.search(r'\b%s\b' % re.escape(n), txt))

    # ---- the module
    def build(self):
        f, sp = self.fn, self.spec
        tr = Trans(self, f, sp); self.tr = tr
        if self.kinds: self.uses.append('obj.Obj')
        for u in sp.uses:
            if u not in self.uses: self.uses.append(u)
        sig, body = tr.run()
        ps, req, ens, refs, rt = self.contract(f, sp, tr, True)
        decl = self.rename(sp.decl, tr); driver = self.rename(sp.driver, tr)
        for k, c in tr.callbacks.items(): driver = re.sub(r'\b%s\b' % k, c, driver)
        if driver and set(tr.callbacks) != set(re.findall(r'\bCALL\w+', sp.driver)): raise TransError('%s: the callbacks are not those of the contract' % f.qual)
        # dead or unattached annotations
        missing = [k for k in sp.loops if k not in self.loops_seen]
        if missing: raise TransError('%s: loops %s of the contract are not in the source' % (f.qual, missing))
        for p in sp.points:
            if (p[0], p[1], p[2]) not in self.points_used: raise TransError('%s: %s %s %d of the contract is not in the source' % (f.qual, p[0], p[1], p[2]))
        L = ['module U', '  use cxx.Cxx', '  use lits.Lits', '  use recs.Recs']
        L += ['  use %s' % u for u in self.uses]
        for b in self.lits:
            if b not in self.g.thlits: 
                d = lit_decl(b)
                if d: L.append(d)
        pre = []
        for q, (tn, vals) in self.tables.items():
            fact = sp.tables.get(q)
            if fact is None: L.append(table(tn, vals)); continue
            ft = self.rename(fact.text, tr)
            M = ['module T_' + tn, '  use cxx.Cxx', '  use lits.Lits', '  use recs.Recs'] + ['  use %s' % u for u in fact.tag.split(',') if u] + ['  use %s' % u for u in sp.uses if u not in fact.tag.split(',')]
            M += [table(tn, vals), '  goal fact_%s : [@expl:%s] %s' % (tn, fact.label or 'table', ft), 'end']
            pre += M
            L.append('  val function %s (i:int) : int\n  axiom fact_%s : %s' % (tn, tn, ft))
        for k, w in self.mems: L.append('  val ref mem_%s : hmap (hmap %s)' % (k, w))
        for g_, w in self.globs.items(): L.append('  val ref %s : %s' % (g_, w))
        for e in sorted(self.excs): L.append('  exception %s' % e)
        if decl: L.append(decl)
        for v in self.vals.values(): L.append(v[1])
        if driver: L.append(driver)
        if 'fl.Fl' not in self.uses and re.search(r'\b(f32|f64|d_of_int)\b', '\n'.join(L + body)): L.insert(4, '  use fl.Fl')
        name = 'f_' + re.sub(r'\W+', '_', f.name)
        self.fname = name
        L.append('  let %s%s %s : %s' % ('function ' if sp.pure else '', name, ' '.join(ps), self.types.wty(rt)))
        if self.kinds: L.append('    requires { %s }' % ' \\/ '.join('hget dyn this = %d' % CONCRETE[k] for k in self.kinds))
        for l, r in req: L.append('    requires { %s }' % r)
        for l, e in ens: L.append('    ensures { [@expl:%s] %s }' % (l, e))
        # frame: every other global keeps its value
        ws = [self.wname(x) for x in sp.writes]
        alltxt = '\n'.join(body)
        touched = tr.all_touched | set(w for v in self.vals.values() for w in re.findall(r'writes \{ ([^}]*) \}', v[1]) for w in w.split(', ')) | lib.touched(alltxt)
        allg = set(self.globs) | set('mem_' + m[0] for m in self.mems) | set(self.BUILTIN) | lib.GLOBREFS
        for g_ in sorted(allg & touched):
            if g_ in ws: continue
            # memory of other types than bytes: what a dead block held is not observed
            if g_.startswith('mem_') and g_ != 'mem_b': L.append('    ensures { [@expl:frame: %s is unchanged] forall k [hget %s k]. hget (old msz) k >= 0 -> hget %s k = hget (old %s) k }' % ((g_,) * 4))
            else: L.append('    ensures { [@expl:frame: %s is unchanged] %s = old %s }' % (g_, g_, g_))
        if sp.raises:
            for e, fml in sp.raises: L.append('    raises { %s -> %s }' % ('Cxx exc' if e == 'Cxx' else e, self.rename(fml, tr)))
        elif not sp.pure: L.append('    raises { Cxx _ -> [@expl:no exception escapes] false }')
        if self.diverges: L.append('    diverges')
        L.append('  =')
        if sp.joined: L.append('    [@vc:sp] (')   # paths are joined where they meet
        if not sp.pure: L.append('    if false then raise (Cxx 0);')
        ind = 2
        for b in body: L.append('    ' + b)
        if sp.joined: L.append('    )')
        L.append('end')
        self.text = '\n'.join(pre + L) + '\n'
        self.locals = [n for n, t in tr.local_names]
        return self.text

def table(tn, vals):
    """nested conditional over maximal runs of slope 0 or 1"""
    segs = []; i = 0; n = len(vals)
    while i < n:
        j = i
        if i + 1 < n and vals[i+1] == vals[i]: s = 0
        elif i + 1 < n and vals[i+1] == vals[i] + 1: s = 1
        else: s = 0
        while j + 1 < n and vals[j+1] == vals[j] + s: j += 1
        # do not let a run of slope 1 steal the first of a longer run of slope 0
        segs.append((i, j, vals[i], s)); i = j + 1
    out = []
    for a, b, v, s in segs[:-1]:
        val = '%s' % ilit(v) if s == 0 else ('i + %s' % ilit(v - a) if v - a >= 0 else 'i - %d' % (a - v))
        out.append('if i <= %d then %s else' % (b, val))
    a, b, v, s = segs[-1]
    out.append('%s' % ilit(v) if s == 0 else ('i + %s' % ilit(v - a) if v - a >= 0 else 'i - %d' % (a - v)))
    return '  let function %s (i:int) : int =\n    %s' % (tn, '\n    '.join(out))
