"""clang AST -> WhyML, function by function.  What a translation drops is listed in DESIGN.md."""
import re, ast as pyast
from .types import TransError, INTS, BITS, rng, strip_cv, STRS
from . import lib

KEYWORDS = set('''abstract absurd alias any as assert assume at axiom begin break by check clone coinductive constant continue diverges do done downto
else end ensures epsilon eliminates exception exists export false float for forall fun function ghost goal if import in inductive invariant label lemma let match
meta module mutable not old partial predicate private pure raise raises range reads rec ref requires return returns scope so then theory to true try type use val
variant while with writes result diverges data length get set str bool int ptr'''.split())

class V:
    """a translated prvalue"""
    __slots__ = ('t', 'ty', 'kb', 'tz', 'x', 'sh')
    def __init__(self, t, ty, kb=None, tz=0, x=None, sh=None): self.t = t; self.ty = ty; self.kb = kb; self.tz = tz; self.x = x; self.sh = sh

class LV:
    """a translated lvalue: a root and a path of accessors"""
    __slots__ = ('root', 'path', 'ty', 'mut')
    def __init__(self, root, path, ty, mut=True): self.root = root; self.path = path; self.ty = ty; self.mut = mut

class It:
    """an iterator: an index into a container lvalue"""
    def __init__(self, cont, t): self.cont = cont; self.t = t; self.ty = ('it',)

EXC = ['exception', 'logic_error', 'domain_error', 'invalid_argument', 'length_error', 'out_of_range', 'runtime_error', 'range_error',
       'overflow_error', 'underflow_error', 'bad_alloc', 'bad_cast', 'itk_ExceptionObject']
EXCBASE = {'logic_error': 'exception', 'domain_error': 'logic_error', 'invalid_argument': 'logic_error', 'length_error': 'logic_error',
           'out_of_range': 'logic_error', 'runtime_error': 'exception', 'range_error': 'runtime_error', 'overflow_error': 'runtime_error',
           'underflow_error': 'runtime_error', 'bad_alloc': 'exception', 'bad_cast': 'exception', 'itk_ExceptionObject': 'exception'}
def exc_code(n): return EXC.index(n) + 1
def exc_subs(n):
    out = []
    for e in EXC:
        b = e
        while b:
            if b == n: out.append(exc_code(e)); break
            b = EXCBASE.get(b)
    return out

def paren(t): return t if re.match(r'^[\w.]+$', t) or (t.startswith('(') and _bal(t)) else '(%s)' % t
def _bal(t):
    d = 0
    for i, c in enumerate(t):
        if c == '(': d += 1
        elif c == ')':
            d -= 1
            if d == 0 and i != len(t) - 1: return False
    return d == 0

def ilit(n): return str(n) if n >= 0 else '(%d)' % n

SKIP = ('ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'FullComment')

def inner(n): return [c for c in n.get('inner', []) if isinstance(c, dict) and c.get('kind') and not c['kind'].endswith('Comment')]
def strip(n):
    while n['kind'] in SKIP or (n['kind'] == 'ConstantExpr'):
        n = inner(n)[0]
    return n
def qt(n):
    t = n.get('type', {})
    return t.get('qualType', '')
def dqt(n):
    t = n.get('type', {})
    return t.get('desugaredQualType', t.get('qualType', ''))

class Trans:
    """Translates one C++ function (with what it inlines) into a WhyML function body."""
    def __init__(self, unit, fn, spec):
        self.u = unit; self.p = unit.prog; self.ty = unit.types; self.fn = fn; self.spec = spec
        self.out = []; self.n = 0; self.loopn = 0; self.vars = {}; self.used = {}
        self.eff = False; self.guards = []; self.cur = [fn]; self.ret = None; self.brk = []; self.this = []; self.callcount = {}
        self.inl = 0; self.assigned = None; self.local_names = []; self.depth = 0; self.itvars = []; self.forced_eff = False; self.all_touched = set(); self.fname = ''; self.fullexpr = None; self.dtors = []; self.callbacks = {}

    # ---------------------------------------------------------------- small helpers
    def err(self, n, msg):
        raise TransError('%s: %s (line %s)' % (self.fn.qual, msg, n.get('range', {}).get('begin', {}).get('_l') if isinstance(n, dict) else '?'))
    def fresh(self, p='t'):
        self.n += 1; return '%s_%d' % (p, self.n)
    def emit(self, s): self.out.append(s)
    def let(self, t, p='t', ref=False):
        x = self.fresh(p); self.emit('let %s%s = %s in' % ('ref ' if ref else '', x, t)); return x
    def line(self, n):
        b = n.get('range', {}).get('begin', {})
        return b.get('_l') or b.get('expansionLoc', {}).get('_l')
    def check(self, cond, why, n=None):
        g = ''.join('%s -> ' % re.sub(r'\b([sl]len)_(?=\s)', r'\1', paren(x)) for x in self.guards)
        l = self.line(n) if n else None
        self.emit('assert { [@expl:%s%s] %s%s };' % (why, ' (line %s)' % l if l else '', g, cond))
    def parse(self, q): return self.ty.parse(q)
    def tyof(self, n):
        for q in (qt(n), dqt(n)):
            try: return self.parse(q)
            except TransError as e: last = e
        raise TransError(str(last) + ' at line %s' % self.line(n))
    def name(self, s):
        s = re.sub(r'\W', '_', s)
        if s in KEYWORDS: s += '_'
        if not s or s[0].isupper() or s[0].isdigit(): s = 'v_' + s
        if s.startswith('_'): s = 'v' + s
        k = self.used.get(s, 0)
        return s
    def newname(self, s, nodeid=None):
        b = self.name(s)
        if self.inl: b = '%s_i%d' % (b, self.inl)
        return b

    def any(self, ty):
        """an arbitrary value of the type"""
        self.u.need_type(ty)
        if ty[0] == 'int': return '(any_%s ())' % ty[1]
        w = self.ty.wty(ty)
        return '(any %s)' % w

    # ---------------------------------------------------------------- lvalues
    def rootterm(self, lv):
        r = lv.root
        if r[0] == 'var': return r[1]
        if r[0] == 'glob': return r[1]
        if r[0] == 'hf': return '(hget %s %s)' % (r[1], paren(r[2]))
        if r[0] == 'mem':
            k = r[1]; p = paren(r[2])
            if k == 'b': return '(bget (hget mem_b %s.blk) %s.off)' % (p, p)
            return '(hget (hget mem_%s %s.blk) %s.off)' % (k, p, p)
        if r[0] == 'val': return r[1]
        raise TransError('root %r' % (r,))
    def acc(self, t, p):
        if p[0] == 'fld': return '%s.f_%s_%s' % (paren(t), p[1], p[2])
        if p[0] == 'idx': return '(hget %s %s)' % (paren(t), paren(p[1]))
        if p[0] == 'chr': return '(sat %s %s)' % (paren(t), paren(p[1]))
        if p[0] == 'lst': return '(lget %s %s)' % (paren(t), paren(p[1]))
        if p[0] == 'fst': return '(fst %s)' % paren(t)
        if p[0] == 'snd': return '(snd %s)' % paren(t)
    def getlv(self, lv):
        t = self.rootterm(lv)
        for p in lv.path: t = self.acc(t, p)
        if lv.root[0] == 'mem' and lv.root[1] == 'b' and lv.ty == ('int', 's8'): t = '(s8 %s)' % t
        return t
    def setlv(self, lv, v):
        def up(t, path):
            if not path: return v
            p = path[0]; i = up(self.acc(t, p), path[1:])
            if p[0] == 'fld': return '{ %s with f_%s_%s = %s }' % (paren(t), p[1], p[2], i)
            if p[0] == 'idx': return '(hset %s %s %s)' % (paren(t), paren(p[1]), paren(i))
            if p[0] == 'chr': return '(sset_ %s %s %s)' % (paren(t), paren(p[1]), paren(i))
            if p[0] == 'lst': return '(lset %s %s %s)' % (paren(t), paren(p[1]), paren(i))
            if p[0] == 'fst': return '(%s, snd %s)' % (i, paren(t))
            if p[0] == 'snd': return '(fst %s, %s)' % (paren(t), i)
        r = lv.root
        if not lv.mut: raise TransError('assignment to an immutable %r' % (r,))
        if r[0] in ('var', 'glob'):
            self.emit('%s <- %s;' % (r[1], up(r[1], lv.path)))
            self.touch(r[1])
        elif r[0] == 'hf':
            self.emit('%s <- hset %s %s %s;' % (r[1], r[1], paren(r[2]), paren(up(self.rootterm(lv), lv.path)))); self.touch(r[1])
        elif r[0] == 'mem':
            k = r[1]; p = paren(r[2]); nv = up(self.rootterm(lv), lv.path)
            if k == 'b':
                if lv.ty == ('int', 's8'): nv = '(u8 %s)' % paren(nv)
                self.emit('mem_b <- hset mem_b %s.blk (bset (hget mem_b %s.blk) %s.off %s);' % (p, p, p, paren(nv)))
            else:
                self.emit('mem_%s <- hset mem_%s %s.blk (hset (hget mem_%s %s.blk) %s.off %s);' % (k, k, p, k, p, p, paren(nv)))
            self.touch('mem_' + k)
        else: raise TransError('assignment to %r' % (r,))
    def touch(self, name):
        for it in self.itvars:
            if any(p[0] == 'idx' and p[1] == name for p in it.cont.path): raise TransError('an iterator lives on while the index %s of its container changes' % name)
        self.all_touched.add(name)
        if self.assigned is not None: self.assigned.add(name)
    def read(self, lv):
        t = self.getlv(lv)
        if lv.mut and self.eff and not re.match(r'^t_\d+$', t): t = self.let(t)
        kb = None
        if lv.ty[0] == 'int' and BITS[lv.ty[1]][0] == 0: kb = (1 << BITS[lv.ty[1]][1]) - 1
        if lv.ty[0] == 'it': return V(t, lv.ty)
        return V(t, lv.ty, kb)
    def ext(self, lv, p, ty): return LV(lv.root, lv.path + [p], ty, lv.mut)
    def temp_lv(self, v):
        """a temporary object holding a value"""
        x = self.let(v.t, 'tmp', ref=True)
        return LV(('var', x), [], v.ty)

    # ---------------------------------------------------------------- effects
    PURE_M = {'length', 'size', 'empty', 'begin', 'end', 'c_str', 'front', 'back', 'operator[]', 'compare_'}
    def has_eff(self, n):
        k = n['kind']
        if k == 'BinaryOperator' and n['opcode'] in ('=', ','): return True
        if k == 'CompoundAssignOperator': return True
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'): return True
        if k in ('CXXMemberCallExpr',):
            me = strip(inner(n)[0])
            if me.get('name') not in self.PURE_M: return True
        if k in ('CallExpr', 'CXXNewExpr', 'CXXDeleteExpr', 'CXXThrowExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'): return True
        if k == 'CXXOperatorCallExpr':
            nm = self.callee_name(n)
            if nm not in ('operator==', 'operator!=', 'operator[]', 'operator*', 'operator->', 'operator<'): return True
        return any(self.has_eff(c) for c in inner(n))

    def full(self, n, f):
        """translate a full expression"""
        old = self.eff, self.fullexpr
        self.eff = self.forced_eff or self.has_eff(n); self.fullexpr = n
        try: return f()
        finally: self.eff, self.fullexpr = old

    def callee_name(self, n):
        c = strip(inner(n)[0])
        while c['kind'] in ('ImplicitCastExpr',) + SKIP: c = strip(inner(c)[0])
        if c['kind'] == 'DeclRefExpr': return c['referencedDecl'].get('name', '')
        return c.get('name', '')

    # ---------------------------------------------------------------- expressions
    def ex(self, n):
        n = strip(n)
        m = getattr(self, 'x_' + n['kind'], None)
        if not m: self.err(n, 'expression ' + n['kind'])
        return m(n)

    def x_IntegerLiteral(self, n):
        v = int(n['value']); return V(ilit(v), self.tyof(n), v if v >= 0 else None, x=v)
    def x_CharacterLiteral(self, n):
        v = int(n['value']); return V(ilit(v), self.tyof(n), v if v >= 0 else None, x=v)
    def x_CXXBoolLiteralExpr(self, n): return V('true' if n['value'] else 'false', ('bool',), x=int(bool(n['value'])))
    def x_CXXNullPtrLiteralExpr(self, n): return V('0', ('null',))
    x_GNUNullExpr = x_CXXNullPtrLiteralExpr
    def x_FloatingLiteral(self, n): return V(self.u.float_lit(n['value'], self.tyof(n)), self.tyof(n), x=float(n['value']))
    def x_StringLiteral(self, n):
        return V('(CStr %s)' % self.u.str_lit(strval(n)), ('cstr',), x=strval(n))
    def x_SubstNonTypeTemplateParmExpr(self, n):
        """a number the template is instantiated with: any number, if the unit is declared for all of them"""
        f = self.cur[-1]; b = n['range']['begin']
        tps = getattr(f, 'tparams', None)
        if tps and getattr(f, 'generic', False):
            txt = self.p.src(b.get('_f') or '')[b.get('offset', 0):][:b.get('tokLen', 0)]
            if txt not in tps: self.err(n, 'template argument ' + txt)
            self.u.uses.append('obj.Tparams') if 'obj.Tparams' not in self.u.uses else None
            return V('tp_%d' % (tps.index(txt) + 1), ('int', 'u32'), (1 << 15) - 1)
        return self.ex(inner(n)[0])
    def x_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof': self.err(n, n.get('name'))
        if 'argType' in n: t = self.parse(n['argType'].get('desugaredQualType', n['argType']['qualType']))
        else: t = self.tyof(strip(inner(n)[0]))
        if t[0] != 'int': self.err(n, 'sizeof %r' % (t,))
        return V(str(BITS[t[1]][1] // 8), ('int', 'u64'), x=BITS[t[1]][1] // 8)
    def x_CXXThisExpr(self, n):
        t = self.this[-1]
        if isinstance(t, LV): return V(t, ('thisptr',))
        return t
    def x_CXXDefaultArgExpr(self, n): self.err(n, 'default argument')

    def x_DeclRefExpr(self, n):
        lv = self.lv(n)
        if isinstance(lv, (V, It)): return lv
        return self.read(lv)
    def x_MemberExpr(self, n): return self.x_DeclRefExpr(n)
    def x_ArraySubscriptExpr(self, n):
        lv = self.lv(n)
        return lv if isinstance(lv, V) else self.read(lv)

    def tolv(self, v):
        if isinstance(v, LV): return v
        if isinstance(v, V):
            if isinstance(v.t, LV): return v.t
            return LV(('val', v.t), [], v.ty, False)
        raise TransError('not an lvalue %r' % (v,))

    def lv(self, n):
        """translate a glvalue; may give a V for values that have no place here"""
        n = strip(n)
        k = n['kind']
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] == 'EnumConstantDecl':
                if d['id'] in self.p.enums: v = self.p.enums[d['id']]; return V(ilit(v), ('int', 's32'), v, x=v)
                v = lib.ENUMS.get(d.get('name'))
                if v is None: self.err(n, 'enum constant ' + d.get('name', ''))
                return V(ilit(v), ('int', 's32'), v, x=v)
            if d['id'] in self.vars: return self.vars[d['id']]
            g = self.u.global_(self, d, n)
            if g is not None: return g
            self.err(n, 'unknown name "%s"' % d.get('name'))
        if k == 'MemberExpr':
            b = inner(n)[0] if inner(n) else None
            fid = n.get('referencedMemberDecl')
            fname = n['name']
            md = self.p.byid.get((self.cur[-1].tu, fid))
            if md is not None and md.get('kind') == 'VarDecl':   # static member through an object
                return self.u.global_(self, {'id': fid, 'name': fname, 'kind': 'VarDecl', '_cls': md.get('_cls')}, n)
            owner = self.p.owner.get((self.cur[-1].tu, fid))
            base = self.base(b, n.get('isArrow'))
            if isinstance(base, It):
                base = self.deref_it(base, n)
            if isinstance(base, LV) and base.ty[0] == 'loc': base = self.read(base)
            if isinstance(base, V) and base.ty[0] == 'loc':
                if owner is None: self.err(n, 'field ' + fname)
                return self.u.heap_field(self, base.t, owner, fname)
            lvb = self.tolv(base)
            if lvb.ty[0] == 'single' or (lvb.root[0] == 'single'):
                return self.u.single_field(self, owner, fname)
            if lvb.ty[0] == 'pair':
                i = 1 if fname == 'first' else 2
                return self.ext(lvb, ('fst',) if i == 1 else ('snd',), lvb.ty[i])
            if owner is None:
                owner, fty = lib.struct_field(lvb.ty, fname)
                if owner is None: self.err(n, 'field %s of %r' % (fname, lvb.ty))
                return self.ext(lvb, ('fld', owner, fname), fty)
            fty = self.u.field_type(owner, fname)
            self.u.need_type(lvb.ty)
            return self.ext(lvb, ('fld', owner, fname), fty)
        if k == 'ArraySubscriptExpr':
            a, b = inner(n)
            if self.ptrlike(b) and not self.ptrlike(a): a, b = b, a
            sa = strip(a)
            if sa['kind'] == 'ImplicitCastExpr' and sa.get('castKind') == 'ArrayToPointerDecay':
                base = self.lv(inner(sa)[0])
                i = self.plain_index(b) or self.ex(b)
                if isinstance(base, V) and base.ty[0] == 'table':
                    self.check('0 <= %s < %d' % (i.t, base.x), 'index within the table', n)
                    return V('(%s %s)' % (base.t, paren(i.t)), base.ty[1], self.u.table_kb(base.t))
                lvb = self.tolv(base)
                if lvb.ty[0] != 'arr': self.err(n, 'subscript of %r' % (lvb.ty,))
                self.check('0 <= %s < %d' % (i.t, lvb.ty[2]), 'index within the array', n)
                return self.ext(lvb, ('idx', i.t), lvb.ty[1])
            p = self.ex(a); i = self.plain_index(b) or self.ex(b)
            if p.ty[0] == 'vec':
                self.check('0 <= %s < %s' % (i.t, p.ty[2]), 'index within the components', n)
                return self.ext(self.tolv(p), ('idx', i.t), p.ty[1])
            return self.memlv(self.padd(p, i.t), n)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            s = inner(n)[0]
            v = self.ex(s)
            return self.deref(v, n)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            lv = self.lv(inner(n)[0]); self.incdec(lv, n['opcode'], n); return lv
        if k == 'CXXThisExpr': return self.ex(n)
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr', 'CXXFunctionalCastExpr'):
            if n.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
                return self.lv(inner(n)[0])
            if n.get('castKind') == 'LValueToRValue': return self.lv(inner(n)[0])
            return self.ex(n)
        if k == 'CXXOperatorCallExpr':
            return lib.op_lv(self, n)
        if k == 'CXXMemberCallExpr' or k == 'CallExpr':
            r = self.ex(n)
            return r
        if k == 'BinaryOperator' and n['opcode'] == '=' or k == 'CompoundAssignOperator':
            return self.assign(n)
        if k == 'BinaryOperator' and n['opcode'] == ',':
            self.ex(inner(n)[0]); return self.lv(inner(n)[1])
        if k == 'ConditionalOperator':
            return self.ex(n)
        return self.ex(n)

    def plain_index(self, n):
        """an index that is just a variable keeps its name, so that places can be compared; the variable must not change in the same expression"""
        n = strip(n)
        while n['kind'] == 'ImplicitCastExpr' and n.get('castKind') in ('LValueToRValue', 'NoOp'): n = strip(inner(n)[0])
        if n['kind'] != 'DeclRefExpr': return None
        v = self.vars.get(n['referencedDecl'].get('id'))
        if not isinstance(v, LV) or v.root[0] != 'var' or v.path or v.ty[0] != 'int': return None
        if self.fullexpr is None or assigned_in(self.fullexpr, n['referencedDecl']['id']): return None
        return V(v.root[1], v.ty)

    def ptrlike(self, n):
        q = dqt(n).strip()
        return q.endswith('*') or ']' in q or q.endswith('*const')

    def base(self, b, arrow):
        if b is None: return self.this[-1]
        if arrow:
            sb = strip(b)
            v = self.ex(b)
            if isinstance(v, It): return v
            if v.ty[0] == 'thisptr': return v.t
            if v.ty[0] == 'loc' or v.ty[0] == 'single' or v.ty[0] in ('ostream', 'istream'): return v
            if v.ty == ('str',): return V(v.t, ('str',))
            if v.ty[0] == 'ptr': return self.memlv(v, b)
            self.err(b, 'arrow on %r' % (v.ty,))
        return self.lv(b)

    def deref(self, v, n):
        if isinstance(v, It): return self.deref_it(v, n)
        if v.ty[0] == 'thisptr': return v.t
        if v.ty[0] in ('loc', 'single', 'ostream', 'istream'): return V(v.t, v.ty)
        if v.ty == ('str',): return V(v.t, ('str',))
        if v.ty[0] == 'ptr': return self.memlv(v, n)
        if v.ty[0] == 'cstr':
            return V('(sat (cval %s) 0)' % paren(v.t), ('int', 's8'))
        self.err(n, 'dereference of %r' % (v.ty,))

    def deref_it(self, it, n):
        c = it.cont
        ct = self.getlv(c)
        self.check('0 <= %s < %s' % (it.t, self.len_of(c)), 'iterator refers to an element', n)
        if c.ty[0] == 'str': return self.ext(c, ('chr', it.t), ('int', 's8'))
        ety = c.ty[1] if c.ty[0] == 'list' else ('pair', c.ty[1], c.ty[2])
        return self.ext(c, ('lst', it.t), ety)
    def len_of(self, c):
        return '(slen %s)' % self.getlv(c) if c.ty[0] == 'str' else '(llen %s)' % self.getlv(c)

    def padd(self, p, i):
        if p.ty[0] == 'cstr': self.err({}, 'pointer arithmetic on a C string')
        if i == '0': return p
        return V('(padd %s %s)' % (paren(p.t), paren(i)), p.ty)
    def memlv(self, p, n):
        if p.ty[0] == 'cstr': self.err(n, 'access through a C string')
        if p.ty[0] != 'ptr': self.err(n, 'access through %r' % (p.ty,))
        k = self.ty.key(p.ty[1]); self.u.need_mem(p.ty[1])
        t = p.t
        if self.eff and not re.match(r'^\w+$', t) : t = self.let(t, 'p')
        self.check('inblk msz %s 1' % paren(t), 'access within the block', n)
        return LV(('mem', k, t), [], p.ty[1])

    # ---- casts
    def x_ImplicitCastExpr(self, n):
        ck = n.get('castKind'); s = inner(n)[0]
        if ck == 'LValueToRValue':
            r = self.lv(s)
            if isinstance(r, LV): return self.read(r)
            return r
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'Dependent'):
            v = self.ex(s)
            if ck == 'BitCast' and isinstance(v, V):
                t = self.tyof(n)
                if v.ty[0] == 'ptr' and t[0] == 'ptr': return V(v.t, t)
                if v.ty[0] == 'ptr' and t[0] == 'cstr': return V(v.t, v.ty)
            return v
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return self.ex(s)
        if ck == 'ArrayToPointerDecay':
            s2 = strip(s)
            if s2['kind'] == 'StringLiteral': return self.ex(s2)
            r = self.lv(s2)
            if isinstance(r, V) : return r
            return V(r, ('decay', r.ty))
        if ck == 'NullToPointer': return V('0', ('null',))
        if ck in ('IntegralCast',):
            v = self.ex(s); return self.convert(v, self.tyof(n), n)
        if ck == 'IntegralToBoolean':
            v = self.ex(s)
            if v.x is not None: return V('true' if v.x else 'false', ('bool',))
            return V('(%s <> 0)' % v.t, ('bool',))
        if ck == 'PointerToBoolean':
            v = self.ex(s); return V(self.ptr_nonnull(v), ('bool',))
        if ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'FloatingToBoolean'):
            return lib.float_cast(self, ck, self.ex(s), self.tyof(n), n)
        if ck == 'ToVoid':
            self.ex(s); return V('()', ('void',))
        self.err(n, 'cast ' + str(ck))
    x_CStyleCastExpr = x_CXXStaticCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_CXXReinterpretCastExpr = x_ImplicitCastExpr

    def ptr_nonnull(self, v):
        if v.ty == ('null',): return 'false'
        if v.ty[0] == 'cstr': return '(not (cnulb %s))' % paren(v.t)
        if v.ty[0] == 'ptr': return '(%s.blk <> 0)' % paren(v.t)
        if v.ty[0] in ('loc', 'ostream', 'istream'): return '(%s <> 0)' % v.t
        if v.ty[0] == 'int': return '(%s <> 0)' % v.t
        if v.ty[0] in ('thisptr', 'str', 'decay'): return 'true'
        raise TransError('null test of %r' % (v.ty,))

    def convert(self, v, ty, n):
        if ty[0] != 'int':
            if ty[0] == 'bool': return v if v.ty[0] == 'bool' else V('(%s <> 0)' % v.t, ty)
            self.err(n, 'conversion %r to %r' % (v.ty, ty))
        if v.ty[0] == 'bool':
            if v.x is not None: return V(str(v.x), ty, 1, x=v.x)
            return V('(b2i %s)' % paren(v.t), ty, 1)
        if v.ty[0] != 'int': self.err(n, 'conversion %r to %r' % (v.ty, ty))
        lo, hi = rng(ty[1]); slo, shi = rng(v.ty[1])
        if v.x is not None:
            m = 1 << BITS[ty[1]][1]; x = v.x % m
            if x > hi: x -= m
            return V(ilit(x), ty, x if x >= 0 else None, x=x)
        if (lo <= slo and shi <= hi) or (v.kb is not None and v.kb <= hi): return V(v.t, ty, v.kb, v.tz)
        return V('(%s %s)' % (ty[1], paren(v.t)), ty, hi if lo == 0 else None, min(v.tz, BITS[ty[1]][1]))

    # ---- operators
    def x_UnaryOperator(self, n):
        op = n['opcode']; s = inner(n)[0]
        if op == '!':
            v = self.cond(s); return V('(not %s)' % paren(v), ('bool',))
        if op == '-':
            v = self.ex(s)
            if v.ty[0] in ('float', 'double'): return lib.float_neg(self, v)
            if v.x is not None: return V(ilit(-v.x), self.tyof(n), x=-v.x)
            return self.arith('-', V('0', v.ty, x=0), v, self.tyof(n), n)
        if op == '+': return self.ex(s)
        if op == '*':
            r = self.lv(n)
            return self.read(r) if isinstance(r, LV) else r
        if op == '&':
            t = strip(s)
            if t['kind'] == 'DeclRefExpr' and t['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return V('0', ('fnptr', t['referencedDecl'].get('name')))
            r = self.lv(s)
            if isinstance(r, V):
                if r.ty[0] in ('loc', 'str', 'ostream', 'istream'): return r
                self.err(n, 'address of %r' % (r.ty,))
            if r.ty == ('str',): return V(self.read(r).t, ('str',), x=r)
            if r.ty[0] in ('ostream', 'istream'): return self.read(r)
            if r.ty[0] == 'arr': return V(r, ('decay', r.ty))
            if r.root[0] == 'mem' and not r.path: return V(r.root[2], ('ptr', r.ty))
            if r.ty[0] in ('loc',): return self.read(r)
            return V(r, ('addr', r.ty))
        if op in ('++', '--'):
            lv = self.lv(s)
            if isinstance(lv, It): self.err(n, 'increment of a temporary iterator')
            if n.get('isPostfix'):
                old = self.let(self.getlv(lv), 'old')
                self.incdec(lv, op, n)
                return V(old, lv.ty) 
            self.incdec(lv, op, n)
            return self.read(lv)
        if op == '~': self.err(n, 'complement')
        if op == '__extension__': return self.ex(s)
        self.err(n, 'unary ' + op)

    def incdec(self, lv, op, n):
        if lv.ty[0] == 'ptr':
            self.setlv(lv, '(padd %s %s)' % (paren(self.getlv(lv)), '1' if op == '++' else '(-1)')); return
        v = V(self.getlv(lv), lv.ty)
        if lv.ty[0] in ('float', 'double'): self.err(n, 'float increment')
        r = self.arith(op[0], v, V('1', lv.ty, 1, x=1), lv.ty if BITS[lv.ty[1]][1] >= 32 else ('int', 's32'), n)
        self.setlv(lv, self.convert(r, lv.ty, n).t)

    def arith(self, op, a, b, ty, n):
        """integer arithmetic in type ty; both operands already have it"""
        if ty[0] != 'int': self.err(n, 'arithmetic on %r' % (ty,))
        k = ty[1]; signed, bits = BITS[k]; lo, hi = rng(k)
        A, B = paren(a.t), paren(b.t)
        const = a.x is not None and b.x is not None
        if op in '+-*':
            if const:
                x = {'+': a.x + b.x, '-': a.x - b.x, '*': a.x * b.x}[op]
                if not signed: x %= 1 << bits
                if lo <= x <= hi: return V(ilit(x), ty, x if x >= 0 else None, x=x)
            if op == '+' and b.x == 0: return V(a.t, ty, a.kb, a.tz)
            if op == '-' and b.x == 0: return V(a.t, ty, a.kb, a.tz)
            if op == '*' and b.x == 1: return V(a.t, ty, a.kb, a.tz)
            t = '(%s %s %s)' % (A, op, B)
            safe = False
            if a.kb is not None and b.kb is not None:
                if op == '+' and a.kb + b.kb <= hi: safe = True
                if op == '*' and a.kb * b.kb <= hi: safe = True
                if op == '-' and signed and -b.kb >= lo: safe = True
            if signed:
                if not safe:
                    if self.eff: t = self.let(t)
                    self.check('in_%s %s' % (k, t), 'no signed overflow', n)
                return V(t, ty, (a.kb + b.kb) if safe and op == '+' else None)
            if safe: return V(t, ty, hi)
            return V('(%s %s)' % (k, t), ty, hi)
        if op in '/%':
            if b.x is None: self.check('%s <> 0' % B, 'divisor is not zero', n)
            elif b.x == 0: self.check('false', 'divisor is not zero', n)
            if const and b.x:
                q = abs(a.x) // abs(b.x) * (1 if (a.x >= 0) == (b.x > 0) else -1)
                x = q if op == '/' else a.x - q * b.x
                return V(ilit(x), ty, x if x >= 0 else None, x=x)
            f = 'div' if op == '/' else 'mod'
            if not signed or a.kb is not None and b.kb is not None: return V('(%s %s %s)' % (f, A, B), ty, (b.x - 1 if op == '%' and b.x else a.kb))
            if b.x is None or b.x < 0: self.err(n, 'signed division by a variable')
            if f == 'div': return V('(if %s >= 0 then div %s %s else - (div (- %s) %s))' % (A, A, B, A, B), ty)
            return V('(if %s >= 0 then mod %s %s else - (mod (- %s) %s))' % (A, A, B, A, B), ty)
        if op == '<<':
            if b.x is None: self.err(n, 'shift by a variable')
            self.check_shift(b.x, bits, n)
            t = '(%s * %d)' % (A, 1 << b.x)
            kb = a.kb << b.x if a.kb is not None else None
            if kb is not None and kb <= hi: return V(t, ty, kb, a.tz + b.x, sh=(A, b.x))
            if signed:
                # since C++20 (and before it with every supported compiler) the value modulo 2^n
                lo2, hi2 = rng(a.x and k or k)
                if a.kb is None and a.ty == ty and getattr(a, 'tz', 0) == 0 and False: pass
                return V('(%s %s)' % (k, t), ty, None, b.x)
            return V('(%s %s)' % (k, t), ty, hi & ~((1 << b.x) - 1) , b.x)
        if op == '>>':
            if b.x is None: self.err(n, 'shift by a variable')
            self.check_shift(b.x, bits, n)
            return V('(div %s %d)' % (A, 1 << b.x), ty, a.kb >> b.x if a.kb is not None else None, max(0, a.tz - b.x))
        if op == '&':
            if a.x is not None and b.x is None: a, b = b, a; A, B = B, A
            if b.x is not None and b.x >= 0:
                m = b.x
                if a.x is not None: return V(ilit(a.x & m), ty, (a.x & m), x=a.x & m)
                if m == 0: return V('0', ty, 0, x=0)
                s = (m & -m).bit_length() - 1; w = (m >> s)
                if w & (w + 1) == 0:
                    t = A
                    if s and a.sh and a.sh[1] >= s: t = a.sh[0] if a.sh[1] == s else '(%s * %d)' % (a.sh[0], 1 << (a.sh[1] - s))
                    elif s: t = '(div %s %d)' % (t, 1 << s)
                    if a.kb is None or (a.kb >> s) > w: t = '(mod %s %d)' % (t, w + 1)
                    if s: t = '(%s * %d)' % (t, 1 << s)
                    return V(t, ty, (a.kb & m) if a.kb is not None else m, max(s, a.tz))
            return V('(band %s %s)' % (A, B), ty)
        if op in '|^':
            if const: 
                x = (a.x | b.x) if op == '|' else (a.x ^ b.x)
                return V(ilit(x), ty, x if x >= 0 else None, x=x)
            if a.kb is not None and b.kb is not None and a.kb & b.kb == 0:
                return V('(%s + %s)' % (A, B), ty, a.kb | b.kb, 0)
            kb = a.kb | b.kb if a.kb is not None and b.kb is not None else None
            if op == '|' and b.tz > a.tz: A, B = B, A
            return V('(%s %s %s)' % ('bor' if op == '|' else 'bxor', A, B), ty, kb)
        self.err(n, 'operator ' + op)

    def check_shift(self, s, bits, n):
        if not 0 <= s < bits: self.check('false', 'shift amount within the type', n)

    def x_BinaryOperator(self, n):
        op = n['opcode']; a, b = inner(n)
        if op == '=':
            r = self.assign(n); return self.read(r) if isinstance(r, LV) else r
        if op == ',':
            self.discard(a); return self.ex(b)
        if op in ('&&', '||'): return V(self.logic(op, a, b), ('bool',))
        if op in ('==', '!=', '<', '>', '<=', '>='):
            va = self.ex(a); vb = self.ex(b); return V(self.compare(op, va, vb, n), ('bool',))
        va = self.ex(a); vb = self.ex(b)
        if isinstance(va, V) and va.ty[0] in ('ptr', 'decay'):
            va = self.decay(va, n)
            if vb.ty[0] == 'ptr':
                self.check('%s.blk = %s.blk' % (paren(va.t), paren(vb.t)), 'pointers into the same block', n)
                return V('(%s.off - %s.off)' % (paren(va.t), paren(vb.t)), ('int', 's64'))
            i = vb.t if op == '+' else '(- %s)' % paren(vb.t)
            return self.padd(va, i)
        ty = self.tyof(n)
        if ty[0] in ('float', 'double'): return lib.float_bin(self, op, va, vb, ty, n)
        if va.ty[0] == 'bool': va = self.convert(va, ty, n)
        if vb.ty[0] == 'bool': vb = self.convert(vb, ty, n)
        return self.arith(op, va, vb, ty, n)

    def decay(self, v, n):
        return v

    def compare(self, op, a, b, n):
        neg = lambda t: '(not %s)' % t
        if isinstance(a, It) or isinstance(b, It): return self.cmp_it(op, a, b, n)
        ptrs = ('null', 'ptr', 'cstr', 'loc', 'thisptr', 'ostream', 'istream', 'decay')
        if a.ty[0] in ptrs or b.ty[0] in ptrs:
            if op not in ('==', '!='): self.err(n, 'ordering of pointers')
            if b.ty == ('null',): t = neg(self.ptr_nonnull(a))
            elif a.ty == ('null',): t = neg(self.ptr_nonnull(b))
            elif a.ty[0] == 'ptr' and b.ty[0] == 'ptr': t = '(peq %s %s)' % (paren(a.t), paren(b.t))
            elif a.ty[0] in ('loc', 'ostream', 'istream') and b.ty[0] == a.ty[0]: t = '(%s = %s)' % (a.t, b.t)
            elif a.ty[0] == 'int': t = '(%s = %s)' % (a.t, b.t)
            else: self.err(n, 'pointer comparison %r %r' % (a.ty, b.ty))
            return t if op == '==' else neg(t)
        if a.ty[0] in ('float', 'double'): return lib.float_cmp(self, op, a, b, n)
        if a.ty[0] == 'bool' and b.ty[0] == 'bool':
            t = '(eqb %s %s)' % (paren(a.t), paren(b.t)); return t if op == '==' else neg(t)
        if a.ty[0] == 'bool': a = self.convert(a, b.ty, n)
        if b.ty[0] == 'bool': b = self.convert(b, a.ty, n)
        if a.ty[0] != 'int' or b.ty[0] != 'int': self.err(n, 'comparison %r %r' % (a.ty, b.ty))
        o = {'==': '=', '!=': '<>'}.get(op, op)
        return '(%s %s %s)' % (paren(a.t), o, paren(b.t))

    def cmp_it(self, op, a, b, n):
        if not (isinstance(a, It) and isinstance(b, It)) or (a.cont.root, str(a.cont.path)) != (b.cont.root, str(b.cont.path)):
            self.err(n, 'comparison of iterators of different containers')
        t = '(%s = %s)' % (paren(a.t), paren(b.t))
        return t if op == '==' else '(not %s)' % t

    def logic(self, op, a, b):
        ta = self.cond(a)
        mark = len(self.out)
        self.guards.append(ta if op == '&&' else '(not %s)' % paren(ta))
        save = (self.n, dict(self.callcount))
        tb = self.cond(b)
        self.guards.pop()
        if all(x.startswith('assert {') for x in self.out[mark:]):
            return '(%s %s %s)' % (paren(ta), op, paren(tb))
        # effects in the right operand: evaluate it only when needed
        del self.out[mark:]; self.n, self.callcount = save[0], save[1]
        r = self.let('false' if op == '&&' else 'true', 'c', ref=True)
        self.emit('if %s then begin' % (ta if op == '&&' else '(not %s)' % paren(ta)))
        oe = self.eff; self.eff = True
        g = self.guards; self.guards = []
        tb = self.cond(b)
        self.guards = g
        self.eff = oe
        self.emit('%s <- %s' % (r, tb)); self.emit('end;')
        return r

    def cond(self, n):
        v = self.ex(n)
        if isinstance(v, It): self.err(n, 'iterator as a condition')
        if v.ty[0] == 'bool': return v.t
        if v.ty[0] == 'int': return ('true' if v.x else 'false') if v.x is not None else '(%s <> 0)' % v.t
        return self.ptr_nonnull(v)

    def x_ConditionalOperator(self, n):
        c, a, b = inner(n)
        tc = self.cond(c)
        mark = len(self.out); save = (self.n, dict(self.callcount))
        self.guards.append(tc); va = self.ex(a); self.guards.pop()
        self.guards.append('(not %s)' % paren(tc)); vb = self.ex(b); self.guards.pop()
        if all(x.startswith('assert {') for x in self.out[mark:]) and va.ty[0] not in ('void',):
            ty = va.ty if va.ty != ('null',) else vb.ty
            if va.ty[0] != vb.ty[0] and 'null' not in (va.ty[0], vb.ty[0]): self.err(n, 'conditional of %r and %r' % (va.ty, vb.ty))
            kb = va.kb | vb.kb if va.kb is not None and vb.kb is not None else None
            va, vb = self.coerce(va, ty, n), self.coerce(vb, ty, n)
            return V('(if %s then %s else %s)' % (tc, va.t, vb.t), ty, kb)
        del self.out[mark:]; self.n, self.callcount = save
        void = va.ty[0] == 'void' or qt(n) == 'void'
        ty = va.ty if va.ty[0] != 'null' else vb.ty
        stm = dqt(n) == 'void' or void
        g = self.guards; self.guards = []
        r = None
        if not stm: r = self.let(self.any(ty), 'c', ref=True)
        self.emit('if %s then begin' % tc)
        oe = self.eff; self.eff = True
        v = self.ex(a); self.emit('()' if stm else '%s <- %s' % (r, self.coerce(v, ty, n).t)); self.emit('end else begin')
        v = self.ex(b); self.emit('()' if stm else '%s <- %s' % (r, self.coerce(v, ty, n).t)); self.emit('end;')
        self.eff = oe; self.guards = g
        return V(r if r else '()', ty if r else ('void',))

    # ---- assignment
    def coerce(self, v, ty, n):
        """v as a value of model type ty (implicit conversions C++ made explicit elsewhere)"""
        if isinstance(v, It): return v
        if v.ty == ty: return v
        if v.ty == ('null',):
            if ty[0] == 'cstr': return V('CNull', ty)
            if ty[0] == 'ptr': return V('pnull', ty)
            if ty[0] in ('loc', 'ostream', 'istream', 'int'): return V('0', ty)
        if v.ty[0] == 'loc' and ty[0] == 'loc': return V(v.t, ty)
        if v.ty[0] == 'thisptr' and ty[0] == 'loc': return V(v.t.root[1], ty)
        if v.ty[0] == 'ptr' and ty[0] == 'ptr': return V(v.t, ty if ty[1] != ('void',) else v.ty)
        if v.ty[0] in ('ostream', 'istream') and ty[0] == v.ty[0]: return V(v.t, ty)
        if v.ty[0] == 'cstr' and ty == ('str',): return V('(cval_ %s)' % paren(v.t), ty)
        if v.ty[0] == 'cstr' and ty == ('ptr', ('int', 'u8')) and v.sh is not None: return lib.as_ptr(self, v, n)
        if v.ty[0] == 'cstr' and ty[0] == 'ptr' or v.ty[0] == 'ptr' and ty[0] == 'cstr': return v
        if v.ty[0] == 'int' and ty[0] == 'int': return self.convert(v, ty, n)
        if v.ty[0] == 'bool' and ty[0] == 'int': return self.convert(v, ty, n)
        if v.ty[0] == 'float' and ty[0] == 'double' or v.ty[0] == 'double' and ty[0] == 'float': return lib.float_cast(self, 'FloatingCast', v, ty, n)
        if v.ty[0] == 'arr' and ty[0] == 'arr': return v
        if v.ty[0] == 'list' and ty[0] == 'list': return v
        if v.ty[0] in ('decay',) and ty[0] == 'ptr': return V(lib.array_block(self, v.t, n), ty)
        if v.ty[0] == 'rec' and ty[0] == 'rec' and v.ty == ty: return v
        if v.ty[0] == 'pair' and ty[0] == 'pair': return v
        self.err(n, 'value of %r where %r is expected' % (v.ty, ty))

    def assign(self, n):
        a, b = inner(n)
        if n['kind'] == 'CompoundAssignOperator':
            op = n['opcode'][:-1]
            vb = self.ex(b)
            lv = self.lv(a)
            if isinstance(lv, V): self.err(n, 'compound assignment to %r' % (lv.ty,))
            va = V(self.let(self.getlv(lv)) if self.eff else self.getlv(lv), lv.ty, (1 << BITS[lv.ty[1]][1]) - 1 if lv.ty[0] == 'int' and not BITS[lv.ty[1]][0] else None)
            if lv.ty[0] == 'ptr':
                self.setlv(lv, self.padd(va, vb.t if op == '+' else '(- %s)' % paren(vb.t)).t); return lv
            ct = self.parse(n.get('computeResultType', n['type']).get('desugaredQualType', n.get('computeResultType', n['type'])['qualType']))
            if ct[0] in ('float', 'double'):
                r = lib.float_bin(self, op, self.coerce(va, ct, n), self.coerce(vb, ct, n), ct, n)
                self.setlv(lv, self.coerce(r, lv.ty, n).t); return lv
            va = self.convert(va, ct, n); vb = self.convert(vb, ct, n) if op not in ('<<', '>>') else vb
            self.setlv(lv, self.convert(self.arith(op, va, vb, ct, n), lv.ty, n).t)
            return lv
        v = self.ex(b)
        if isinstance(v, V) and self.eff and v.ty[0] not in ('addr', 'thisptr', 'decay', 'fnptr') and not re.match(r'^[\w()-]+$', v.t): v = V(self.let(v.t), v.ty, v.kb, v.tz, v.x)
        sa = strip(a)
        if sa['kind'] == 'DeclRefExpr' and isinstance(self.vars.get(sa['referencedDecl']['id']), It):
            self.err(n, 'assignment of an iterator')
        lv = self.lv(a)
        if isinstance(lv, V): self.err(n, 'assignment to %r' % (lv.ty,))
        self.setlv(lv, self.coerce(v, lv.ty, n).t)
        return lv
    def x_CompoundAssignOperator(self, n): return self.read(self.assign(n))

    def discard(self, n):
        """expression statement"""
        s = strip(n)
        if s['kind'] == 'UnaryOperator' and s['opcode'] in ('++', '--'):
            lv = self.lv(inner(s)[0])
            self.incdec(lv, s['opcode'], s); return
        if s['kind'] == 'BinaryOperator' and s['opcode'] == ',':
            self.discard(inner(s)[0]); self.discard(inner(s)[1]); return
        if s['kind'] in ('CStyleCastExpr',) and s.get('castKind') == 'ToVoid':
            self.discard(inner(s)[0]); return
        if s['kind'] == 'ConditionalOperator':
            c, a, b = inner(s)
            if self.is_assert_fail(b) and not self.has_eff(a):
                t = self.full(c, lambda: self.cond(c))
                self.check(self.let(t, 'holds') if re.search(r'\w_\b', t) else t, 'an assertion cannot fail', n); return
            t = self.cond(c)
            self.emit('if %s then begin' % t); self.discard(a); self.emit('()'); self.emit('end else begin'); self.discard(b); self.emit('()'); self.emit('end;')
            return
        self.lv(s)

    def is_assert_fail(self, n):
        n = strip(n)
        return n['kind'] == 'CallExpr' and self.callee_name(n) == '__assert_fail'

    # ---- calls
    def args(self, n): return inner(n)[1:]

    def x_CallExpr(self, n):
        c = strip(inner(n)[0])
        while c['kind'] in ('ImplicitCastExpr',): c = strip(inner(c)[0])
        if c['kind'] != 'DeclRefExpr': self.err(n, 'call through ' + c['kind'])
        d = c['referencedDecl']
        f = self.u.lookup(self.cur[-1].tu, d['id'])
        if f is not None: return self.call(f, None, self.args(n), n)
        return lib.call(self, d.get('name', ''), self.args(n), n, d)

    def x_CXXMemberCallExpr(self, n):
        me = strip(inner(n)[0])
        if me['kind'] != 'MemberExpr': self.err(n, 'call through ' + me['kind'])
        f = self.u.lookup(self.cur[-1].tu, me.get('referencedMemberDecl'))
        b = inner(me)[0] if inner(me) else None
        if f is not None:
            obj = self.base(b, me.get('isArrow'))
            if isinstance(obj, It): obj = self.deref_it(obj, n)
            qualified = self.u.is_qualified(self, me)
            return self.call(f, obj, self.args(n), n, qualified)
        obj = self.base(b, me.get('isArrow'))
        if isinstance(obj, It): obj = self.deref_it(obj, n)
        ty = obj.ty if hasattr(obj, 'ty') else ('',)
        if ty[0] == 'rec' and (self.cur[-1].tu, me.get('referencedMemberDecl')) not in self.p.byid:
            # declared in a part of the translation unit that the dump leaves out: the only method of the class with that name
            c = [f for f in self.p.fns.values() if f.cls == ty[1] and f.name == me['name'] and f.kind == 'CXXMethodDecl']
            if len(c) == 1: return self.call(c[0], obj, self.args(n), n)
        return lib.method(self, obj, me['name'], self.args(n), n)

    def x_CXXOperatorCallExpr(self, n):
        r = lib.op_lv(self, n)
        return self.read(r) if isinstance(r, LV) else r

    def x_CXXConstructExpr(self, n):
        return lib.construct(self, n, self.tyof(n))
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_CXXThrowExpr(self, n):
        e = inner(n)
        if not e: self.emit('raise (Cxx v_rethrow);'); return V('()', ('void',))
        t = self.tyof(strip(e[0]))
        v = self.ex(e[0])
        code = exc_code(t[1]) if t[0] == 'exc' else None
        if code is None: self.err(n, 'throw of %r' % (t,))
        self.emit('raise (Cxx %d);' % code)
        return V('()', ('void',))

    def x_CXXNewExpr(self, n): return lib.new(self, n)
    def x_CXXDeleteExpr(self, n): return lib.delete(self, n)
    def x_CXXDynamicCastExpr(self, n): return self.u.dyncast(self, n)
    def x_InitListExpr(self, n): self.err(n, 'initializer list')
    def x_ImplicitValueInitExpr(self, n): return V('0', self.tyof(n), 0, x=0)
    def x_CXXScalarValueInitExpr(self, n): return V('0', self.tyof(n), 0, x=0)
    def x_CXXTypeidExpr(self, n): self.err(n, 'typeid')

    # ---- calling our own functions
    def call(self, f, obj, args, n, qualified=False):
        sp = self.u.spec_of(f, self)
        args = [a for a in args]
        if isinstance(obj, V) and obj.ty[0] in ('rec', 'str', 'list', 'pair') and not isinstance(obj.t, LV): obj = self.temp_lv(obj)
        # default arguments
        full = []
        for i, prm in enumerate(f.params):
            a = args[i] if i < len(args) else None
            if a is None or strip(a)['kind'] == 'CXXDefaultArgExpr':
                ini = inner(prm)
                if not ini: self.err(n, 'default argument of ' + f.qual)
                full.append(('def', ini[0], prm.get('_tu', f.tu)))
            else: full.append(('arg', a, None))
        if sp is not None and qualified and sp.virtual: sp = self.u.g.spec_for(f); sp = None if sp is not None and sp.virtual else sp
        if sp is None or (f is self.fn and False):
            return self.inline(f, obj, full, n, qualified)
        return self.call_contract(f, sp, obj, full, n)

    def arg_value(self, a, prm):
        kind, node, tu = a
        if kind == 'def':
            self.cur.append(type('T', (), {'tu': tu, 'qual': ''})()); 
            try: return self.ex(node)
            finally: self.cur.pop()
        return self.ex(node)

    def param_mode(self, prm):
        q = dqt(prm) or qt(prm)
        t = self.ptype(prm)
        if self.ty.isref(q) or self.ty.isref(qt(prm)):
            c = self.ty.is_const_ref(qt(prm)) or self.ty.is_const_ref(q)
            if t[0] in ('loc', 'ostream', 'istream', 'single'): return 'val', t
            return ('val' if c else 'ref'), t
        return 'val', t

    def ptype(self, prm):
        for q in (qt(prm), dqt(prm)):
            try: return self.parse(q)
            except TransError as e: last = e
        raise last

    def bindval(self, v, why='a'):
        if isinstance(v, It): return v
        if v.ty[0] in ('thisptr', 'addr', 'decay', 'fnptr', 'null'): return v
        if v.x is not None or re.match(r'^\w+$', v.t) and not self.is_mut(v.t): return v
        return V(self.let(v.t, why), v.ty, v.kb, v.tz, v.x)
    def is_mut(self, t):
        return not re.match(r'^(t|a|old|p)_\d+$', t)

    def call_contract(self, f, sp, obj, full, n):
        k = self.callcount[f.name] = self.callcount.get(f.name, 0) + 1
        terms = []; post = []
        if f.cls and not f.static and f.kind != 'CXXConstructorDecl':
            if isinstance(obj, V) and obj.ty[0] == 'loc': terms.append(paren(obj.t))
            elif self.ty_of_class(f.cls)[0] == 'single': pass
            elif f.const: 
                o = self.tolv(obj); terms.append(paren(self.getlv(o)))
            else: 
                o = self.tolv(obj); terms.append(self.refarg(o, post, n))
        for a, prm in zip(full, f.params):
            mode, t = self.param_mode(prm)
            if mode == 'ref':
                o = self.lv(a[1]); 
                if not isinstance(o, LV): self.err(n, 'reference argument')
                terms.append(self.refarg(o, post, n))
            else:
                v = self.arg_value(a, prm)
                if sp.model.get(prm.get('name', '')) : pass
                v = self.coerce(v, self.u.param_model(f, sp, prm, t), n)
                v = self.bindval(v)
                terms.append(paren(v.t))
        if f.kind == 'CXXConstructorDecl': rt = self.ty_of_class(f.cls)
        else: rt = self.u.ret_type(f)
        nm = self.u.use_contract(f, sp)
        if f is self.u.fn and sp.variant:
            t = sp.variant
            for pn, tm in zip(self.u.param_names(f, sp), [x for x in terms if x != 'this'][-len(f.params):]): t = re.sub(r'(?<![\w.])%s(?![\w])' % pn, lambda _: tm, t)
            self.check('0 <= %s < %s' % (paren(t), paren(self.entry_variant())), 'the recursion comes to an end', n)
        self.point('before', f.name, k)
        call = '%s %s' % (nm, ' '.join(terms) if terms else '()')
        if rt[0] == 'void':
            self.emit(call + ';'); r = V('()', ('void',))
        else:
            r = V(self.let(call, 'r'), rt)
        for w in sp.writes: self.touch(w)
        for l, t in post: self.setlv(l, t)
        self.point('after', f.name, k, r.t)
        if self.returns_this(f) and isinstance(obj, LV) and obj is not None: return obj
        return r

    def entry_variant(self):
        for pn in self.u.mut_params:
            if re.search(r'(?<![\w.])%s(?!\w)' % pn, self.spec.variant): raise TransError('the variant mentions the changing parameter %s' % pn)
        if any(re.search(r'(?<![\w.])%s(?!\w)' % x, self.spec.variant) for x, t in self.u.param_locals): raise TransError('the variant mentions a changing parameter')
        return self.spec.variant

    def returns_this(self, f):
        return f.rtype.endswith('&') and not f.rtype.startswith('const') and f.cls and f.rtype.rstrip(' &').split('::')[-1] == f.cls

    def point(self, when, name, k, r=None):
        for w, nm, kk, txt in self.spec.points:
            if w == when and nm == name and (kk == k or kk == 0):
                self.emit(self.subst(txt.replace('RES', r or '()')))
                self.u.points_used.add((w, nm, kk))

    def refarg(self, o, post, n):
        if o.root[0] == 'var' and not o.path and o.mut: self.touch(o.root[1]); return o.root[1]
        if not o.mut: self.err(n, 'a reference to an immutable object')
        x = self.let(self.getlv(o), 'io', ref=True)
        post.append((o, x))
        return x

    def ty_of_class(self, c):
        if c in self.ty.heap: return ('loc', c)
        if c in self.ty.single: return ('single', c)
        return ('rec', c)

    # ---- inlining
    def inline(self, f, obj, full, n, qualified=False):
        f = self.u.definition(f)
        if f is not None and f.cls in self.ty.heap and not qualified and self.u.g.is_virtual(f):
            o = self.u.g.overriders(f)
            if len(o) != 1: self.err(n, 'virtual call of %s without a contract' % f.qual)
            f = self.p.fns[list(o)[0]]
        if f is None or f.body is None: self.err(n, 'no definition of %s' % n.get('name', self.callee_name(n) if n.get('kind') == 'CallExpr' else ''))
        if len(self.cur) > 12 or sum(1 for c in self.cur if c is f) > 0: self.err(n, 'recursive inlining of ' + f.qual)
        self.u.inlined.add(f.sig)
        binds = {}
        for a, prm in zip(full, f.params):
            mode, t = self.param_mode(prm)
            if mode == 'ref':
                o = self.lv(a[1])
                binds[prm['id']] = o
            else:
                v = self.arg_value(a, prm)
                v = self.coerce(v, t, n)
                binds[prm['id']] = v
        saved = self.vars, self.ret, self.guards, self.brk, self.inl
        body = inner(f.body)
        oldvars = self.vars
        self.vars = dict(self.vars)
        self.u.ninl += 1
        # simple accessor: a single return of an expression
        if len(body) == 1 and body[0]['kind'] == 'ReturnStmt' and inner(body[0]):
            self.vars.update({k: self.asvar(v) for k, v in binds.items()})
            self.cur.append(f); self.this.append(obj)
            old = self.inl; self.inl = self.u.ninl
            try:
                v = self.full_in(inner(body[0])[0], lambda: self.ret_value(f, inner(body[0])[0]))
            finally:
                self.cur.pop(); self.this.pop(); self.inl = old; self.vars = oldvars
            return v
        # general case
        self.inl = self.u.ninl
        for prm in f.params:
            v = binds[prm['id']]
            if isinstance(v, (LV, It)): self.vars[prm['id']] = v; continue
            if v.ty[0] in ('addr', 'thisptr', 'decay', 'fnptr'): self.vars[prm['id']] = v; continue
            mut = assigned_in(f.body, prm['id'])
            if prm.get('name') is None: continue
            x = self.newname(prm['name'])
            self.emit('let %s%s = %s in' % ('ref ' if mut else '', x, v.t))
            if v.ty[0] in ('loc', 'ostream', 'istream') and not mut: self.vars[prm['id']] = V(x, v.ty); continue
            self.vars[prm['id']] = LV(('var', x), [], v.ty, mut)
        rt = self.u.ret_type(f)
        res = None
        if rt[0] != 'void':
            if self.returns_this(f): res = None
            else:
                r0 = self.any(rt) if rt[0] != 'it' else '0'
                res = self.let(r0, 'ret', ref=True)
        ex = 'Ret_%d' % self.u.ninl
        self.guards = []; oe = self.eff; self.eff = False
        self.cur.append(f); self.this.append(obj)
        tail_ok = not early_returns(f.body)
        self.brk = []
        try:
            if f.kind == 'CXXConstructorDecl':
                oe2 = self.eff; self.eff = True
                lib.ctor_inits(self, f, obj)
                self.eff = oe2
            if tail_ok:
                self.ret = ('tail', res, rt, f)
                self.block_stmts(body)
            else:
                self.ret = ('exc', res, rt, f, ex)
                self.u.excs.add(ex)
                self.emit('begin try begin')
                self.block_stmts(body)
                self.emit('() end with %s -> () end end;' % ex)
        finally:
            self.cur.pop(); self.this.pop()
            self.vars, self.ret, self.guards, self.brk, self.inl = saved
            self.vars = oldvars
        self.eff = oe
        if self.returns_this(f): return obj if obj is not None else V('()', ('void',))
        if res is None: return V('()', ('void',))
        return V(self.let(res), rt)

    def full_in(self, n, f):
        old = self.eff
        self.eff = self.eff or self.has_eff(n)
        try: return f()
        finally: self.eff = old

    def asvar(self, v):
        return v

    def ret_value(self, f, n):
        """the value of a return expression"""
        rt = self.u.ret_type(f)
        if self.returns_this(f) :
            r = self.lv(n); return r
        if f.rtype.endswith('&') and rt[0] not in ('loc', 'ostream', 'istream', 'single'):
            r = self.lv(n)
            if isinstance(r, LV): return self.read(r)
            return self.coerce(r, rt, n)
        v = self.ex(n)
        return self.coerce(v, rt, n)

    # ---------------------------------------------------------------- statements
    def stmt(self, n):
        k = n['kind']
        m = getattr(self, 's_' + k, None)
        if m: return m(n)
        self.full(n, lambda: self.discard(n))

    def block_stmts(self, ss):
        saved = dict(self.vars)
        nit = len(self.itvars)
        for s in ss: self.stmt(s)
        self.vars = saved; del self.itvars[nit:]

    def s_CompoundStmt(self, n): self.block_stmts(inner(n))
    def s_NullStmt(self, n): pass

    def s_DeclStmt(self, n):
        for d in inner(n):
            if d['kind'] == 'VarDecl': self.vardecl(d)
            elif d['kind'] in ('TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'EnumDecl'): pass
            else: self.err(d, 'declaration ' + d['kind'])

    def vardecl(self, d):
        q = qt(d); nm = self.u.local_map.get(d['id'], d['name'])
        ini = [c for c in inner(d) if not c['kind'].endswith('Attr')]
        ini = ini[-1] if ini else None
        if d.get('storageClass') == 'static' and not ('const' in q):
            self.err(d, 'static local')
        x = self.newname(nm)
        # name clash with an enclosing scope: pick another one
        live = {v.root[1] for v in self.vars.values() if isinstance(v, LV) and v.root[0] == 'var'} | {v.t for v in self.vars.values() if isinstance(v, It)}
        c = 2
        b = x
        while x in live: x = '%s_%d' % (b, c); c += 1
        if self.ty.isref(q) or (self.ty.isref(dqt(d))):
            r = self.full(ini, lambda: self.lv(ini))
            if isinstance(r, LV) and r.root[0] == 'val' and ini is not None:
                pass
            self.vars[d['id']] = r
            if isinstance(r, V) and r.ty[0] not in ('addr', 'thisptr', 'fnptr'):
                r2 = V(self.let(r.t, 'ref'), r.ty); self.vars[d['id']] = r2
            return
        ty = None
        for qq in (q, dqt(d)):
            try: ty = self.parse(qq); break
            except TransError as e: last = e
        if ty is None: raise last
        if ty[0] == 'it':
            v = self.full(ini, lambda: self.ex(ini)) if ini is not None and not (strip(ini)['kind'] == 'CXXConstructExpr' and not inner(strip(ini))) else None
            if not isinstance(v, It): self.err(d, 'iterator without a container')
            self.emit('let ref %s = %s in' % (x, v.t))
            self.local(x, ('it',))
            it = It(v.cont, x); self.vars[d['id']] = it; self.itvars.append(it)
            return
        if ty[0] in ('ostream', 'istream'):
            self.vars[d['id']] = lib.stream_decl(self, d, ini, ty, x); return
        if ty[0] == 'loc' and not qt(d).rstrip().endswith(('*', '*const')) and not dqt(d).rstrip().endswith('*'):
            self.vars[d['id']] = lib.object_decl(self, d, ini, ty, x); return
        self.u.need_type(ty)
        if ini is None or (ty[0] in ('arr',) and strip(ini)['kind'] == 'CXXConstructExpr'):
            if ty[0] == 'arr': t = self.any(ty) if ty[1] != ('list',) else None
            if ty[0] == 'arr' and ty[1][0] in ('mmap', 'list'): t = '(hconst lempty)'
            elif ty[0] == 'arr' and ty[1] == ('str',): t = '(hconst sempty)'
            else: t = self.any(ty)
            vt = ty
        elif strip(ini)['kind'] == 'InitListExpr':
            return self.init_list(d, strip(ini), ty, x)
        else:
            def go():
                v = self.ex(ini)
                if isinstance(v, It): self.err(d, 'iterator value')
                if v.ty[0] in ('cstr', 'ptr') and ty[0] in ('cstr', 'ptr') and v.ty[0] != ty[0]: return v
                return self.coerce(v, ty, d)
            v = self.full(ini, go)
            t = v.t; vt = v.ty if v.ty[0] in ('cstr', 'ptr') else ty
            if isinstance(t, LV): self.err(d, 'address value')
        self.emit('let ref %s = %s in' % (x, t))
        self.vars[d['id']] = LV(('var', x), [], vt)
        self.local(x, vt)

    def init_list(self, d, n, ty, x):
        if ty[0] != 'arr': self.err(d, 'initializer list')
        self.emit('let ref %s = %s in' % (x, self.any(ty)))
        for i, e in enumerate(inner(n)):
            v = self.coerce(self.full(e, lambda: self.ex(e)), ty[1], d)
            self.emit('%s <- hset %s %d %s;' % (x, x, i, paren(v.t)))
        self.vars[d['id']] = LV(('var', x), [], ty); self.local(x, ty)

    def local(self, x, ty):
        self.local_names.append((x, ty))

    def s_ReturnStmt(self, n):
        e = inner(n)
        r = self.ret
        if r[0] == 'main':
            f = self.fn
            if not e or self.u.ret_type(f)[0] == 'void':
                if e: self.full(e[0], lambda: self.discard(e[0]))
                self.epilogue(); self.emit('return ();'); return
            v = self.full(e[0], lambda: self.ret_value(f, e[0]))
            if self.returns_this(f): self.epilogue(); self.emit('return ();'); return
            t = v.t
            if self.spec.exit: t = self.let(t, 'res'); 
            self.epilogue(t)
            self.emit('return %s;' % paren(t)); return
        res, rt, f = r[1], r[2], r[3]
        if e:
            v = self.full(e[0], lambda: self.ret_value(f, e[0]))
            if res is not None: self.emit('%s <- %s;' % (res, v.t)); self.touch(res)
        if r[0] == 'exc': self.emit('raise %s;' % r[4])

    def epilogue(self, t='()'):
        for v, f in reversed(self.dtors): self.run_dtor(v, f)
        if self.spec.exit: self.emit(self.subst(self.spec.exit.replace('RES', t)))

    def run_dtor(self, v, f):
        oe = self.eff; self.eff = True
        self.call(f, v, [], f.node)
        self.eff = oe

    def s_IfStmt(self, n):
        ii = inner(n)
        if n.get('hasInit') or n.get('hasVar'): self.err(n, 'if with declaration')
        c = self.full(ii[0], lambda: self.cond(ii[0]))
        self.emit('if %s then begin' % c)
        self.sub(ii[1])
        if len(ii) > 2:
            self.emit('() end else begin')
            self.sub(ii[2])
        self.emit('() end;')

    def sub(self, n):
        saved = dict(self.vars); nit = len(self.itvars)
        self.stmt(n)
        self.vars = saved; del self.itvars[nit:]

    # ---- loops
    def subst(self, txt):
        return self.u.rename(txt, self)

    def loop_head(self, n):
        self.loopn += 1
        return self.loopn, self.spec.loop(self.loopn)

    def do_loop(self, n, cond, body, inc):
        k, sp = self.loop_head(n)
        self.u.loops_seen.add(k)
        if sp is None: raise TransError('%s: loop %d (line %s) has no invariant' % (self.fn.qual, k, self.line(n)))
        if sp.before: self.emit(self.subst(sp.before))
        pos = len(self.out)
        olda = self.assigned; self.assigned = set()
        uses_continue = contains(body, 'ContinueStmt', stop=('ForStmt', 'WhileStmt', 'DoStmt'))
        oldbrk = self.brk
        oldguards = self.guards; self.guards = []
        # condition
        mark = len(self.out)
        if cond is not None:
            c = self.full(cond, lambda: self.cond(cond))
        else: c = 'true'
        if len(self.out) > mark or c == 'true':
            if c != 'true': self.emit('if not %s then break;' % paren(c))
            header = 'while true do'
        else: header = 'while %s do' % c
        if sp.begin: self.emit(self.subst(sp.begin))
        self.emit('check { [@expl:reach %d] false };' % k)
        if inc is not None and uses_continue:
            self.u.excs.add('Cont_%d' % k)
            self.brk = [('cont_exc', 'Cont_%d' % k)]
            self.emit('begin try begin')
            self.sub(body)
            self.emit('() end with Cont_%d -> () end end;' % k)
        else:
            self.brk = [('native',)]
            self.sub(body)
        if inc is not None: self.full(inc, lambda: self.discard(inc))
        if sp.end: self.emit(self.subst(sp.end))
        self.brk = oldbrk; self.guards = oldguards
        mod = self.assigned
        self.assigned = olda
        if olda is not None: olda |= mod
        inv = []
        for x, ty in self.local_names + self.u.param_locals:
            if x in mod and ty[0] == 'int' and self.in_scope(x, pos):
                t_ = 'invariant { [@expl:%s stays in its type] in_%s %s }' % (x, ty[1], x)
                if t_ not in inv: inv.append(t_)
        for i, c_ in enumerate(sp.inv):
            inv.append('invariant { [@expl:loop %d: %s] %s }' % (k, c_.label or 'invariant %d' % (i+1), self.subst(c_.text)))
        if sp.variant: inv.append('variant { %s }' % self.subst(sp.variant))
        else: self.u.diverges = True
        self.out[pos:pos] = [header] + inv
        self.emit('() done;')
        self.emit('check { [@expl:reach after %d] false };' % k)
        if sp.after: self.emit(self.subst(sp.after))

    def in_scope(self, x, pos):
        # declared before the loop (the declaration line precedes it)
        pat = 'let ref %s =' % x
        for l in self.out[:pos]:
            if l.startswith(pat): return True
        return x in self.u.mut_params

    def s_ForStmt(self, n):
        ii = n['inner']
        init, cv, cond, inc, body = (ii + [{}] * 5)[:5]
        saved = dict(self.vars); nit = len(self.itvars)
        ok = lambda x: isinstance(x, dict) and x.get('kind')
        if ok(init) and not (self.spec.unroll and ok(cond) and ok(inc) and self.small_range(init, cond, inc, body)): self.stmt(init)
        if ok(cond) and const_false(cond): self.vars = saved; del self.itvars[nit:]; return
        r = self.small_range(init, cond, inc, body) if self.spec.unroll and ok(cond) and ok(inc) else None
        if r:
            # a loop with a constant range: one copy of the body for each round
            d, ty, ks = r
            self.vars = dict(saved)
            for j in ks:
                self.vars[d['id']] = V(str(j), ty)
                self.sub(body)
            self.vars = saved; del self.itvars[nit:]; return
        self.do_loop(n, cond if ok(cond) else None, body, inc if ok(inc) else None)
        self.vars = saved; del self.itvars[nit:]
    def small_range(self, init, cond, inc, body):
        def lit(e):
            e = strip(e)
            while e['kind'] == 'ImplicitCastExpr': e = strip(inner(e)[0])
            return int(e['value']) if e['kind'] == 'IntegerLiteral' else None
        def ref(e):
            e = strip(e)
            while e['kind'] == 'ImplicitCastExpr': e = strip(inner(e)[0])
            return e.get('referencedDecl', {}).get('id') if e['kind'] == 'DeclRefExpr' else None
        if init.get('kind') != 'DeclStmt' or len(inner(init)) != 1: return None
        d = inner(init)[0]
        if d['kind'] != 'VarDecl' or not inner(d): return None
        ty = self.parse(qt(d)); a = lit(inner(d)[-1]); c = strip(cond); i = strip(inc)
        if ty[0] != 'int' or a is None or c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '<=', '!='): return None
        x, y = inner(c)
        b = lit(y)
        if ref(x) != d['id'] or b is None: return None
        if not (i['kind'] == 'UnaryOperator' and i['opcode'] == '++' and ref(inner(i)[0]) == d['id']): return None
        if c['opcode'] == '<=': b += 1
        if not 0 < b - a <= 8: return None
        stop = ('ForStmt', 'WhileStmt', 'DoStmt')
        if contains(body, 'BreakStmt', stop + ('SwitchStmt',)) or contains(body, 'ContinueStmt', stop): return None
        return d, ty, range(a, b)
    def s_WhileStmt(self, n):
        ii = inner(n)
        if const_false(ii[0]): return
        self.do_loop(n, ii[0], ii[1], None)
    def s_DoStmt(self, n):
        ii = inner(n)
        c = strip(ii[1])
        while c['kind'] == 'ImplicitCastExpr': c = strip(inner(c)[0])
        if c['kind'] in ('IntegerLiteral', 'CXXBoolLiteralExpr') and str(c.get('value')) in ('0', 'False', 'false') and not contains(ii[0], 'BreakStmt', ('ForStmt', 'WhileStmt', 'DoStmt', 'SwitchStmt')) and not contains(ii[0], 'ContinueStmt', ('ForStmt', 'WhileStmt', 'DoStmt')):
            self.sub(ii[0]); return
        self.err(n, 'do loop')
    def s_BreakStmt(self, n):
        if not self.brk: self.err(n, 'break outside a loop')
        b = self.brk[-1]
        if b[0] == 'switch': self.emit('raise %s;' % b[1])
        else: self.emit('break;')
    def s_ContinueStmt(self, n):
        for b in reversed(self.brk):
            if b[0] == 'cont_exc': self.emit('raise %s;' % b[1]); return
            if b[0] == 'native': self.emit('continue;'); return
        self.err(n, 'continue outside a loop')

    def s_SwitchStmt(self, n):
        ii = inner(n)
        v = self.full(ii[0], lambda: self.ex(ii[0]))
        s = self.let(v.t, 'sw')
        body = inner(ii[1])
        groups = []; cur = None
        for st in body:
            labels = []
            while st['kind'] in ('CaseStmt', 'DefaultStmt'):
                sub = inner(st)
                if st['kind'] == 'CaseStmt':
                    labels.append(ilit(int(sub[0]['value'])) if sub[0].get('kind') == 'ConstantExpr' and re.match(r'^-?\d+$', sub[0].get('value', '')) else self.ex(sub[0]).t); st = sub[-1]
                else: labels.append(None); st = sub[-1]
            if labels: cur = [labels, []]; groups.append(cur)
            if cur is None: self.err(n, 'switch')
            cur[1].append(st)
        e = 'Brk_%d' % (len(self.u.excs) + 1); self.u.excs.add(e)
        falls = any(not any(x['kind'] in ('BreakStmt', 'ReturnStmt') for x in g[1]) and g is not groups[-1] for g in groups)
        if falls: fall = self.fresh('fall'); self.emit('let ref %s = false in' % fall)
        self.brk = self.brk + [('switch', e)]
        self.emit('begin try begin')
        others = [l for g in groups for l in g[0] if l is not None]
        for g in groups:
            cond = ' || '.join('%s = %s' % (s, l) for l in g[0] if l is not None)
            if None in g[0]: cond = 'not (%s)' % ' || '.join('%s = %s' % (s, l) for l in others if l not in g[0])
            self.emit('if %s then begin' % (cond if not falls else '%s || %s' % (fall, cond)))
            if falls: self.emit('%s <- true;' % fall)
            self.block_stmts(g[1])
            self.emit('() end;')
        self.emit('() end with %s -> () end end;' % e)
        self.brk = self.brk[:-1]

    def s_CXXTryStmt(self, n):
        ii = inner(n)
        self.emit('begin try begin')
        self.sub(ii[0])
        self.emit('() end with Cxx v_exc -> begin')
        closed = False; depth = 0
        for h in ii[1:]:
            hh = inner(h)
            body = hh[-1]
            var = hh[0] if len(hh) > 1 and hh[0]['kind'] == 'VarDecl' else None
            if var is None: cond = 'true'; closed = True
            else:
                t = self.parse(qt(var))
                if t[0] != 'exc': self.err(h, 'handler of %r' % (t,))
                cond = ' || '.join('v_exc = %d' % c for c in exc_subs(t[1]))
                self.vars[var['id']] = V('v_exc', ('exc', t[1]))
            self.emit('if %s then begin' % cond)
            self.sub(body)
            self.emit('() end else begin'); depth += 1
        self.emit('()' if closed else 'raise (Cxx v_exc)')
        self.emit(' end' * depth + ' end end end;')

    # ---------------------------------------------------------------- the function itself
    def run(self):
        f, sp = self.fn, self.spec
        self.u.param_locals = []; self.u.mut_params = set()
        sig = []
        pre = []
        if f.cls and not f.static and f.kind != 'CXXConstructorDecl':
            t = self.ty_of_class(f.cls)
            if t[0] == 'loc': self.this.append(V('this', t)); sig.append('(this:int)')
            elif t[0] == 'single': self.this.append(V(LV(('single', f.cls), [], t), ('thisptr',)).t); 
            else:
                self.u.need_type(t)
                if f.const: sig.append('(this:%s)' % self.ty.wty(t)); self.this.append(LV(('var', 'this'), [], t, False))
                else: sig.append('(ref this:%s)' % self.ty.wty(t)); self.this.append(LV(('var', 'this'), [], t)); self.u.mut_params.add('this')
        elif f.kind == 'CXXConstructorDecl':
            t = self.ty_of_class(f.cls)
            if t[0] == 'single': self.this.append(LV(('single', f.cls), [], t))
            elif t[0] == 'loc': self.this.append(V('this', t)); sig.append('(this:int)')
            else: self.err(f.node, 'constructor of a value class under contract')
        else: self.this.append(None)
        names = self.u.param_names(f, sp)
        for prm, nm in zip(f.params, names):
            mode, t = self.param_mode(prm)
            t = self.u.param_model(f, sp, prm, t)
            self.u.need_type(t)
            w = self.ty.wty(t)
            if mode == 'ref':
                sig.append('(ref %s:%s)' % (nm, w)); self.vars[prm['id']] = LV(('var', nm), [], t); self.u.mut_params.add(nm)
                self.u.param_locals.append((nm, t))
            else:
                sig.append('(%s:%s)' % (nm, w))
                if f.body is not None and assigned_in(f.body, prm['id']):
                    pre.append('let %s_0 = %s in' % (nm, nm)); pre.append('let ref %s = %s in' % (nm, nm))
                    self.vars[prm['id']] = LV(('var', nm), [], t); self.u.param_locals.append((nm, t))
                elif t[0] == 'loc' or t[0] in ('ostream', 'istream'): self.vars[prm['id']] = V(nm, t)
                else: self.vars[prm['id']] = LV(('var', nm), [], t, False)
        if not sig: sig.append('(_u:unit)')
        self.out += pre
        self.ret = ('main',)
        self.hexes = mentions(f.body, 'hex')
        if self.hexes: self.emit('let ref hex_ = hconst false in')
        if sp.entry: self.emit(self.subst(sp.entry))
        self.emit('check { [@expl:reach 0] false };')
        if f.kind == 'CXXConstructorDecl': lib.ctor_inits(self, f, self.this[-1])
        self.block_stmts(inner(f.body))
        rt = self.u.ret_type(f)
        if rt[0] == 'void' or self.returns_this(f) or f.kind == 'CXXConstructorDecl':
            self.epilogue(); self.emit('()')
        else: self.emit('(* every path returns *) absurd' if ends_return(f.body) else 'absurd')
        return sig, self.out

def const_false(n):
    n = strip(n)
    while n['kind'] == 'ImplicitCastExpr': n = strip(inner(n)[0])
    return n['kind'] in ('IntegerLiteral', 'CXXBoolLiteralExpr') and str(n.get('value')) in ('0', 'False', 'false')

def var_decls(n):
    """local variables in the order of their declarations"""
    out = []
    def go(x):
        if x.get('kind') == 'VarDecl' and x.get('name'): out.append((x['id'], x['name'], re.sub(r'\s+', '', qt(x))))
        for c in inner(x): go(c)
    go(n)
    return out

def mentions(n, name):
    r = n.get('referencedDecl', {})
    return r.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and r.get('name') == name or any(mentions(c, name) for c in inner(n))

def ends_return(b): return True

def strval(n):
    v = n['value']
    i = v.index('"')
    s = v[i+1:-1]
    out = []; k = 0
    while k < len(s):
        c = s[k]
        if c != '\\':
            out += list(c.encode('utf-8')); k += 1; continue
        c = s[k+1]; k += 2
        m = {'n': 10, 't': 9, 'r': 13, '0': 0, 'a': 7, 'b': 8, 'f': 12, 'v': 11, '\\': 92, '"': 34, "'": 39, '?': 63}
        if c in '01234567':
            o = c
            while k < len(s) and len(o) < 3 and s[k] in '01234567': o += s[k]; k += 1
            out.append(int(o, 8))
        elif c == 'x':
            o = ''
            while k < len(s) and s[k] in '0123456789abcdefABCDEF': o += s[k]; k += 1
            out.append(int(o, 16) & 255)
        else: out.append(m[c])
    return bytes(out)

def contains(n, kind, stop=()):
    if n.get('kind') == kind: return True
    return any(contains(c, kind, stop) for c in inner(n) if c.get('kind') not in stop)

def early_returns(body):
    """a return that is not in tail position"""
    def tail(n, last):
        k = n.get('kind')
        if k == 'ReturnStmt': return not last
        if k == 'CompoundStmt':
            ss = inner(n)
            return any(tail(s, last and i == len(ss) - 1) for i, s in enumerate(ss))
        if k == 'IfStmt':
            ss = inner(n)
            return any(tail(s, last) for s in ss[1:])
        return contains(n, 'ReturnStmt')
    return tail(body, True)

def assigned_in(n, vid):
    """is the variable assigned or its address or a non-const reference taken (conservatively: written) in n"""
    k = n.get('kind')
    def refers(x):
        x = strip(x)
        while x['kind'] in ('ImplicitCastExpr', 'MemberExpr', 'ArraySubscriptExpr') and inner(x):
            if x['kind'] == 'ImplicitCastExpr' and x.get('castKind') == 'LValueToRValue': return False
            if x['kind'] == 'MemberExpr' and x.get('isArrow'): return False
            x = strip(inner(x)[0])
        return x['kind'] == 'DeclRefExpr' and x['referencedDecl']['id'] == vid
    if k == 'BinaryOperator' and n['opcode'] == '=' or k == 'CompoundAssignOperator':
        if refers(inner(n)[0]): return True
    if k == 'UnaryOperator' and n['opcode'] in ('++', '--', '&') and refers(inner(n)[0]): return True
    if k == 'CXXOperatorCallExpr':
        a = inner(n)
        if len(a) > 1 and refers(a[1]):
            c = strip(a[0])
            while c['kind'] == 'ImplicitCastExpr': c = strip(inner(c)[0])
            nm = c.get('referencedDecl', {}).get('name', '')
            if nm in ('operator=', 'operator+=', 'operator++', 'operator--'): return True
    if k == 'CXXMemberCallExpr':
        me = strip(inner(n)[0])
        if me.get('kind') == 'MemberExpr' and not me.get('isArrow') and inner(me) and refers(inner(me)[0]) and 'const' not in qt(inner(me)[0]): return True
    if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr'):
        for a in inner(n)[0 if k == 'CXXConstructExpr' else 1:]:
            b = a
            while b['kind'] in ('ParenExpr', 'ImplicitCastExpr', 'ExprWithCleanups') and b.get('castKind', 'NoOp') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase'): b = inner(b)[0]
            if b.get('valueCategory') == 'lvalue' and b['kind'] == 'DeclRefExpr' and 'const' not in qt(b) and b['referencedDecl']['id'] == vid: return True
    return any(assigned_in(c, vid) for c in inner(n))
