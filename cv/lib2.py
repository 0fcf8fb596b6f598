"""Models of objects, streams, memory functions and floating point."""
import re
from .types import TransError, BITS, rng
from . import lib
from .lib import val, P, inner, strip, V, LV, isLV, isIt, as_str, T

lib.GLOBREFS |= {'dyn', 'os_txt', 'os_prec', 'os_live', 'is_data', 'is_pos', 'is_eof', 'is_fail', 'is_bad', 'is_live', 'xml_fed', 'xml_final', 'xml_nest', 'xml_buf', 'xml_room', 'xml_user', 'xml_born', 'xml_out', 'xml_ok'}

def need(tr, m):
    if m not in tr.u.uses: tr.u.uses.append(m)
def named(tr, v, p='t'):
    if re.match(r'^[\w().-]+$', v.t): return v
    return V(tr.let(v.t, p), v.ty, v.kb, v.tz, v.x)

# ------------------------------------------------------------------ objects
def dyn_test(p, ks): return '(%s)' % (' || '.join('hget dyn %s = %d' % (P(p), k) for k in ks)) if ks else 'false'
def classes_of(tr, cls):
    from .unit import CONCRETE
    return [CONCRETE[k] for k in CONCRETE if k in tr.p.classes and cls in tr.p.bases(k)]
def dyncast(tr, n):
    need(tr, 'obj.Obj')
    s = inner(n)[0]; ty = tr.tyof(n)
    if ty[0] != 'loc': tr.err(n, 'dynamic cast to %r' % (ty,))
    v = val(tr, tr.ex(s))
    v = tr.coerce(v, ty, n)
    x = tr.let(v.t, 'o')
    tr.emit('dyn_wf_ ();')
    ks = classes_of(tr, ty[1])
    return V(tr.let('(if %s = 0 then 0 else if %s then %s else 0)' % (x, dyn_test(x, ks), x), 'o'), ty)
def new(tr, n):
    from .unit import CONCRETE
    need(tr, 'obj.Obj')
    ty = tr.parse(re.sub(r'\s*\*$', '', T().qt(n)))
    if n.get('isArray'):
        if ty[0] not in ('int', 'rec', 'cstr'): tr.err(n, 'new array of %r' % (ty,))
        tr.u.need_mem(ty)
        k = tr.ex(inner(n)[0])
        x = tr.let('newarr_ %s %d' % (P(k.t), size_of(tr, ty)), 'p'); tr.touch('msz')
        return V(x, ('ptr', ty))
    if ty[0] in ('ostream', 'istream'): return stream_new(tr, ty, n)
    if ty[0] != 'loc' or ty[1] not in CONCRETE: tr.err(n, 'new %r' % (ty,))
    x = tr.let('new_ %d' % CONCRETE[ty[1]], 'o'); tr.touch('dyn')
    c = [e for e in inner(n) if strip(e)['kind'] in ('CXXConstructExpr',)]
    if c: construct_at(tr, x, ty[1], strip(c[0]), n)
    return V(x, ty)
def size_of(tr, ty): return BITS[ty[1]][1] // 8 if ty[0] == 'int' else 8   # every record here has a word at least
def construct_at(tr, x, cls, e, n):
    sig = e.get('ctorType', {}).get('qualType', 'void ()')
    f = lib.find_ctor(tr, cls, sig)
    A = inner(e)
    if f is None or (f.body is None and f.node.get('isImplicit')) or f.body is None and f.node.get('explicitlyDefaulted'):
        if A and not any('&' in p for p in (f.ptypes if f else [])): tr.err(n, 'constructor of ' + cls)
        # implicit: bases, then members
        if A: tr.err(n, 'implicit copy constructor of ' + cls)
        for b in tr.p.classes[cls]['bases']:
            if b in tr.p.classes: construct_at(tr, x, b, {'ctorType': {'qualType': 'void ()'}, 'inner': []}, n)
        for nm, q, node in tr.p.classes[cls]['fields']:
            ft = tr.u.field_type(cls, nm)
            if ft[0] in ('str', 'list') or node.get('hasInClassInitializer'): tr.setlv(tr.u.heap_field(tr, x, cls, nm), lib.default_val(tr, ft, node))
        return
    if f.body is None: tr.err(n, 'constructor of ' + cls)
    oe = tr.eff; tr.eff = True
    tr.call(f, V(x, ('loc', cls)), A, n)
    tr.eff = oe
def delete(tr, n):
    need(tr, 'obj.Obj')
    v = val(tr, tr.ex(inner(n)[0]))
    if v.ty[0] == 'loc':
        tr.emit('delete_ %s;' % P(v.t)); tr.touch('dyn')
    elif v.ty[0] == 'ptr':
        tr.emit('free_ %s;' % P(v.t)); tr.touch('msz')
    elif v.ty[0] == 'null': pass
    elif v.ty[0] in ('ostream', 'istream'): close_stream(tr, v, n)
    else: tr.err(n, 'delete of %r' % (v.ty,))
    return V('()', ('void',))
def object_decl(tr, d, ini, ty, x):
    from .unit import CONCRETE
    need(tr, 'obj.Obj')
    if ty[1] not in CONCRETE: tr.err(d, 'object of class ' + ty[1])
    tr.emit('let %s = new_ %d in' % (x, CONCRETE[ty[1]])); tr.touch('dyn')
    e = strip(ini) if ini is not None else {'kind': 'CXXConstructExpr', 'inner': []}
    if e['kind'] != 'CXXConstructExpr': tr.err(d, 'object initialized with ' + e['kind'])
    tr.full(d, lambda: construct_at(tr, x, ty[1], e, d))
    f = dtor_of(tr, ty[1])
    if f is not None:
        # its destructor runs when the function returns (not after an exception: what it frees then is not observed)
        if len(tr.this) > 1 or tr.brk: tr.err(d, 'object with a destructor in an inner block')
        tr.dtors.append((V(x, ty), f))
    return V(x, ty)
RUN_DTORS = ('XMLParseData',)
def dtor_of(tr, cls):
    if cls not in RUN_DTORS: return None
    for f in tr.p.fns.values():
        if f.cls == cls and f.kind == 'CXXDestructorDecl' and f.body is not None: return f

# ------------------------------------------------------------------ output streams
def out(tr, o, s):
    need(tr, 'obj.Out')
    if o == '2': return
    tr.emit('out_ %s %s;' % (P(o), P(s))); tr.touch('os_txt')

MANIP = {'endl': b'\n', 'ends': b'\0', 'flush': b''}
def stream_op(tr, nm, a, n):
    t = T()
    s = val(tr, tr.lv(a[0]))
    if nm == 'operator<<' and s.ty[0] == 'ostream':
        need(tr, 'obj.Out')
        c = strip(a[1])
        while c['kind'] == 'ImplicitCastExpr' and c.get('castKind') in ('FunctionToPointerDecay',): c = strip(inner(c)[0])
        if c['kind'] == 'DeclRefExpr' and c['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            m = c['referencedDecl'].get('name')
            if m in MANIP:
                if MANIP[m]: out(tr, s.t, tr.u.str_lit(MANIP[m]))
                return s
            if m == 'dec' and tr.hexes: tr.emit('hex_ <- hset hex_ %s false;' % P(s.t)); return s
            if m in ('dec', 'skipws', 'noboolalpha', 'defaultfloat', 'unitbuf', 'nounitbuf'): return s
            if m == 'hex' and tr.hexes and s.ty == ('ostream', 's'): tr.emit('hex_ <- hset hex_ %s true;' % P(s.t)); return s
            tr.err(n, 'manipulator ' + m)
        v = val(tr, tr.ex(a[1]))
        if isIt(v): tr.err(n, 'output of an iterator')
        if v.ty[0] == 'cstr' and isinstance(v.x, bytes) and b'\n' in v.x and v.x != b'\n':
            # line by line, so that it does not matter how a line was ended
            for i, l in enumerate(v.x.split(b'\n')):
                if i: out(tr, s.t, tr.u.str_lit(b'\n'))
                if l: out(tr, s.t, tr.u.str_lit(l))
            return s
        out(tr, s.t, text_of(tr, s, v, n, c))
        return s
    if nm == 'operator>>' and s.ty[0] == 'istream': return extract(tr, s, a[1], n)
    tr.err(n, '%s on %r' % (nm, s.ty))
def text_of(tr, s, v, n, node=None):
    if v.ty[0] in ('str', 'cstr', 'decay'): return as_str(tr, v, n)
    if v.ty[0] == 'int':
        k = v.ty[1]
        if BITS[k][1] == 8: return '(schr %s)' % P(v.t if k == 's8' else '(s8 %s)' % v.t)
        if tr.hexes and v.x is None: return '(if hget hex_ %s then hexd (%s %s) else dec %s)' % (P(s.t), 'u' + k[1:], P(v.t), P(v.t))
        return '(dec %s)' % P(v.t)
    if v.ty[0] == 'bool': return '(dec (b2i %s))' % P(v.t)
    if v.ty[0] in ('float', 'double'):
        need(tr, 'fl.Text')
        return '(txt%s (hget os_prec %s) %s)' % ('32' if v.ty[0] == 'float' else '64', P(s.t), P(v.t))
    tr.err(n, 'output of %r' % (v.ty,))
def stream_method(tr, o, nm, args, n):
    A = [a for a in args if strip(a)['kind'] != 'CXXDefaultArgExpr']
    if o.ty[0] == 'ostream':
        need(tr, 'obj.Out')
        if nm == 'str' and not A: return V(tr.let('hget os_txt %s' % P(o.t), 's'), ('str',))
        if nm == 'str':
            s = as_str(tr, tr.ex(A[0]), n); tr.emit('os_txt <- hset os_txt %s %s;' % (P(o.t), P(s))); tr.touch('os_txt'); return V('()', ('void',))
        if nm == 'precision':
            if not A: return V(tr.let('hget os_prec %s' % P(o.t)), ('int', 's64'))
            old = tr.let('hget os_prec %s' % P(o.t)); p = tr.ex(A[0])
            tr.emit('os_prec <- hset os_prec %s %s;' % (P(o.t), P(p.t))); tr.touch('os_prec'); return V(old, ('int', 's64'))
        if nm == 'flush': return o
        if nm in ('write',):
            v = [tr.ex(a) for a in A]
            if v[0].ty[0] == 'cstr' and v[0].sh is not None or v[0].ty[0] == 'sdata':
                src = v[0].sh if v[0].ty[0] == 'cstr' else v[0].t
                tr.check('%s <= slen %s' % (P(v[1].t), P(src)), 'bytes within the string', n)
                out(tr, o.t, '(ssub_ %s 0 %s)' % (P(src), P(v[1].t))); return o
            if v[0].ty[0] == 'ptr': out(tr, o.t, lib.ptr_str(tr, v[0], v[1].t, n)); return o
            if v[0].ty[0] == 'decay': out(tr, o.t, lib.arr_str(tr, v[0].t, v[1].t, n)); return o
            tr.err(n, 'write of %r' % (v[0].ty,))
        if nm == 'put':
            v = tr.ex(A[0]); out(tr, o.t, '(schr %s)' % P(v.t)); return o
    return in_method(tr, o, nm, A, n)
IN = ('is_pos', 'is_eof', 'is_fail', 'is_bad')
def is_ok(tr, o):
    if o.ty[0] == 'ostream':
        need(tr, 'obj.Out'); return '(os_good_ %s)' % P(o.t)
    need(tr, 'obj.In')
    return '(not (hget is_fail %s || hget is_bad %s))' % (P(o.t), P(o.t))
def in_method(tr, o, nm, A, n):
    if nm in ('operator bool', 'operator void *'): return V(is_ok(tr, o), ('bool',))
    if nm == 'exceptions' and not A: return V('0', ('int', 's32'), 0, x=0)
    if o.ty[0] != 'istream': tr.err(n, 'stream method ' + nm)
    need(tr, 'obj.In')
    i = P(o.t)
    if nm in ('eof', 'bad'): return V('(hget is_%s %s)' % (nm, i), ('bool',))
    if nm == 'fail': return V('(hget is_fail %s || hget is_bad %s)' % (i, i), ('bool',))
    if nm == 'good': return V('(not (hget is_fail %s || hget is_bad %s || hget is_eof %s))' % (i, i, i), ('bool',))
    if nm == 'tellg': return V(tr.let('tellg_ %s' % i, 'pos'), ('int', 's64'))
    if nm == 'seekg':
        v = [tr.ex(a) for a in A]
        tr.emit('seekg_ %s %s %s;' % (i, P(v[0].t), P(v[1].t) if len(v) > 1 else '0'))
        for r in ('is_pos', 'is_eof', 'is_fail'): tr.touch(r)
        return o
    if nm == 'get' and len(A) == 1:
        lv = tr.lv(A[0]); ok = tr.fresh('ok'); c = tr.fresh('c')
        tr.emit('let (%s, %s) = get_ %s in' % (ok, c, i))
        for r in IN: tr.touch(r)
        tr.emit('if %s then begin' % ok); tr.setlv(lv, c); tr.emit('() end;')
        return o
    if nm == 'read':
        v = [tr.ex(a) for a in A]
        p = v[0]
        if p.ty[0] == 'decay': p = V(lib.array_ptr(tr, p.t, n), ('ptr', ('int', 's8')))
        tr.emit('read_ %s %s %s;' % (i, P(p.t), P(v[1].t)))
        for r in IN + ('mem_b',): tr.touch(r)
        return o
    if nm == 'gcount': return V('(hget is_cnt %s)' % i, ('int', 's64'))
    tr.err(n, 'stream method ' + nm)
def extract(tr, s, a, n):
    """the first value read from a stream on a string"""
    need(tr, 'obj.In'); need(tr, 'fl.Text')
    lv = tr.lv(a)
    i = P(s.t)
    tr.check('hget is_pos %s = 0 /\\ not (hget is_fail %s) /\\ not (hget is_bad %s) /\\ not (hget is_eof %s)' % (i, i, i, i), 'the first value of the stream is read', n)
    f = 'scanb' if lv.ty[0] == 'bool' else 'scani' if lv.ty == ('int', 's64') else None
    if f is None: tr.err(n, 'reading of %r' % (lv.ty,))
    tr.emit('if not (blankb (hget is_data %s)) then begin' % i); tr.setlv(lv, '(%s (hget is_data %s))' % (f, i)); tr.emit('() end;')
    tr.emit('is_pos <- hset is_pos %s 1;' % i); tr.touch('is_pos')
    return s
def stream_new(tr, ty, n):
    c = [strip(e) for e in inner(n) if strip(e)['kind'] == 'CXXConstructExpr']
    A = [a for a in inner(c[0]) if strip(a)['kind'] != 'CXXDefaultArgExpr'] if c else []
    if ty[1] != 'f' or not A: tr.err(n, 'new stream without a file')
    s = as_str(tr, tr.ex(A[0]), n); m = None
    if len(A) > 1: m = val(tr, tr.ex(A[1])).x
    if ty[0] == 'ostream':
        need(tr, 'obj.Out')
        if len(A) > 1 and (m is None or m & ~(16 | 32 | 4)): tr.err(n, 'mode of an output file')
        x = tr.let('new_os_file_ %s' % P(s), 'os')
        for r in ('os_txt', 'os_prec', 'os_live'): tr.touch(r)
        return V(x, ('ostream', 'f'))
    need(tr, 'obj.In')
    if len(A) > 1 and (m is None or m & ~(8 | 4)): tr.err(n, 'mode of an input file')
    x = tr.let('new_is_file_ %s' % P(s), 'is')
    for r in IN + ('is_data', 'is_live'): tr.touch(r)
    return V(x, ('istream', 'f'))
def close_stream(tr, v, n):
    k = 'os' if v.ty[0] == 'ostream' else 'is'
    need(tr, 'obj.Out' if k == 'os' else 'obj.In')
    tr.emit('delete_%s_ %s;' % (k, P(v.t))); tr.touch(k + '_live')
def stream_decl(tr, d, ini, ty, x):
    need(tr, 'obj.Out')
    e = strip(ini) if ini is not None else None
    A = [a for a in inner(e) if strip(a)['kind'] != 'CXXDefaultArgExpr'] if e is not None and e['kind'] == 'CXXConstructExpr' else []
    if ty[0] == 'ostream' and ty[1] == 's':
        s = None
        if A: s = tr.full(A[0], lambda: as_str(tr, tr.ex(A[0]), d))
        tr.emit('let %s = new_os_ 0 in' % x)
        for r in ('os_txt', 'os_prec', 'os_live'): tr.touch(r)
        return V(x, ty)
    return stream_decl2(tr, d, A, ty, x)
def stream_decl2(tr, d, A, ty, x):
    if ty[0] == 'istream' and ty[1] in ('f', 's') and A:
        need(tr, 'obj.In')
        s = tr.full(A[0], lambda: as_str(tr, tr.ex(A[0]), d))
        for a in A[1:]: tr.full(a, lambda: tr.ex(a))
        tr.emit('let %s = new_is_%s_ %s in' % (x, 'file' if ty[1] == 'f' else 'str', P(s)))
        for r in IN + ('is_data', 'is_live'): tr.touch(r)
        return V(x, ty)
    tr.err(d, 'stream object')
def stream_construct(tr, n, ty, A): tr.err(n, 'stream object')

# ------------------------------------------------------------------ functions
def as_ptr(tr, v, n):
    if v.ty[0] == 'ptr': return v
    if v.ty == ('null',): return V('pnull', ('ptr', ('int', 'u8')))
    if v.ty[0] == 'cstr' and v.sh is not None or v.ty[0] == 'sdata':
        p = tr.let('strptr_ %s' % P(v.sh if v.ty[0] == 'cstr' else v.t), 'p'); tr.touch('msz'); tr.touch('mem_b')
        return V(p, ('ptr', ('int', 'u8')))
    tr.err(n, 'pointer from %r' % (v.ty,))
def call(tr, nm, A, n, d):
    if nm == 'endl': return V('()', ('void',))
    if nm == 'malloc':
        v = tr.ex(A[0])
        r = V(tr.let('alloc_ %s' % P(v.t), 'p'), ('ptr', ('int', 'u8'))); tr.touch('msz'); return r
    if nm == 'free':
        v = as_ptr(tr, tr.ex(A[0]), n)
        tr.emit('free_ %s;' % P(v.t)); tr.touch('msz'); return V('()', ('void',))
    if nm == 'gethostname':
        need(tr, 'obj.Arr')
        o = tr.ex(A[0]); k = val(tr, tr.ex(A[1]))
        if o.ty[0] != 'decay' or o.t.ty[1] != ('int', 's8') or not o.t.ty[2]: tr.err(n, 'gethostname')
        r, m = tr.fresh('r'), tr.fresh('m')
        tr.emit('let (%s, %s) = gethostname_ %s %d %s in' % (r, m, P(tr.getlv(o.t)), o.t.ty[2], P(k.t)))
        tr.setlv(o.t, m); return V(r, ('int', 's32'))
    if nm == 'time':
        need(tr, 'obj.Arr')
        o = tr.ex(A[0]); r = tr.let('time_ ()', 't')
        if o.ty[0] == 'addr': tr.setlv(o.t, r)
        elif o.ty[0] != 'null': tr.err(n, 'time')
        return V(r, ('int', 's64'))
    if nm == 'ctime':
        need(tr, 'obj.Arr')
        o = tr.ex(A[0])
        if o.ty[0] != 'addr': tr.err(n, 'ctime')
        return V(tr.let('ctime_ %s' % P(tr.getlv(o.t)), 'w'), ('cstr',))
    if nm in ('set_unexpected', 'set_terminate'): return V('()', ('void',))   # the handler itself is not run: exceptions are part of the contracts
    if nm == 'strtol':
        need(tr, 'args.Strtol')
        v = tr.ex(A[0]); e = tr.ex(A[1]); b = val(tr, tr.ex(A[2]))
        if e.ty[0] != 'null': tr.err(n, nm + ' with an end pointer')
        tr.check('%s = 0 \\/ 2 <= %s <= 36' % (b.t, b.t), 'a number base', n)
        return V('(strtolv %s %s)' % (P(as_str(tr, v, n)), P(b.t)), ('int', 's64'))
    if nm in ('strtof', 'strtod'):
        need(tr, 'fl.Text')
        v = tr.ex(A[0]); e = tr.ex(A[1])
        if e.ty != ('null',): tr.err(n, nm + ' with an end pointer')
        return V('(scan%s %s)' % ('32' if nm == 'strtof' else '64', P(as_str(tr, v, n))), ('float',) if nm == 'strtof' else ('double',))
    if nm in ('abs', 'fabs') and len(A) == 1:
        v = tr.ex(A[0])
        if v.ty[0] == 'double': return V('(fabs %s)' % P(v.t), v.ty)
        if v.ty[0] == 'float': return V('(f_of_d (fabs (d_of_f %s)))' % P(v.t), v.ty)
        if v.ty[0] == 'int':
            x = tr.let(v.t); tr.check('%s > %d' % (x, rng(v.ty[1])[0]), 'no signed overflow', n)
            return V('(if %s < 0 then - %s else %s)' % (x, x, x), v.ty)
    if nm in ('max', 'min', 'epsilon', 'infinity', 'lowest') and not A:
        t = tr.tyof(n)
        if t[0] == 'int': return V(T().ilit(0 if nm == 'epsilon' else rng(t[1])[1 if nm == 'max' else 0]), t, x=0 if nm == 'epsilon' else rng(t[1])[1 if nm == 'max' else 0])
        if t[0] == 'bool': return V('true' if nm == 'max' else 'false', t, x=1 if nm == 'max' else 0)
        c = {('max', 'double'): 'dmax', ('epsilon', 'double'): 'deps', ('max', 'float'): 'fmax_', ('epsilon', 'float'): 'feps'}.get((nm, t[0]))
        if c: return V(c, t)
    if nm.startswith('XML_'): return expat(tr, nm, A, n)
    if nm.startswith('itksysProcess_'): return process(tr, nm[14:], A, n)
    tr.err(n, 'function ' + nm)
def callback(tr, k, a, n):
    a = strip(a)
    while a['kind'] in ('ImplicitCastExpr', 'UnaryOperator'): a = strip(inner(a)[0])
    f = tr.u.lookup(tr.cur[-1].tu, a['referencedDecl']['id']) if a['kind'] == 'DeclRefExpr' else None
    f = tr.u.definition(f) if f is not None else None
    sp = tr.u.spec_of(f, tr) if f is not None else None
    if sp is None: tr.err(n, 'callback without a contract')
    if tr.callbacks.setdefault(k, tr.u.use_contract(f, sp)) != tr.u.use_contract(f, sp): tr.err(n, 'callback set twice')
def expat(tr, nm, A, n):
    need(tr, 'xml.Expat')
    void = V('()', ('void',))
    def touch(*r):
        for x in r: tr.touch(x)
    X = ('xml_fed', 'xml_final', 'xml_nest', 'xml_buf', 'xml_room', 'xml_user', 'xml_born', 'xml_ok')
    if nm == 'XML_ParserCreate':
        for a in A: tr.ex(a)
        p = tr.let('xml_create_ dyn', 'p'); touch(*X); return V(p, ('int', 's64'))
    if nm == 'XML_SetElementHandler': tr.ex(A[0]); callback(tr, 'CALLSTART', A[1], n); callback(tr, 'CALLEND', A[2], n); return void
    if nm == 'XML_SetCharacterDataHandler': tr.ex(A[0]); callback(tr, 'CALLDATA', A[1], n); return void
    if nm == 'XML_SetUserData':
        v = val(tr, tr.ex(A[1]))
        if v.ty[0] != 'loc': tr.err(n, 'user data of the parser')
        tr.emit('xml_user <- %s;' % v.t); touch('xml_user'); return void
    if nm == 'XML_GetBuffer':
        k = val(tr, tr.ex(A[1])); p = tr.let('xml_getbuffer_ %s' % P(k.t), 'p'); touch('xml_buf', 'xml_room', 'msz'); return V(p, ('ptr', ('int', 's8')))
    if nm in ('XML_ParseBuffer', 'XML_Parse'):
        for a in A[:1]: tr.ex(a)
        if nm == 'XML_Parse':
            p = tr.ex(A[1])
            if p.ty[0] == 'decay': p = V(lib.array_ptr(tr, p.t, n), ('ptr', ('int', 's8')))
            if p.ty[0] != 'ptr': tr.err(n, 'text for the parser')
        k = val(tr, tr.ex(A[-2])); f = val(tr, tr.ex(A[-1]))
        if f.ty[0] == 'int': f = V('(%s <> 0)' % P(f.t), ('bool',))
        if nm == 'XML_Parse': tr.emit('xml_take_ %s %s %s;' % (P(p.t), P(k.t), P(f.t)))
        else: tr.emit('xml_take_buf_ %s %s;' % (P(k.t), P(f.t)))
        tr.emit('xml_events_ ();'); touch('xml_fed', 'xml_final', 'xml_room', 'xml_nest', 'xml_ok')
        if not tr.spec.driver: tr.err(n, 'no contract for the events')
        touch(*re.search(r'writes \{([^}]*)\}', tr.spec.driver).group(1).replace(',', ' ').split())
        return V(tr.let('xml_result_ ()', 'r'), ('int', 's32'))
    if nm == 'XML_ParserFree': tr.ex(A[0]); return void
    if nm in ('XML_GetCurrentLineNumber', 'XML_GetErrorCode', 'XML_GetCurrentColumnNumber'):
        t = tr.tyof(n)
        return V(tr.let('xml_info_ ()', 'i'), t if t[0] == 'int' else ('int', 'u32'))
    if nm == 'XML_ErrorString': tr.ex(A[0]); return V(tr.let('xml_error_ ()', 'w'), ('cstr',))
    tr.err(n, 'function ' + nm)
def process(tr, nm, A, n):
    need(tr, 'obj.Proc')
    void = V('()', ('void',))
    if nm == 'New':
        p = tr.let('proc_new_ ()', 'p'); [tr.touch(x) for x in ('proc_argc', 'proc_argv', 'proc_got', 'proc_left', 'proc_run')]; return V(p, ('int', 's64'))
    tr.ex(A[0])
    if nm == 'SetCommand':
        p = tr.ex(A[1])
        if p.ty != ('ptr', ('cstr',)): tr.err(n, 'command of a process')
        q = tr.let(p.t, 'q'); tr.point('before', 'itksysProcess_SetCommand', 1)
        tr.emit('proc_command_ %s (hget msz %s.blk) (hget mem_cstr %s.blk);' % (q, q, q)); tr.touch('proc_argc'); tr.touch('proc_argv'); return V('1', ('int', 's32'))
    if nm == 'Execute': tr.emit('proc_execute_ ();'); tr.touch('proc_run'); tr.touch('proc_left'); return void
    if nm == 'WaitForData':
        d, k = tr.ex(A[1]), tr.ex(A[2])
        if d.ty[0] != 'addr' or k.ty[0] != 'addr': tr.err(n, 'waiting for data')
        lim = '' if tr.ex(A[3]).ty[0] == 'null' else 't_'
        r, p, c = tr.fresh('r'), tr.fresh('p'), tr.fresh('c')
        tr.emit('let (%s, %s, %s) = proc_data_%s () in' % (r, p, c, lim))
        for x in ('msz', 'mem_b', 'proc_got', 'proc_left'): tr.touch(x)
        tr.setlv(d.t, p); tr.setlv(k.t, c); return V(r, ('int', 's32'))
    if nm == 'WaitForExit':
        if tr.ex(A[1]).ty[0] != 'null': tr.err(n, 'waiting with a limit')
        tr.emit('proc_wait_ ();'); tr.touch('proc_run'); return V('1', ('int', 's32'))
    if nm == 'GetState': return V(tr.let('proc_state_ ()', 's'), ('int', 's32'))
    if nm == 'GetExitValue': return V(tr.let('proc_exit_ ()', 'x'), ('int', 's32'))
    if nm in ('GetExceptionString', 'GetErrorString'): return V(tr.let('any_cstr_ ()', 'w'), ('cstr',))
    if nm == 'Delete': return void
    tr.err(n, 'function itksysProcess_' + nm)
def mem_call(tr, nm, A, n):
    v = [tr.ex(a) for a in A]
    if nm in ('memcpy', 'memcmp'):
        a, b = as_ptr(tr, v[0], n), as_ptr(tr, v[1], n)
        if nm == 'memcpy':
            tr.emit('memcpy_ %s %s %s;' % (P(a.t), P(b.t), P(v[2].t))); tr.touch('mem_b'); return a
        return V(tr.let('memcmp_ %s %s %s' % (P(a.t), P(b.t), P(v[2].t)), 'r'), ('int', 's32'))
    if nm == 'strlen': return V('(slen_ %s)' % P(as_str(tr, v[0], n)), ('int', 'u64'), 1 << 62)
    if nm == 'strcmp': return V('(scompare_ %s %s)' % (P(as_str(tr, v[0], n)), P(as_str(tr, v[1], n))), ('int', 's32'))
    tr.err(n, nm)

# ------------------------------------------------------------------ floating point
def float_lit(u, v, ty):
    from fractions import Fraction
    f = Fraction(float(v))
    if f.denominator == 1: t = '(d_of_int %s)' % T().ilit(f.numerator)
    else: t = '(d_lit %s %s)' % (T().ilit(f.numerator), f.denominator)
    return '(f_of_d %s)' % t if ty[0] == 'float' else t
def dbl(v):
    if v.ty[0] == 'double': return v.t
    if v.ty[0] == 'float': return '(d_of_f %s)' % P(v.t)
    if v.ty[0] == 'int': return '(d_of_int %s)' % P(v.t)
    if v.ty[0] == 'bool': return '(d_of_int (b2i %s))' % P(v.t)
    raise TransError('floating point value of %r' % (v.ty,))
def float_cast(tr, ck, v, ty, n):
    if ck == 'FloatingToBoolean': return V('(not (feq %s (d_of_int 0)))' % P(dbl(v)), ('bool',))
    if ck == 'FloatingToIntegral': tr.err(n, 'conversion of a floating point value to an integer')
    return V(dbl(v), ty) if ty[0] == 'double' else V('(f_of_d %s)' % P(dbl(v)), ty)
def float_bin(tr, op, a, b, ty, n):
    f = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}.get(op)
    if f is None: tr.err(n, 'operator ' + op)
    t = '(%s %s %s)' % (f, P(dbl(a)), P(dbl(b)))
    return V(t if ty[0] == 'double' else '(f_of_d %s)' % t, ty)
def float_cmp(tr, op, a, b, n):
    x, y = P(dbl(a)), P(dbl(b))
    return {'==': '(feq %s %s)' % (x, y), '!=': '(not (feq %s %s))' % (x, y), '<': '(flt %s %s)' % (x, y), '>': '(flt %s %s)' % (y, x),
            '<=': '(fle %s %s)' % (x, y), '>=': '(fle %s %s)' % (y, x)}[op]
def float_neg(tr, v): return V('(fneg %s)' % P(v.t), v.ty) if v.ty[0] == 'double' else V('(f_of_d (fneg (d_of_f %s)))' % P(v.t), v.ty)
