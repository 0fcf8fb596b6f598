"""Models of the library operations the code uses (std::string, lists, streams, system calls)."""
import re
from .types import TransError, BITS, rng

GLOBREFS = set()
ENUMS = {'badbit': 1, 'eofbit': 2, 'failbit': 4, 'goodbit': 0, '_S_in': 8, 'in': 8, '_S_out': 16, 'out': 16, 'binary': 4, '_S_bin': 4, 'app': 1, 'ate': 2, 'trunc': 32,
         'beg': 0, 'cur': 1, 'end': 2, '_S_beg': 0, '_S_cur': 1, '_S_end': 2}
ENUMS.update(('itksysProcess_State_' + k, i) for i, k in enumerate(('Starting', 'Error', 'Exception', 'Executing', 'Exited', 'Expired', 'Killed', 'Disowned')))
ENUMS.update(itksysProcess_Pipe_None=0, itksysProcess_Pipe_STDIN=1, itksysProcess_Pipe_STDOUT=2, itksysProcess_Pipe_STDERR=3, itksysProcess_Pipe_Timeout=255)

def T():
    from . import trans
    return trans

def touched(txt): return set()

# ------------------------------------------------------------------ helpers
def val(tr, v):
    """an rvalue V (an lvalue is read)"""
    t = T()
    if isinstance(v, t.LV): return tr.read(v)
    return v
def P(x): return T().paren(x)
def inner(n): return T().inner(n)
def strip(n): return T().strip(n)
def V(*a, **k): return T().V(*a, **k)
def LV(*a): return T().LV(*a)
def isLV(x): return isinstance(x, T().LV)
def isIt(x): return isinstance(x, T().It)

def as_str(tr, v, n):
    """text of a string, C string or character argument"""
    v = val(tr, v)
    if v.ty == ('str',): return v.t
    if v.ty[0] == 'cstr':
        if v.x is not None and isinstance(v.x, bytes): return tr.u.str_lit(v.x)
        return '(cval_ %s)' % P(v.t)
    if v.ty == ('int', 's8'): return '(schr %s)' % P(v.t)
    if v.ty[0] == 'decay': return '(cval_ %s)' % P(arr_cstr(tr, v.t, n))
    tr.err(n, 'string from %r' % (v.ty,))

def arr_cstr(tr, lv, n):
    if lv.ty[0] != 'arr' or lv.ty[1] != ('int', 's8') or not lv.ty[2]: tr.err(n, 'array %r as a C string' % (lv.ty,))
    if 'obj.Arr' not in tr.u.uses: tr.u.uses.append('obj.Arr')
    return '(CStr (atext_ %s %d))' % (P(tr.getlv(lv)), lv.ty[2])

def fresh_str(tr, t):
    return V(tr.let(t, 's') if tr.eff else t, ('str',))

def is_list(ty): return ty[0] in ('list', 'mmap')

# ------------------------------------------------------------------ operators of classes
def op_lv(tr, n):
    t = T()
    nm = tr.callee_name(n)
    a = inner(n)[1:]
    # an operator of our own
    c = strip(inner(n)[0])
    while c['kind'] in ('ImplicitCastExpr',): c = strip(inner(c)[0])
    if c['kind'] == 'DeclRefExpr':
        f = tr.u.lookup(tr.cur[-1].tu, c['referencedDecl']['id'])
        if f is not None:
            f = tr.u.definition(f)
            if f.cls and not f.static:
                obj = tr.lv(a[0])
                if isIt(obj): obj = tr.deref_it(obj, n)
                if f.body is None and nm == 'operator=' : return assign_val(tr, obj, tr.ex(a[1]), n)
                return tr.call(f, obj, a[1:], n)
            return tr.call(f, None, a, n)
    if nm in ('operator<<', 'operator>>'): return stream_op(tr, nm, a, n)
    if nm == 'operator=':
        l = tr.lv(a[0])
        if isIt(l):
            r = tr.ex(a[1])
            if not isIt(r) or str(r.cont.root) != str(l.cont.root) or str(r.cont.path) != str(l.cont.path): tr.err(n, 'assignment of an iterator of another container')
            tr.emit('%s <- %s;' % (l.t, r.t)); tr.touch(l.t); return l
        r = tr.ex(a[1])
        return assign_val(tr, l, r, n)
    if nm == 'operator[]':
        l = tr.lv(a[0]); i = tr.ex(a[1])
        if isIt(l): tr.err(n, 'iterator subscript')
        lv = tr.tolv(l)
        if lv.ty == ('str',):
            it = i.t if i.x is not None or re.match(r'^[\w]+$', i.t) and not tr.eff else tr.let(i.t, 'i') if tr.eff else i.t
            tr.check('0 <= %s <= slen %s' % (it, P(tr.getlv(lv))), 'index within the string', n)
            return tr.ext(lv, ('chr', it), ('int', 's8'))
        if lv.ty[0] == 'vec':
            tr.check('0 <= %s < %s' % (i.t, lv.ty[2]), 'index within the components', n)
            return tr.ext(lv, ('idx', i.t), lv.ty[1])
        tr.err(n, 'operator[] on %r' % (lv.ty,))
    if nm in ('operator==', 'operator!=', 'operator<'):
        x = tr.ex(a[0]); y = tr.ex(a[1])
        if isIt(x) or isIt(y): return V(tr.cmp_it('==' if nm == 'operator==' else '!=', x, y, n), ('bool',))
        if ('str',) in (x.ty, y.ty) and nm != 'operator<':
            r = '(seqb %s %s)' % (P(as_str(tr, x, n)), P(as_str(tr, y, n)))
            return V(r if nm == 'operator==' else '(not %s)' % r, ('bool',))
        tr.err(n, '%s on %r' % (nm, x.ty))
    if nm == 'operator!':
        x = val(tr, tr.lv(a[0]))
        if x.ty[0] in ('ostream', 'istream'):
            from . import lib2
            return V('(not %s)' % P(lib2.is_ok(tr, x)), ('bool',))
    if nm in ('operator&', 'operator|', 'operator^', 'operator-', 'operator+') and all(_intlike(tr, x) for x in a):
        x = val(tr, tr.ex(a[0])); y = val(tr, tr.ex(a[1])); return tr.arith(nm[8:], x, tr.convert(y, x.ty, n), x.ty, n)
    if nm in ('operator|=', 'operator&=', 'operator+=', 'operator-=') and all(_intlike(tr, x) for x in a):
        y = val(tr, tr.ex(a[1])); l = tr.lv(a[0]); x = val(tr, l)
        tr.setlv(l, tr.arith(nm[8:-1], x, tr.convert(y, x.ty, n), x.ty, n).t); return l
    if nm == 'operator+':
        x = tr.ex(a[0]); y = tr.ex(a[1])
        if isIt(x): return t.It(x.cont, '(%s + %s)' % (P(x.t), P(y.t)))
        return fresh_str(tr, '(scat_ %s %s)' % (P(as_str(tr, x, n)), P(as_str(tr, y, n))))
    if nm == 'operator+=':
        y = tr.ex(a[1]); s = as_str(tr, y, n)
        l = tr.lv(a[0])
        if isIt(l): tr.err(n, 'iterator arithmetic')
        tr.setlv(l, '(scat_ %s %s)' % (P(tr.getlv(l)), P(s))); return l
    if nm == 'operator*':
        x = tr.lv(a[0])
        if isIt(x): return tr.deref_it(x, n)
        return tr.deref(val(tr, x), n)
    if nm == 'operator->':
        x = tr.lv(a[0])
        if isIt(x): return x
        return val(tr, x)
    if nm in ('operator++', 'operator--'):
        x = tr.lv(a[0])
        if isIt(x):
            if nm == 'operator++': tr.check('0 <= %s < %s' % (x.t, tr.len_of(x.cont)), 'the iterator is not at the end', n)
            else: tr.check('0 < %s' % x.t, 'the iterator is not at the beginning', n)
            post = len(a) > 1
            old = tr.let(x.t, 'old') if post else None
            if not re.match(r'^\w+$', x.t): tr.err(n, 'increment of a temporary iterator')
            tr.emit('%s <- %s %s 1;' % (x.t, x.t, '+' if nm == 'operator++' else '-')); tr.touch(x.t)
            return t.It(x.cont, old) if post else x
    tr.err(n, 'operator ' + nm)

def _intlike(tr, n):
    try: return tr.tyof(n)[0] == 'int' and tr.tyof(n) != ('int', 's8')
    except TransError: return False

def assign_val(tr, l, r, n):
    r = val(tr, r)
    l = tr.tolv(l)
    if l.ty == ('str',):
        s = as_str(tr, r, n)
        if tr.eff and not re.match(r'^\w+$', s): s = tr.let(s, 's')
        tr.setlv(l, s)
    else: tr.setlv(l, tr.coerce(r, l.ty, n).t)
    return l

# ------------------------------------------------------------------ methods of library classes
def method(tr, obj, nm, args, n):
    t = T()
    if isIt(obj): tr.err(n, 'method of an iterator')
    ty = obj.ty
    if ty == ('str',): return str_method(tr, tr.tolv(obj), nm, args, n)
    if is_list(ty): return list_method(tr, tr.tolv(obj), nm, args, n)
    if ty[0] in ('ostream', 'istream'): return stream_method(tr, val(tr, obj), nm, args, n)
    if ty[0] == 'region' and nm in ('GetIndex', 'GetSize') and not args:
        i = 1 if nm == 'GetIndex' else 2
        return tr.read(tr.ext(tr.tolv(obj), ('fst',) if i == 1 else ('snd',), ty[i]))
    if ty[0] == 'exc' and nm == 'what': return V(tr.let('any_cstr_ ()', 'w'), ('cstr',))
    if ty[0] == 'bool' and nm == 'operator bool': return val(tr, obj)
    if ty[0] == 'int' and nm.startswith('operator '): return val(tr, obj)
    tr.err(n, 'method %s of %r' % (nm, ty))

def str_method(tr, lv, nm, args, n):
    t = T()
    s = tr.getlv(lv)
    A = [a for a in args if strip(a)['kind'] != 'CXXDefaultArgExpr']
    if nm in ('length', 'size'): return V('(slen_ %s)' % P(s), ('int', 'u64'), (1 << 62))
    if nm == 'empty': return V('(slen_ %s = 0)' % P(s), ('bool',))
    if nm in ('c_str', 'data'): return V('(CStr (cpre %s))' % P(s), ('cstr',), x=None, sh=s) if nm == 'c_str' else V(s, ('sdata',), x=lv)
    if nm == 'substr':
        v = [tr.ex(a) for a in A]
        p = v[0].t if v else '0'; c = v[1].t if len(v) > 1 else 'npos'
        return fresh_str(tr, '(ssub_ %s %s %s)' % (P(s), P(p), P(c)))
    if nm in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        v = [tr.ex(a) for a in A]
        p = v[1].t if len(v) > 1 else ('0' if 'last' not in nm and nm != 'rfind' else 'npos')
        if nm in ('find_first_of', 'find_last_of') and (v[0].ty == ('int', 's8') or isinstance(v[0].x, bytes) and len(v[0].x) == 1):
            nm = 'find' if nm == 'find_first_of' else 'rfind'
        if nm in ('find', 'rfind'):
            if v[0].ty == ('int', 's8'): c = v[0].t
            elif isinstance(v[0].x, bytes) and len(v[0].x) == 1: c = t.ilit(v[0].x[0] if v[0].x[0] < 128 else v[0].x[0] - 256)
            else: tr.err(n, 'search for a string')
            return V('(s%sc_ %s %s %s)' % (nm, P(s), P(c), P(p)), ('int', 'u64'))
        if nm == 'find_first_of': return V('(sfindfirst_ %s %s %s)' % (P(s), P(as_str(tr, v[0], n)), P(p)), ('int', 'u64'))
        tr.err(n, nm)
    if nm == 'compare':
        v = tr.ex(A[0]); return V('(scompare_ %s %s)' % (P(s), P(as_str(tr, v, n))), ('int', 's32'))
    if nm in ('append', 'push_back'):
        v = [tr.ex(a) for a in A]
        if len(v) == 1: x = as_str(tr, v[0], n)
        elif v[0].ty[0] == 'int': x = '(srep_ %s %s)' % (P(v[0].t), P(v[1].t))
        elif v[0].ty == ('str',): x = '(ssub_ %s %s %s)' % (P(v[0].t), P(v[1].t), P(v[2].t) if len(v) > 2 else 'npos')
        elif v[0].ty[0] == 'ptr': x = '(' + ptr_str(tr, v[0], v[1].t, n) + ')'
        elif v[0].ty[0] == 'cstr': x = '(ssub_ (cval_ %s) 0 %s)' % (P(v[0].t), P(v[1].t)); tr.check('%s <= slen (cval %s)' % (P(v[1].t), P(v[0].t)), 'characters within the C string', n)
        elif v[0].ty[0] == 'decay': x = arr_str(tr, v[0].t, v[1].t, n)
        else: tr.err(n, 'append of %r' % (v[0].ty,))
        tr.setlv(lv, '(scat_ %s %s)' % (P(tr.getlv(lv)), P(x))); return lv if nm == 'append' else V('()', ('void',))
    if nm == 'assign':
        v = [tr.ex(a) for a in A]
        if len(v) == 1: x = as_str(tr, v[0], n)
        elif v[0].ty[0] == 'ptr': x = ptr_str(tr, v[0], v[1].t, n)
        elif v[0].ty[0] == 'int': x = '(srep_ %s %s)' % (P(v[0].t), P(v[1].t))
        else: tr.err(n, 'assign of %r' % (v[0].ty,))
        tr.setlv(lv, x); return lv
    if nm == 'erase':
        v = [tr.ex(a) for a in A]
        if any(isIt(x) for x in v): tr.err(n, 'erase by iterator')
        p = v[0].t if v else '0'; c = v[1].t if len(v) > 1 else 'npos'
        tr.setlv(lv, '(serase_ %s %s %s)' % (P(s), P(p), P(c))); return lv
    if nm == 'pop_back':
        tr.check('slen %s > 0' % P(s), 'the string is not empty', n)
        tr.setlv(lv, '(ssub %s 0 (slen %s - 1))' % (P(s), P(s))); return V('()', ('void',))
    if nm == 'clear': tr.setlv(lv, 'sempty'); return V('()', ('void',))
    if nm in ('reserve', 'shrink_to_fit'):
        for a in A: tr.ex(a)
        return V('()', ('void',))
    if nm == 'resize':
        v = [tr.ex(a) for a in A]
        tr.setlv(lv, '(sresize_ %s %s %s)' % (P(s), P(v[0].t), P(v[1].t) if len(v) > 1 else '0')); return V('()', ('void',))
    if nm in ('begin', 'cbegin'): return t.It(lv, '0')
    if nm in ('end', 'cend'): return t.It(lv, '(slen_ %s)' % P(s))
    if nm == 'at':
        i = tr.ex(A[0]); x = tr.let(i.t, 'i')
        tr.emit('if not (0 <= %s < slen_ %s) then raise (Cxx %d);' % (x, P(s), t.exc_code('out_of_range')))
        return tr.ext(lv, ('chr', x), ('int', 's8'))
    if nm in ('back', 'front'):
        tr.check('slen %s > 0' % P(s), 'the string is not empty', n)
        return tr.ext(lv, ('chr', '0' if nm == 'front' else '(slen_ %s - 1)' % P(s)), ('int', 's8'))
    if nm == 'swap':
        o = tr.lv(A[0]); a = tr.let(tr.getlv(lv)); b = tr.let(tr.getlv(o)); tr.setlv(lv, b); tr.setlv(o, a); return V('()', ('void',))
    tr.err(n, 'std::string::' + nm)

def ptr_str(tr, p, n_, n):
    """the string of n_ bytes at p"""
    tr.check('0 <= %s /\\ (%s = 0 \\/ inblk msz %s %s)' % (n_, n_, P(p.t), P(n_)), 'bytes within the block', n)
    return 'bstr (hget mem_b %s.blk) %s.off %s' % (P(p.t), P(p.t), P(n_))

def arr_str(tr, lv, n_, n):
    tr.err(n, 'string of an array')

def elem_value(tr, ety, v, n):
    return tr.coerce(val(tr, v), ety, n).t

def no_iterators(tr, lv, n):
    for v in tr.vars.values():
        if isIt(v) and str(v.cont.root) == str(lv.root) and str(v.cont.path) == str(lv.path) and v in tr.itvars: tr.err(n, 'change of a list with a live iterator')

def same_cont(a, b): return (str(a.root), str(a.path)) == (str(b.root), str(b.path))
def live_iterators(tr, lv):
    """the iterator variables of the container; one of another element of the same array could be the same container"""
    out = []
    for v in tr.itvars:
        if same_cont(v.cont, lv): out.append(v)
        elif v.cont.root == lv.root: raise TransError('iterators of several containers of one object')
    return out

def list_method(tr, lv, nm, args, n):
    t = T()
    s = tr.getlv(lv); ety = lv.ty[1] if lv.ty[0] == 'list' else ('pair', lv.ty[1], lv.ty[2])
    if nm in ('begin', 'cbegin'): return t.It(lv, '0')
    if nm in ('end', 'cend'): return t.It(lv, '(llen_ %s)' % P(s))
    if nm == 'size': return V('(llen_ %s)' % P(s), ('int', 'u64'), (1 << 62))
    if nm == 'empty': return V('(llen_ %s = 0)' % P(s), ('bool',))
    if nm == 'clear': no_iterators(tr, lv, n); tr.setlv(lv, 'lempty'); return V('()', ('void',))
    if nm in ('front', 'back'):
        tr.check('llen %s > 0' % P(s), 'the list is not empty', n)
        return tr.ext(lv, ('lst', '0' if nm == 'front' else '(llen %s - 1)' % P(s)), ety)
    if nm in ('push_back', 'push_front', 'emplace_back'):
        v = tr.ex(args[0]); x = elem_value(tr, ety, v, n)
        if nm == 'push_front': no_iterators(tr, lv, n)
        tr.setlv(lv, '(lsnoc %s %s)' % (P(tr.getlv(lv)), P(x)) if nm != 'push_front' else '(lcons %s %s)' % (P(x), P(tr.getlv(lv))))
        return V('()', ('void',))
    if nm in ('pop_front', 'pop_back'):
        no_iterators(tr, lv, n)
        tr.setlv(lv, '(l%s_ %s)' % (nm, P(s))); return V('()', ('void',))
    if nm == 'insert' and lv.ty[0] == 'mmap':
        v = val(tr, tr.ex(args[0])); x = tr.let(tr.coerce(v, ety, n).t, 'kv')
        no_iterators(tr, lv, n)
        l, p = tr.fresh('l'), tr.fresh('pos')
        tr.emit('let (%s, %s) = minsert_ %s (fst %s) (snd %s) in' % (l, p, P(tr.getlv(lv)), x, x))
        tr.setlv(lv, l); return t.It(lv, p)
    if nm == 'erase' and len(args) == 1:
        it = tr.ex(args[0])
        if not isIt(it) or not same_cont(it.cont, lv): tr.err(n, 'erase by something else than an iterator of the list')
        e = tr.let(it.t, 'at')
        tr.setlv(lv, '(lrem_ %s %s)' % (P(tr.getlv(lv)), e))
        for v in live_iterators(tr, lv):
            tr.emit('%s <- (if %s > %s then %s - 1 else if %s = %s then -1 else %s);' % (v.t, v.t, e, v.t, v.t, e, v.t)); tr.touch(v.t)
        return t.It(lv, e)
    if nm == 'splice' and len(args) == 2:
        at = tr.ex(args[0]); o = tr.lv(args[1])
        if not isIt(at) or not same_cont(at.cont, lv) or at.t != '(llen_ %s)' % P(tr.getlv(lv)): tr.err(n, 'splice before the end')
        if not isLV(o) or o.ty != lv.ty or same_cont(o, lv): tr.err(n, 'splice')
        no_iterators(tr, o, n)
        tr.setlv(lv, '(lcat %s %s)' % (P(tr.getlv(lv)), P(tr.getlv(o)))); tr.setlv(o, 'lempty')
        return V('()', ('void',))
    if nm == 'resize':
        v = val(tr, tr.ex(args[0]))
        if v.x != 0: tr.err(n, 'list resize')
        no_iterators(tr, lv, n); tr.setlv(lv, 'lempty'); return V('()', ('void',))
    if nm == 'swap':
        o = tr.lv(args[0])
        if not isLV(o) or o.ty != lv.ty: tr.err(n, 'swap of lists')
        no_iterators(tr, lv, n); no_iterators(tr, o, n)
        a = tr.let(tr.getlv(lv), 'l'); b = tr.let(tr.getlv(o), 'l'); tr.setlv(lv, b); tr.setlv(o, a); return V('()', ('void',))
    tr.err(n, 'list method ' + nm)

# ------------------------------------------------------------------ construction
def construct(tr, n, ty):
    t = T()
    A = [a for a in inner(n) if strip(a)['kind'] != 'CXXDefaultArgExpr']
    if ty == ('str',):
        if not A: return V('sempty', ty)
        v = [tr.ex(a) for a in A]
        if len(v) == 1:
            if isIt(v[0]): tr.err(n, 'string of an iterator')
            s = as_str(tr, v[0], n); return V(s, ty)
        if isIt(v[0]) and isIt(v[1]):
            return fresh_str(tr, '(ssub_ %s %s %s)' % (P(tr.getlv(v[0].cont)), P(v[0].t), P('%s - %s' % (v[1].t, v[0].t))))
        if v[0].ty[0] == 'int': return fresh_str(tr, '(srep_ %s %s)' % (P(v[0].t), P(v[1].t)))
        if v[0].ty[0] == 'ptr': return fresh_str(tr, ptr_str(tr, v[0], v[1].t, n))
        if v[0].ty == ('str',): return fresh_str(tr, '(ssub_ %s %s %s)' % (P(v[0].t), P(v[1].t), P(v[2].t) if len(v) > 2 else 'npos'))
        if v[0].ty[0] == 'decay': return fresh_str(tr, arr_str(tr, v[0].t, v[1].t, n))
        if v[0].ty[0] == 'sdata':
            tr.check('%s <= slen %s' % (P(v[1].t), P(v[0].t)), 'bytes within the string', n)
            return fresh_str(tr, '(ssub_ %s 0 %s)' % (P(v[0].t), P(v[1].t)))
        tr.err(n, 'std::string of %r' % (v[0].ty,))
    if ty[0] in ('list', 'mmap'):
        if not A: return V('lempty', ty)
        if len(A) == 1: return tr.coerce(val(tr, tr.ex(A[0])), ty, n)
        tr.err(n, 'list construction')
    if ty[0] == 'pair':
        v = [val(tr, tr.ex(a)) for a in A]
        if len(v) == 1: return v[0]
        if len(v) == 2: return V('(%s, %s)' % (tr.coerce(v[0], ty[1], n).t, tr.coerce(v[1], ty[2], n).t), ty)
        tr.err(n, 'pair')
    if ty[0] == 'it':
        if len(A) == 1: return tr.ex(A[0])
    if ty[0] == 'exc':
        for a in A:
            v = tr.ex(a)
            if tr.eff and isinstance(v, t.V) and v.ty in (('str',),) and not re.match(r'^\w+$', v.t): tr.let(v.t, 'msg')
        return V('0', ty)
    if ty[0] == 'rec': return construct_rec(tr, n, ty, A)
    if ty[0] in ('ostream', 'istream'): return stream_construct(tr, n, ty, A)
    if ty[0] in ('int', 'bool', 'cstr', 'ptr', 'loc'):
        if len(A) == 1: return val(tr, tr.ex(A[0]))
        if not A and ty[0] == 'int': return V('0', ty, 0, x=0)
    if ty[0] == 'arr' and not A: return V(tr.any(ty), ty)
    tr.err(n, 'construction of %r' % (ty,))

def find_ctor(tr, cls, sig):
    want = re.sub(r'\s+', '', sig[sig.index('('):sig.rindex(')') + 1]).replace('testutil::', '').replace('fileutil::', '').replace('std::string', 'basic_string<char>').replace('std::', '')
    for f in tr.p.fns.values():
        if f.cls == cls and f.kind == 'CXXConstructorDecl':
            q = '(%s)' % ','.join(f.ptypes)
            q = re.sub(r'\s+', '', q).replace('testutil::', '').replace('fileutil::', '').replace('std::string', 'basic_string<char>').replace('std::', '')
            if q == want: return f
    return None

def construct_rec(tr, n, ty, A):
    t = T()
    cls = ty[1]
    sig = n.get('ctorType', {}).get('qualType', 'void ()')
    f = find_ctor(tr, cls, sig)
    if f is None or f.body is None:
        if not A:
            return V(default_rec(tr, cls), ty)
        if len(A) == 1:
            v = val(tr, tr.ex(A[0]))
            if v.ty == ty: return v
        tr.err(n, 'constructor of ' + cls)
    # copy of a value whose copy constructor we have is run like any other constructor
    x = tr.let(tr.any(ty), 'obj', ref=True)
    lv = t.LV(('var', x), [], ty)
    oe = tr.eff; tr.eff = True
    tr.call(f, lv, A, n)
    tr.eff = oe
    return V(tr.let(x, 'o'), ty)

def default_rec(tr, cls):
    """a default-constructed object of a class with no constructor of its own: class members are constructed, others are arbitrary"""
    fs = []
    if cls == 'stat': return tr.any(('rec', 'stat'))
    for nm, q, node in tr.p.classes[cls]['fields']:
        ft = tr.u.field_type(cls, nm)
        fs.append('f_%s_%s = %s' % (cls, nm, default_val(tr, ft, node)))
    return '{ %s }' % '; '.join(fs)

def default_val(tr, ft, node=None):
    if node is not None and node.get('hasInClassInitializer'):
        e = [c for c in inner(node)]
        if e: return tr.coerce(val(tr, tr.ex(e[-1])), ft, node).t
    if ft == ('str',): return 'sempty'
    if ft[0] in ('list', 'mmap'): return 'lempty'
    return tr.any(ft)

def field_lv(tr, this, cls, nm):
    t = T()
    ft = tr.u.field_type(cls, nm)
    if isinstance(this, t.V): return tr.u.heap_field(tr, this.t, cls, nm)
    if this.ty[0] == 'single': return tr.u.single_field(tr, cls, nm)
    return tr.ext(this, ('fld', cls, nm), ft)

def ctor_inits(tr, f, this):
    t = T()
    seen = set()
    for i in f.inits:
        e = inner(i)
        if 'anyInit' in i:
            nm = i['anyInit']['name']; seen.add(nm)
            lv = field_lv(tr, this, f.cls, nm)
            def go():
                x = e[0]
                if strip(x)['kind'] == 'CXXDefaultInitExpr':
                    fd = next(c for a, b, c in tr.p.classes[f.cls]['fields'] if a == nm)
                    x = inner(fd)[-1]
                if strip(x)['kind'] == 'CXXConstructExpr' and not inner(strip(x)) and lv.ty[0] in ('ostream', 'istream', 'arr', 'float', 'double'): return None
                if lv.ty[0] == 'arr': return None
                v = tr.ex(x)
                return tr.coerce(val(tr, v), lv.ty, f.node)
            v = tr.full(e[0], go)
            if v is not None: tr.setlv(lv, v.t)
        elif 'baseInit' in i:
            base_init(tr, f, i, this)
    # members without an initialiser keep an arbitrary value

def base_init(tr, f, i, this):
    e = strip(inner(i)[0])
    cls = i['baseInit']['qualType'].split('::')[-1]
    sig = e.get('ctorType', {}).get('qualType', 'void ()')
    g = find_ctor(tr, cls, sig)
    if g is None or g.body is None:
        if cls in tr.p.classes and not tr.p.classes[cls]['fields']: return
        if g is None and not [a for a in inner(e)]: return
        tr.err(f.node, 'base constructor of ' + cls)
    tr.call(g, this, inner(e), i)

# ------------------------------------------------------------------ free functions
def call(tr, nm, args, n, d):
    t = T()
    A = [a for a in args if strip(a)['kind'] != 'CXXDefaultArgExpr']
    if nm in ('stat', 'lstat') and len(A) == 2:
        p = tr.ex(A[0]); o = tr.ex(A[1])
        if o.ty[0] != 'addr': tr.err(n, 'stat buffer')
        r = tr.fresh('st'); m = tr.fresh('mode')
        tr.emit('let (%s, %s) = stat_ %s in' % (r, m, P(as_str(tr, p, n))))
        tr.setlv(tr.ext(o.t, ('fld', 'stat', 'st_mode'), ('int', 'u32')), m)
        return V(r, ('int', 's32'))
    if nm == 'access':
        p = tr.ex(A[0]); m = tr.ex(A[1])
        return V(tr.let('access_ %s %s' % (P(as_str(tr, p, n)), P(m.t)), 'r'), ('int', 's32'))
    if nm == 'getenv':
        p = tr.ex(A[0]); return V(tr.let('getenv_ %s' % P(as_str(tr, p, n)), 'r'), ('cstr',))
    if nm in ('move', 'forward', 'as_const'): return tr.lv(A[0])
    if nm == 'make_pair' and len(A) == 2:
        a, b = val(tr, tr.ex(A[0])), val(tr, tr.ex(A[1]))
        return V('(%s, %s)' % (a.t, b.t), ('pair', a.ty, b.ty))
    if nm in ('min', 'max') and len(A) == 2:
        a = tr.ex(A[0]); b = tr.ex(A[1])
        if a.ty[0] == 'int' and a.ty == b.ty:
            return V('(if %s %s %s then %s else %s)' % (b.t, '<' if nm == 'min' else '>', a.t, b.t, a.t), a.ty, max(a.kb, b.kb) if a.kb is not None and b.kb is not None else None)
    if nm == 'swap':
        o = tr.lv(A[1]); l = tr.lv(A[0])
        a = tr.let(tr.getlv(l)); b = tr.let(tr.getlv(o)); tr.setlv(l, b); tr.setlv(o, a); return V('()', ('void',))
    if nm == '__assert_fail':
        tr.check('false', 'an assertion cannot fail', n); return V('()', ('void',))
    if nm in ('memcpy', 'memmove', 'memcmp', 'memset', 'strlen', 'strcmp'): return mem_call(tr, nm, A, n)
    from . import lib2
    return lib2.call(tr, nm, A, n, d)

def mem_call(tr, nm, A, n):
    t = T()
    from . import lib2
    return lib2.mem_call(tr, nm, A, n)

def struct_field(ty, fname):
    if ty == ('rec', 'stat') and fname == 'st_mode': return 'stat', ('int', 'u32')
    return None, None

def extern_global(tr, nm, n): return None
def inline_ok(tr, f, obj): return False
def array_block(tr, lv, n): raise TransError('address of a local array')
from .lib2 import (dyncast, new, delete, stream_op, stream_method, stream_decl, stream_construct, object_decl, float_lit, float_cast, float_bin,
                   float_cmp, float_neg, as_ptr)
