"""C++ types -> model types (tuples) -> WhyML types."""
import re

class TransError(Exception):
    """A construct outside the translated subset."""

INTS = {
  'char': 's8', 'signed char': 's8', 'unsigned char': 'u8', 'short': 's16', 'unsigned short': 'u16', 'int': 's32', 'unsigned int': 'u32',
  'unsigned': 'u32', 'long': 's64', 'unsigned long': 'u64', 'long long': 's64', 'unsigned long long': 'u64', 'size_t': 'u64',
  'std::size_t': 'u64', 'ptrdiff_t': 's64', 'std::ptrdiff_t': 's64', 'ssize_t': 's64', 'time_t': 's64', 'uint16_t': 'u16', 'std::streamsize': 's64',
  '__mode_t': 'u32', 'mode_t': 'u32', 'std::streamoff': 's64', '__time_t': 's64', '__ssize_t': 's64', 'int64_t': 's64', 'uint32_t': 'u32', 'uint8_t': 'u8',
}
BITS = {'u8': (0, 8), 's8': (1, 8), 'u16': (0, 16), 's16': (1, 16), 'u32': (0, 32), 's32': (1, 32), 'u64': (0, 64), 's64': (1, 64)}

def rng(k):
    s, b = BITS[k]
    return (-(1 << (b-1)), (1 << (b-1)) - 1) if s else (0, (1 << b) - 1)

def strip_cv(q):
    q = q.strip()
    q = re.sub(r'\b(const|volatile|struct|class|enum)\b', ' ', q)
    return re.sub(r'\s+', ' ', q).strip()

STRS = {'std::string', 'string', 'std::basic_string<char>', 'std::__cxx11::basic_string<char>', 'basic_string<char>',
        'std::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::__cxx11::string'}

class Types:
    def __init__(self, prog, heap=(), single=(), opaque=()):
        self.p = prog
        self.heap = set(heap); self.single = set(single)

    def last(self, q): return q.split('::')[-1]

    def split_targs(self, s):
        out, d, cur = [], 0, ''
        for c in s:
            if c == '<': d += 1
            if c == '>': d -= 1
            if c == ',' and d == 0: out.append(cur); cur = ''
            else: cur += c
        if cur.strip(): out.append(cur)
        return [x.strip() for x in out]

    def parse(self, q, depth=0):
        """model type of a C++ type; references are looked through (isref tells)."""
        if depth > 20: raise TransError('type ' + q)
        q0 = q
        q = q.strip()
        while q.endswith('&'): q = q[:-1].strip()
        m = re.match(r'^(.*?)\s*\[(\d*)\]$', q)
        if m and not q.endswith('>'):
            n = m.group(2)
            # innermost dimension handling: T[a] only
            return ('arr', self.parse(m.group(1), depth+1), int(n) if n else None)
        if q.endswith(('*', '*const', '* const')):
            inner = re.sub(r'\*\s*(const)?$', '', q).strip()
            c = strip_cv(inner)
            if inner.endswith('*') or inner.endswith('*const'): return ('ptr', self.parse(inner, depth+1))
            t = self.parse(inner, depth+1) if c != 'void' else ('void',)
            if strip_cv(inner) in ('itksysProcess', 'struct itksysProcess_s', 'itksysProcess_s'): return t   # a handle
            if t == ('int', 's8'): return ('cstr',) if 'const' in inner else ('ptr', t)
            if t[0] in ('loc', 'ostream', 'istream'): return t
            if t == ('void',): return ('ptr', ('int', 'u8'))
            if t == ('str',): return ('str',)
            return ('ptr', t)
        c = strip_cv(q)
        if c in INTS: return ('int', INTS[c])
        if c in ('bool', '_Bool', 'std::_Bit_reference', 'std::vector<bool>::reference'): return ('bool',)
        if c == 'void': return ('void',)
        if c in ('float',): return ('float',)
        if c in ('double',): return ('double',)
        if c in STRS: return ('str',)
        if c in ('std::string::size_type', 'string::size_type', 'size_type', 'std::basic_string<char>::size_type', 'std::__cxx11::basic_string<char>::size_type'): return ('int', 'u64')
        if c in ('std::string::value_type', 'string::value_type', 'value_type'): return ('int', 's8')
        m = re.match(r'^(?:std::)?(?:__cxx11::)?list<(.*)>$', c)
        if m: return ('list', self.parse(self.split_targs(m.group(1))[0], depth+1))
        m = re.match(r'^(?:std::)?(?:__cxx11::)?multimap<(.*)>$', c)
        if m:
            a = self.split_targs(m.group(1)); return ('mmap', self.parse(a[0], depth+1), self.parse(a[1], depth+1))
        m = re.match(r'^(?:std::)?pair<(.*)>$', c)
        if m:
            a = self.split_targs(m.group(1)); return ('pair', self.parse(a[0], depth+1), self.parse(a[1], depth+1))
        if re.search(r'::(const_)?iterator$', c) or re.match(r'^(std::)?_List_(const_)?iterator<.*>$', c) or '__normal_iterator' in c or '_Rb_tree_iterator' in c or '_Rb_tree_const_iterator' in c:
            return ('it',)
        if re.match(r'^(std::)?(basic_)?o(f|string)?stream(<char>)?$', c) or c in ('std::__cxx11::basic_ostringstream<char>', 'std::__cxx11::ostringstream'): return ('ostream', 'f' if 'of' in c else 's' if 'string' in c else '')
        if re.match(r'^(std::)?(basic_)?i(f|string)?stream(<char>)?$', c) or c in ('std::__cxx11::basic_istringstream<char>', 'std::__cxx11::istringstream'): return ('istream', 'f' if 'if' in c else 's' if 'string' in c else '')
        if 'fpos<' in c or c.endswith('pos_type'): return ('int', 's64')
        if c.endswith(('openmode', '_Ios_Openmode', 'iostate', '_Ios_Iostate', 'seekdir', '_Ios_Seekdir')): return ('int', 's32')
        if c.endswith('__ostream_type') or c.startswith('std::ostream'): return ('ostream', '')
        if c.endswith('__istream_type'): return ('istream', '')
        m = re.match(r'^std::(runtime_error|logic_error|exception|bad_alloc|bad_cast|out_of_range|length_error|domain_error|invalid_argument|range_error|overflow_error|underflow_error)$', c)
        if m: return ('exc', m.group(1))
        m = re.match(r'^(?:itk::)?(Size|Index)<\d+U?L?>$', c)
        if m: return ('vec', ('int', 'u64' if m.group(1) == 'Size' else 's64'), 'tp_1')
        if re.match(r'^(?:itk::)?ImageRegion<\d+U?L?>$', c): return ('region', ('vec', ('int', 's64'), 'tp_1'), ('vec', ('int', 'u64'), 'tp_1'))
        m = re.match(r'^(?:itk::)?(?:Point|Vector|FixedArray|CovariantVector)<(double|float), \d+U?L?>$', c)
        if m: return ('vec', (m.group(1),), 'tp_1')
        m = re.match(r'^(?:itk::)?Matrix<(double|float), \d+U?L?, \d+U?L?>$', c)
        if m: return ('vec', ('vec', (m.group(1),), 'tp_2'), 'tp_1')
        l = self.last(c)
        if l in self.heap: return ('loc', l)
        if l in self.single: return ('single', l)
        if l in self.p.classes: return ('rec', l)
        if c == 'stat': return ('rec', 'stat')
        if l in self.p.typedefs and self.p.typedefs[l] != q: return self.parse(self.p.typedefs[l], depth+1)
        if l in INTS: return ('int', INTS[l])
        if c.startswith('XML_') or l in ('XML_Parser', 'XML_ParserStruct', 'itksysProcess', 'itksysProcess_s'): return ('int', 's64')
        raise TransError('type "%s"' % q0)

    def isref(self, q): return q.strip().endswith('&')
    def is_const_ref(self, q):
        q = q.strip()
        return q.endswith('&') and (q.startswith('const ') or ' const &' in q)

    def wty(self, t):
        k = t[0]
        if k == 'int': return 'int'
        if k in ('ostream', 'istream', 'loc', 'single'): return 'int'
        if k == 'it': return 'int'
        if k in ('bool', 'str', 'cstr', 'ptr'): return k
        if k == 'void': return 'unit'
        if k == 'rec': return 'r_' + t[1]
        if k == 'list': return '(lst %s)' % self.wty(t[1])
        if k == 'mmap': return '(lst (%s, %s))' % (self.wty(t[1]), self.wty(t[2]))
        if k == 'pair': return '(%s, %s)' % (self.wty(t[1]), self.wty(t[2]))
        if k in ('arr', 'vec'): return '(hmap %s)' % self.wty(t[1])
        if k == 'region': return '(%s, %s)' % (self.wty(t[1]), self.wty(t[2]))
        if k == 'float': return 'f32'
        if k == 'double': return 'f64'
        if k == 'exc': return 'int'
        raise TransError('no WhyML type for %r' % (t,))

    def key(self, t):
        """name of the memory holding elements of this type"""
        if t in (('int', 'u8'), ('int', 's8'), ('void',)): return 'b'
        if t[0] == 'int': return t[1]
        if t[0] == 'rec': return t[1]
        if t[0] in ('cstr', 'ptr', 'str', 'bool'): return t[0]
        if t[0] == 'loc': return 'loc'
        raise TransError('memory of %r' % (t,))
