"""Sidecar contracts: specs/*.spec"""
import re, glob, os

KW = ('fn', 'use', 'requires', 'ensures', 'writes', 'raises', 'pure', 'loop', 'invariant', 'variant', 'entry', 'exit', 'before', 'begin', 'end', 'after',
      'decl', 'inline', 'names', 'model', 'trusted', 'local', 'reads', 'point', 'bounded', 'unroll', 'joined', 'timeout', 'virtual', 'table', 'driver')

class Clause:
    def __init__(self, text, label='', tag=''): self.text = text; self.label = label; self.tag = tag

class Loop:
    def __init__(self): self.inv = []; self.variant = None; self.before = self.begin = self.end = self.after = ''

class Spec:
    def __init__(self, qual, names, file, ptypes=None):
        self.qual = qual; self.names = names; self.file = file; self.ptypes = ptypes
        self.uses = []; self.requires = []; self.ensures = []; self.writes = []; self.raises = []; self.loops = {}; self.entry = self.exit = ''
        self.pure = False; self.decl = ''; self.driver = ''; self.variant = None; self.model = {}; self.trusted = ''; self.points = []; self.names_map = {}; self.bounded = ''; self.virtual = False; self.const = None; self.unroll = False; self.joined = False; self.tables = {}
    def loop(self, k): return self.loops.get(k)

def parse_clause(s):
    m = re.match(r'^\s*(?:\[([A-Za-z0-9 ,.]+)\]\s*)?"([^"]*)"\s*:?\s*(.*)$', s, re.S)
    if m: return Clause(m.group(3).strip(), m.group(2), m.group(1) or '')
    m = re.match(r'^\s*\[([A-Z][0-9]{2}[ ,A-Z0-9]*)\]\s*(.*)$', s, re.S)
    if m: return Clause(m.group(2).strip(), '', m.group(1))
    return Clause(s.strip())

MACROS = {}
def expand(t, depth=0):
    if depth > 20: raise ValueError('macros too deep: ' + t[:100])
    def one(t):
        m = re.search(r'\$(\w+)', t)
        if not m: return None
        name = m.group(1)
        if name not in MACROS: raise ValueError('unknown macro $' + name)
        ps, body = MACROS[name]
        e = m.end(); args = []
        if ps:
            if t[e] != '(': raise ValueError('macro $%s needs arguments' % name)
            d = 0; cur = ''; k = e
            while True:
                c = t[k]
                if c in '([{': d += 1
                if c in ')]}': d -= 1
                if d == 0: args.append(cur); k += 1; break
                if c == ',' and d == 1: args.append(cur); cur = ''
                elif not (c == '(' and d == 1 and k == e): cur += c
                k += 1
            e = k
            if len(args) != len(ps): raise ValueError('macro $%s: %d arguments' % (name, len(args)))
        for p_, a in zip(ps, args): body = re.sub(r'@%s\b' % p_, lambda _: '(%s)' % a.strip() if not re.match(r'^\w+$', a.strip()) else a.strip(), body)
        return t[:m.start()] + '(' + body + ')' + t[e:]
    while True:
        r = one(t)
        if r is None: return t
        t = r
        if len(t) > 200000: raise ValueError('macro expansion')

def load_macros(path):
    cur = None
    for line in open(path):
        line = re.sub(r'(^|\s)#.*$', '', line.rstrip('\n'))
        m = re.match(r'^macro (\w+)(?:\(([^)]*)\))?\s*:\s*(.*)$', line)
        if m:
            cur = m.group(1)
            if cur in MACROS: raise ValueError('macro %s defined twice' % cur)
            MACROS[cur] = ([x.strip() for x in (m.group(2) or '').split(',') if x.strip()], m.group(3))

def parse_file(path):
    specs = []
    cur = None; loop = None
    items = []
    for line in open(path):
        if line.startswith('macro '): continue
        line = re.sub(r'(^|\s)#.*$', '', line.rstrip('\n'))
        m = re.match(r'^\s*([a-z]+)\b(.*)$', line)
        if line.startswith('|') and items: items[-1][1] += '\n' + line[1:]; continue
        if m and m.group(1) in KW:
            items.append([m.group(1), m.group(2)])
        elif items:
            items[-1][1] += '\n' + line
    for kw, txt in items:
        t = expand(txt.strip()) if kw != 'fn' else txt.strip()
        if kw == 'fn':
            m = re.match(r'^([\w:~=<>!+\[\]]+)\s*\(([^)]*)\)\s*(const)?\s*(?:of\s*\((.*)\))?\s*$', t, re.S)
            if not m: raise ValueError('%s: bad fn line %r' % (path, t))
            pt = None
            if m.group(4) is not None: pt = [x.strip() for x in m.group(4).split(',') if x.strip()]
            cur = Spec(m.group(1), [x.strip() for x in m.group(2).split(',') if x.strip()], path, pt)
            cur.const = bool(m.group(3)) if m.group(3) else None
            specs.append(cur); loop = None
        elif kw == 'loop':
            loop = Loop(); cur.loops[int(t)] = loop
        elif kw == 'use': cur.uses += t.split()
        elif kw == 'requires': cur.requires.append(parse_clause(t))
        elif kw == 'ensures': cur.ensures.append(parse_clause(t))
        elif kw == 'writes': cur.writes += t.split()
        elif kw == 'raises':
            k, _, f = t.partition(':'); cur.raises.append((k.strip(), f.strip() or 'true'))
        elif kw == 'pure': cur.pure = True
        elif kw == 'virtual': cur.virtual = True
        elif kw == 'decl': cur.decl += t + '\n'
        elif kw == 'driver': cur.driver += t + '\n'
        elif kw == 'table':
            a, b = t.split(None, 1); cur.tables[a] = parse_clause(b)
        elif kw == 'bounded': cur.bounded = t
        elif kw == 'trusted': cur.trusted = t or 'trusted'
        elif kw == 'model':
            a, _, b = t.partition(':'); cur.model[a.strip()] = b.strip()
        elif kw == 'names':
            for a in t.split():
                x, y = a.split(':', 1); cur.names_map[x] = y
        elif kw == 'invariant': loop.inv.append(parse_clause(t))
        elif kw == 'variant':
            if loop is None: cur.variant = t
            else: loop.variant = t
        elif kw == 'unroll': cur.unroll = True
        elif kw == 'joined': cur.joined = True
        elif kw in ('before', 'begin', 'end', 'after'): setattr(loop, kw, getattr(loop, kw) + t + '\n')
        elif kw == 'entry': cur.entry += t + '\n'
        elif kw == 'exit': cur.exit += t + '\n'
        elif kw == 'point':
            m = re.match(r'^(before|after)\s+(\S+)\s+(\d+)\s*:(.*)$', t, re.S)
            if not m: raise ValueError('%s: bad point %r' % (path, t))
            cur.points.append((m.group(1), m.group(2), int(m.group(3)), m.group(4).strip()))
    return specs

def load(dir):
    out = []
    MACROS.clear()
    for f in sorted(glob.glob(os.path.join(dir, '*.spec'))): load_macros(f)
    for f in sorted(glob.glob(os.path.join(dir, '*.spec'))): out += parse_file(f)
    return out
