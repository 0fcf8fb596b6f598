"""Front end: clang's AST (JSON) of /repo's current sources -> indexed declarations."""
import json, os, subprocess, hashlib, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CV_REPO', '/repo')

class FrontError(Exception):
    """The source does not compile or cannot be read: an error, never a violation."""

# translation units: name -> (file, filters, extra flags)
ITK = ['-isystem', '/usr/include/ITK-5.3', '-isystem', '/usr/include/gdcm-3.0', '-std=c++17',
       '-I' + REPO + '/TestingFramework', '-I' + REPO + '/itktf']
TUS = {
  'PathName':   ('FileUtilities/PathName.cpp', ['fileutil'], ['-std=c++17']),
  'FileUtil':   ('FileUtilities/FileUtilities.cpp', ['fileutil'], ['-std=c++17']),
  'Base64':     ('TestingFramework/tfBase64.cpp', ['testutil'], ['-std=c++17']),
  'Measure':    ('TestingFramework/tfMeasurement.cpp', ['testutil'], ['-std=c++17']),
  'Visitor':    ('TestingFramework/tfMeasurementVisitor.cpp', ['testutil'], ['-std=c++17']),
  'Regress':    ('TestingFramework/tfRegressionTest.cpp', ['util'], ['-std=c++14']),
  'Diff':       ('TestingFramework/tfDiff.cpp', ['testutil'], ['-std=c++17']),
  'Pipe':       ('TestingFramework/tfPipeToXML.cxx', ['RegressionTest'], ITK),
  'ItkReg':     ('itktf/itktfRegression.cxx', ['Regression'], ITK),
  'ItkCmp':     ('itktf/itktfCompareVisitor.cxx', ['itk::CompareVisitor'], ITK),
  'ItkDif':     ('itktf/itktfDifferenceVisitor.cxx', ['itk::DifferenceVisitor'], ITK),
  'ItkInst':    (VERIF + '/tu/itkinst.cpp', ['Regression'], ITK),
  'ItkImg':     ('itktf/itktfImageCompare.cxx', ['itktfImageCompare'], ITK),
}

def gen_headers(dst):
    """The configure-time headers, made from /repo's templates as CMake does."""
    subs = {'BUILD_SHARED_LIBS': 'OFF', 'ITK_REGRESSION_OUTPUT_DIR': '/nonexistent/cv-out',
            'ITK_REGRESSION_XML_BASELINE': '/nonexistent/cv-xml', 'ITK_REGRESSION_DATA_BASELINE': '/nonexistent/cv-data'}
    for src, out, proj in (('FileUtilities/FileUtilitiesConfigure.h.in', 'FileUtilities/FileUtilitiesConfigure.h', 'FILEUTILITIES'),
                           ('TestingFramework/TestFrameworkConfigure.h.in', 'TestingFramework/TestFrameworkConfigure.h', 'TESTINGFRAMEWORK'),
                           ('itktf/itktfRegressionSupport.h.in', 'itktf/itktfRegressionSupport.h', 'ITK_TF')):
        s = open(os.path.join(REPO, src)).read()
        for k, v in list(subs.items()) + [('PROJECT_NAME', proj)]:
            s = s.replace('@%s@' % k, v)
        o = os.path.join(dst, out)
        os.makedirs(os.path.dirname(o), exist_ok=True)
        open(o, 'w').write(s)

def inc_flags(gen):
    return ['-I' + gen, '-I' + gen + '/FileUtilities', '-I' + gen + '/TestingFramework', '-I' + gen + '/itktf',
            '-I' + REPO, '-include', 'numeric', '-Wno-everything']

def _docs(s):
    d = json.JSONDecoder(); i = 0; n = len(s)
    while True:
        while i < n and s[i].isspace(): i += 1
        if i >= n: return
        o, i = d.raw_decode(s, i); yield o

class Fn:
    __slots__ = ('node', 'tu', 'name', 'cls', 'qual', 'params', 'ptypes', 'rtype', 'const', 'static', 'virtual', 'mangled', 'body', 'kind', 'file', 'line', 'inits', 'tparams', 'generic')
    def __repr__(self): return 'Fn(%s)' % self.sig
    @property
    def sig(self): return '%s(%s)%s' % (self.qual, ', '.join(self.ptypes), ' const' if self.const else '')

class TU: pass

class Program:
    def __init__(self, names, gen):
        self.gen = gen
        self.fns = {}        # mangled -> Fn (definition preferred)
        self.byid = {}       # (tu,id) -> node
        self.fnid = {}       # (tu,id) -> mangled
        self.classes = {}    # short class name -> dict(fields=[(name,type)], bases=[...], node)
        self.typedefs = {}
        self.enums = {}
        self.globals = {}    # (qualified name) -> VarDecl node with init
        self.srcs = {}
        self.owner = {}      # (tu, fieldid) -> class
        self.tunames = list(names)
        with ThreadPoolExecutor(8) as ex:
            jobs = [(n, f, ex.submit(self._dump, n, f)) for n in names for f in TUS[n][1]]
            for n, f, j in jobs:
                self._load(n, j.result())

    def _dump(self, name, flt):
        path, _, flags = TUS[name]
        cmd = ['clang++'] + flags + inc_flags(self.gen) + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt,
               os.path.join(REPO, path)]
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace')
        if r.returncode != 0:
            raise FrontError('clang fails on %s:\n%s' % (path, r.stderr[-3000:]))
        return list(_docs(r.stdout))

    def src(self, path):
        if path not in self.srcs:
            try: self.srcs[path] = open(path, encoding='latin-1').read()
            except OSError: self.srcs[path] = ''
        return self.srcs[path]

    def _load(self, tu, docs):
        mainf = os.path.join(REPO, TUS[tu][0])
        state = {'file': None, 'line': 0}
        def locs(d):
            for k in ('spellingLoc', 'expansionLoc'):
                if k in d: locs(d[k])
            if 'file' in d: state['file'] = d['file']
            if 'line' in d: state['line'] = d['line']
            if 'offset' in d:
                d['_f'] = state['file']; d['_l'] = state['line']
        seen = {}
        def idx(n, scope, cls):
            # document order matters for locations
            for k, v in n.items():
                if k == 'loc' and isinstance(v, dict): locs(v)
                elif k == 'range':
                    locs(v['begin']); locs(v['end'])
                elif k == 'inner':
                    k2 = n.get('kind')
                    if k2 == 'NamespaceDecl': sc2, c2 = scope + ([n['name']] if 'name' in n else []), cls
                    elif k2 in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplateDecl') and 'name' in n: sc2, c2 = scope + [n['name']], n['name']
                    else: sc2, c2 = scope, cls
                    for c in v:
                        if isinstance(c, dict): idx(c, sc2, c2)
            kind = n.get('kind')
            if 'id' in n and kind and kind.endswith('Decl'):
                key = (tu, n['id'])
                if key not in self.byid or 'inner' in n: self.byid[key] = n
                n['_scope'] = scope; n['_cls'] = cls
                if kind == 'CXXRecordDecl': self._record(tu, n, scope)
                elif kind in ('TypedefDecl', 'TypeAliasDecl') and 'name' in n:
                    self.typedefs.setdefault(n['name'], n['type'].get('desugaredQualType', n['type']['qualType']))
                elif kind == 'EnumDecl':
                    v = 0
                    for c in n.get('inner', []):
                        if c.get('kind') == 'EnumConstantDecl':
                            for x in c.get('inner', []):
                                if 'value' in x: v = int(x['value'])
                            self.enums[c['id']] = v; v += 1
                    if 'name' in n: self.typedefs.setdefault(n['name'], 'int')
        for d in docs:
            idx(d, [], None)
        # second pass: functions and globals (class names known now)
        for d in docs: self._fns(tu, d, False)

    def _record(self, tu, n, scope):
        if 'name' not in n or not n.get('completeDefinition'): return
        cl = self.classes.setdefault(n['name'], dict(fields=[], bases=[], methods={}, node=n, tu=tu))
        if cl['fields'] or cl['bases'] or cl['methods']:
            for c in n.get('inner', []):
                if c.get('kind') == 'FieldDecl': self.owner[(tu, c['id'])] = n['name']
            return
        cl['bases'] = [b['type']['qualType'].split('::')[-1] for b in n.get('bases', [])]
        for c in n.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                cl['fields'].append((c.get('name', ''), c['type'].get('desugaredQualType', c['type']['qualType']), c))
                self.owner[(tu, c['id'])] = n['name']
            elif c.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                cl['methods'].setdefault(c.get('name'), []).append(c)

    def _fns(self, tu, n, intmpl):
        kind = n.get('kind')
        if kind in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            dep = intmpl and not any(c.get('kind') == 'TemplateArgument' for c in n.get('inner', []))
            if not dep: self._fn(tu, n, intmpl if isinstance(intmpl, list) else None)
        if kind == 'VarDecl' and n.get('_scope') is not None:
            pass
        for c in n.get('inner', []):
            if isinstance(c, dict):
                k = c.get('kind')
                if k == 'VarDecl' and kind in ('NamespaceDecl', 'CXXRecordDecl'):
                    cls = c.get('_cls')
                    if 'parentDeclContextId' in c:
                        p = self.byid.get((tu, c['parentDeclContextId']))
                        if p: cls = p.get('name')
                    q = (cls + '::' if cls else '') + c.get('name', '')
                    if any(x.get('kind', '').endswith(('Expr', 'Literal', 'Cleanups', 'Operator')) for x in c.get('inner', [])):
                        c['_tu'] = tu
                        self.globals[q] = c
                self._fns(tu, c, intmpl or (kind in ('FunctionTemplateDecl', 'ClassTemplateDecl') and [x.get('name') for x in n['inner'] if x.get('kind') == 'NonTypeTemplateParmDecl'] + [None])) if k in (
                    'NamespaceDecl', 'CXXRecordDecl', 'FunctionTemplateDecl', 'FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl',
                    'CXXDestructorDecl', 'LinkageSpecDecl', 'ClassTemplateDecl', 'ClassTemplateSpecializationDecl') and kind not in ('FunctionDecl', 'CXXMethodDecl') else None

    def _fn(self, tu, n, tparams):
        f = Fn()
        f.tparams = tparams; f.generic = tu == 'ItkInst'
        f.node = n; f.tu = tu; f.name = n.get('name', ''); f.kind = n['kind']
        cls = n.get('_cls')
        if 'parentDeclContextId' in n:
            p = self.byid.get((tu, n['parentDeclContextId']))
            if p and p.get('kind') in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'): cls = p.get('name')
        f.cls = cls if n['kind'] != 'FunctionDecl' else None
        sc = [s for s in n.get('_scope', []) if s]
        ns = sc[0] if sc else ''
        m = re.match(r'_ZNK?8(testutil|fileutil)', n.get('mangledName') or '')
        if m: ns = m.group(1)     # a dump that starts inside the namespace
        f.qual = '::'.join(x for x in ((ns if ns in ('testutil', 'fileutil', 'itk') else None), f.cls, f.name) if x)
        f.params = [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        f.ptypes = [c['type']['qualType'] for c in f.params]
        q = n['type']['qualType']
        f.rtype = q[:q.index('(')].strip() if '(' in q else 'void'
        dq = n['type'].get('desugaredQualType')
        f.const = q.rstrip().endswith('const')
        f.static = n.get('storageClass') == 'static'
        f.virtual = n.get('virtual', False)
        f.mangled = n.get('mangledName') or (tu + n['id'])
        f.body = next((c for c in n.get('inner', []) if c.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
        f.inits = [c for c in n.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        f.file = n['range']['begin'].get('_f') or n['range']['begin'].get('expansionLoc', {}).get('_f'); f.line = n.get('loc', {}).get('_l', 0)
        self.fnid[(tu, n['id'])] = f.mangled
        old = self.fns.get(f.mangled)
        if old is None or (old.body is None and f.body is not None):
            if old is not None:
                f.virtual = f.virtual or old.virtual; f.static = f.static or old.static
                if not f.cls: f.cls = old.cls; f.qual = old.qual
                # default arguments live on the first declaration
                for a, b in zip(f.params, old.params):
                    if 'inner' not in a and 'inner' in b: a['inner'] = b['inner']; a['_tu'] = old.tu
            self.fns[f.mangled] = f
        else:
            old.virtual = old.virtual or f.virtual; old.static = old.static or f.static
            for a, b in zip(old.params, f.params):
                if 'inner' not in a and 'inner' in b: a['inner'] = b['inner']; a['_tu'] = tu

    # ---- class helpers
    def bases(self, c):
        out = [c]
        for b in self.classes.get(c, {}).get('bases', []): out += self.bases(b)
        return out
    def subclasses(self, c):
        return [k for k in self.classes if c in self.bases(k)]
    def find_fn(self, qual, ptypes=None, const=None):
        r = [f for f in self.fns.values() if f.qual == qual and (ptypes is None or f.ptypes == ptypes) and (const is None or f.const == const)]
        return r
