"""Front end: runs clang on a driver TU that includes the real /repo headers and
indexes the JSON AST of the instantiated code.  Nothing is rewritten: what the
executor walks is the AST clang built from /repo's working tree on this run."""
import json, os, subprocess, hashlib, re, tempfile

REPO = os.environ.get('VP_REPO', '/repo')
CLANG = '/usr/bin/clang++'

class ExtractError(Exception):
    """The real code could not be extracted / is outside the supported subset."""

def load_json_stream(s):
    d = json.JSONDecoder(); i = 0; out = []; n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t': i += 1
        if i >= n: break
        o, i = d.raw_decode(s, i); out.append(o)
    return out

def clang_ast(driver, filt='lexertl', extra=()):
    cmd = [CLANG, '-std=c++17', '-I' + REPO + '/include', '-fsyntax-only', '-w',
           '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, *extra, driver]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError('clang failed: ' + r.stderr[-2000:])
    return load_json_stream(r.stdout), ' '.join(cmd)

FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

class Unit:
    def __init__(self, driver, filt='lexertl', extra=()):
        self.tops, self.cmd = clang_ast(driver, filt, extra)
        self.byid = {}        # decl id -> node
        self.parent = {}      # decl id -> record name string
        self.records = {}     # canonical record name -> node
        self.recname = {}     # record decl id -> canonical name
        self.funcs = []       # (qualname, node)
        self.enumconst = {}
        self.qual = {}
        self.nsq = {}
        for t in self.tops:
            q = ''
            if t.get('kind') != 'NamespaceDecl': q = self.nsq.get(t.get('parentDeclContextId'), 'lexertl')
            self._walk(t, q, None)
        self._prev = {}

    @staticmethod
    def _targ(a):
        if 'type' in a:
            t = a['type']
            return norm_type(t.get('desugaredQualType', t['qualType']))
        if 'value' in a: 
            v = a['value']
            return str(v)
        if 'isExpr' in a or a.get('kind') == 'TemplateArgument':
            # e.g. bool args printed as value
            for c in a.get('inner', []):
                if 'value' in c: return str(c['value'])
        return '?'

    def _walk(self, n, qual, rec):
        if not isinstance(n, dict): return
        k = n.get('kind')
        if 'id' in n and k and (k.endswith('Decl')):
            if n['id'] not in self.byid or (k in FUNCS and has_body(n)) or (k == 'CXXRecordDecl' and n.get('completeDefinition')):
                self.byid[n['id']] = n
        if k == 'NamespaceDecl':
            q = (qual + '::' if qual else '') + n.get('name', '(anon)')
            if not qual and n.get('name') == 'detail': q = 'lexertl::detail'
            self.nsq[n.get('id')] = q
            for c in n.get('inner', []): self._walk(c, q, rec)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            q = (qual + '::' if qual else '') + n.get('name', '(anon)')
            if k != 'CXXRecordDecl':
                args = [c for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
                if args:
                    q += '<' + ', '.join(self._targ(a) for a in args) + '>'
            if n.get('completeDefinition') or n.get('definitionData'):
                self.records.setdefault(q, n)
                if n.get('completeDefinition'): self.records[q] = n
            self.recname[n['id']] = q
            for c in n.get('inner', []): self._walk(c, q, q)
            return
        if k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl':
                    self._walk(c, qual + '::<tmpl>' , rec)
                else:
                    self._walk(c, qual, rec)
            return
        if k in FUNCS:
            q = (qual + '::' if qual else '') + n.get('name', '?')
            self.parent[n['id']] = rec
            self.qual[n['id']] = q
            if has_body(n): self.funcs.append((q, n))
            for c in n.get('inner', []): self._walk(c, q, rec)
            return
        if k == 'EnumDecl':
            val = -1
            for c in n.get('inner', []):
                if c.get('kind') == 'EnumConstantDecl':
                    v = find_const(c)
                    val = (int(v) if v not in ('true','false') else int(v=='true')) if v is not None else val + 1
                    self.enumconst[c['id']] = val
                    self.byid[c['id']] = c
            return
        if k == 'FieldDecl': self.parent[n['id']] = rec
        for c in n.get('inner', []): self._walk(c, qual, rec)

    def find_funcs(self, qualname=None, name=None, pred=None):
        out = []
        for q, n in self.funcs:
            if '<tmpl>' in q: continue
            if qualname is not None and q != qualname: continue
            if name is not None and n.get('name') != name: continue
            if pred and not pred(q, n): continue
            out.append(n)
        return out

    def resolve(self, did):
        """function node with a body for decl id (follows redeclarations)"""
        n = self.byid.get(did)
        return n

    def record_bases(self, name):
        n = self.records.get(name)
        out = []
        for b in (n or {}).get('bases', []):
            t = b['type']; out.append(norm_type(t.get('desugaredQualType', t['qualType'])))
        return out

    def record_fields(self, name):
        """[(field name, type string)] with base fields first"""
        n = self.records.get(name)
        if n is None: raise ExtractError('unknown record ' + name)
        out = []
        for b in self.record_bases(name):
            if b in self.records: out += self.record_fields(b)
        for c in n.get('inner', []):
            if c.get('kind') == 'FieldDecl':
                t = c['type']
                out.append((c['name'], norm_type(t.get('desugaredQualType', t['qualType'])), c))
        return out

def has_body(n):
    return any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', []))

def body_of(n):
    for c in n.get('inner', []):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'): return c
    return None

def params_of(n): return [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']

def find_const(n):
    if n.get('kind') in ('ConstantExpr', 'IntegerLiteral') and 'value' in n: return n['value']
    for c in n.get('inner', []):
        v = find_const(c)
        if v is not None: return v
    return None

def norm_type(s):
    s = s.strip()
    s = re.sub(r'\b(class|struct|typename|enum|volatile)\s+', '', s)
    s = re.sub(r'\s*\*\s*', ' *', s); 
    s = re.sub(r'\s*&\s*', ' &', s).replace('& &', '&&')
    s = re.sub(r'>\s+>', '>>', s)
    s = s.replace(' *', '*').replace(' &', '&')
    return s.strip()

def file_hash(p):
    return hashlib.sha256(open(p, 'rb').read()).hexdigest()
