"""Loads the clang AST of a file of /repo's working tree (fresh on every run)."""
import json, os, re, subprocess

REPO = os.environ.get('VF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'
BASE = ['-std=c++14', '-fsyntax-only', '-w', '-Iinclude', '-Isrc', '-Isrc/connectors/kokkos/include']


class AstError(Exception):
    pass


def dump(path, extra=()):
    cmd = [CLANG] + BASE + list(extra) + ['-Xclang', '-ast-dump=json', path]
    p = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise AstError('clang: ' + p.stderr.decode(errors='replace')[-2000:])
    return p.stdout.decode()


_file_re = re.compile(r'"(file|includedFrom)": (?:"([^"]*)")?')


def chunks(txt):
    """Top-level declarations located in /repo, parsed."""
    starts = [m.start() + 1 for m in re.finditer(r'\n    \{\n', txt)]
    out = []
    cur = None
    incl = re.compile(r'"includedFrom": \{\s*"file": "[^"]*"\s*\}')
    frx = re.compile(r'"file": "([^"]*)"')
    root = os.path.realpath(REPO) + '/'
    for i, s in enumerate(starts):
        e = starts[i + 1] if i + 1 < len(starts) else len(txt)
        t = txt[s:e]
        # file of the declaration itself: first "file" in its loc, else the running one
        tt = incl.sub('', t) if '"includedFrom"' in t else t
        files = frx.findall(tt)
        head = tt[:3000]
        m = re.search(r'"loc": \{(.*?)"range"', head, re.S)
        locfile = None
        if m:
            f = frx.findall(m.group(1))
            if f:
                locfile = f[-1]
        here = locfile or cur
        if here is not None:
            p = here if here.startswith('/') else os.path.join(REPO, here)
            p = os.path.realpath(p)
            if p.startswith(root):
                body = t.rstrip()
                # the last chunk of the translation unit carries closing brackets
                body = body.rstrip(',')
                try:
                    out.append(json.loads(body))
                except json.JSONDecodeError:
                    dec = json.JSONDecoder()
                    out.append(dec.raw_decode(body.lstrip())[0])
        if files:
            cur = files[-1]
    return out


class Func:
    def __init__(self, qname, node, cls):
        self.qname, self.node, self.cls = qname, node, cls
        self.kind = node['kind']
        inner = node.get('inner', [])
        self.params = [n for n in inner if n.get('kind') == 'ParmVarDecl']
        self.body = None
        self.inits = [n for n in inner if n.get('kind') == 'CXXCtorInitializer']
        for n in inner:
            if n.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                self.body = n
        self.type = node['type']['qualType']
        self.targs = [a for a in inner if a.get('kind') == 'TemplateArgument']
        self.static = node.get('storageClass') == 'static'
        self.virtual = node.get('virtual', False)
        self.pure = node.get('pure', False)

    @property
    def ret(self):
        t = self.type
        # return type: text before the parameter list at depth 0
        d = 0
        for i, c in enumerate(t):
            if c in '<':
                d += 1
            elif c == '>':
                d -= 1
            elif c == '(' and d == 0:
                return t[:i].strip()
        return t

    def ptypes(self):
        return [p['type'].get('desugaredQualType', p['type']['qualType']) for p in self.params]

    def __repr__(self):
        return '<%s %s>' % (self.qname, self.type)


class Cls:
    def __init__(self, name, node):
        self.name, self.node = name, node
        self.union = node.get('tagUsed') == 'union'
        self.fields = []  # (name, typestr, init node or None)
        self.bases = []
        for b in node.get('bases', []):
            self.bases.append(b['type'].get('desugaredQualType', b['type']['qualType']))
        for n in node.get('inner', []):
            if n.get('kind') == 'FieldDecl':
                init = None
                for x in n.get('inner', []):
                    if 'Comment' not in x.get('kind', '') and x.get('kind') != 'FullComment':
                        init = x
                self.fields.append((n['name'], n['type'].get('desugaredQualType', n['type']['qualType']), init,
                                    n['id']))


class Program:
    def __init__(self):
        self.funcs = []           # all Func with a body, or pure virtual
        self.by_id = {}           # decl id -> Func (definition, when there is one)
        self.decls = {}           # decl id -> node (functions)
        self.classes = {}
        self.recname = {}         # record decl id -> qualified name
        self.globals = {}         # id -> (qname, node)
        self.globals_by_name = {}
        self.enum_consts = {}     # id -> (qname, value)
        self.prev = {}
        self.qn = {}              # decl id -> qualified name
        self.fields_by_id = {}    # field id -> (class, name)
        self.ns_name = {}
        self.aliases = {}
        self.files = []

    # -- building
    def add_file(self, path, extra=()):
        txt = dump(path, extra)
        cs = chunks(txt)
        del txt
        if not cs:
            raise AstError('no declarations from %s' % path)
        for c in cs:
            self._records(c, [])
        for c in cs:
            self._walk(c, [], None)
        self._link()
        self.files.append(path)
        return self

    def _records(self, n, ctx):
        k = n.get('kind')
        if k in ('TypeAliasDecl', 'TypedefDecl') and n.get('name') and n.get('type'):
            t = n['type']
            self.aliases['::'.join(ctx + [n['name']])] = t.get('desugaredQualType', t['qualType'])
        if k in ('NamespaceDecl', 'CXXRecordDecl', 'LinkageSpecDecl', 'ClassTemplateDecl',
                 'ClassTemplateSpecializationDecl', 'EnumDecl'):
            c2 = ctx
            if k == 'NamespaceDecl':
                c2 = ctx + ([n['name']] if n.get('name') else [])
                self.ns_name[n['id']] = c2
            elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                if n.get('name'):
                    base = ctx
                    p = n.get('parentDeclContextId')
                    if p and p in self.recname:
                        base = self.recname[p].split('::')
                    elif p and p in self.ns_name:
                        base = self.ns_name[p]
                    c2 = base + [n['name']]
                    self.recname[n['id']] = '::'.join(c2)
                    if n.get('completeDefinition'):
                        if '::'.join(c2) not in self.classes:
                            self.classes['::'.join(c2)] = Cls('::'.join(c2), n)
                        for f in self.classes['::'.join(c2)].fields:
                            pass
                        for x in n.get('inner', []):
                            if x.get('kind') == 'FieldDecl':
                                self.fields_by_id[x['id']] = ('::'.join(c2), x.get('name'))
            for x in n.get('inner', []):
                if isinstance(x, dict):
                    self._records(x, c2)

    def _ctx_of(self, n, ctx):
        p = n.get('parentDeclContextId')
        if p and p in self.recname:
            return self.recname[p].split('::')
        if p and p in self.ns_name:
            return self.ns_name[p]
        return ctx

    def _walk(self, n, ctx, cls):
        k = n.get('kind')
        if k == 'NamespaceDecl':
            c2 = ctx + ([n['name']] if n.get('name') else [])
            for x in n.get('inner', []):
                self._walk(x, c2, None)
        elif k == 'LinkageSpecDecl':
            for x in n.get('inner', []):
                self._walk(x, ctx, None)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = self.recname.get(n['id'])
            if nm and n.get('completeDefinition'):
                for x in n.get('inner', []):
                    self._walk(x, nm.split('::'), nm)
        elif k == 'FunctionTemplateDecl':
            c2 = self._ctx_of(n, ctx)
            first = True
            for x in n.get('inner', []):
                if x.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl'):
                    if first:      # the uninstantiated pattern
                        first = False
                        continue
                    self._func(x, c2, cls)
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self._func(n, ctx, cls)
        elif k == 'VarDecl':
            c2 = self._ctx_of(n, ctx)
            q = '::'.join(c2 + [n.get('name', '')])
            self.globals[n['id']] = (q, n)
            old = self.globals_by_name.get(q)
            if old is None or n.get('init'):
                self.globals_by_name[q] = n
            if n.get('previousDecl'):
                self.prev[n['id']] = n['previousDecl']
        elif k == 'EnumDecl':
            c2 = self._ctx_of(n, ctx) + ([n['name']] if n.get('name') else [])
            v = -1
            for x in n.get('inner', []):
                if x.get('kind') == 'EnumConstantDecl':
                    val = None
                    for y in x.get('inner', []):
                        if 'value' in y:
                            val = int(y['value'])
                    v = v + 1 if val is None else val
                    self.enum_consts[x['id']] = ('::'.join(c2 + [x['name']]), v)

    def _func(self, n, ctx, cls):
        c2 = self._ctx_of(n, ctx)
        owner = cls
        p = n.get('parentDeclContextId')
        if p and p in self.recname:
            owner = self.recname[p]
        q = '::'.join(c2 + [n.get('name', '')])
        self.qn[n['id']] = q
        self.decls[n['id']] = n
        if n.get('previousDecl'):
            self.prev[n['id']] = n['previousDecl']
        has = any(x.get('kind') in ('CompoundStmt', 'CXXTryStmt') for x in n.get('inner', []))
        f = Func(q, n, owner)
        if owner is None and '::'.join(c2) in self.classes:
            f.cls = '::'.join(c2)
        if has or n.get('pure') or n.get('explicitlyDefaulted'):
            self.funcs.append(f)
            self.by_id[n['id']] = f
        else:
            self.by_id.setdefault(n['id'], f)

    def _link(self):
        # decl chains: every decl of a chain maps to its definition
        root = {}

        def find(i):
            seen = []
            while i in self.prev:
                seen.append(i)
                i = self.prev[i]
            return i
        chains = {}
        for i in self.decls:
            chains.setdefault(find(i), []).append(i)
        for r, ids in chains.items():
            ids = set(ids) | {r}
            d = None
            for i in ids:
                f = self.by_id.get(i)
                if f and f.body is not None:
                    d = f
            if d:
                for i in ids:
                    self.by_id[i] = d
                if r in self.by_id:
                    pass
        # out-of-line template instantiations: link declaration and definition by name + type
        bod = {}
        for f in self.funcs:
            if f.body is not None:
                bod[(f.qname, f.type)] = f
        for i, n in list(self.decls.items()):
            f = self.by_id[i]
            if f.body is None:
                g = bod.get((f.qname, f.type))
                if g:
                    self.by_id[i] = g

    def find(self, qname, npar=None, ptypes=None):
        r = []
        for f in self.funcs:
            if f.qname == qname and f.body is not None:
                if npar is not None and len(f.params) != npar:
                    continue
                if ptypes is not None and not all(re.search(a, b) for a, b in zip(ptypes, f.ptypes())):
                    continue
                if f not in r:
                    r.append(f)
        return r


def load(paths, extra=()):
    p = Program()
    for x in paths:
        p.add_file(x, extra)
    for name, fields in BUILTIN.items():
        if name not in p.classes:
            c = Cls(name, {'inner': []})
            c.fields = [(f, t, None, None) for f, t in fields]
            p.classes[name] = c
    return p


# structs of the system headers that the sources use by member
BUILTIN = {'timespec': [('tv_sec', 'long'), ('tv_nsec', 'long')], 'timeval': [('tv_sec', 'long'), ('tv_usec', 'long')]}


if __name__ == '__main__':
    import sys, time
    t = time.time()
    p = load(sys.argv[1:])
    for f in p.funcs:
        print(f, f.cls, 'BODY' if f.body else '')
    for c in p.classes.values():
        print('class', c.name, c.bases, [x[:2] for x in c.fields])
    print(list(p.globals_by_name), list(p.enum_consts.values()))
    print(time.time() - t)
