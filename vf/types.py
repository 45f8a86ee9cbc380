"""C++ types as clang prints them -> a small type language, and its SMT sorts."""
import re, functools
import z3


class T(tuple):
    """('int',bits,signed) ('bool',) ('float',bits) ('string',) ('vec',t) ('pair',a,b) ('tuple',...)
    ('map',k,v) ('umap',k,v) ('set',k) ('ptr',t) ('ref',t) ('uptr',t) ('array',t,n) ('class',name)
    ('iter',c) ('void',) ('enum',name) ('cstr',) ('opaque',name)"""
    @property
    def k(self):
        return self[0]

    def __repr__(self):
        return '.'.join(str(x) for x in self)


INTS = {'int': (32, True), 'unsigned int': (32, False), 'unsigned': (32, False), 'long': (64, True),
        'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False),
        'short': (16, True), 'unsigned short': (16, False), 'char': (8, True), 'signed char': (8, True),
        'unsigned char': (8, False), 'size_t': (64, False), 'std::size_t': (64, False), 'int64_t': (64, True),
        'uint64_t': (64, False), 'uint32_t': (32, False), 'int32_t': (32, True), 'std::streamsize': (64, True),
        'ptrdiff_t': (64, True), 'std::ptrdiff_t': (64, True), 'size_type': (64, False),
        'difference_type': (64, True), '__time_t': (64, True), '__syscall_slong_t': (64, True),
        'uint8_t': (8, False), 'long double': None, '__int128': (128, True)}


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


RESOLVE = {}   # class-name resolver: set by the engine


def parse(s):
    return _parse(s.strip())


@functools.lru_cache(maxsize=None)
def _norm(s):
    s = re.sub(r'\b(const|volatile|struct|class|enum|typename|union|__restrict|restrict)\b', ' ', s)
    return re.sub(r'\s+', ' ', s).strip()


@functools.lru_cache(maxsize=None)
def _parse(s):
    s = _norm(s)
    if s.endswith('&&'):
        return T(('ref', _parse(s[:-2])))
    if s.endswith('&'):
        return T(('ref', _parse(s[:-1])))
    m = re.match(r'^(.*)\((\*|&)\)\s*\[(\d+)\]$', s)
    if m:
        return T(('ptr' if m.group(2) == '*' else 'ref', T(('array', _parse(m.group(1)), int(m.group(3))))))
    if s.endswith('*'):
        t = _parse(s[:-1])
        if t == ('int', 8, True):
            return T(('cstr',))
        return T(('ptr', t))
    m = re.match(r'^(.*)\[([^\]]*)\]$', s)
    if m:
        n = m.group(2)
        return T(('array', _parse(m.group(1)), int(n) if n.isdigit() else None))
    if s in INTS and INTS[s]:
        return T(('int',) + INTS[s])
    if s in ('bool', '_Bool'):
        return T(('bool',))
    if s == 'float':
        return T(('float', 32))
    if s in ('double', 'long double'):
        return T(('float', 64))
    if s in ('void',):
        return T(('void',))
    if s in ('std::nullptr_t', 'nullptr_t'):
        return T(('ptr', T(('void',))))
    m = re.match(r'^((?:[\w]+::)*)(\w+)<(.*)>$', s, re.S)
    if m and _balanced(m.group(3)):
        nm, args = m.group(2), split_args(m.group(3))
        if nm in ('basic_string',):
            return T(('string',))
        if nm == 'vector':
            return T(('vec', _parse(args[0])))
        if nm == 'pair':
            return T(('pair', _parse(args[0]), _parse(args[1])))
        if nm == 'tuple':
            return T(('tuple',) + tuple(_parse(a) for a in args))
        if nm == 'map':
            return T(('map', _parse(args[0]), _parse(args[1])))
        if nm == 'unordered_map':
            return T(('umap', _parse(args[0]), _parse(args[1])))
        if nm in ('set', 'unordered_set'):
            return T(('set', _parse(args[0])))
        if nm in ('unique_ptr', 'shared_ptr', 'unique_ptr'):
            return T(('uptr', _parse(args[0])))
        if nm in ('__normal_iterator',):
            return T(('iter', _parse(args[1])))
        if nm in ('_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Node_iterator', '_Node_const_iterator'):
            return T(('iter', T(('opaque', s))))
        if nm == 'initializer_list':
            return T(('vec', _parse(args[0])))
        if nm in ('basic_ostream', 'basic_istream', 'basic_ofstream', 'basic_ifstream', 'basic_stringstream',
                  'basic_ostringstream', 'basic_istringstream', 'basic_ios', 'basic_fstream', 'basic_iostream'):
            return T(('class', 'std::' + nm[6:]))
        if nm in ('__decay_and_strip', 'remove_reference', 'decay', '__type_identity_t'):
            return _parse(args[0])
        return T(('opaque', s))
    if s in ('std::string', 'string'):
        return T(('string',))
    if s in ('std::ostream', 'std::istream', 'std::ofstream', 'std::ifstream', 'std::stringstream', 'std::ios',
             'std::ostringstream', 'std::istringstream', 'ostream', 'istream'):
        return T(('class', 'std::' + s.split('::')[-1]))
    f = RESOLVE.get('f')
    if f:
        r = f(s)
        if r is not None:
            return r
    m = re.match(r'^(.*)::(const_iterator|iterator)$', s)
    if m:
        return T(('iter', _parse(m.group(1))))
    return T(('opaque', s))


def _balanced(s):
    d = 0
    for c in s:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
            if d < 0:
                return False
    return d == 0


def clear_cache():
    _parse.cache_clear()


def strip_ref(t):
    while t.k == 'ref':
        t = t[1]
    return t


FV = z3.DeclareSort('FV')                      # the value of a std::vector<float>
flen = z3.Function('flen', FV, z3.IntSort())
fat = z3.Function('fat', FV, z3.IntSort(), z3.RealSort())
fempty = z3.Const('fempty', FV)
fpush = z3.Function('fpush', FV, z3.RealSort(), FV)
fupd = z3.Function('fupd', FV, z3.IntSort(), z3.RealSort(), FV)
flt = z3.Function('flt', FV, FV, z3.BoolSort())

VECF = T(('vec', T(('float', 32))))

_dts = {}


def tname(t):
    return re.sub(r'[^A-Za-z0-9]+', '_', repr(t)).strip('_')


def sort(t):
    k = t.k
    if k in ('int', 'ptr', 'uptr', 'enum', 'class'):
        return z3.IntSort()
    if k == 'opaque':
        return z3.IntSort()
    if k == 'bool':
        return z3.BoolSort()
    if k == 'float':
        return z3.RealSort()
    if k in ('string', 'cstr'):
        return z3.StringSort()
    if k == 'ref':
        return sort(t[1])
    if t == VECF:
        return FV
    if t in _dts:
        return _dts[t]
    n = tname(t)
    if k in ('vec', 'array'):
        d = z3.Datatype('V_' + n)
        d.declare('mk', ('len', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), sort(t[1]))))
    elif k in ('pair', 'tuple'):
        d = z3.Datatype('P_' + n)
        d.declare('mk', *[('f%d' % i, sort(x)) for i, x in enumerate(t[1:])])
    elif k in ('map', 'umap'):
        d = z3.Datatype('M_' + n)
        ks = sort(t[1])
        d.declare('mk', ('dom', z3.ArraySort(ks, z3.BoolSort())), ('val', z3.ArraySort(ks, sort(t[2]))))
    elif k == 'set':
        s = z3.ArraySort(sort(t[1]), z3.BoolSort())
        _dts[t] = s
        return s
    else:
        raise TypeError('no sort for %r' % (t,))
    s = d.create()
    _dts[t] = s
    return s


# -- canonical element type of a sort-carrying type (const etc. already stripped)
def vlen(v):
    if v.sort() == FV:
        return flen(v)
    return _acc(v, 0)


def varr(v):
    return _acc(v, 1)


def vmk(s, n, a):
    return s.constructor(0)(n, a)


def vat(v, i):
    if v.sort() == FV:
        return fat(v, i)
    return sel(varr(v), i)


def _acc(v, i):
    s = v.sort()
    if z3.is_app(v) and v.decl().eq(s.constructor(0)):
        return v.arg(i)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b = _acc(v.arg(1), i), _acc(v.arg(2), i)
        return a if a.eq(b) else z3.If(v.arg(0), a, b)
    return s.accessor(0, i)(v)


def pget(v, i):
    return _acc(v, i)


def pmk(s, *xs):
    return s.constructor(0)(*xs)


def pset(v, i, x):
    s = v.sort()
    n = s.constructor(0).arity()
    return s.constructor(0)(*[x if j == i else _acc(v, j) for j in range(n)])


def mdom(v):
    return _acc(v, 0) if not z3.is_array(v) else v


def mval(v):
    return _acc(v, 1)


def sel(a, i):
    """Select with read-over-write on syntactically equal / distinct-literal indices."""
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE:
        j = a.arg(1)
        if j.eq(i):
            return a.arg(2)
        if z3.is_int_value(j) and z3.is_int_value(i):
            a = a.arg(0)
            continue
        break
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return z3.Select(a, i)


# -- ordered enumeration of a finite domain
_enum = {}


def enum_fns(ksort):
    key = ksort.sexpr() if hasattr(ksort, 'sexpr') else str(ksort)
    if key not in _enum:
        n = re.sub(r'[^A-Za-z0-9]+', '_', str(ksort))
        ds = z3.ArraySort(ksort, z3.BoolSort())
        _enum[key] = (z3.Function('card_' + n, ds, z3.IntSort()),
                      z3.Function('keyat_' + n, ds, z3.IntSort(), ksort),
                      z3.Function('idxof_' + n, ds, ksort, z3.IntSort()))
    return _enum[key]


def card(dom):
    return enum_fns(dom.sort().domain())[0](dom)


def key_at(dom, i):
    return enum_fns(dom.sort().domain())[1](dom, i)


def idx_of(dom, k):
    return enum_fns(dom.sort().domain())[2](dom, k)


def klt(t, a, b):
    """strict key order of type t"""
    if t == VECF:
        return flt(a, b)
    if t.k in ('int', 'enum', 'ptr', 'float'):
        return a < b
    if t.k in ('string', 'cstr'):
        return a < b
    if t.k in ('pair', 'tuple'):
        r = z3.BoolVal(False)
        for i in reversed(range(len(t) - 1)):
            x, y = pget(a, i), pget(b, i)
            r = z3.Or(klt(t[i + 1], x, y), z3.And(x == y, r))
        return r
    raise TypeError('no order on %r' % (t,))


def fv_axioms():
    v, w, u = z3.Consts('v w u', FV)
    i = z3.Int('i')
    x = z3.Real('x')
    return [
        z3.ForAll([v], flen(v) >= 0, patterns=[flen(v)]),
        flen(fempty) == 0,
        z3.ForAll([v, x], flen(fpush(v, x)) == flen(v) + 1, patterns=[fpush(v, x)]),
        z3.ForAll([v, x, i], fat(fpush(v, x), i) == z3.If(i == flen(v), x, fat(v, i)), patterns=[fat(fpush(v, x), i)]),
        z3.ForAll([v, i, x], flen(fupd(v, i, x)) == flen(v), patterns=[fupd(v, i, x)]),
    ]


def flt_axioms():
    v, w, u = z3.Consts('v w u', FV)
    return [
        z3.ForAll([v], z3.Not(flt(v, v)), patterns=[flt(v, v)]),
        z3.ForAll([v, w], z3.Or(flt(v, w), flt(w, v), v == w), patterns=[flt(v, w)]),
        z3.ForAll([v, w], z3.Not(z3.And(flt(v, w), flt(w, v))), patterns=[flt(v, w)]),
        z3.ForAll([v, w, u], z3.Implies(z3.And(flt(v, w), flt(w, u)), flt(v, u)),
                  patterns=[z3.MultiPattern(flt(v, w), flt(w, u))]),
    ]


def dom_axioms(dom, kt, ordered=True):
    ks = dom.sort().domain()
    c, ka, ix = enum_fns(ks)
    k = z3.Const('k', ks)
    i, j = z3.Ints('i j')
    ax = [c(dom) >= 0,
          FA([k], z3.Implies(sel(dom, k), z3.And(0 <= ix(dom, k), ix(dom, k) < c(dom), ka(dom, ix(dom, k)) == k)),
                    pats=[ix(dom, k)] + ([z3.Select(dom, k)])),
          FA([i], z3.Implies(z3.And(0 <= i, i < c(dom)),
                                    z3.And(z3.Select(dom, ka(dom, i)), ix(dom, ka(dom, i)) == i)),
                    pats=[ka(dom, i)])]
    if ordered:
        ax.append(FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < c(dom)),
                                               klt(kt, ka(dom, i), ka(dom, j))),
                            pats=[z3.MultiPattern(ka(dom, i), ka(dom, j))]))
    # cardinality through updates
    d = dom
    while z3.is_app(d) and d.decl().kind() == z3.Z3_OP_STORE:
        b, kk, vv = d.arg(0), d.arg(1), d.arg(2)
        ax.append(c(b) >= 0)
        ax.append(c(d) == z3.If(vv, c(b) + z3.If(sel(b, kk), 0, 1), c(b) - z3.If(sel(b, kk), 1, 0)))
        d = b
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_CONST_ARRAY and z3.is_false(d.arg(0)):
        ax.append(c(d) == 0)
    return ax


def empty(t):
    """value of a default-constructed container"""
    if t == VECF:
        return fempty
    s = sort(t)
    if t.k in ('vec',):
        return vmk(s, z3.IntVal(0), z3.K(z3.IntSort(), zero(t[1])))
    if t.k in ('map', 'umap'):
        return s.constructor(0)(z3.K(sort(t[1]), z3.BoolVal(False)), z3.K(sort(t[1]), zero(t[2])))
    if t.k == 'set':
        return z3.K(sort(t[1]), z3.BoolVal(False))
    if t.k == 'string':
        return z3.StringVal('')
    if t.k in ('uptr', 'ptr'):
        return z3.IntVal(0)
    if t.k in ('pair', 'tuple'):
        return pmk(s, *[zero(x) for x in t[1:]])
    raise TypeError(t)


def zero(t):
    if t.k in ('int', 'enum', 'ptr', 'uptr', 'class', 'opaque'):
        return z3.IntVal(0)
    if t.k == 'bool':
        return z3.BoolVal(False)
    if t.k == 'float':
        return z3.RealVal(0)
    if t.k in ('string', 'cstr'):
        return z3.StringVal('')
    if t.k == 'array':
        return vmk(sort(t), z3.IntVal(t[2] or 0), z3.K(z3.IntSort(), zero(t[1])))
    return empty(t)


MAXLEN = 1 << 61        # no container is larger than the memory


def in_range(t, v):
    """type invariant of a value"""
    if t.k == 'int':
        bits, sg = t[1], t[2]
        if sg:
            return [v >= -(1 << (bits - 1)), v < (1 << (bits - 1))]
        return [v >= 0, v < (1 << bits)]
    if t == VECF:
        return [flen(v) < MAXLEN]
    if t.k in ('vec', 'array') and t != VECF:
        r = [vlen(v) >= 0, vlen(v) < MAXLEN]
        if t.k == 'array' and t[2] is not None:
            r = [vlen(v) == t[2]]
        return r
    if t.k in ('pair', 'tuple'):
        r = []
        for i, x in enumerate(t[1:]):
            r += in_range(x, pget(v, i))
        return r
    if t.k in ('ptr', 'uptr'):
        return [v >= 0]
    return []


_BADPAT = None


def _patok(e):
    """terms with Boolean structure cannot be patterns"""
    todo, seen = [e], set()
    bad = (z3.Z3_OP_ITE, z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE,
           z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or z3.is_app(x) and x.decl().kind() in bad:
            return False
        todo += x.children()
    return True


def FA(vs, body, pats=()):
    """ForAll with those of the patterns that are legal"""
    ps = [p for p in pats if not z3.is_const(p) and _patok(p)]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
