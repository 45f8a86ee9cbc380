"""Trusted contracts of the C and C++ library functions that Apollo calls."""
import re
import z3
from . import types as ty
from .types import T, sort, strip_ref, vlen, varr, vat, vmk, pget, pmk, pset, mdom, mval, sel
from . import engine as E
from .engine import (Unsupported, PathEnd, Exit, ObjRef, LV, IterVal, Moved, LambdaVal, TieVal, TupVal, Uninit, FnVal,
                     StreamVal, is_z3, AND, NOT, to_bool, to_int, DEFAULT, NULLSTR)

I, R, B, S = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()
NPOS = (1 << 64) - 1
stoi_f = z3.Function('stoi', S, I)
stoi_ok = z3.Function('stoi_ok', S, B)
stoul_f = z3.Function('stoul', S, I)
stoul_ok = z3.Function('stoul_ok', S, B)
stod_f = z3.Function('stod', S, R)
stod_ok = z3.Function('stod_ok', S, B)
itos_f = z3.Function('itos', I, S)
rtos_f = z3.Function('rtos', R, S)
udlo = z3.Function('udlo', I, I)
udhi = z3.Function('udhi', I, I)
sfind_f = z3.Function('str_find', S, S, I, I)      # std::string::find, -1 for npos
ssub_f = z3.Function('str_sub', S, I, I, S)        # std::string::substr(pos, count), count already clipped
schar_f = z3.Function('str_char', S, I, I)
slen_f = z3.Function('str_len', S, I)


def slen(ex, v):
    if z3.is_string_value(v):
        return z3.IntVal(len(v.as_string()))
    r = slen_f(v)
    ex.axiom(('slen', r.get_id()), [r >= 0, r < 2 ** 62, (r == 0) == (v == z3.StringVal(''))])
    return r


def sfind(ex, v, a, p):
    r = sfind_f(v, a, p)
    ex.axiom(('sfind', r.get_id()), [r >= -1, z3.Or(r == -1, z3.And(p <= r, r + slen(ex, a) <= slen(ex, v)))])
    return r


def ssub(ex, v, p, n):
    r = ssub_f(v, p, n)
    ex.axiom(('ssub', r.get_id()), [z3.Implies(z3.And(p == 0, n == slen(ex, v)), r == v),
                                    z3.Implies(z3.And(p >= 0, n >= 0, p + n <= slen(ex, v)), slen(ex, r) == n)])
    return r


env_set = z3.Function('env_set', S, B)
env_val = z3.Function('env_val', S, S)
exp_f = z3.Function('exp_r', R, R)
sqrt_f = z3.Function('sqrt_r', R, R)
pow_f = z3.Function('pow_r', R, R, R)

STREAMS = ('std::ostream', 'std::istream', 'std::ofstream', 'std::ifstream', 'std::stringstream', 'std::ios',
           'std::ostringstream', 'std::istringstream', 'std::fstream', 'std::iostream')


def container_of(ex, v):
    """lvalue of a container expression"""
    if isinstance(v, Moved):
        return v.lv
    if isinstance(v, LV):
        if v.kind == 'var' and isinstance(ex.st.env.get(v.a), LV):
            return ex.st.env[v.a]
        return v
    if is_z3(v):
        return None
    raise Unsupported('container %r' % (v,))


class Stl:
    def __init__(self):
        self.hooks = {}      # name -> fn(ex, nodes, n): overriding models of free functions
        self.used = set()

    def use(self, name):
        self.used.add(name)

    # ------------------------------------------------------------ objects
    def ctor(self, ex, obj, args, node):
        return obj.t[1] in STREAMS

    def is_stream(self, t):
        return t.k == 'class' and t[1] in STREAMS

    def local_stream(self, ex, t, init, d):
        nm = d.get('name', 'tmp') if d else 'tmp'
        if init is not None:
            for x in init.get('inner', []):
                if x['kind'] != 'CXXDefaultArgExpr':
                    try:
                        ex.ev(x)
                    except Unsupported:
                        pass
        return StreamVal(nm)

    def member(self, ex, b, name):
        return None

    def enum_const(self, ex, rd):
        raise Unsupported('enumerator ' + rd.get('name', '?'))

    def global_var(self, ex, rd, n):
        nm = rd.get('name')
        if nm in ('cout', 'cerr', 'clog', 'cin'):
            return StreamVal(nm)
        if nm == 'npos':
            return z3.IntVal(NPOS)
        if nm in ('app', 'out', 'in', 'trunc', 'binary'):
            return ex.fresh('openmode', I)
        if nm in ('piecewise_construct', 'ignore'):
            return z3.IntVal(0)
        if nm in ('stderr', 'stdout'):
            return z3.Int('FILE:' + nm)
        if nm in ('max_digits10', 'digits10', 'digits'):
            q = ex.source(n.get('range', {}), 'digits')
            for w, v in (('float', (9, 6, 24)), ('double', (17, 15, 53))):
                if re.search(r'numeric_limits\s*<\s*%s\s*>' % w, q or ''):
                    return z3.IntVal(v[('max_digits10', 'digits10', 'digits').index(nm)])
        return None

    def is_null_str(self, ex, v):
        if is_z3(v) and v.sort() == S:
            k = ('nullstr', v.get_id())
            if v in ex.st.ghost.get('nullable', ()):
                pass
            f = ex.st.ghost.get(('null', v.sexpr()))
            return f if f is not None else z3.BoolVal(False)
        if is_z3(v):
            return v == 0
        return z3.BoolVal(False)

    # ------------------------------------------------------------ pointers, arrays
    def decay(self, ex, v, n):
        return v

    def addr_of(self, ex, v, n):
        if isinstance(v, ObjRef):
            return v.addr
        if isinstance(v, LV):
            return E.PtrTo(v)
        raise Unsupported('address of %r' % (v,))

    def deref(self, ex, v, t, n):
        if isinstance(v, E.PtrTo):
            return v.lv
        if isinstance(v, IterVal):
            return self.it_elem(ex, v, n)
        if is_z3(v) and v.sort() == S:
            return z3.StrToCode(z3.SubString(v, 0, 1))
        if is_z3(v) and t.k == 'ptr' and t[1].k in ('float', 'int'):
            return self.mem_lv(ex, v, z3.IntVal(0), t[1], n)
        raise Unsupported('dereference of %r' % (t,))

    def mem_field(self, ex, t):
        f = 'mem:' + ty.tname(t)
        ex.memtypes[f] = t
        return f

    def mem_lv(self, ex, block, i, t, n):
        f = self.mem_field(ex, t)
        base = LV('heap', f, block, T(('vec', t)))
        for h in getattr(ex, 'index_hooks', ()):
            h(ex, i)
        if ex.bounds_checks:
            ex.oblige('array access within its allocation', z3.And(i >= 0, i < vlen(ex.load(base))), n, 'safety')
        return LV('idx', base, i, t)

    def obj_elem(self, ex, block, i, t, n):
        """element of an array of objects"""
        f = 'objs:' + t[1]
        ex.memtypes[f] = None
        if ex.bounds_checks:
            ex.oblige('array access within its allocation', z3.And(i >= 0, i < ex.hget(f, block)), n, 'safety')
        return E.ObjRef(ex.elem_addr(t[1], block, i), t)

    def new_array(self, ex, n, t):
        inner = n.get('inner', [])
        if t.k == 'class' and t[1] in ex.prog.classes and not any(
                f.cls == t[1] and f.kind == 'CXXConstructorDecl' and not f.node.get('isImplicit')
                for f in ex.prog.funcs):
            cnt = ex.load(ex.ev(inner[0]))
            a = ex.alloc(t, 'arr')
            ex.memtypes['objs:' + t[1]] = None
            ex.hset('objs:' + t[1], a, cnt)
            return a
        if t.k not in ('float', 'int'):
            raise Unsupported('new %r[]' % (t,))
        cnt = ex.load(ex.ev(inner[0]))
        f = self.mem_field(ex, t)
        a = ex.alloc(t, 'arr')
        arr = ex.fresh('block', z3.ArraySort(I, sort(t))) if len(inner) < 2 else z3.K(I, ty.zero(t))
        ex.hset(f, a, vmk(sort(T(('vec', t))), cnt, arr))
        return a

    def subscript(self, ex, b, i, n, bt):
        v = b
        if isinstance(b, E.PtrTo):
            if b.lv.kind == 'idx':
                lv = LV('idx', b.lv.a, b.lv.b + i, b.lv.t)
                self.bounds(ex, ex.load(b.lv.a), b.lv.b + i, n)
                return lv
            raise Unsupported('subscript of pointer to scalar')
        if isinstance(b, LV):
            t = strip_ref(b.t)
            if t.k == 'array':
                self.bounds(ex, ex.load(b), i, n)
                return LV('idx', b, i, t[1])
            v = ex.load(b)
            if t.k == 'ptr' and is_z3(v):
                if isinstance(v, E.PtrTo):
                    return self.subscript(ex, v, i, n, bt)
                if t[1].k == 'class':
                    return self.obj_elem(ex, v, i, t[1], n)
                return self.mem_lv(ex, v, i, t[1], n)
            if isinstance(v, E.PtrTo):
                return self.subscript(ex, v, i, n, bt)
            b = v
        if isinstance(b, E.PtrTo):
            return self.subscript(ex, b, i, n, bt)
        if is_z3(b) and b.sort() == S:
            return z3.If(i < slen(ex, b), z3.StrToCode(z3.SubString(b, i, 1)), z3.IntVal(0))
        if is_z3(b) and bt.k == 'ptr' and bt[1].k == 'class':
            return self.obj_elem(ex, b, i, bt[1], n)
        if is_z3(b) and bt.k == 'ptr':
            return self.mem_lv(ex, b, i, bt[1], n)
        raise Unsupported('subscript of %r' % (b,))

    def bounds(self, ex, v, i, n):
        if ex.bounds_checks:
            ex.oblige('index within bounds', z3.And(i >= 0, i < vlen(v)), n, 'safety')

    def ptr_arith(self, ex, op, a, b, t, n):
        if isinstance(a, E.PtrTo) and a.lv.kind == 'idx':
            d = b if op == '+' else -b
            return E.PtrTo(LV('idx', a.lv.a, a.lv.b + d, a.lv.t))
        raise Unsupported('pointer arithmetic')

    # ------------------------------------------------------------ iterators
    def it_begin(self, ex, lv, t):
        if t.k in ('map', 'umap', 'set'):
            d = mdom(ex.load(lv))
            ex.touch_dom(d, t[1], t.k != 'umap')
            return IterVal(lv, z3.IntVal(0), t, None, d)
        return IterVal(lv, z3.IntVal(0), t)

    def it_end(self, ex, lv, t):
        if t.k in ('map', 'umap', 'set'):
            d = mdom(ex.load(lv))
            ex.touch_dom(d, t[1], t.k != 'umap')
            return IterVal(lv, ty.card(d), t, None, d)
        return IterVal(lv, vlen(ex.load(lv)), t)

    def it_key(self, ex, it):
        return it.key if it.key is not None else ty.key_at(it.dom, it.pos)

    def it_elem(self, ex, it, n=None):
        t = it.t
        if it.dom is not None:
            k = self.it_key(ex, it)
            if ex.bounds_checks:
                if it.key is not None:
                    ex.oblige('iterator is dereferenceable', sel(it.dom, it.key), n, 'safety')
                else:
                    ex.oblige('iterator is dereferenceable', z3.And(it.pos >= 0, it.pos < ty.card(it.dom)), n, 'safety')
            if t.k == 'set':
                return LV('tmp', k, None, t[1])
            return LV('mapelem', it.c, k, T(('pair', t[1], t[2])))
        v = ex.load(it.c)
        if ex.bounds_checks:
            ex.oblige('iterator is dereferenceable', z3.And(it.pos >= 0, it.pos < vlen(v)), n, 'safety')
        return LV('idx', it.c, it.pos, t[1])

    def iter_step(self, ex, it, d):
        return IterVal(it.c, E.addk(it.pos, d), it.t, None, it.dom)

    def iter_cmp(self, ex, op, a, b):
        if isinstance(a, LV):
            a = ex.load(a)
        if isinstance(b, LV):
            b = ex.load(b)
        if not (isinstance(a, IterVal) and isinstance(b, IterVal)):
            raise Unsupported('iterator comparison')
        if (a.dom is None) != (b.dom is None):
            raise Unsupported('iterator comparison')
        if a.dom is not None and not a.dom.eq(b.dom):
            raise Unsupported('comparison of iterators across a modification')
        r = None
        for x, y in ((a, b), (b, a)):
            if x.key is not None and x.dom is not None and y.pos.eq(ty.card(x.dom)):
                r = NOT(sel(x.dom, x.key))
        if r is None:
            r = a.pos == b.pos
        if op == '==':
            return r
        if op == '!=':
            return NOT(r)
        return {'<': a.pos < b.pos, '>': a.pos > b.pos, '<=': a.pos <= b.pos, '>=': a.pos >= b.pos}[op]

    def find_iter(self, ex, lv, t, k):
        d = mdom(ex.load(lv))
        ex.touch_dom(d, t[1], t.k != 'umap')
        return IterVal(lv, z3.If(sel(d, k), ty.idx_of(d, k), ty.card(d)), t, k, d)

    # ------------------------------------------------------------ container values
    def vec_push(self, ex, v, x):
        if v.sort() == ty.FV:
            return ty.fpush(v, x)
        return vmk(v.sort(), vlen(v) + 1, z3.Store(varr(v), vlen(v), x))

    def map_put(self, m, k, v):
        return m.sort().constructor(0)(z3.Store(mdom(m), k, z3.BoolVal(True)), z3.Store(mval(m), k, v))

    def construct_value(self, ex, t, xs, n):
        k = t.k
        if k == 'opaque':
            return self.construct_opaque(ex, t, xs, n)
        if k == 'iter' and len(xs) == 1:
            return ex.load(ex.ev(xs[0]))
        if k in ('pair', 'tuple'):
            if len(xs) == len(t) - 1 and not (len(xs) == 1):
                vs = [ex.ev(x) for x in xs]
                return self.mk_tuple(ex, t, vs)
            if len(xs) == 1:
                v = ex.ev(xs[0])
                return self.conv_tuple(ex, v, t)
        if len(xs) == 1:
            v = ex.ev(xs[0])
            ft = ex.typ(xs[0])
            if k == 'string':
                if v is DEFAULT:
                    return z3.StringVal('')
                v = self.cstring(ex.take(v, t), ex)
                if is_z3(v) and v.sort() == I:
                    raise Unsupported('string from integer')
                return v
            if k == 'vec' and strip_ref(ft).k == 'int':
                c = ex.load(v)
                return self.vec_fill(ex, t, c, ty.zero(t[1]))
            if k == 'uptr':
                if isinstance(v, ObjRef):
                    return v.addr
                return ex.take(v, t)
            if isinstance(v, (LV, Moved)) or is_z3(v):
                return ex.take(v, t)
            if isinstance(v, IterVal):
                return v
            if isinstance(v, LambdaVal):
                return v
            raise Unsupported('construct %r' % (t,))
        vs = [ex.ev(x) for x in xs]
        if k == 'vec' and len(xs) == 2:
            a, b = vs
            if isinstance(a, LV):
                a = ex.load(a)
            if isinstance(b, LV):
                b = ex.load(b)
            if isinstance(a, IterVal):
                return self.vec_range(ex, t, a, b)
            return self.vec_fill(ex, t, a, ex.convert(b, t[1], None))
        if k == 'string' and len(xs) == 2:
            a = ex.load(vs[0])
            b = ex.load(vs[1])
            if is_z3(a) and a.sort() == S and is_z3(b) and b.sort() == I:
                return ssub(ex, a, z3.IntVal(0), b)
        if k == 'string' and len(xs) == 3:
            a = ex.load(vs[0])
            return ssub(ex, a, ex.load(vs[1]), ex.load(vs[2]))
        if k == 'uptr':
            return vs[0].addr if isinstance(vs[0], ObjRef) else ex.take(vs[0], t)
        raise Unsupported('construct %r from %d arguments' % (t, len(xs)))

    def default_opaque(self, ex, t):
        return ex.fresh('opaque', t)

    def construct_opaque(self, ex, t, xs, n):
        nm = t[1]
        if 'uniform_int_distribution' in nm:
            a = [ex.load(ex.ev(x)) for x in xs]
            if len(a) == 1 and 'uniform_int_distribution' in repr(ex.typ(xs[0])):
                return a[0]
            lo = a[0] if a else z3.IntVal(0)
            hi = a[1] if len(a) > 1 else z3.IntVal((1 << 31) - 1)
            d = ex.fresh('dist', t)
            ex.assume(udlo(d) == lo)
            ex.assume(udhi(d) == hi)
            return d
        for x in xs:
            v = ex.ev(x)
            if isinstance(v, LV):
                v = ex.load(v)
            if isinstance(v, LambdaVal):
                return v
        return ex.fresh('opq', t)

    def vec_fill(self, ex, t, c, x):
        if t == ty.VECF:
            v = ex.fresh('fill', t)
            i = z3.Int('i!')
            ex.assume(ty.flen(v) == c)
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c), ty.fat(v, i) == x), patterns=[ty.fat(v, i)]))
            return v
        return vmk(sort(t), c, z3.K(I, x))

    def vec_range(self, ex, t, a, b):
        if a.dom is not None:
            raise Unsupported('vector from map range')
        src = ex.load(a.c)
        if a.pos.eq(z3.IntVal(0)) and b.pos.eq(vlen(src)) and src.sort() == sort(t):
            return src
        v = ex.fresh('range', t)
        i = z3.Int('i!')
        ex.assume(vlen(v) == b.pos - a.pos)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < b.pos - a.pos), vat(v, i) == vat(src, i + a.pos)),
                            patterns=[vat(v, i)]))
        return v

    def mk_tuple(self, ex, t, vs):
        vals = []
        for v, x in zip(vs, t[1:]):
            if isinstance(v, LV) and isinstance(ex.st.env.get(v.a) if v.kind == 'var' else None, IterVal):
                v = ex.load(v)
            if isinstance(v, IterVal):
                vals.append(v)
            elif isinstance(v, ObjRef) and x.k in ('ptr', 'uptr'):
                vals.append(v.addr)
            else:
                w = ex.take(v, strip_ref(x))
                if isinstance(w, ObjRef):
                    w = w.addr
                vals.append(self.cstring(w, ex) if strip_ref(x).k == 'string' else w)
        if any(not is_z3(v) for v in vals):
            return TupVal(vals, t)
        return pmk(sort(t), *vals)

    def conv_tuple(self, ex, v, t):
        v = ex.take(v, t) if isinstance(v, (LV, Moved)) else v
        if isinstance(v, TupVal):
            return TupVal([ex.convert(x, y, None) if is_z3(x) else x for x, y in zip(v.vals, t[1:])], t)
        s = sort(t)
        if v.sort() == s:
            return v
        return pmk(s, *[ex.convert(pget(v, i), strip_ref(x), None) for i, x in enumerate(t[1:])])

    # ------------------------------------------------------------ free functions
    def call(self, ex, rd, nodes, n):
        name = rd['name']
        self.use(name)
        if name in self.hooks:
            return self.hooks[name](ex, nodes, n)
        f = getattr(self, 'f_' + name, None)
        if f is None:
            raise Unsupported('library function ' + name)
        return f(ex, nodes, n)

    def val(self, ex, x):
        v = ex.ev(x)
        v = ex.load(v) if not isinstance(v, ObjRef) else v.addr
        return v

    def f_move(self, ex, xs, n):
        if len(xs) != 1:
            raise Unsupported('std::move of a range')
        v = ex.ev(xs[0])
        if isinstance(v, LV):
            if v.kind == 'var' and isinstance(ex.st.env.get(v.a), LV):
                v = ex.st.env[v.a]
            return Moved(v)
        return v

    def f_forward(self, ex, xs, n):
        return ex.ev(xs[0])

    f_as_const = f_forward
    f_ref = f_forward
    f_cref = f_forward
    f_addressof = lambda self, ex, xs, n: self.addr_of(ex, ex.ev(xs[0]), n)

    def f_make_pair(self, ex, xs, n):
        t = ex.typ(n)
        return self.mk_tuple(ex, t, [ex.ev(x) for x in xs])
    f_make_tuple = f_make_pair

    def f_tie(self, ex, xs, n):
        return TieVal([ex.ev(x) for x in xs])

    def f_get(self, ex, xs, n):
        c = ex.callee(n)
        v = ex.ev(xs[0])
        i = self.get_index(ex, n, xs[0])
        t = strip_ref(ex.typ(xs[0]))
        if isinstance(v, Moved):
            return Moved(LV('part', v.lv, i, t[1 + i]))
        if isinstance(v, LV):
            if v.kind == 'mapelem':
                return ex.member(v, ('first', 'second')[i])
            return LV('part', v, i, t[1 + i])
        if isinstance(v, TupVal):
            return v.vals[i]
        return pget(v, i)

    def get_index(self, ex, n, x):
        # std::get<i>: the index is in the source text of the call
        rng = ex.callee(n).get('range', {})
        src = ex.source(rng)
        m = re.search(r'get\s*<\s*(\d+)\s*>', src or '')
        if m:
            return int(m.group(1))
        raise Unsupported('std::get without a literal index')

    def f_make_unique(self, ex, xs, n):
        t = ex.typ(n)
        if t.k == 'opaque':
            raise Unsupported('make_unique')
        xs = [x for x in xs if x['kind'] != 'CXXDefaultArgExpr']
        it = t[1]
        if it.k == 'array':
            c = self.val(ex, xs[0])
            f = self.mem_field(ex, it[1])
            a = ex.alloc(it[1], 'arr')
            ex.hset(f, a, vmk(sort(T(('vec', it[1]))), c, z3.K(I, ty.zero(it[1]))))
            return a
        if it.k != 'class':
            raise Unsupported('make_unique %r' % (it,))
        args = [ex.ev(x) for x in xs]
        o = ObjRef(ex.alloc(it, 'new'), it)
        if len(args) == 1 and isinstance(args[0], ObjRef) and ex.derives(args[0].t[1], it[1]):
            ex.copy_obj(o, args[0])
        else:
            ex.construct(o, args, node=n)
        ex.set_class(o)
        return o.addr
    f_make_shared = f_make_unique

    def f_distance(self, ex, xs, n):
        a, b = self.val(ex, xs[0]), self.val(ex, xs[1])
        if isinstance(a, IterVal) and isinstance(b, IterVal):
            return E.subk(b.pos, a.pos)
        raise Unsupported('distance')

    def f_next(self, ex, xs, n):
        a = self.val(ex, xs[0])
        xs = [x for x in xs if x['kind'] != 'CXXDefaultArgExpr']
        d = self.val(ex, xs[1]) if len(xs) > 1 else z3.IntVal(1)
        if isinstance(a, IterVal):
            return IterVal(a.c, E.addk(a.pos, d), a.t, None, a.dom)
        raise Unsupported('next')

    def f_prev(self, ex, xs, n):
        a = self.val(ex, xs[0])
        xs = [x for x in xs if x['kind'] != 'CXXDefaultArgExpr']
        d = self.val(ex, xs[1]) if len(xs) > 1 else z3.IntVal(1)
        if isinstance(a, IterVal):
            return IterVal(a.c, E.subk(a.pos, d), a.t, None, a.dom)
        raise Unsupported('prev')

    def f_advance(self, ex, xs, n):
        lv = ex.ev(xs[0])
        a = ex.load(lv)
        d = self.val(ex, xs[1])
        if isinstance(a, IterVal) and isinstance(lv, LV):
            ex.store(lv, IterVal(a.c, E.addk(a.pos, d), a.t, None, a.dom))
            return None
        raise Unsupported('advance')

    def rng_of(self, ex, c):
        if isinstance(c, LV) or is_z3(c):
            return c
        raise Unsupported('range')

    def f_begin(self, ex, xs, n):
        return self.method(ex, ex.ev(xs[0]), strip_ref(ex.typ(xs[0])), 'begin', [], n)

    def f_end(self, ex, xs, n):
        return self.method(ex, ex.ev(xs[0]), strip_ref(ex.typ(xs[0])), 'end', [], n)

    def extremum(self, ex, xs, n, mx):
        a, b = self.val(ex, xs[0]), self.val(ex, xs[1])
        if not isinstance(a, IterVal) or a.dom is not None:
            raise Unsupported('extremum')
        v = ex.load(a.c)
        p = ex.fresh('ext', I)
        i = z3.Int('i!')
        if len(xs) > 2:
            lam = ex.load(ex.ev(xs[2]))
            lt = self.lambda_rel(ex, lam, a.t[1])
        else:
            lt = lambda x, y: ty.klt(a.t[1], x, y)
        ex.assume(z3.Implies(a.pos == b.pos, p == b.pos))
        ex.assume(z3.Implies(a.pos < b.pos, z3.And(a.pos <= p, p < b.pos)))
        at = lambda q: vat(v, q)
        if mx:     # first largest
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(a.pos <= i, i < b.pos), z3.And(z3.Not(lt(at(p), at(i))),
                      z3.Implies(i < p, lt(at(i), at(p))))), patterns=[at(i)]))
        else:
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(a.pos <= i, i < b.pos), z3.And(z3.Not(lt(at(i), at(p))),
                      z3.Implies(i < p, lt(at(p), at(i))))), patterns=[at(i)]))
        return IterVal(a.c, p, a.t)

    def f_max_element(self, ex, xs, n):
        return self.extremum(ex, xs, n, True)

    def f_min_element(self, ex, xs, n):
        return self.extremum(ex, xs, n, False)

    def lambda_rel(self, ex, lam, et):
        """a comparator lambda as a relation on element terms (pure body)"""
        if not isinstance(lam, LambdaVal):
            raise Unsupported('comparator is not a lambda')
        x, y = z3.Const('cx!', sort(et)), z3.Const('cy!', sort(et))
        bc, ex.bounds_checks = ex.bounds_checks, False
        base = ex.st
        save = base.clone()
        try:
            r = ex.call_lambda(lam, [LV('tmp', x, None, et), LV('tmp', y, None, et)])
        finally:
            ex.bounds_checks = bc
        if not is_z3(r) or ex.diff_roots(save, ex.st):
            raise Unsupported('comparator with effects')
        r = to_bool(r)
        return lambda p, q: z3.substitute(r, (x, p), (y, q))

    def f_sort(self, ex, xs, n):
        a, b = self.val(ex, xs[0]), self.val(ex, xs[1])
        if not isinstance(a, IterVal) or a.dom is not None:
            raise Unsupported('sort')
        et = a.t[1]
        if len(xs) > 2:
            lt = self.lambda_rel(ex, ex.load(ex.ev(xs[2])), et)
        else:
            lt = lambda p, q: ty.klt(et, p, q)
        ex.sort_range(a.c, a.pos, b.pos, et, lt, n)
        return None

    f_stable_sort = f_sort

    # strings and numbers
    def f_to_string(self, ex, xs, n):
        v = self.val(ex, xs[0])
        if v.sort() == R:
            return rtos_f(v)
        v = to_int(v)
        if z3.is_int_value(v):
            return z3.StringVal(str(v.as_long()))
        return itos_f(v)

    def _sto(self, ex, xs, n, f, ok, what):
        if len([x for x in xs if x['kind'] != 'CXXDefaultArgExpr']) > 1:
            raise Unsupported(what + ' with position')
        s = self.val(ex, xs[0])
        if ex.decide([ok(s), NOT(ok(s))]) == 1:
            raise Exit('throw', what)
        r = f(s)
        if f.range() == I:
            for g in ty.in_range(ex.typ(n), r):
                ex.assume(g)
        return r

    def f_stoi(self, ex, xs, n):
        return self._sto(ex, xs, n, stoi_f, stoi_ok, 'stoi')

    def f_stol(self, ex, xs, n):
        return self._sto(ex, xs, n, stoi_f, stoi_ok, 'stol')

    def f_atoi(self, ex, xs, n):
        s = self.val(ex, xs[0])
        r = z3.Function('atoi', S, I)(s)
        ex.assume(z3.Implies(stoi_ok(s), r == stoi_f(s)))
        return r

    def f_stoul(self, ex, xs, n):
        return self._sto(ex, xs, n, stoul_f, stoul_ok, 'stoul')
    f_stoull = f_stoul

    def f_stod(self, ex, xs, n):
        return self._sto(ex, xs, n, stod_f, stod_ok, 'stod')

    def f_stof(self, ex, xs, n):
        return self._sto(ex, xs, n, stod_f, stod_ok, 'stof')

    def f_getenv(self, ex, xs, n):
        s = self.val(ex, xs[0])
        r = env_val(s)
        ex.st.ghost[('null', r.sexpr())] = z3.Not(env_set(s))
        return r
    f_secure_getenv = f_getenv

    def f_strcmp(self, ex, xs, n):
        a, b = self.val(ex, xs[0]), self.val(ex, xs[1])
        if not (is_z3(a) and is_z3(b) and a.sort() == S and b.sort() == S):
            raise Unsupported('strcmp')
        r = ex.fresh('strcmp', I)
        ex.assume((r == 0) == (a == b))
        return r

    def f_strlen(self, ex, xs, n):
        return slen(ex, self.val(ex, xs[0]))

    # termination
    def f_now(self, ex, xs, n):
        self.use('std::chrono clocks')
        return ex.fresh('now', I)

    def f_remove_if(self, ex, xs, n):
        a, b = ex.load(ex.ev(xs[0])), ex.load(ex.ev(xs[1]))
        if isinstance(a, IterVal) and isinstance(b, IterVal) and ex.quick_valid(a.pos == b.pos, ms=1000):
            self.use('std::remove_if (on an empty range)')
            return b
        raise Unsupported('std::remove_if on a non-empty range')

    def f_abort(self, ex, xs, n):
        raise Exit('abort', 'abort')

    def f___assert_fail(self, ex, xs, n):
        raise Exit('assert', 'assert')

    def f_exit(self, ex, xs, n):
        raise Exit('exit', 'exit')
    f__exit = f_exit
    f_terminate = f_abort
    f___builtin_unreachable = f_abort

    def f___builtin_expect(self, ex, xs, n):
        return self.val(ex, xs[0])

    # arithmetic
    def f_min(self, ex, xs, n):
        return self.minmax(ex, xs, n, True)

    def f_max(self, ex, xs, n):
        return self.minmax(ex, xs, n, False)

    def minmax(self, ex, xs, n, mn):
        if not xs:                       # std::numeric_limits
            t = ex.typ(n)
            if t.k == 'int':
                w = t[1] - (1 if t[2] else 0)
                return z3.IntVal((-(1 << w) if t[2] else 0) if mn else (1 << w) - 1)
            raise Unsupported('numeric limit of %r' % (t,))
        if len(xs) > 2:
            raise Unsupported('min/max with comparator')
        a, b = self.val(ex, xs[0]), self.val(ex, xs[1])
        if a.sort() == R and self.ovr(ex, 'minmax'):
            pass
        return z3.If(b < a, b, a) if mn else z3.If(a < b, b, a)

    def ovr(self, ex, k):
        return False

    def f_fmax(self, ex, xs, n):
        a, b = self.val(ex, xs[0]), self.val(ex, xs[1])
        return z3.If(a < b, b, a)

    def f_fmin(self, ex, xs, n):
        a, b = self.val(ex, xs[0]), self.val(ex, xs[1])
        return z3.If(b < a, b, a)

    def f_abs(self, ex, xs, n):
        a = self.val(ex, xs[0])
        return z3.If(a < 0, -a, a)
    f_fabs = f_abs

    def f_exp(self, ex, xs, n):
        r = exp_f(self.val(ex, xs[0]))
        ex.axiom(('exp', r.sexpr() if len(xs) < 0 else r.get_id()), [r > 0])
        return r

    def f_signbit(self, ex, xs, n):
        a = self.val(ex, xs[0])
        z = ex.fresh('negzero', z3.BoolSort())      # of zero: either
        return z3.Or(a < 0, z3.And(a == 0, z))

    def f_sqrt(self, ex, xs, n):
        a = self.val(ex, xs[0])
        r = sqrt_f(a)
        ex.axiom(('sqrt', r.get_id()), [z3.Implies(a >= 0, z3.And(r >= 0, r * r == a))])
        return r

    def f_pow(self, ex, xs, n):
        a, b = self.val(ex, xs[0]), self.val(ex, xs[1])
        a, b = ex.convert(a, T(('float', 64)), None), ex.convert(b, T(('float', 64)), None)
        return pow_f(a, b)

    def f_isnan(self, ex, xs, n):
        self.val(ex, xs[0])
        return z3.BoolVal(False)
    f_isinf = f_isnan

    def f_isfinite(self, ex, xs, n):
        self.val(ex, xs[0])
        return z3.BoolVal(True)

    # system
    def f_stat(self, ex, xs, n):
        return ex.fresh('stat', T(('int', 32, True)))

    def f_mkdir(self, ex, xs, n):
        """fails only by an I/O error or because the directory exists (EEXIST)"""
        for x in xs:
            ex.ev(x)
        r, e = ex.fresh('mkdir', T(('int', 32, True))), ex.fresh('errno', I)
        ex.st.ghost['errno'] = e
        if ex.opts.get('io_error') is not None:
            ex.assume(z3.Or(r == 0, e == 17, ex.opts['io_error']))
        return r
    f_access = f_stat
    f_remove = f_stat
    f_system = f_stat

    def f_clock_gettime(self, ex, xs, n):
        """reads a clock: the monotonic one never goes back; '$clock' is its last reading, in seconds"""
        cid = self.val(ex, xs[0])
        p = ex.ev(xs[1])
        if not isinstance(p, ObjRef):
            p = ObjRef(ex.load(p), T(('class', 'timespec')))
        sec, ns = ex.fresh('sec', z3.IntSort()), ex.fresh('nsec', z3.IntSort())
        ex.assume(z3.And(sec >= 0, ns >= 0, ns < 10 ** 9))
        ex.store(ex.field(p, 'tv_sec'), sec)
        ex.store(ex.field(p, 'tv_nsec'), ns)
        key = ('g', '$clock')
        if key in ex.vtypes:
            old = ex.st.env.get(key)
            old = ex.global_init(key) if old is None else old
            t = z3.ToReal(sec) + z3.ToReal(ns) / 1000000000
            if not z3.is_int_value(cid):
                raise Unsupported('clock id')
            if cid.as_long() in (1, 4, 7):     # CLOCK_MONOTONIC, its raw and boot-time forms
                ex.assume(t >= old)
                ex.st.env[key] = t
                k2 = ('g', '$reads')
                r = ex.st.env.get(k2)
                ex.st.env[k2] = (ex.global_init(k2) if r is None else r) + 1
        return z3.IntVal(0)

    def f_free(self, ex, xs, n):
        return None
    f_fflush = f_stat
    f_printf = f_stat
    f_fprintf = f_stat
    f_puts = f_stat

    def f_printf(self, ex, xs, n):
        return ex.fresh('io', T(('int', 32, True)))

    def f_strerror(self, ex, xs, n):
        return ex.fresh('msg', T(('string',)))

    def f___errno_location(self, ex, xs, n):
        e = ex.st.ghost.get('errno')
        return E.PtrTo(LV('tmp', ex.fresh('errno', I) if e is None else e, None, T(('int', 32, True))))

    # ------------------------------------------------------------ methods
    def method(self, ex, b, t, name, nodes, n):
        nodes = [x for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
        self.use('%s::%s' % (t.k if t.k != 'class' else t[1], name))
        if isinstance(b, StreamVal):
            return self.stream_method(ex, b, name, nodes, n)
        if isinstance(b, ObjRef) and self.is_stream(b.t):
            return self.stream_method(ex, StreamVal(str(b.addr)), name, nodes, n)
        if t.k in ('ptr',) and isinstance(b, LV) and strip_ref(b.t) == t[1]:
            t = t[1]             # iterator->method()
        elif t.k in ('ptr',) and isinstance(b, LV):
            v = ex.load(b)
            if isinstance(v, E.PtrTo):
                b, t = v.lv, t[1]
            else:
                raise Unsupported('method %s through pointer' % name)
        if t.k == 'ptr' and isinstance(b, E.PtrTo):
            b, t = b.lv, t[1]
        f = getattr(self, 'm_%s' % t.k, None)
        if isinstance(b, IterVal) or t.k == 'iter':
            raise Unsupported('iterator method ' + name)
        if f is None:
            raise Unsupported('method %s of %r' % (name, t))
        lv = container_of(ex, b)
        if lv is None:
            lv = LV('tmp', b, None, t)
        return f(ex, lv, t, name, nodes, n)

    def stream_method(self, ex, b, name, nodes, n):
        for x in nodes:
            ex.ev(x)
        if name in ('close', 'open', 'flush', 'clear', 'precision', 'put', 'write', 'setf', 'unsetf', 'imbue'):
            t = ex.typ(n)
            if t.k == 'void':
                return None
            if t.k == 'ref':
                return b
            return ex.fresh('io', t) if t.k in ('int', 'bool', 'opaque', 'enum') else b
        if name in ('is_open', 'fail', 'good', 'eof', 'bad', 'operator bool', 'operator!'):
            r = ex.fresh('io', T(('bool',)))
            io = ex.opts.get('io_error')
            if io is not None and name != 'eof':      # a stream fails only by an I/O error
                ex.assume(z3.Implies(r if name in ('fail', 'bad', 'operator!') else z3.Not(r), io))
            return r
        if name == 'str':
            return ex.fresh('str', T(('string',)))
        raise Unsupported('stream method ' + name)

    def m_uptr(self, ex, lv, t, name, xs, n):
        v = ex.load(lv)
        if name == 'get':
            return v
        if name == 'operator bool':
            return v != 0
        if name == 'release':
            ex.store(lv, z3.IntVal(0))
            return v
        if name == 'reset':
            nv = z3.IntVal(0)
            if xs:
                w = ex.ev(xs[0])
                nv = w.addr if isinstance(w, ObjRef) else ex.load(w)
            ex.store(lv, nv)
            return None
        raise Unsupported('unique_ptr::' + name)

    def m_opaque(self, ex, lv, t, name, xs, n):
        if 'uniform_int_distribution' in t[1]:
            v = ex.load(lv)
            if name in ('min', 'a'):
                return udlo(v)
            if name in ('max', 'b'):
                return udhi(v)
        if 'chrono' in t[1]:
            self.use('std::chrono clocks')
            return ex.fresh('chrono', I)
        raise Unsupported('method %s of %s' % (name, t[1]))

    def m_string(self, ex, lv, t, name, xs, n):
        v = ex.load(lv)
        if name in ('size', 'length'):
            return slen(ex, v)
        if name == 'empty':
            return v == z3.StringVal('')
        if name in ('c_str', 'data'):
            return v
        if name in ('find', 'find_first_of', 'rfind', 'find_last_of'):
            a = self.val(ex, xs[0])
            if name.endswith('_of') and a.sort() != I and not (z3.is_string_value(a) and len(a.as_string()) == 1):
                raise Unsupported('string::' + name)
            if a.sort() == I:
                a = z3.StrFromCode(a)
            if name in ('rfind', 'find_last_of'):
                if len(xs) > 1:
                    raise Unsupported('string::%s from a position' % name)
                f = sfind(ex, v, a, z3.IntVal(0))
                r = ex.fresh('rfind', I)           # some occurrence, not before the first
                ex.assume(z3.And(r >= -1, r < slen(ex, v) + 1, (r < 0) == (f < 0), r >= f))
                return z3.If(r < 0, z3.IntVal(NPOS), r)
            p = self.val(ex, xs[1]) if len(xs) > 1 else z3.IntVal(0)
            r = sfind(ex, v, a, p)
            return z3.If(r < 0, z3.IntVal(NPOS), r)
        if name == 'substr':
            p = self.val(ex, xs[0]) if xs else z3.IntVal(0)
            L = slen(ex, v)
            if not (z3.is_int_value(p) and p.as_long() == 0):
                if ex.decide([p <= L, p > L]) == 1:
                    raise Exit('throw', 'substr out of range')
            c = self.val(ex, xs[1]) if len(xs) > 1 else z3.IntVal(NPOS)
            cnt = z3.If(c > L - p, L - p, c)
            if z3.is_int_value(c) and c.as_long() == NPOS:
                cnt = L - p
            return ssub(ex, v, p, cnt)
        if name == 'compare' and len(xs) == 1:
            a = self.val(ex, xs[0])
            r = ex.fresh('cmp', I)
            ex.assume((r == 0) == (a == v))
            return r
        if name == 'clear':
            ex.store(lv, z3.StringVal(''))
            return None
        if name in ('append', 'push_back', 'operator+='):
            a = self.val(ex, xs[0])
            if a.sort() == I:
                a = z3.StrFromCode(a)
            ex.store(lv, z3.Concat(v, a))
            return lv if name != 'push_back' else None
        if name in ('at', 'operator[]', 'back', 'front'):
            if name == 'back':
                i = slen(ex, v) - 1
            elif name == 'front':
                i = z3.IntVal(0)
            else:
                i = self.val(ex, xs[0])
            return z3.StrToCode(z3.SubString(v, i, 1))
        if name == 'assign' and len(xs) == 1:
            ex.store(lv, self.val(ex, xs[0]))
            return lv
        if name == 'reserve':
            return None
        raise Unsupported('string::' + name)

    def m_vec(self, ex, lv, t, name, xs, n):
        v = ex.load(lv)
        if name == 'size':
            return vlen(v)
        if name == 'empty':
            return vlen(v) == 0
        if name in ('begin', 'cbegin'):
            return self.it_begin(ex, lv, t)
        if name in ('end', 'cend'):
            return self.it_end(ex, lv, t)
        if name in ('reserve', 'shrink_to_fit'):
            for x in xs:
                ex.ev(x)
            return None
        if name == 'capacity':
            return ex.fresh('cap', T(('int', 64, False)))
        if name == 'clear':
            ex.store(lv, ty.empty(t))
            return None
        if name in ('push_back', 'emplace_back'):
            et = t[1]
            if et.k == 'class':
                raise Unsupported('vector of class objects')
            if et.k in ('pair', 'tuple') and len(xs) > 1:
                x = self.mk_tuple(ex, et, [ex.ev(y) for y in xs])
            elif not xs:
                x = ty.zero(et)
            else:
                y = ex.ev(xs[0])
                if isinstance(y, ObjRef):
                    x = y.addr
                elif et.k in ('pair', 'tuple'):
                    x = self.conv_tuple(ex, y, et)
                else:
                    x = ex.take(y, et)
            v = ex.load(lv)
            ex.store(lv, self.vec_push(ex, v, x))
            return LV('idx', lv, vlen(v), et) if name == 'emplace_back' else None
        if name == 'pop_back':
            ex.oblige('pop_back on a non-empty vector', vlen(v) > 0, n, 'safety')
            if t == ty.VECF:
                w = ex.fresh('pop', t)
                i = z3.Int('i!')
                ex.assume(ty.flen(w) == ty.flen(v) - 1)
                ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.flen(w)), ty.fat(w, i) == ty.fat(v, i)),
                                    patterns=[ty.fat(w, i)]))
            else:
                w = vmk(v.sort(), vlen(v) - 1, varr(v))
            ex.store(lv, w)
            return None
        if name in ('at', 'operator[]'):
            i = self.val(ex, xs[0])
            if name == 'at':
                if ex.decide([z3.And(i >= 0, i < vlen(v)), z3.Or(i < 0, i >= vlen(v))]) == 1:
                    raise Exit('throw', 'vector::at')
            else:
                self.bounds(ex, v, i, n)
            return LV('idx', lv, i, t[1])
        if name == 'front':
            self.bounds(ex, v, z3.IntVal(0), n)
            return LV('idx', lv, z3.IntVal(0), t[1])
        if name == 'back':
            self.bounds(ex, v, vlen(v) - 1, n)
            return LV('idx', lv, vlen(v) - 1, t[1])
        if name == 'data':
            return E.PtrTo(LV('idx', lv, z3.IntVal(0), t[1]))
        if name == 'resize':
            c = self.val(ex, xs[0])
            fill = self.val(ex, xs[1]) if len(xs) > 1 else ty.zero(t[1])
            w = ex.fresh('resize', t)
            i = z3.Int('i!')
            ex.assume(vlen(w) == c)
            ex.assume(z3.ForAll([i], vat(w, i) == z3.If(i < vlen(v), vat(v, i), fill), patterns=[vat(w, i)]))
            ex.store(lv, w)
            return None
        if name == 'assign' and len(xs) == 2:
            a = self.val(ex, xs[0])
            b = self.val(ex, xs[1])
            if isinstance(a, IterVal):
                ex.store(lv, self.vec_range(ex, t, a, b))
            else:
                ex.store(lv, self.vec_fill(ex, t, a, ex.convert(b, t[1], None)))
            return None
        if name == 'swap':
            o = container_of(ex, ex.ev(xs[0]))
            w = ex.load(o)
            ex.store(lv, w)
            ex.store(o, v)
            return None
        if name == 'insert' and len(xs) == 3:
            p, a, b = [self.val(ex, x) for x in xs]
            if isinstance(a, IterVal) and a.dom is None and p.pos.eq(vlen(v)) and vlen(v).eq(z3.IntVal(0)):
                ex.store(lv, self.vec_range(ex, t, a, b))
                return IterVal(lv, z3.IntVal(0), t)
        if name == 'erase' and len(xs) == 2:
            a, b = ex.load(ex.ev(xs[0])), ex.load(ex.ev(xs[1]))
            if ex.quick_valid(a.pos == b.pos, ms=1000):
                return a
            if v.sort() == ty.FV:
                raise Unsupported('vector<float>::erase')
            i = z3.Int('i!e')
            n2 = vlen(v) - (b.pos - a.pos)
            w = ex.fresh('erased', t)
            ex.assume(vlen(w) == n2)
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n2), z3.Select(varr(w), i) == z3.Select(
                varr(v), z3.If(i < a.pos, i, i + (b.pos - a.pos)))), patterns=[z3.Select(varr(w), i)]))
            ex.store(lv, w)
            return IterVal(a.c, a.pos, a.t)
        raise Unsupported('vector::' + name)

    def m_map(self, ex, lv, t, name, xs, n):
        m = ex.load(lv)
        d = mdom(m)
        ordered = t.k == 'map'
        if name in ('begin', 'cbegin'):
            return self.it_begin(ex, lv, t)
        if name in ('end', 'cend'):
            return self.it_end(ex, lv, t)
        if name == 'size':
            ex.touch_dom(d, t[1], ordered)
            return ty.card(d)
        if name == 'empty':
            ex.touch_dom(d, t[1], ordered)
            return ty.card(d) == 0
        if name == 'clear':
            ex.store(lv, ty.empty(t))
            return None
        if name == 'find':
            return self.find_iter(ex, lv, t, ex.take(ex.ev(xs[0]), t[1]))
        if name == 'count':
            k = ex.take(ex.ev(xs[0]), t[1])
            return z3.If(sel(d, k), z3.IntVal(1), z3.IntVal(0))
        if name in ('contains',):
            return sel(d, ex.take(ex.ev(xs[0]), t[1]))
        if name == 'at':
            k = ex.take(ex.ev(xs[0]), t[1])
            if ex.decide([sel(d, k), NOT(sel(d, k))]) == 1:
                raise Exit('throw', 'map::at')
            return LV('mapv', lv, k, t[2])
        if name == 'operator[]':
            k = ex.take(ex.ev(xs[0]), t[1])
            return self.map_index(ex, lv, t, k)
        if name in ('emplace', 'insert', 'try_emplace', 'emplace_hint'):
            pt = T(('pair', t[1], t[2]))
            if name == 'emplace_hint':
                ex.ev(xs[0])
                xs = xs[1:]
            if len(xs) == 2 and name in ('emplace', 'try_emplace', 'emplace_hint'):
                k = self.elem(ex, xs[0], t[1])
                v = self.elem(ex, xs[1], t[2])
            elif len(xs) == 1:
                w = ex.ev(xs[0])
                p = self.conv_tuple(ex, w, pt)
                k, v = pget(p, 0), pget(p, 1)
            else:
                raise Unsupported('map::' + name)
            m = ex.load(lv)
            d = mdom(m)
            ex.touch_dom(d, t[1], ordered)
            has = sel(d, k)
            nm = m.sort().constructor(0)(z3.Store(d, k, z3.BoolVal(True)),
                                         z3.Store(mval(m), k, z3.If(has, sel(mval(m), k), v)))
            ex.store(lv, nm)
            nd = mdom(nm)
            ex.touch_dom(nd, t[1], ordered)
            it = IterVal(lv, ty.idx_of(nd, k), t, k, nd)
            if name == 'emplace_hint':
                return it
            return TupVal([it, NOT(has)], T(('pair', T(('iter', t)), T(('bool',)))))
        if name == 'insert_or_assign':
            k = self.elem(ex, xs[0], t[1])
            v = self.elem(ex, xs[1], t[2])
            m = ex.load(lv)
            has = sel(mdom(m), k)
            nm = self.map_put(m, k, v)
            ex.touch_dom(mdom(m), t[1], ordered)
            ex.touch_dom(mdom(nm), t[1], ordered)
            ex.store(lv, nm)
            it = IterVal(lv, ty.idx_of(mdom(nm), k), t, k, mdom(nm))
            return TupVal([it, NOT(has)], T(('pair', T(('iter', t)), T(('bool',)))))
        if name == 'erase' and len(xs) == 1:
            w = ex.load(ex.ev(xs[0]))
            k = self.it_key(ex, w) if isinstance(w, IterVal) else ex.convert(w, t[1], None)
            ex.touch_dom(d, t[1], ordered)
            nm = m.sort().constructor(0)(z3.Store(d, k, z3.BoolVal(False)), mval(m))
            ex.touch_dom(mdom(nm), t[1], ordered)
            ex.store(lv, nm)
            return z3.If(sel(d, k), z3.IntVal(1), z3.IntVal(0))
        if name == 'swap':
            o = container_of(ex, ex.ev(xs[0]))
            w = ex.load(o)
            ex.store(lv, w)
            ex.store(o, m)
            return None
        if name in ('reserve', 'rehash'):
            return None
        if name in ('lower_bound',) and ordered:
            k = ex.take(ex.ev(xs[0]), t[1])
            ex.touch_dom(d, t[1], ordered)
            p = ex.fresh('lb', I)
            i = z3.Int('i!')
            ex.assume(z3.And(0 <= p, p <= ty.card(d)))
            ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ty.card(d)),
                                                (i < p) == ty.klt(t[1], ty.key_at(d, i), k)), patterns=[ty.key_at(d, i)]))
            return IterVal(lv, p, t, None, d)
        raise Unsupported('map::' + name)
    m_umap = m_map

    def elem(self, ex, x, t):
        v = ex.ev(x)
        if isinstance(v, ObjRef):
            return v.addr
        if t.k in ('pair', 'tuple'):
            return self.conv_tuple(ex, v, t)
        return ex.take(v, t)

    def map_index(self, ex, lv, t, k):
        m = ex.load(lv)
        d = mdom(m)
        ordered = t.k == 'map'
        has = sel(d, k)
        if not z3.is_true(has) and not (ex.quick_valid(has, ms=300)):
            ex.touch_dom(d, t[1], ordered)
            nm = m.sort().constructor(0)(z3.Store(d, k, z3.BoolVal(True)),
                                         z3.Store(mval(m), k, z3.If(has, sel(mval(m), k), ty.zero(t[2]))))
            ex.touch_dom(mdom(nm), t[1], ordered)
            ex.store(lv, nm)
        return LV('mapv', lv, k, t[2])

    def m_set(self, ex, lv, t, name, xs, n):
        d = ex.load(lv)
        if name in ('begin', 'cbegin'):
            return self.it_begin(ex, lv, t)
        if name in ('end', 'cend'):
            return self.it_end(ex, lv, t)
        if name == 'size':
            ex.touch_dom(d, t[1])
            return ty.card(d)
        if name == 'empty':
            ex.touch_dom(d, t[1])
            return ty.card(d) == 0
        if name == 'clear':
            ex.store(lv, ty.empty(t))
            return None
        if name == 'count':
            k = ex.take(ex.ev(xs[0]), t[1])
            return z3.If(sel(d, k), z3.IntVal(1), z3.IntVal(0))
        if name == 'find':
            return self.find_iter(ex, lv, t, ex.take(ex.ev(xs[0]), t[1]))
        if name in ('insert', 'emplace') and len(xs) == 1:
            k = ex.take(ex.ev(xs[0]), t[1])
            ex.touch_dom(d, t[1])
            nd = z3.Store(d, k, z3.BoolVal(True))
            ex.touch_dom(nd, t[1])
            ex.store(lv, nd)
            return TupVal([IterVal(lv, ty.idx_of(nd, k), t, k, nd), NOT(sel(d, k))],
                          T(('pair', T(('iter', t)), T(('bool',)))))
        if name == 'insert' and len(xs) == 2:
            a, b = self.val(ex, xs[0]), self.val(ex, xs[1])
            if isinstance(a, IterVal) and a.dom is None:
                v = ex.load(a.c)
                nd = ex.fresh('set', t)
                k = z3.Const('k!', sort(t[1]))
                i = z3.Int('i!')
                w = z3.Function('wit_' + str(nd), sort(t[1]), I)
                ex.touch_dom(d, t[1])
                ex.touch_dom(nd, t[1])
                ex.assume(z3.ForAll([k], z3.Implies(z3.Select(nd, k), z3.Or(z3.Select(d, k), z3.And(
                    a.pos <= w(k), w(k) < b.pos, vat(v, w(k)) == k))), patterns=[z3.Select(nd, k)]))
                ex.assume(z3.ForAll([k], z3.Implies(z3.Select(d, k), z3.Select(nd, k)), patterns=[z3.Select(d, k)]))
                ex.assume(z3.ForAll([i], z3.Implies(z3.And(a.pos <= i, i < b.pos), z3.Select(nd, vat(v, i))),
                                    patterns=[vat(v, i)]))
                ex.assume(z3.Implies(b.pos >= a.pos, ty.card(nd) <= ty.card(d) + (b.pos - a.pos)))
                ex.store(lv, nd)
                return None
        raise Unsupported('set::' + name)

    def m_pair(self, ex, lv, t, name, xs, n):
        raise Unsupported('pair::' + name)

    # ------------------------------------------------------------ operators
    def operator(self, ex, name, nodes, n):
        op = name.replace('operator', '')
        self.use(name)
        a = ex.ev(nodes[0])
        at = strip_ref(ex.typ(nodes[0]))
        if op == '<<':
            return self.op_out(ex, a, at, nodes, n)
        if op == '()':
            return self.op_call(ex, a, at, nodes, n)
        if op == '=':
            return self.op_assign(ex, a, at, nodes, n)
        if op == '[]':
            if at.k in ('vec', 'map', 'umap', 'string'):
                return self.method(ex, a, at, 'operator[]', nodes[1:], n)
            if at.k == 'uptr':
                i = self.val(ex, nodes[1])
                return self.mem_lv(ex, ex.load(a), i, at[1][1] if at[1].k == 'array' else at[1], n)
            if at.k == 'iter' or isinstance(a, IterVal):
                it = ex.load(a)
                d = self.val(ex, nodes[1])
                return self.it_elem(ex, IterVal(it.c, E.addk(it.pos, d), it.t, None, it.dom), n)
            raise Unsupported('operator[] on %r' % (at,))
        va = ex.load(a) if isinstance(a, LV) else a
        if op in ('*', '->') and len(nodes) == 1:
            if isinstance(va, IterVal):
                e = self.it_elem(ex, va, n)
                et = strip_ref(e.t)
                if op == '->' and et.k in ('uptr', 'ptr') and et[1].k == 'class':
                    return e
                return e
            if at.k == 'uptr':
                if at[1].k == 'class':
                    return ObjRef(va, at[1])
            raise Unsupported('operator%s on %r' % (op, at))
        if op in ('++', '--'):
            if isinstance(va, IterVal):
                nv = self.iter_step(ex, va, 1 if op == '++' else -1)
                ex.store(a, nv)
                return va if len(nodes) == 2 else a
            raise Unsupported('operator' + op)
        if op in ('+', '-') and isinstance(va, IterVal):
            b = self.val(ex, nodes[1])
            if isinstance(b, IterVal):
                return E.subk(va.pos, b.pos)
            return IterVal(va.c, E.addk(va.pos, b) if op == '+' else E.subk(va.pos, b), va.t, None, va.dom)
        if op in ('+=', '-=') and isinstance(va, IterVal):
            b = self.val(ex, nodes[1])
            ex.store(a, IterVal(va.c, E.addk(va.pos, b) if op == '+=' else E.subk(va.pos, b), va.t, None, va.dom))
            return a
        if op in ('==', '!=', '<', '>', '<=', '>='):
            b = ex.ev(nodes[1])
            b = ex.load(b) if isinstance(b, LV) else b
            if isinstance(va, IterVal) or isinstance(b, IterVal):
                return self.iter_cmp(ex, op, va, b)
            bt = strip_ref(ex.typ(nodes[1]))
            return self.value_cmp(ex, op, va, b, at, bt)
        if op == '+' and (is_z3(va) and va.sort() == S or at.k in ('string', 'cstr')):
            b = self.val(ex, nodes[1])
            if is_z3(va) and va.sort() == I:
                va = z3.StrFromCode(va)
            if is_z3(b) and b.sort() == I:
                b = z3.StrFromCode(b)
            return self.concat(ex, va, b)
        if op == '+' and at.k == 'int':
            b = self.val(ex, nodes[1])
            if is_z3(b) and b.sort() == S:
                return z3.Concat(z3.StrFromCode(va), b)
        if op == '+=' and at.k == 'string':
            b = self.val(ex, nodes[1])
            if b.sort() == I:
                b = z3.StrFromCode(b)
            ex.store(a, self.concat(ex, va, b))
            return a
        if op == '!' and isinstance(va, StreamVal):
            return ex.fresh('io', T(('bool',)))
        if op in ('/', '-', '+', '*') and at.k == 'opaque':
            for x in nodes[1:]:
                ex.ev(x)
            return ex.fresh('opq', ex.typ(n))
        raise Unsupported('operator%s on %r' % (op, at))

    def cstring(self, v, ex=None):
        """the text of a char array, up to its terminator"""
        if is_z3(v) and v.sort().kind() == z3.Z3_DATATYPE_SORT and v.sort().name().startswith('V_'):
            r = z3.Function('cstring_' + v.sort().name(), v.sort(), S)(v)
            for t in getattr(self, 'copied', ()) if ex is not None else ():
                i = z3.Int('ci')
                n = slen(ex, t)
                ex.axiom(('cstring', r.get_id(), t.get_id()), [z3.Implies(z3.And(
                    z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), vat(v, i) == schar_f(t, i)),
                              patterns=[schar_f(t, i)]), vat(v, n) == 0), r == t)])
            return r
        return v

    def f_strncpy(self, ex, xs, n):
        """strncpy: characters, then zeros, never past the count"""
        d = ex.ev(xs[0])
        while not isinstance(d, LV) or d.t.k != 'array':
            if isinstance(d, E.PtrTo):
                d = d.lv
            elif isinstance(d, LV) and d.kind == 'idx' and d.a is not None and z3.is_int_value(d.b) and d.b.as_long() == 0:
                d = d.a
            else:
                raise Unsupported('strncpy to %r' % (d,))
        src, cnt = self.val(ex, xs[1]), self.val(ex, xs[2])
        if not (is_z3(src) and src.sort() == S):
            new = ex.fresh('strncpy', d.t)      # from a source the verifier cannot see: any characters
            ex.assume(vlen(new) == vlen(ex.load(d)))
            ex.oblige('strncpy stays inside the array', z3.And(cnt >= 0, cnt <= vlen(new)), n, 'safety')
            ex.store(d, new)
            return None
        old = ex.load(d)
        ex.oblige('strncpy stays inside the array', z3.And(cnt >= 0, cnt <= vlen(old)), n, 'safety')
        new = ex.fresh('strncpy', d.t)
        i = z3.Int('ci')
        ex.assume(vlen(new) == vlen(old))
        ex.assume(z3.ForAll([i], vat(new, i) == z3.If(z3.And(0 <= i, i < cnt), z3.If(
            i < slen(ex, src), schar_f(src, i), 0), vat(old, i)), patterns=[vat(new, i)]))
        ex.store(d, new)
        self.copied = getattr(self, 'copied', []) + [src]
        return None

    def concat(self, ex, a, b):
        a, b = self.cstring(a, ex), self.cstring(b, ex)
        if z3.is_string_value(a) and z3.is_string_value(b):
            return z3.StringVal(a.as_string() + b.as_string())
        return z3.Concat(a, b)

    def value_cmp(self, ex, op, a, b, at, bt):
        if at.k == 'uptr' or bt.k == 'uptr':
            a = z3.IntVal(0) if a is NULLSTR else a
            b = z3.IntVal(0) if b is NULLSTR else b
            if isinstance(a, ObjRef):
                a = a.addr
            if isinstance(b, ObjRef):
                b = b.addr
            return a == b if op == '==' else a != b
        if not (is_z3(a) and is_z3(b)):
            raise Unsupported('comparison of %r' % (at,))
        if a.sort() != b.sort():
            raise Unsupported('comparison of %r and %r' % (at, bt))
        if op in ('==', '!='):
            if at.k in ('vec',) and at != ty.VECF:
                i = z3.Int('i!')
                eq = z3.And(vlen(a) == vlen(b), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < vlen(a)),
                                                                          vat(a, i) == vat(b, i))))
            elif at.k in ('map', 'umap'):
                raise Unsupported('map equality')
            else:
                eq = a == b
            return eq if op == '==' else NOT(eq)
        lt = {'<': ty.klt(at, a, b), '>': ty.klt(at, b, a), '<=': NOT(ty.klt(at, b, a)),
              '>=': NOT(ty.klt(at, a, b))}[op]
        return lt

    def op_out(self, ex, a, at, nodes, n):
        if isinstance(a, LV):
            a = ex.load(a)
        if isinstance(a, (StreamVal,)) or (isinstance(a, ObjRef) and self.is_stream(a.t)):
            x = ex.strip(nodes[1])
            while x['kind'] == 'ImplicitCastExpr':
                x = ex.strip(x['inner'][0])
            if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                return a
            v = ex.ev(nodes[1])
            return self.on_output(ex, a, v, nodes[1]) or a
        raise Unsupported('operator<< on %r' % (at,))

    def on_output(self, ex, s, v, node):
        return s

    def op_call(self, ex, a, at, nodes, n):
        if isinstance(a, LV):
            la = ex.load(a)
        else:
            la = a
        if isinstance(la, LambdaVal):
            return ex.call_lambda(la, ex.args(nodes[1:]))
        if at.k == 'opaque':
            for x in nodes[1:]:
                ex.ev(x)
            if 'uniform_int_distribution' in at[1]:
                ex.oblige('distribution has a non-empty range', udlo(la) <= udhi(la), n, 'safety')
                r = ex.fresh('rnd', ex.typ(n))
                ex.assume(z3.And(udlo(la) <= r, r <= udhi(la)))
                return r
            t = ex.typ(n)
            if t.k == 'float':
                r = ex.fresh('rnd', t)
                if 'uniform_real' in at[1]:
                    pass
                return r
            if t.k in ('int', 'bool'):
                return ex.fresh('rnd', t)
        raise Unsupported('call operator on %r' % (at,))

    def op_assign(self, ex, a, at, nodes, n):
        if isinstance(a, TieVal):
            v = ex.load(ex.ev(nodes[1]))
            for i, lv in enumerate(a.lvs):
                x = v.vals[i] if isinstance(v, TupVal) else pget(v, i)
                t = strip_ref(lv.t)
                if is_z3(x) and x.sort() == I and t.k == 'int':
                    st = strip_ref(ex.typ(nodes[1]))
                    ft = st[1 + i] if st.k in ('tuple', 'pair') and len(st) > i + 1 else t
                    x = ex.int_cast(x, t, ft)
                ex.store(lv, x if not is_z3(x) else ex.convert(x, t, None))
            return a
        b = ex.ev(nodes[1])
        if isinstance(a, Moved):
            a = a.lv
        if isinstance(a, StreamVal):
            return a
        if not isinstance(a, LV):
            if isinstance(a, ObjRef) and isinstance(b, ObjRef):
                ex.copy_obj(a, b)
                return a
            raise Unsupported('assignment')
        if isinstance(b, ObjRef):
            v = b.addr
        elif at.k in ('pair', 'tuple'):
            v = self.conv_tuple(ex, b, at)
        elif at.k == 'iter':
            v = ex.load(b)
        elif b is NULLSTR or (at.k == 'uptr' and is_z3(b)):
            v = z3.IntVal(0) if b is NULLSTR else b
        elif at.k == 'vec' and is_z3(b) and b.sort() != sort(at):
            raise Unsupported('vector assignment')
        else:
            v = ex.take(b, at)
        if at.k == 'string' and is_z3(v) and v.sort() == I:
            v = z3.StrFromCode(v)
        ex.store(a, v)
        return a
