"""Contract verifier: forward symbolic execution of clang's AST, function by function."""
import itertools, time, os
import z3
from . import types as ty
from .types import T, sort, strip_ref, vlen, varr, vat, vmk, pget, pmk, pset, mdom, mval, sel

DEBUG = os.environ.get('VF_DEBUG')


class Unsupported(Exception):
    pass


class PathEnd(Exception):      # the path cannot go on (infeasible)
    pass


class Exit(Exception):         # abort / throw / exit
    def __init__(self, kind, what=''):
        self.kind, self.what = kind, what


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ------------------------------------------------------------------ values
class ObjRef:
    """a class object at an address"""
    __slots__ = ('addr', 't')

    def __init__(self, addr, t):
        self.addr, self.t = addr, t

    def __repr__(self):
        return 'Obj(%s:%s)' % (self.addr, self.t)


class LV:
    __slots__ = ('kind', 'a', 'b', 't')
    # kinds: var(key) heap(field,addr) idx(lv,i) part(lv,i) mapv(lv,key) mapelem(lv,key) tmp(value)
    #        mem(block,idx): raw memory block of scalars

    def __init__(self, kind, a, b, t):
        self.kind, self.a, self.b, self.t = kind, a, b, t

    def same(self, o):
        if not isinstance(o, LV) or self.kind != o.kind:
            return False
        return _same(self.a, o.a) and _same(self.b, o.b)

    def root(self):
        x = self
        while x.kind in ('idx', 'part', 'mapv', 'mapelem'):
            x = x.a
        return x

    def __repr__(self):
        return 'LV(%s,%s,%s:%s)' % (self.kind, self.a, self.b, self.t)


def _same(a, b):
    if isinstance(a, LV):
        return a.same(b)
    if isinstance(a, z3.ExprRef):
        return isinstance(b, z3.ExprRef) and a.eq(b)
    return a == b


class IterVal:
    __slots__ = ('c', 'pos', 'key', 'dom', 't')

    def __init__(self, c, pos, t, key=None, dom=None):
        self.c, self.pos, self.t, self.key, self.dom = c, pos, t, key, dom

    def __repr__(self):
        return 'Iter(%s@%s)' % (self.c, self.pos)


class Moved:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


class LambdaVal:
    def __init__(self, node, frame, caps):
        self.node, self.frame, self.caps = node, frame, caps


class TieVal:
    def __init__(self, lvs):
        self.lvs = lvs


class TupVal:
    """tuple holding python-level values (e.g. iterators)"""
    def __init__(self, vals, t):
        self.vals, self.t = vals, t


class Uninit:
    def __init__(self, t):
        self.t = t


class FnVal:
    def __init__(self, decl):
        self.decl = decl


class StreamVal:
    """std::cout and friends: output has no effect on the verified state"""
    def __init__(self, name):
        self.name = name


class PtrTo:
    """pointer to an lvalue that is not a class object"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv

    def same(self, o):
        return isinstance(o, PtrTo) and self.lv.same(o.lv)


def addk(a, b):
    if isinstance(b, int):
        b = z3.IntVal(b)
    if z3.is_int_value(b):
        if b.as_long() == 0:
            return a
        if z3.is_int_value(a):
            return z3.IntVal(a.as_long() + b.as_long())
        # (x + c) + d
        if z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
            c = a.arg(1).as_long() + b.as_long()
            return a.arg(0) if c == 0 else a.arg(0) + c
    elif z3.is_int_value(a) and a.as_long() == 0:
        return b
    return a + b


def subk(a, b):
    if isinstance(b, int):
        b = z3.IntVal(b)
    if a.eq(b):
        return z3.IntVal(0)
    if z3.is_int_value(b):
        return addk(a, z3.IntVal(-b.as_long()))
    return a - b


# ------------------------------------------------------------------ state
class State:
    __slots__ = ('env', 'heap', 'pc', 'ax', 'pid', 'n', 'clock', 'ghost')

    def __init__(self):
        self.env, self.heap, self.pc, self.ax = {}, {}, [], {}
        self.pid, self.n = '', 0
        self.clock = z3.Int('clock0')
        self.ghost = {}

    def clone(self):
        s = State()
        s.env, s.heap, s.pc, s.ax = dict(self.env), dict(self.heap), list(self.pc), dict(self.ax)
        s.pid, s.n, s.clock, s.ghost = self.pid, self.n, self.clock, dict(self.ghost)
        return s


class Outcome:
    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


class Obligation:
    def __init__(self, fn, name, hyps, goal, loc=None, kind='post'):
        self.fn, self.name, self.hyps, self.goal, self.loc, self.kind = fn, name, hyps, goal, loc, kind
        self.status, self.backend, self.secs, self.model = None, None, 0.0, None
        self.text = None

    def freeze(self):
        """text only, for another process"""
        from .contract import smt2
        if z3.is_true(z3.simplify(self.goal)):
            self.status, self.backend = 'proved', 'simplifier'
        else:
            self.text = smt2(self)
        self.goal, self.hyps = str(self.goal)[:3000], ()
        self.loc = str(self.loc)

    def key(self):
        return (self.fn, self.name, self.goal.get_id(), tuple(h.get_id() for h in self.hyps))


class Frame:
    _ids = itertools.count(1)

    def __init__(self, func, this, fid):
        self.func, self.this, self.id = func, this, fid
        self.map = {}    # decl id -> env key


born = z3.Function('born', z3.IntSort(), z3.IntSort())
akind = z3.Function('akind', z3.IntSort(), z3.IntSort())
tdivf = z3.Function('tdiv', z3.IntSort(), z3.IntSort(), z3.IntSort())
tmodf = z3.Function('tmod', z3.IntSort(), z3.IntSort(), z3.IntSort())
rnd32 = z3.Function('rnd32', z3.RealSort(), z3.RealSort())
f2i = z3.Function('f2i', z3.RealSort(), z3.IntSort())
_subfn = {}


def sub_fn(cls, field):
    k = cls + '::' + field
    if k not in _subfn:
        _subfn[k] = (z3.Function('sub_' + k, z3.IntSort(), z3.IntSort()),
                     z3.Function('own_' + k, z3.IntSort(), z3.IntSort()), len(_subfn) + 1)
    return _subfn[k]


_elemfn = {}


def elem_fn(cls):
    """(address of element, its array, its index, kind) of arrays of objects"""
    if cls not in _elemfn:
        z = z3.IntSort()
        _elemfn[cls] = (z3.Function('elem_' + cls, z, z, z), z3.Function('arrof_' + cls, z, z),
                        z3.Function('idxin_' + cls, z, z), 100000 + len(_elemfn))
    return _elemfn[cls]


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def AND(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    return xs[0] if len(xs) == 1 else (z3.And(*xs) if xs else z3.BoolVal(True))


def NOT(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def boolval(v):
    return v


def to_bool(v):
    if v.sort() == z3.BoolSort():
        return v
    if v.sort() == z3.IntSort():
        return v != 0
    if v.sort() == z3.RealSort():
        return v != 0
    raise Unsupported('truth value of %s' % v.sort())


def to_int(v):
    if v.sort() == z3.BoolSort():
        if z3.is_true(v):
            return z3.IntVal(1)
        if z3.is_false(v):
            return z3.IntVal(0)
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v


def fold(e):
    """cheap constant folding for integer literals"""
    return e


def has_quant(e, cache={}):
    i = e.get_id()
    k = (i, e.hash())
    if k in cache:
        return cache[k]
    r = False
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    cache[k] = r
    return r


BASE_AX = ty.fv_axioms()[:2]


def nonlinear(e, cache={}):
    """does e contain a product or quotient of non-constants?"""
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    r = False
    if z3.is_quantifier(e):
        r = nonlinear(e.body())
    elif z3.is_app(e):
        d = e.decl().kind()
        if d in (z3.Z3_OP_MUL,):
            r = sum(1 for x in e.children() if not (z3.is_rational_value(x) or z3.is_int_value(x))) > 1
        elif d in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            x = e.arg(1)
            r = not (z3.is_rational_value(x) or z3.is_int_value(x))
        r = r or any(nonlinear(x) for x in e.children())
    cache[k] = (e, r)
    return r


_pool = None


def _check_one(job):
    """worker: is the text unsatisfiable? in a context of its own, so that the answer depends on the text alone"""
    text, ms = job
    for kind, conf in (('simple', {'smt.mbqi': False}), ('simple', {}), ('full', {})):
        ctx = z3.Context()
        s = z3.SimpleSolver(ctx=ctx) if kind == 'simple' else z3.Solver(ctx=ctx)
        s.set('timeout', ms)
        for k, v in conf.items():
            s.set(k, v)
        s.from_string(text)
        r = s.check()
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
    return False


def check_batch(texts, ms):
    """one bool per smt2 text; worked off by a pool of processes"""
    global _pool
    if not texts:
        return []
    jobs = [(t, ms) for t in texts]
    if os.environ.get('VF_NOPOOL') or _nopool:
        return [_check_one(j) for j in jobs]
    if _pool is None:
        import multiprocessing as mp
        _pool = mp.get_context('fork').Pool(int(os.environ.get('VF_PROCS', '8')))
    import multiprocessing as mp
    try:
        return _pool.map_async(_check_one, jobs, chunksize=1).get(60 + 3 * ms / 1000 * (1 + len(jobs) / 4))
    except mp.TimeoutError:                  # a solver that does not stop
        _pool.terminate()
        _pool = None
        return [False] * len(jobs)


_nopool = False


imulf = z3.Function('imul', z3.IntSort(), z3.IntSort(), z3.IntSort())
rmulf = z3.Function('rmul', z3.RealSort(), z3.RealSort(), z3.RealSort())
rdivf = z3.Function('rdiv', z3.RealSort(), z3.RealSort(), z3.RealSort())


def umul_axioms():
    """laws of integer multiplication (valid for the real product; proved as lemmas where used)"""
    a, b, c = z3.Ints('a! b! c!')
    return [z3.ForAll([a, b], z3.And(imulf(a, b) == imulf(b, a), z3.Implies(z3.And(a >= 0, b >= 0), imulf(a, b) >= 0),
                                     z3.Implies(a == 0, imulf(a, b) == 0), z3.Implies(a == 1, imulf(a, b) == b)),
                      patterns=[imulf(a, b)]),
            z3.ForAll([a, b, c], z3.And(z3.Implies(z3.And(b >= 0, a < c), imulf(a, b) + b <= imulf(c, b)),
                                        z3.Implies(c == a + 1, imulf(c, b) == imulf(a, b) + b)),
                      patterns=[z3.MultiPattern(imulf(a, b), imulf(c, b))])]


def urmul_axioms():
    a, b = z3.Reals('a! b!')
    return [z3.ForAll([a, b], z3.And(rmulf(a, b) == rmulf(b, a), z3.Implies(a == 0, rmulf(a, b) == 0),
                                     z3.Implies(a == 1, rmulf(a, b) == b)), patterns=[rmulf(a, b)]),
            z3.ForAll([a, b], z3.And(z3.Implies(b == 1, rdivf(a, b) == a), z3.Implies(z3.And(a == 0, b != 0),
                                                                                     rdivf(a, b) == 0)),
                      patterns=[rdivf(a, b)])]


class LoopCtx:
    """what an invariant generator may look at"""
    def __init__(self, ex, entry, mods, node):
        self.ex, self.entry, self.mods, self.node = ex, entry, mods, node

    def roots(self, t=None, pred=None):
        """modified roots of type t: list of (name, getter(state))"""
        out = []
        for r in self.mods:
            rt = self.ex.root_type(r)
            if rt is None:
                continue
            if t is not None and rt != t:
                continue
            if pred is not None and not pred(rt):
                continue
            out.append((self.ex.root_name(r), self.ex.root_getter(r)))
        return out

    def visible(self, t=None, pred=None):
        """all roots live at the loop head with type t (modified or not): (name, getter)"""
        out = []
        for key in list(self.entry.env):
            rt = self.ex.vtypes.get(key)
            if rt is None:
                continue
            v = self.entry.env[key]
            if rt.k == 'ref':
                rt2 = strip_ref(rt)
                if isinstance(v, LV) and (t is None or rt2 == t) and (pred is None or pred(rt2)):
                    out.append((str(key), (lambda lv: lambda st: self.ex.load_in(st, lv))(v)))
                continue
            if not is_z3(v):
                continue
            if (t is None or rt == t) and (pred is None or pred(rt)):
                out.append((str(key), (lambda k: lambda st: st.env[k])(key)))
        return out

    def iters(self):
        out = []
        for key, v in self.entry.env.items():
            if isinstance(v, IterVal):
                out.append((str(key), v, (lambda k: lambda st: st.env[k].pos)(key), ('v', key) in self.mods))
        return out

    def progress(self):
        """integer quantities that change in the loop: ints, iterator positions"""
        out = []
        for r in self.mods:
            rt = self.ex.root_type(r)
            if rt is None:
                continue
            if rt.k == 'int':
                out.append((self.ex.root_name(r), self.ex.root_getter(r)))
            elif rt.k == 'iter':
                g = self.ex.root_getter(r)
                out.append((self.ex.root_name(r), (lambda g: lambda st: g(st).pos)(g)))
        return out


class Executor:
    def __init__(self, prog, contracts, stl, opts=None):
        self.prog, self.contracts, self.stl = prog, contracts, stl
        self.opts = opts or {}
        self.obls, self.oblkeys = [], set()
        self.st = State()
        self.frames = []
        self.vtypes = {}
        self.vnames = {}
        self.record = True
        self.dec, self.pos, self.new = None, 0, None
        self.cur = '?'
        self.exit_check = None
        self.invgens = []
        self.depth = 0
        self.inlined = set()
        self.used_contracts = set()
        self.trusted = set()
        self.solver_time = 0.0
        self.nfeas = 0
        self.inv_kept = []
        self.bounds_checks = True
        self.axioms = []
        self.fid = 0
        self.rax = {}
        self.discovering, self.loopcache = False, {}
        ty.RESOLVE['f'] = self.resolve
        ty.clear_cache()

    # -------------------------------------------------- names and types
    def resolve(self, s):
        s = s.strip()
        if s in self.prog.classes:
            return T(('class', s))
        c = [n for n in self.prog.classes if n.endswith('::' + s)]
        if len(c) == 1:
            return T(('class', c[0]))
        a = self.prog.aliases.get(s)
        if a is None:
            c = {v for n, v in self.prog.aliases.items() if n.endswith('::' + s)}
            a = c.pop() if len(c) == 1 else None
        if a is not None and a.strip() != s and not a.startswith('std::'):
            r = ty.parse(a.replace('struct ', '').replace('union ', '').replace('enum ', ''))
            if r.k != 'opaque':
                return r
        for (q, v) in self.prog.enum_consts.values():
            e = q.rsplit('::', 1)[0]
            if e == s or e.endswith('::' + s):
                return T(('enum', e))
        return None

    def typ(self, node):
        t = node['type']
        r = ty.parse(t.get('desugaredQualType', t['qualType']))
        if r.k == 'opaque':
            r2 = ty.parse(t['qualType'])
            if r2.k != 'opaque':
                return r2
        if r.k in ('ref', 'ptr') and r[1].k == 'opaque':
            r2 = ty.parse(t['qualType'])
            if r2.k == r.k and r2[1].k != 'opaque':
                return r2
        return r

    def fresh(self, base, t):
        s = t if isinstance(t, z3.SortRef) else sort(t)
        st = self.st
        st.n += 1
        c = z3.Const('%s@%s%d' % (base, st.pid, st.n), s)
        if not isinstance(t, z3.SortRef):
            for f in self.type_facts(t, c):
                st.pc.append(f)
        return c

    def type_facts(self, t, c):
        return ty.in_range(t, c)

    def assume(self, f):
        if not z3.is_true(f):
            self.st.pc.append(f)

    def axiom(self, key, fs):
        for i, f in enumerate(fs):
            self.st.ax.setdefault((key, i), f)

    def touch_dom(self, dom, kt, ordered=True):
        self.axiom(('dom', dom.get_id(), dom.sexpr() if dom.decl().arity() == 0 else dom.get_id()),
                   ty.dom_axioms(dom, kt, ordered))
        if ordered and 'vec' in repr(kt):
            self.axiom('flt', ty.flt_axioms()[:1])

    # -------------------------------------------------- solving
    def hyps(self, st=None):
        st = st or self.st
        return BASE_AX + self.axioms + self.ranges() + list(st.ax.values()) + st.pc

    def ranges(self):
        return [f for x, fs in self.rax.values() for f in fs]

    def feasible(self, cond):
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', 400)
        for h in self.st.pc + self.ranges() + list(self.st.ax.values()):
            if not has_quant(h):
                s.add(h)
        s.add(cond)
        r = s.check()
        self.nfeas += 1
        self.solver_time += time.time() - t0
        return r != z3.unsat

    def quick_valid(self, goal, st=None, ms=1500, quant=True):
        t0 = time.time()
        if z3.is_true(goal):
            return True
        hs = [h for h in self.hyps(st) if quant or not has_quant(h)]
        r = None
        for kind in (('simple', 'full') if quant else ('full',)):
            s = z3.SimpleSolver() if kind == 'simple' else z3.Solver()
            s.set('timeout', ms)
            if kind == 'simple':
                s.set('smt.mbqi', False)
            s.add(hs)
            if not quant:
                s.add(BASE_AX[0])
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                break
        self.solver_time += time.time() - t0
        return r == z3.unsat

    def oblige(self, name, goal, node=None, kind='post'):
        if not self.record or z3.is_true(goal):
            return
        loc = None
        if node is not None:
            loc = self.where(node)
        o = Obligation(self.cur, name, self.hyps(), goal, loc, kind)
        k = o.key()
        if k not in self.oblkeys:
            self.oblkeys.add(k)
            self.obls.append(o)
        # a checked obligation may be used afterwards
        self.st.pc.append(goal)

    def where(self, node):
        r = node.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        return r.get('line') or r.get('offset')

    # -------------------------------------------------- exploration
    def explore(self, fn):
        base = self.st
        saved = (self.dec, self.pos, self.new)
        frames = list(self.frames)
        out, work = [], [[]]
        tag = '%s(%d' % (base.pid, base.n)
        cnt = 0
        while work:
            cnt += 1
            if cnt > self.opts.get('maxpaths', 600):
                raise Unsupported('too many paths')
            self.dec, self.pos, self.new = work.pop(), 0, []
            self.st = base.clone()
            self.st.pid, self.st.n = tag + ':', 0
            self.frames = list(frames)
            val, kind = None, 'normal'
            try:
                val = fn()
            except Ret as r:
                kind, val = 'return', r.v
            except Brk:
                kind = 'break'
            except Cont:
                kind = 'continue'
            except Exit as e:
                kind = 'exit'
                self.on_exit(e)
            except PathEnd:
                kind = 'dead'
            finally:
                work += self.new
            if kind not in ('dead', 'exit'):
                out.append(Outcome(kind, self.st, val))
        self.dec, self.pos, self.new = saved
        self.st = base
        self.frames = frames
        base.n += 1
        return out

    def on_exit(self, e):
        if self.exit_check is not None and self.record:
            g = self.exit_check(e)
            if g is not None:
                self.oblige('no abort/throw unless permitted (%s)' % e.what, g, kind='exit')

    def decide(self, conds):
        """fork on mutually exhaustive conditions; returns the index taken"""
        if self.dec is None:
            raise Unsupported('decision outside exploration')
        if self.pos < len(self.dec):
            c = self.dec[self.pos]
        else:
            feas = [i for i in range(len(conds)) if self.feasible(conds[i])]
            if not feas:
                raise PathEnd()
            c = feas[0]
            for j in feas[1:]:
                self.new.append(self.dec[:self.pos] + [j])
            self.dec = self.dec[:self.pos] + [c]
        self.pos += 1
        self.st.pid += '%d.' % c
        self.assume(conds[c])
        return c

    def adopt(self, outs):
        """continue with one of several outcomes (fork over them)"""
        if not outs:
            raise PathEnd()
        if len(outs) == 1:
            o = outs[0]
            pid, n = self.st.pid, self.st.n
            self.st = o.st
            self.st.pid, self.st.n = pid, n
            return o
        if self.pos < len(self.dec):
            c = self.dec[self.pos]
        else:
            c = 0
            for j in range(1, len(outs)):
                self.new.append(self.dec[:self.pos] + [j])
            self.dec = self.dec[:self.pos] + [0]
        self.pos += 1
        o = outs[c]
        pid, n = self.st.pid, self.st.n
        self.st = o.st.clone()
        self.st.pid, self.st.n = pid + '>%d.' % c, n
        return Outcome(o.kind, self.st, o.val)

    def merge(self, base, outs):
        """merge outcomes of the same kind into one, or return None"""
        if len(outs) == 1:
            return outs[0]
        acc = outs[0]
        for o in outs[1:]:
            acc = self.merge2(base, acc, o)
            if acc is None:
                return None
        return acc

    def merge2(self, base, o1, o2):
        s1, s2 = o1.st, o2.st
        nb = len(base.pc)
        a, b = s1.pc[nb:], s2.pc[nb:]
        # selector
        if a and b and (NOT(a[0]).eq(b[0]) or a[0].eq(NOT(b[0]))):
            c = a[0]
            r1, r2 = a[1:], b[1:]
        else:
            base.n += 1
            c = z3.Bool('sel@%s%d' % (base.pid, base.n))
            r1, r2 = a, b

        def mv(x, y):
            if x is y:
                return x
            if is_z3(x) and is_z3(y):
                if x.eq(y):
                    return x
                if x.sort() != y.sort():
                    raise KeyError
                return z3.If(c, x, y)
            if isinstance(x, IterVal) and isinstance(y, IterVal) and x.c.same(y.c):
                if x.pos.eq(y.pos):
                    return x
                key = x.key if (x.key is not None and y.key is not None and x.key.eq(y.key)) else None
                if (x.dom is None) != (y.dom is None) or (x.dom is not None and not x.dom.eq(y.dom)):
                    raise KeyError
                return IterVal(x.c, z3.If(c, x.pos, y.pos), x.t, key, x.dom)
            if isinstance(x, LV) and isinstance(y, LV) and x.same(y):
                return x
            if isinstance(x, ObjRef) and isinstance(y, ObjRef) and x.t == y.t:
                return x if x.addr.eq(y.addr) else ObjRef(z3.If(c, x.addr, y.addr), x.t)
            if isinstance(x, Uninit) and isinstance(y, Uninit):
                return x
            if isinstance(x, Uninit) and is_z3(y) or isinstance(y, Uninit) and is_z3(x):
                t = x.t if isinstance(x, Uninit) else y.t
                base.n += 1
                u = z3.Const('uninit@%s%d' % (base.pid, base.n), sort(t))
                return z3.If(c, x if is_z3(x) else u, y if is_z3(y) else u)
            if isinstance(x, LambdaVal) and isinstance(y, LambdaVal) and x.node is y.node:
                return x
            if isinstance(x, StreamVal) and isinstance(y, StreamVal):
                return x
            if isinstance(x, TupVal) and isinstance(y, TupVal):
                return TupVal([mv(p, q) for p, q in zip(x.vals, y.vals)], x.t)
            if x is None and y is None:
                return None
            if x == y:
                return x
            raise KeyError
        try:
            m = base.clone()
            m.n = base.n
            for k in base.env:
                m.env[k] = mv(s1.env[k], s2.env[k])
            # globals created lazily inside
            for k in list(s1.env) + list(s2.env):
                if k not in m.env and isinstance(k, tuple) and k[0] == 'g':
                    m.env[k] = mv(s1.env.get(k, self.global_init(k)), s2.env.get(k, self.global_init(k)))
            for f in set(s1.heap) | set(s2.heap):
                x = s1.heap.get(f)
                y = s2.heap.get(f)
                x = self.heap_init(f) if x is None else x
                y = self.heap_init(f) if y is None else y
                m.heap[f] = self.mheap(c, x, y)
            for g in set(s1.ghost) | set(s2.ghost):
                m.ghost[g] = mv(s1.ghost[g], s2.ghost[g])
            m.clock = mv(s1.clock, s2.clock)
            val = mv(o1.val, o2.val)
        except (KeyError, z3.Z3Exception):
            return None
        m.ax = dict(s1.ax)
        m.ax.update(s2.ax)
        if r1:
            m.pc.append(z3.Implies(c, AND(r1)))
        if r2:
            m.pc.append(z3.Implies(NOT(c), AND(r2)))
        return Outcome(o1.kind, m, val)

    def mheap(self, c, x, y):
        if x.eq(y):
            return x
        # common base with single stores at the same address: merge the values
        if x.decl().kind() == z3.Z3_OP_STORE and x.arg(0).eq(y):
            return z3.Store(y, x.arg(1), z3.If(c, x.arg(2), sel(y, x.arg(1))))
        if y.decl().kind() == z3.Z3_OP_STORE and y.arg(0).eq(x):
            return z3.Store(x, y.arg(1), z3.If(c, sel(x, y.arg(1)), y.arg(2)))
        if x.decl().kind() == z3.Z3_OP_STORE and y.decl().kind() == z3.Z3_OP_STORE and x.arg(1).eq(y.arg(1)):
            return z3.Store(self.mheap(c, x.arg(0), y.arg(0)), x.arg(1), z3.If(c, x.arg(2), y.arg(2)))
        return z3.If(c, x, y)

    def join(self, base, outs):
        """group by kind, merge each group where possible, fork over what remains"""
        groups = {}
        for o in outs:
            groups.setdefault(o.kind, []).append(o)
        fin = []
        for k, g in groups.items():
            nb = len(base.pc)
            quant = len(g) > 1 and self.opts.get('split') and any(
                has_quant(f) for o in g for f in o.st.pc[nb:])
            m = None if quant else self.merge(base, g)
            if m is not None:
                fin.append(m)
            else:
                fin += g
        o = self.adopt(fin)
        if o.kind == 'return':
            raise Ret(o.val)
        if o.kind == 'break':
            raise Brk()
        if o.kind == 'continue':
            raise Cont()
        return o.val

    def source(self, rng, has='get'):
        """source text of a range of the current file"""
        b, e = rng.get('begin', {}), rng.get('end', {})
        b, e = b.get('spellingLoc', b), e.get('spellingLoc', e)
        if 'offset' not in b or 'offset' not in e:
            return None
        f = b.get('file')
        for path in ([f] if f else []) + self.prog.files:
            try:
                p = path if path.startswith('/') else os.path.join(self.prog_root(), path)
                txt = open(p, 'rb').read()
            except OSError:
                continue
            t = txt[b['offset']:e['offset'] + e.get('tokLen', 0)].decode(errors='replace')
            if has in t and len(t) < 200:
                return t
        return None

    def prog_root(self):
        from .ast import REPO
        return REPO

    sort_hooks = ()

    def sort_range(self, c, lo, hi, et, lt, node):
        """std::sort on [lo, hi) of container c: a permutation, ordered"""
        v = self.load(c)
        if v.sort() == ty.FV:
            raise Unsupported('sort of a vector<float>')
        self.st.n += 1
        tag = '@%s%d' % (self.st.pid, self.st.n)
        perm = z3.Function('perm' + tag, z3.IntSort(), z3.IntSort())
        inv = z3.Function('inv' + tag, z3.IntSort(), z3.IntSort())
        arr = self.fresh('sorted', z3.ArraySort(z3.IntSort(), sort(et)))
        w = vmk(v.sort(), vlen(v), arr)
        i, j = z3.Ints('i! j!')
        a = lambda x, k: z3.Select(varr(x), k)
        inr = lambda k: z3.And(lo <= k, k < hi)
        fwd = self.opts.get('sort_fwd')       # only what the elements are, not that each old one is still there
        self.assume(z3.ForAll([i], z3.If(inr(i), z3.And(inr(perm(i)), a(w, i) == a(v, perm(i)), *(
            [] if fwd else [inv(perm(i)) == i])), a(w, i) == a(v, i)), patterns=[a(w, i)]))
        if not fwd:
            self.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(inv(i)), perm(inv(i)) == i, a(w, inv(i)) == a(v, i))),
                                  patterns=[inv(i), a(v, i)] if z3.is_const(varr(v)) or True else [inv(i)]))
        self.assume(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i <= j, j < hi), z3.Not(lt(a(w, j), a(w, i)))),
                              patterns=[z3.MultiPattern(a(w, i), a(w, j))]))
        self.store(c, w)
        for h in self.sort_hooks:
            h(self, v, w, lo, hi, et, lt)

    # -------------------------------------------------- heap and lvalues
    def heap_init(self, f):
        ft = self.field_type(f)
        return z3.Const('H:' + f, z3.ArraySort(z3.IntSort(), sort(ft)))

    def field_type(self, f):
        if f in self.ghost_fields:
            return self.ghost_fields[f]
        if f.startswith('mem:'):
            return T(('vec', self.memtypes[f]))
        if f.startswith('objs:'):
            return T(('int', 64, True))
        cls, name = f.rsplit('::', 1)
        for x in self.prog.classes[cls].fields:
            if x[0] == name:
                t = ty.parse(x[1])
                if t.k == 'ref':
                    return T(('ptr', t[1]))
                return t
        raise Unsupported('field ' + f)

    def set_class(self, o):
        """dynamic class of a new object"""
        if '$cls' in self.ghost_fields:
            from .contracts.factory import TAGS
            self.hset('$cls', o.addr, z3.IntVal(TAGS.get(o.t[1].split('::')[-1], 0)))

    ghost_fields = {}
    memtypes = {}

    def hget(self, f, addr, st=None):
        st = st or self.st
        a = st.heap.get(f)
        if a is None:
            a = self.heap_init(f)
            st.heap[f] = a
        x = a
        # skip stores at addresses known to be different objects by construction
        return sel(x, addr)

    def hset(self, f, addr, v):
        a = self.st.heap.get(f)
        if a is None:
            a = self.heap_init(f)
        if a.decl().kind() == z3.Z3_OP_STORE and a.arg(1).eq(addr):
            a = a.arg(0)
        self.st.heap[f] = z3.Store(a, addr, v)

    def global_init(self, k):
        t = self.vtypes[k]
        return z3.Const('G:' + k[1], sort(t))

    def load_in(self, st, lv):
        old = self.st
        self.st = st
        try:
            return self.load(lv)
        finally:
            self.st = old

    def load(self, v):
        """lvalue-to-rvalue"""
        if not isinstance(v, LV):
            if isinstance(v, Moved):
                return self.load(v.lv)
            return v
        k = v.kind
        if k == 'var':
            if v.a not in self.st.env:
                if v.a[0] == 'g':
                    self.st.env[v.a] = self.global_init(v.a)
                else:
                    raise Unsupported('variable %s not live' % (v.a,))
            x = self.st.env[v.a]
            if isinstance(x, Uninit):
                if x.t.k in ('iter',):
                    raise Unsupported('read of uninitialised iterator')
                x = self.fresh('uninit', x.t)
                self.st.env[v.a] = x
            if isinstance(x, LV):
                return self.load(x)
            return x
        if k == 'heap':
            x = self.hget(v.a, v.b)
            if v.t.k in ('int', 'vec') and is_z3(x) and x.decl().kind() == z3.Z3_OP_SELECT and \
                    x.get_id() not in self.rax:
                self.rax[x.get_id()] = (x, ty.in_range(v.t, x))     # typed memory
            return x
        if k == 'tmp':
            return v.a
        if k == 'idx':
            return vat(self.load(v.a), v.b)
        if k == 'part':
            b = v.a
            if b.kind == 'mapelem':
                return b.b if v.b == 0 else self.load(LV('mapv', b.a, b.b, v.t))
            x = self.load(b)
            if isinstance(x, TupVal):
                return x.vals[v.b]
            return pget(x, v.b)
        if k == 'mapv':
            return sel(mval(self.load(v.a)), v.b)
        if k == 'mapelem':
            m = v.a
            mt = strip_ref(m.t)
            return pmk(sort(T(('pair', mt[1], mt[2]))), v.b, sel(mval(self.load(m)), v.b))
        raise Unsupported('load ' + k)

    def store(self, lv, val):
        if isinstance(lv, Moved):
            lv = lv.lv
        if not isinstance(lv, LV):
            raise Unsupported('store to %r' % (lv,))
        k = lv.kind
        if k == 'var':
            cur = self.st.env.get(lv.a)
            if isinstance(cur, LV) and strip_ref(self.vtypes.get(lv.a, T(('void',)))) is not None and \
                    self.vtypes.get(lv.a) is not None and self.vtypes[lv.a].k == 'ref':
                return self.store(cur, val)
            self.st.env[lv.a] = val
            return
        if k == 'heap':
            if is_z3(val) and lv.t is not None and strip_ref(lv.t).k == 'cstr' and val.sort() != sort(strip_ref(lv.t)):
                val = self.stl.cstring(val, self)       # the text of a character array
            self.hset(lv.a, lv.b, val)
            return
        if k == 'tmp':
            return
        if k == 'idx':
            b = self.load(lv.a)
            if b.sort() == ty.FV:
                self.store(lv.a, ty.fupd(b, lv.b, val))
            else:
                self.store(lv.a, vmk(b.sort(), vlen(b), z3.Store(varr(b), lv.b, val)))
            return
        if k == 'part':
            if lv.a.kind == 'mapelem':
                if lv.b != 1:
                    raise Unsupported('store to map key')
                return self.store(LV('mapv', lv.a.a, lv.a.b, lv.t), val)
            b = self.load(lv.a)
            if isinstance(b, TupVal):
                vs = list(b.vals)
                vs[lv.b] = val
                return self.store(lv.a, TupVal(vs, b.t))
            self.store(lv.a, pset(b, lv.b, val))
            return
        if k == 'mapv':
            m = self.load(lv.a)
            self.store(lv.a, m.sort().constructor(0)(mdom(m), z3.Store(mval(m), lv.b, val)))
            return
        raise Unsupported('store ' + k)

    # roots, for loops and frames
    def root_type(self, r):
        if r[0] == 'v':
            t = self.vtypes.get(r[1])
            return t
        if r[0] == 'h':
            return self.field_type(r[1]) if r[2] is not None else None
        return None

    def root_name(self, r):
        if r[0] == 'v':
            return self.vnames.get(r[1], str(r[1]))
        return '%s[%s]' % (r[1], r[2])

    def root_getter(self, r):
        if r[0] == 'v':
            k = r[1]
            if isinstance(k, tuple) and k[0] == 'g':
                return lambda st: st.env[k] if k in st.env else self.global_init(k)
            return lambda st: st.env[k]
        return lambda st: self.hget(r[1], r[2], st)

    # -------------------------------------------------- functions
    def new_frame(self, func, this):
        # deterministic ids: path id + counter
        self.st.n += 1
        return Frame(func, this, '%s%d' % (self.st.pid, self.st.n))

    def declare(self, node, val, t=None):
        t = t or self.typ(node)
        fr = self.frames[-1]
        key = (fr.id, node['id'])
        fr.map[node['id']] = key
        self.vtypes[key] = t
        self.vnames[key] = node.get('name', '?')
        self.st.env[key] = val
        return key

    def lookup(self, decl_id):
        for fr in reversed(self.frames):
            if decl_id in fr.map:
                return fr.map[decl_id]
            if not getattr(fr, 'lexical', False):
                break
        return None

    def alloc(self, t, what='obj'):
        a = self.fresh(what, z3.IntSort())
        self.assume(a > 0)
        self.assume(born(a) == self.st.clock)
        self.assume(akind(a) == 0)
        if self.opts.get('unique_alloc'):        # one object per clock tick
            n = z3.Int('n!')
            self.assume(z3.ForAll([n], z3.Implies(z3.And(born(n) == self.st.clock, akind(n) == 0), n == a),
                                  patterns=[born(n)]))
        self.st.clock = self.st.clock + 1
        return a

    def sub_addr(self, cls, field, addr):
        f, own, kid = sub_fn(cls, field)
        a = f(addr)
        self.axiom(('sub', a.get_id(), a.sexpr()), [own(a) == addr, akind(a) == kid, born(a) == born(addr), a > 0])
        return a

    def elem_addr(self, cls, base, i):
        f, arr, idx, kid = elem_fn(cls)
        a = f(base, i)
        self.axiom(('elem', a.sexpr()), [arr(a) == base, idx(a) == i, akind(a) == kid, born(a) == born(base), a > 0])
        return a

    def default_value(self, t):
        if t.k in ('vec', 'map', 'umap', 'set', 'string', 'uptr'):
            return ty.empty(t)
        if t.k in ('pair', 'tuple'):
            if any(x.k == 'iter' for x in t[1:]):
                return TupVal([Uninit(x) for x in t[1:]], t)
            return ty.empty(t)
        if t.k == 'opaque':
            return self.stl.default_opaque(self, t)
        return Uninit(t)

    def find_ctor(self, cls, args):
        c = []
        for f in list(self.prog.by_id.values()):
            if f.kind == 'CXXConstructorDecl' and f.cls == cls and len(f.params) >= len(args) and \
                    not f.node.get('isImplicit') and not any(g is f or g.type == f.type for g in c):
                c.append(f)
        c = [f for f in c if all(self.arg_ok(p, a) for p, a in zip(f.ptypes(), args)) and
             all(p.get('init') for p in f.params[len(args):])]
        if len(c) == 1:
            return c[0]
        raise Unsupported('constructor of %s: %d candidates' % (cls, len(c)))

    def arg_ok(self, p, a):
        t = strip_ref(ty.parse(p))
        if isinstance(a, ObjRef):
            return t.k == 'class' and (t == a.t or self.derives(a.t[1], t[1]))
        if isinstance(a, (LV, Moved)):
            at = strip_ref((a.lv if isinstance(a, Moved) else a).t)
            if at.k == 'class':
                return t == at
            if t.k in ('int', 'float', 'bool') and at.k in ('int', 'float', 'bool', 'enum'):
                return True
            if t.k == 'string' and at.k in ('string', 'cstr'):
                return True
            return t == at
        if is_z3(a):
            if t.k in ('class',):
                return False
            try:
                s = sort(t)
            except TypeError:
                return False
            return s == a.sort() or (t.k in ('int', 'float', 'bool') and a.sort() in
                                     (z3.IntSort(), z3.RealSort(), z3.BoolSort()))
        return True

    def derives(self, c, b):
        if c == b:
            return True
        k = self.prog.classes.get(c)
        if not k:
            return False
        return any(self.derives(ty.parse(x)[1] if ty.parse(x).k == 'class' else x, b) for x in k.bases)

    def base_names(self, c):
        k = self.prog.classes.get(c)
        out = []
        for x in (k.bases if k else []):
            t = ty.parse(x)
            out.append(t[1] if t.k == 'class' else x)
        return out

    def field_owner(self, cls, name):
        k = self.prog.classes.get(cls)
        if k is None:
            raise Unsupported('class ' + cls)
        for x in k.fields:
            if x[0] == name:
                return cls
        for b in self.base_names(cls):
            try:
                return self.field_owner(b, name)
            except Unsupported:
                pass
        raise Unsupported('no field %s in %s' % (name, cls))

    def field(self, obj, name, owner=None):
        """lvalue or object of a field"""
        owner = owner or self.field_owner(obj.t[1], name)
        for x in self.prog.classes[owner].fields:
            if x[0] == name:
                t = ty.parse(x[1])
                break
        else:
            raise Unsupported('field %s' % name)
        if t.k == 'class':
            return ObjRef(self.sub_addr(owner, name, obj.addr), t)
        if t.k == 'ref' and t[1].k == 'class':
            return ObjRef(self.hget(owner + '::' + name, obj.addr), t[1])
        if t.k == 'ref':
            raise Unsupported('reference field ' + name)
        return LV('heap', owner + '::' + name, obj.addr, t)

    # -------- construct an object in place
    def construct(self, obj, args, ctor=None, node=None):
        cls = obj.t[1]
        h = self.stl.ctor(self, obj, args, node)
        if h:
            return
        if cls not in self.prog.classes:
            raise Unsupported('construct ' + cls)
        if ctor is None:
            if not args and not [f for f in self.prog.by_id.values() if f.kind == 'CXXConstructorDecl' and
                                 f.cls == cls and not f.node.get('isImplicit')]:
                self.init_fields(obj, cls, {}, None)
                return
            ctor = self.find_ctor(cls, args)
        self.call_func(ctor, obj, args, node)

    def init_fields(self, obj, cls, inits, frame):
        """run base and member initialisers in declaration order; inits: name -> initialiser node"""
        for b in self.base_names(cls):
            if ('base', b) in inits:
                continue
            if b in self.prog.classes:
                ini = inits.get('base:' + b)
                if ini is not None:
                    self.ctor_into(ObjRef(obj.addr, T(('class', b))), ini)
                else:
                    self.construct(ObjRef(obj.addr, T(('class', b))), [])
        for (name, ts, dflt, fidn) in self.prog.classes[cls].fields:
            t = ty.parse(ts)
            ini = inits.get(name)
            if ini is not None and ini.get('kind') == 'CXXDefaultInitExpr':
                ini = dflt
            if ini is None:
                ini = dflt
            if t.k == 'class':
                sub = ObjRef(self.sub_addr(cls, name, obj.addr), t)
                if ini is not None:
                    self.ctor_into(sub, ini)
                else:
                    self.construct(sub, [])
                continue
            if t.k == 'ref':
                v = self.ev(ini)
                if isinstance(v, ObjRef):
                    self.hset(cls + '::' + name, obj.addr, v.addr)
                elif isinstance(v, StreamVal):
                    self.hset(cls + '::' + name, obj.addr, z3.Int('stream:' + v.name))
                else:
                    raise Unsupported('reference member ' + name)
                continue
            lv = LV('heap', cls + '::' + name, obj.addr, t)
            if ini is not None:
                self.hset(lv.a, lv.b, self.value(ini, t))
            elif t.k in ('vec', 'map', 'umap', 'set', 'string', 'uptr'):
                self.hset(lv.a, lv.b, ty.empty(t))
            else:
                # indeterminate
                self.hset(lv.a, lv.b, self.fresh('indet_' + name, t))

    def ctor_into(self, obj, node):
        """initialise a class object in place from an initialiser expression"""
        n = self.strip(node)
        k = n['kind']
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            args = [self.ev(x) for x in n.get('inner', []) if x['kind'] != 'CXXDefaultArgExpr']
            if len(args) == 1 and isinstance(args[0], ObjRef) and self.derives(args[0].t[1], obj.t[1]) \
                    and obj.t[1] in self.prog.classes:
                return self.copy_obj(obj, args[0])
            return self.construct(obj, args, node=n)
        if k == 'InitListExpr':
            return self.init_fields(obj, obj.t[1], {f[0]: x for f, x in zip(self.prog.classes[obj.t[1]].fields,
                                                                         n.get('inner', []))
                                                    if x['kind'] != 'ImplicitValueInitExpr'}, None)
        if k in ('CXXFunctionalCastExpr', 'ImplicitCastExpr', 'CXXStaticCastExpr'):
            return self.ctor_into(obj, n['inner'][0])
        if k == 'ParenListExpr' and not n.get('inner'):
            return self.construct(obj, [])
        v = self.ev(n)
        if isinstance(v, ObjRef):
            return self.copy_obj(obj, v)
        raise Unsupported('initialise object from ' + k)

    def copy_obj(self, dst, src):
        cls = dst.t[1]
        for b in self.base_names(cls):
            self.copy_obj(ObjRef(dst.addr, T(('class', b))), ObjRef(src.addr, T(('class', b))))
        for (name, ts, d, i) in self.prog.classes[cls].fields:
            t = ty.parse(ts)
            if t.k == 'class':
                self.copy_obj(self.field(ObjRef(dst.addr, dst.t), name, cls), self.field(ObjRef(src.addr, dst.t), name, cls))
            else:
                self.hset(cls + '::' + name, dst.addr, self.hget(cls + '::' + name, src.addr))

    def strip(self, n):
        while n['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ParenExpr',
                            'ConstantExpr', 'SubstNonTypeTemplateParmExpr'):
            n = n['inner'][-1] if n['kind'] != 'ParenExpr' else n['inner'][0]
        return n

    # -------- calls
    def bind_args(self, func, args):
        """args: evaluated values; bind to parameters of a new top frame"""
        for i, p in enumerate(func.params):
            t = self.typ(p)
            if i < len(args):
                v = args[i]
            else:
                d = self.default_arg(func, i)
                v = self.ev(d)
            self.bind_param(p, t, v)

    def default_arg(self, func, i):
        for idn, n in self.prog.decls.items():
            if self.prog.by_id.get(idn) is func:
                ps = [x for x in n.get('inner', []) if x.get('kind') == 'ParmVarDecl']
                if i < len(ps) and ps[i].get('init') and ps[i].get('inner'):
                    return [x for x in ps[i]['inner'] if 'Comment' not in x['kind']][0]
        raise Unsupported('no default argument')

    def bind_param(self, p, t, v):
        if t.k == 'ref':
            if isinstance(v, Moved):
                v = v.lv
            if isinstance(v, (ObjRef, IterVal, StreamVal, LambdaVal)):
                self.declare(p, v, t)
            elif isinstance(v, LV):
                if v.kind == 'var' and isinstance(self.st.env.get(v.a), (IterVal, LambdaVal, StreamVal)):
                    self.declare(p, v, t)
                else:
                    self.declare(p, v, t)
            else:
                v = self.convert(v, t[1], None)
                self.declare(p, LV('tmp', v, None, t[1]), t)
        elif t.k == 'class':
            if isinstance(v, StreamVal):
                self.declare(p, v, t)
                return
            o = ObjRef(self.alloc(t, 'arg'), t)
            if not isinstance(v, ObjRef):
                raise Unsupported('class argument')
            self.copy_obj(o, v)
            self.declare(p, o, t)
        else:
            self.declare(p, self.take(v, t), t)

    def take(self, v, t):
        """initialise a value of type t from an evaluated expression (copy or move)"""
        if isinstance(v, Moved):
            x = self.load(v.lv)
            lt = strip_ref(v.lv.t)
            if lt.k in ('vec', 'map', 'umap', 'set', 'string', 'uptr'):
                self.store(v.lv, ty.empty(lt))
            elif lt.k in ('pair', 'tuple') and is_z3(x):
                self.store(v.lv, self.moved_from(lt, x))
            v = x
        elif isinstance(v, LV):
            v = self.load(v)
        if isinstance(v, ObjRef) and t.k in ('ptr', 'uptr'):
            raise Unsupported('object to pointer')
        return self.convert(v, t, None)

    def moved_from(self, t, x):
        if t.k in ('vec', 'map', 'umap', 'set', 'string', 'uptr'):
            return ty.empty(t)
        if t.k in ('pair', 'tuple'):
            return pmk(x.sort(), *[self.moved_from(y, pget(x, i)) for i, y in enumerate(t[1:])])
        return x

    def convert(self, v, t, node):
        if not is_z3(v):
            return v
        if t.k == 'int':
            v = to_int(v)
            if v.sort() == z3.RealSort():
                return self.real_to_int(v, t)
            return v
        if t.k == 'bool':
            return to_bool(v)
        if t.k == 'float':
            v = to_int(v)
            if v.sort() == z3.IntSort():
                if z3.is_int_value(v):
                    return z3.RealVal(v.as_long())
                return z3.ToReal(v)
            return v
        return v

    def real_to_int(self, v, t):
        if z3.is_rational_value(v):
            n, d = v.numerator_as_long(), v.denominator_as_long()
            q = abs(n) // d
            return z3.IntVal(q if n >= 0 else -q)
        r = f2i(v)
        self.axiom(('f2i', v.get_id(), v.sexpr() if v.decl().arity() == 0 else 0),
                   [z3.Implies(v >= 0, z3.And(z3.ToReal(r) <= v, v < z3.ToReal(r) + 1, r >= 0)),
                    z3.Implies(v < 0, z3.And(z3.ToReal(r) >= v, v > z3.ToReal(r) - 1))])
        return r

    def call_func(self, func, this, args, node=None):
        """call a function of /repo: by contract, or inlined from its body"""
        k = self.contracts.lookup(func)
        if k is not None and not k.inline:
            self.used_contracts.add(k.name)
            return k.apply(self, func, this, args, node)
        if func.body is None:
            if func.kind == 'CXXConstructorDecl' and this is not None:
                self.init_fields(this, this.t[1], {}, None)
                return None
            raise Unsupported('no body and no contract: ' + func.qname)
        if func.qname.endswith('::operator=') and func.node.get('isImplicit') and len(args) == 1 and isinstance(
                this, ObjRef) and self.prog.classes[this.t[1]].union:
            src = args[0]
            if not isinstance(src, ObjRef):
                src = self.load(src)
            if isinstance(src, ObjRef) and src.t == this.t:
                self.copy_obj(this, src)
                return this
        if self.depth > 25 or sum(1 for f in self.frames if f.func is func) >= 1:
            raise Unsupported('recursion without contract: ' + func.qname)
        self.inlined.add(func.qname)
        return self.run_inline(func, this, args)

    def run_inline(self, func, this, args):
        self.depth += 1
        try:
            base = self.st

            def body():
                return self.run_body(func, this, args)
            outs = self.explore(body)
            for o in outs:
                if o.kind == 'return':
                    o.kind = 'normal'
            return self.join(base, outs)
        finally:
            self.depth -= 1

    def run_body(self, func, this, args):
        fr = self.new_frame(func, this)
        self.frames.append(fr)
        self.bind_args(func, args)
        if func.kind == 'CXXConstructorDecl':
            inits = {}
            deleg = None
            for n in func.inits:
                x = n['inner'][0] if n.get('inner') else None
                if 'anyInit' in n:
                    inits[n['anyInit']['name']] = x
                elif 'baseInit' in n:
                    t = ty.parse(n['baseInit'].get('desugaredQualType', n['baseInit']['qualType']))
                    inits['base:' + (t[1] if t.k == 'class' else n['baseInit']['qualType'])] = x
                elif 'delegatingInit' in n:
                    deleg = x
            if deleg is not None:
                self.ctor_into(this, deleg)
            else:
                self.init_fields(this, this.t[1] if this.t[1] == func.cls else func.cls, inits, fr)
        if func.body is not None:
            try:
                self.exec(func.body)
            except Ret as r:
                raise Ret(r.v)
        return None

    # -------------------------------------------------- statements
    def exec(self, n):
        k = n.get('kind')
        if k is None:
            return
        f = getattr(self, 's_' + k, None)
        if f:
            return f(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for x in n.get('inner', []):
            self.exec(x)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            if d['kind'] == 'VarDecl':
                self.vardecl(d)
            elif d['kind'] in ('UsingDirectiveDecl', 'UsingDecl', 'TypedefDecl', 'TypeAliasDecl', 'CXXRecordDecl',
                               'StaticAssertDecl', 'EnumDecl', 'EmptyDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])

    def vardecl(self, d):
        t = self.typ(d)
        init = None
        for x in d.get('inner', []):
            if 'Comment' not in x['kind'] and not x['kind'].endswith('Attr'):
                init = x
        if not d.get('init'):
            # VLA size expressions appear as children without init
            if t.k == 'array':
                m = init
                nlen = None
                if t[2] is not None:
                    nlen = z3.IntVal(t[2])
                elif m is not None:
                    nlen = self.load(self.ev(m))
                else:
                    nlen = self.vla_size(d)
                a = self.fresh(d.get('name', 'arr'), z3.ArraySort(z3.IntSort(), sort(t[1])))
                self.declare(d, vmk(sort(t), nlen, a), t)
                return
            init = None
        if d.get('storageClass') == 'static':
            key = ('g', 'static:%s:%s' % (self.frames[-1].func.qname, d['name']))
            self.vtypes[key] = t
            self.vnames[key] = d['name']
            self.frames[-1].map[d['id']] = key
            return
        if t.k == 'class':
            if self.stl.is_stream(t):
                o = self.stl.local_stream(self, t, init, d)
                self.declare(d, o, t)
                return
            o = ObjRef(self.alloc(t, d.get('name', 'obj')), t)
            if init is None:
                self.construct(o, [])
            else:
                self.ctor_into(o, init)
            self.declare(d, o, t)
            return
        if init is None:
            self.declare(d, self.default_value(t), t)
            return
        if t.k == 'ref':
            v = self.ev(init)
            if isinstance(v, Moved):
                v = v.lv
            if isinstance(v, LV) and v.kind == 'var' and v.a in self.st.env and isinstance(self.st.env[v.a], LV) \
                    and self.vtypes[v.a].k == 'ref':
                v = self.st.env[v.a]
            if is_z3(v):
                v = LV('tmp', v, None, t[1])
            self.declare(d, v, t)
            return
        self.declare(d, self.value(init, t), t)

    def vla_size(self, d):
        """clang does not print the size expression of a variable-length array: resolve a plain name"""
        import re
        m = re.match(r'^.*\[(?:this->)?(\w+)\]$', d['type']['qualType'])
        if not m:
            raise Unsupported('array size')
        nm = m.group(1)
        fr = self.frames[-1]
        for key in reversed(list(fr.map.values())):
            if self.vnames.get(key) == nm and key in self.st.env:
                v = self.load(LV('var', key, None, strip_ref(self.vtypes[key])))
                if is_z3(v) and v.sort() == z3.IntSort():
                    return v
        if fr.this is not None:
            return self.load(self.field(fr.this, nm))
        raise Unsupported('array size')

    def value(self, node, t):
        """evaluate an initialiser to a value of type t"""
        n = self.strip(node)
        if n['kind'] == 'InitListExpr':
            return self.init_list(n, t)
        v = self.ev(n)
        if isinstance(v, ObjRef) and t.k in ('ptr', 'uptr'):
            return v.addr
        return self.take(v, t)

    def init_list(self, n, t):
        xs = n.get('inner', [])
        if t.k in ('pair', 'tuple'):
            return pmk(sort(t), *[self.value(x, s) for x, s in zip(xs, t[1:])])
        if t.k == 'array':
            a = z3.K(z3.IntSort(), ty.zero(t[1]))
            for i, x in enumerate(xs):
                a = z3.Store(a, z3.IntVal(i), self.value(x, t[1]))
            return vmk(sort(t), z3.IntVal(t[2] or len(xs)), a)
        if len(xs) == 1:
            return self.value(xs[0], t)
        if not xs:
            return ty.zero(t)
        if t.k == 'vec':
            if t == ty.VECF:
                v = ty.fempty
                for x in xs:
                    v = ty.fpush(v, self.value(x, t[1]))
                return v
            a = z3.K(z3.IntSort(), ty.zero(t[1]))
            for i, x in enumerate(xs):
                a = z3.Store(a, z3.IntVal(i), self.value(x, t[1]))
            return vmk(sort(t), z3.IntVal(len(xs)), a)
        raise Unsupported('initialiser list for %r' % (t,))

    def s_ReturnStmt(self, n):
        xs = n.get('inner', [])
        if not xs:
            raise Ret(None)
        fr = self.frames[-1]
        rt = fr.ret if getattr(fr, 'ret', None) is not None else ty.parse(fr.func.ret)
        v = self.ev(xs[0])
        if rt.k == 'ref' or isinstance(v, (ObjRef,)) and rt.k == 'class':
            raise Ret(v)
        if isinstance(v, ObjRef) and rt.k in ('ptr', 'uptr'):
            raise Ret(v.addr)
        if rt.k in ('opaque',):
            raise Ret(self.take(v, T(('opaque', ''))) if not isinstance(v, ObjRef) else v)
        raise Ret(self.take(v, rt))

    def cond(self, n):
        v = self.load(self.ev(n))
        if isinstance(v, ObjRef):
            return v.addr != 0
        return to_bool(v)

    def s_IfStmt(self, n):
        xs = list(n.get('inner', []))
        if n.get('hasInit'):
            self.exec(xs.pop(0))
        if n.get('hasVar'):
            self.exec(xs.pop(0))
        c = self.cond(xs[0])
        if z3.is_true(c):
            return self.exec(xs[1])
        if z3.is_false(c):
            if len(xs) > 2:
                self.exec(xs[2])
            return
        base = self.st

        def run():
            if self.decide([c, NOT(c)]) == 0:
                self.exec(xs[1])
            elif len(xs) > 2:
                self.exec(xs[2])
        outs = self.explore(run)
        self.join(base, outs)

    def s_SwitchStmt(self, n):
        xs = n['inner']
        v = self.load(self.ev(xs[-2]))
        body = xs[-1]
        items = []     # (label value or None, [stmts])
        flat = []

        def flatten(s):
            if s['kind'] == 'CaseStmt':
                lab = self.load(self.ev(s['inner'][0]))
                flat.append(('case', lab))
                flatten(s['inner'][-1])
            elif s['kind'] == 'DefaultStmt':
                flat.append(('default', None))
                flatten(s['inner'][-1])
            else:
                flat.append(('stmt', s))
        for s in body.get('inner', []):
            flatten(s)
        labs = [i for i, x in enumerate(flat) if x[0] in ('case', 'default')]
        conds, starts = [], []
        cases = [flat[i][1] for i in labs if flat[i][0] == 'case']
        for i in labs:
            if flat[i][0] == 'case':
                conds.append(v == flat[i][1])
            else:
                conds.append(AND([v != c for c in cases]))
            starts.append(i)
        if not any(flat[i][0] == 'default' for i in labs):
            conds.append(AND([v != c for c in cases]))
            starts.append(len(flat))
        conds = [z3.simplify(c) for c in conds]
        base = self.st

        def run():
            s = starts[self.decide(conds)]
            try:
                for x in flat[s:]:
                    if x[0] == 'stmt':
                        self.exec(x[1])
            except Brk:
                pass
        self.join(base, self.explore(run))

    def s_BreakStmt(self, n):
        raise Brk()

    def s_ContinueStmt(self, n):
        raise Cont()

    def s_ForStmt(self, n):
        xs = n['inner']
        init, _, cond, inc, body = xs
        scope = set(self.st.env)
        if init:
            self.exec(init)
        self.loop(n, cond if cond else None, inc if inc else None, [body])
        self.leave(scope)

    def leave(self, scope):
        """locals of the statement are gone"""
        fid = self.frames[-1].id
        for k in [k for k in self.st.env if k not in scope and isinstance(k, tuple) and k[0] == fid]:
            if is_z3(self.st.env[k]) or isinstance(self.st.env[k], (Uninit, IterVal)):
                del self.st.env[k]

    def s_WhileStmt(self, n):
        xs = [x for x in n['inner']]
        self.loop(n, xs[-2], None, [xs[-1]])

    def s_DoStmt(self, n):
        body, cond = n['inner']
        self.loop(n, cond, None, [body], do=True)

    def s_CXXForRangeStmt(self, n):
        xs = n['inner']
        rng, beg, end, cond, inc, var, body = xs[-7:]
        scope = set(self.st.env)
        for x in (rng, beg, end):
            self.exec(x)
        self.loop(n, cond, inc, [var, body])
        self.leave(scope)

    def s_CXXTryStmt(self, n):
        raise Unsupported('try')

    def s_GCCAsmStmt(self, n):
        pass

    # -------------------------------------------------- loops
    def diff_roots(self, a, b):
        """roots whose value differs between states a (head) and b"""
        out = []
        for k in a.env:
            x, y = a.env[k], b.env.get(k)
            if x is y:
                continue
            if is_z3(x) and is_z3(y) and x.eq(y):
                continue
            if isinstance(x, IterVal) and isinstance(y, IterVal) and x.c.same(y.c) and x.pos.eq(y.pos):
                continue
            if isinstance(x, LV) and isinstance(y, LV) and x.same(y):
                continue
            out.append(('v', k))
        for k in b.env:
            if k not in a.env and isinstance(k, tuple) and k[0] == 'g':
                if not b.env[k].eq(self.global_init(k)):
                    out.append(('v', k))
                    a.env[k] = self.global_init(k)
        for f in b.heap:
            x = a.heap.get(f)
            if x is None:
                x = self.heap_init(f)
            y = b.heap[f]
            if x.eq(y):
                continue
            # peel stores
            addrs, z = [], y
            ok = True
            todo = [y]
            while todo:
                z = todo.pop()
                while z3.is_app(z) and z.decl().kind() == z3.Z3_OP_STORE:
                    if not any(z.arg(1).eq(q) for q in addrs):
                        addrs.append(z.arg(1))
                    z = z.arg(0)
                    if z.eq(x):
                        break
                if z.eq(x):
                    continue
                if z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE:
                    todo += [z.arg(1), z.arg(2)]
                else:
                    ok = False
            if not ok:
                # both sides may be stores over a common base (hset collapses stores at one address)
                def peel(z):
                    a = []
                    while z3.is_app(z) and z.decl().kind() == z3.Z3_OP_STORE:
                        a.append(z)
                        z = z.arg(0)
                    return a, z
                (a1, b1), (a2, b2) = peel(x), peel(y)
                if b1.eq(b2):
                    ok, addrs = True, []
                    while a1 and a2 and a1[-1].eq(a2[-1]):      # the common inner stores
                        a1.pop()
                        a2.pop()
                    for q in a1 + a2:
                        if not any(q.arg(1).eq(w) for w in addrs):
                            addrs.append(q.arg(1))
            if not ok:
                out.append(('h', f, None))
            else:
                for q in addrs:
                    out.append(('h', f, q))
        return out

    def havoc_root(self, r):
        if r[0] == 'v':
            v = self.st.env.get(r[1])
            t = self.vtypes[r[1]]
            if v is None and isinstance(r[1], tuple) and r[1][0] == 'g':
                v = self.global_init(r[1])
            if isinstance(v, IterVal):
                p = self.fresh('it', z3.IntSort())
                self.st.env[r[1]] = IterVal(v.c, p, v.t, None, v.dom)
            elif isinstance(v, Uninit):
                if t.k == 'iter':
                    return
                self.st.env[r[1]] = self.fresh(self.vnames.get(r[1], 'v'), t)
            elif is_z3(v):
                self.st.env[r[1]] = self.fresh(self.vnames.get(r[1], 'v'), t)
            elif isinstance(v, ObjRef):
                self.st.env[r[1]] = ObjRef(self.fresh(self.vnames.get(r[1], 'v'), z3.IntSort()), v.t)
            elif isinstance(v, TupVal):
                raise Unsupported('loop modifies a tuple of iterators')
            else:
                raise Unsupported('loop rebinds %s' % self.vnames.get(r[1]))
        elif r[2] is None:
            ft = self.field_type(r[1])
            self.st.heap[r[1]] = self.fresh('H' + r[1], z3.ArraySort(z3.IntSort(), sort(ft)))
        else:
            self.hset(r[1], r[2], self.fresh(r[1].split('::')[-1], self.field_type(r[1])))

    def uses_new(self, e, n0, entry):
        return False

    def loop(self, node, cond, inc, body, do=False):
        """cut the loop with an inductive invariant"""
        unr = self.opts.get('unroll')
        entry = self.st.clone()
        mods = []

        def iteration(flag_exit=False):
            """one pass from the loop head; normal outcome = back at head, break = left the loop"""
            if not do:
                if cond is not None:
                    c = self.cond(cond)
                    if self.decide([c, NOT(c)]) == 1:
                        raise Brk()
            try:
                for b in body:
                    self.exec(b)
            except Cont:
                pass
            if inc is not None:
                self.ev(inc)
            if do:
                c = self.cond(cond)
                if self.decide([c, NOT(c)]) == 1:
                    raise Brk()

        # 1. discover what the loop modifies
        rec, self.record = self.record, False
        xc, self.exit_check = self.exit_check, None
        clockmod = False
        disc, self.discovering = self.discovering, True
        try:
            for rnd in range(8):
                self.st = entry.clone()
                self.st.pid += 'D%d' % rnd
                for r in mods:
                    self.havoc_root(r)
                if clockmod:
                    self.st.clock = self.fresh('clock', z3.IntSort())
                head = self.st.clone()
                outs = self.explore(iteration)
                new = []
                for o in outs:
                    if not o.st.clock.eq(head.clock):
                        if not clockmod:
                            clockmod = True
                            new.append('clock')
                    for r in self.diff_roots(head, o.st):
                        if r[0] == 'h' and r[2] is not None and self.mentions_fresh(r[2], head):
                            r = ('h', r[1], None)
                        if not any(self.root_eq(r, q) for q in mods + [x for x in new if x != 'clock']):
                            new.append(r)
                if not new:
                    break
                mods += [x for x in new if x != 'clock']
                full = {r[1] for r in mods if r[0] == 'h' and r[2] is None}
                mods = [r for r in mods if not (r[0] == 'h' and r[2] is not None and r[1] in full)]
            else:
                raise Unsupported('loop frame does not converge')
        finally:
            self.record, self.exit_check, self.discovering = rec, xc, disc
        self.st = entry.clone()

        # 2. candidate invariants
        L = LoopCtx(self, entry, mods, node)
        L.cond = cond
        L.clockmod = clockmod
        cands = [(n, f, 1200) for n, f in self.auto_candidates(L)]
        for g in self.invgens:
            cands += list(g(L) or [])
        if clockmod:
            cands.append(('clock grows', lambda st: st.clock >= entry.clock))
        full = [r[1] for r in mods if r[0] == 'h' and r[2] is None]
        for f in full:
            a0 = entry.heap.get(f)
            a0 = self.heap_init(f) if a0 is None else a0

            def mk(f, a0):
                def g(st):
                    a = z3.Int('a!')
                    h = st.heap.get(f)
                    h = self.heap_init(f) if h is None else h
                    return ty.FA([a], z3.Implies(born(a) < entry.clock, z3.Select(h, a) == z3.Select(a0, a)),
                                 [z3.Select(h, a)])
                return g
            cands.append(('frame ' + f, mk(f, a0)))
        # what failed before at this loop, under stronger assumptions of the enclosing loops, fails again
        import re as _re
        ck = (node.get('id'), _re.sub(r'\(\d+', '(', entry.pid).replace('I', '*').replace('L', '*'))
        gone = self.loopcache.setdefault(ck, set())
        seen = {}
        named = []
        for c in cands:
            seen[c[0]] = seen.get(c[0], 0) + 1
            nm = (c[0], seen[c[0]])
            if nm not in gone and not self.discovering:
                named.append((nm, c))
        names = {id(c): nm for nm, c in named}
        cands = [c for nm, c in named]
        # initiation
        fs = []
        for c in cands:
            try:
                f = c[1](entry)
            except (KeyError, AttributeError, z3.Z3Exception, TypeError) as e:
                if DEBUG:
                    print('  cand error', c[0], repr(e))
                continue
            if f is not None:
                fs.append((c, f))
        ok = self.valid_batch([(f, len(c) > 2) for c, f in fs], entry)
        kept = []
        for (c, f), o in zip(fs, ok):
            if o:
                kept.append(c)
            else:
                gone.add(names[id(c)])
                if DEBUG:
                    print('  cand not initial:', c[0])
        # 3. Houdini
        rec, self.record = self.record, False
        xc, self.exit_check = self.exit_check, None
        try:
            rnd = 0
            while not self.discovering:
                rnd += 1
                self.st = entry.clone()
                self.st.pid += 'I'
                for r in mods:
                    self.havoc_root(r)
                if clockmod:
                    self.st.clock = self.fresh('clock', z3.IntSort())
                for c in kept:
                    self.assume(c[1](self.st))
                outs = [o for o in self.explore(iteration) if o.kind == 'normal']
                bad = self.houdini_round(kept, outs)
                if not bad:
                    break
                gone |= {names[id(kept[i])] for i in bad}
                kept = [c for i, c in enumerate(kept) if i not in bad]
        finally:
            self.record, self.exit_check = rec, xc
        self.inv_kept.append((self.cur, self.where(node), [c[0] for c in kept]))
        if DEBUG:
            print('  loop @%s mods=%s' % (self.where(node), [self.root_name(r) for r in mods]))
            print('    invariants:', [c[0] for c in kept])
        # 4. final pass, recording obligations; exits of the loop
        self.st = entry.clone()
        self.st.n += 1
        self.st.pid += 'L'
        for r in mods:
            self.havoc_root(r)
        if clockmod:
            self.st.clock = self.fresh('clock', z3.IntSort())
        for c in kept:
            self.assume(c[1](self.st))
        base = self.st
        outs = self.explore(iteration)
        outs = [o for o in outs if o.kind in ('break', 'return')]
        for o in outs:
            if o.kind == 'break':
                o.kind = 'normal'
            # drop locals of the loop
            for k in [k for k in o.st.env if k not in base.env and not (isinstance(k, tuple) and k[0] == 'g')]:
                if o.kind == 'normal':
                    del o.st.env[k]
        self.join(base, outs)

    def valid_batch(self, goals, st):
        """goals: (formula, auto) list; which of them follow in the state?"""
        t0 = time.time()
        ms = self.opts.get('inv_ms', 4000)
        ok = [False] * len(goals)
        hs = self.hyps(st)
        s = z3.SimpleSolver()
        s.set('smt.mbqi', False)
        s.add(hs)
        todo = []
        for i, (f, auto) in enumerate(goals):
            if z3.is_true(f):
                ok[i] = True
            elif auto and not has_quant(f):
                ok[i] = self.quick_valid(f, st, ms=600, quant=False)
            else:
                s.set('timeout', 250)
                s.push()
                s.add(z3.Not(f))
                r = s.check()
                s.pop()
                if r == z3.unsat:
                    ok[i] = True
                elif r == z3.unknown:
                    todo.append(i)
        texts = []
        for i in todo:
            q = z3.Solver()
            q.add(hs)
            q.add(z3.Not(goals[i][0]))
            texts.append(q.to_smt2())
        for i, r in zip(todo, check_batch(texts, ms)):
            ok[i] = r
        self.solver_time += time.time() - t0
        return ok

    def houdini_round(self, kept, outs):
        bad = set()
        for o in outs:
            todo = [i for i in range(len(kept)) if i not in bad]
            fs = {i: kept[i][1](o.st) for i in todo}     # may add unfolding facts to the state
            ok = self.valid_batch([(fs[i], len(kept[i]) > 2) for i in todo], o.st)
            for i, r in zip(todo, ok):
                if not r:
                    bad.add(i)
                    if DEBUG:
                        print('    dropped', kept[i][0])
                        if os.environ.get('DUMPINV') and os.environ['DUMPINV'] in kept[i][0]:
                            q = z3.Solver()
                            q.add(self.hyps(o.st) + [z3.Not(fs[i])])
                            open('/tmp/inv_%d_%d.smt2' % (self.nfeas, i), 'w').write(
                                '; ' + kept[i][0] + '\n' + q.to_smt2())
        return bad

    def root_eq(self, a, b):
        if a[0] != b[0] or a[1] != b[1]:
            return False
        if a[0] == 'v':
            return True
        if a[2] is None or b[2] is None:
            return b[2] is None
        return a[2].eq(b[2])

    def mentions_fresh(self, e, head):
        """does an address term depend on something created inside the loop body?"""
        todo, names = [e], []
        while todo:
            x = todo.pop()
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.append(x.decl().name())
            todo += x.children()
        # constants made in this exploration carry the path tag of the head's nested exploration
        tag = '@%s(' % head.pid
        for nm in names:
            if tag in nm or ('@' in nm and nm.split('@', 1)[1].startswith(head.pid) and head.pid):
                return True
        return False

    def auto_candidates(self, L):
        out = []
        e = L.entry
        prog = L.progress()
        for nm, g in prog:
            v0 = g(e)
            out.append(('%s >= entry' % nm, (lambda g, v0: lambda st: g(st) >= v0)(g, v0)))
            out.append(('%s <= entry' % nm, (lambda g, v0: lambda st: g(st) <= v0)(g, v0)))
            out.append(('%s >= 0' % nm, (lambda g: lambda st: g(st) >= 0)(g)))
        # bounds from other integers / sizes
        bnds = []
        for nm, g in L.visible(pred=lambda t: t.k == 'int'):
            bnds.append((nm, g))
        for nm, it, g, mod in L.iters():
            if not mod:
                bnds.append((nm, g))
        for nm, g in self.loop_bounds(L):
            bnds.append((nm, g))
        for nm, g in prog:
            for bn, bg in bnds:
                if bn == nm:
                    continue
                out.append(('%s <= %s' % (nm, bn), (lambda g, b: lambda st: g(st) <= b(st))(g, bg)))
        for nm, it, g, mod in L.iters():
            if mod:
                def mk(it, g):
                    if it.dom is not None:
                        return lambda st: z3.And(0 <= g(st), g(st) <= ty.card(it.dom))
                    return lambda st: z3.And(0 <= g(st), g(st) <= vlen(self.load_in(st, it.c)))
                out.append(('%s in container' % nm, mk(it, g)))
        # lock-step
        for (n1, g1), (n2, g2) in itertools.combinations(prog, 2):
            d = g1(e) - g2(e)
            out.append(('%s - %s const' % (n1, n2), (lambda g1, g2, d: lambda st: g1(st) - g2(st) == d)(g1, g2, d)))
        vecs = L.roots(pred=lambda t: t.k == 'vec')
        lens = [('len ' + n, (lambda g: lambda st: vlen(g(st)))(g)) for n, g in vecs]
        for n1, g1 in lens:
            l0 = g1(e)
            out.append(('%s const' % n1, (lambda g, l0: lambda st: g(st) == l0)(g1, l0)))
            out.append(('%s >= 0' % n1, (lambda g: lambda st: g(st) >= 0)(g1)))
            for n2, g2 in prog:
                d = l0 - g2(e)
                out.append(('%s - %s const' % (n1, n2),
                            (lambda g1, g2, d: lambda st: g1(st) - g2(st) == d)(g1, g2, d)))
        for (n1, g1), (n2, g2) in itertools.combinations(lens, 2):
            d = g1(e) - g2(e)
            out.append(('%s - %s const' % (n1, n2), (lambda g1, g2, d: lambda st: g1(st) - g2(st) == d)(g1, g2, d)))
        # arrays declared in the function keep their length
        for n1, g1 in L.roots(pred=lambda t: t.k == 'array'):
            l0 = vlen(g1(e))
            out.append(('len %s const' % n1, (lambda g, l0: lambda st: vlen(g(st)) == l0)(g1, l0)))
        return out

    def loop_bounds(self, L):
        """right-hand sides of a comparison in the loop condition, evaluated in a state"""
        out = []
        c = L.cond
        if c is None:
            return out
        found = []

        def walk(n):
            if n.get('kind') == 'BinaryOperator' and n.get('opcode') in ('<', '<=', '!=', '>', '>='):
                found.append(n)
            for x in n.get('inner', []):
                walk(x)
        walk(c)
        frames = list(self.frames)
        for i, n in enumerate(found):
            for j, x in enumerate(n['inner']):
                def g(st, x=x):
                    old, of = self.st, self.frames
                    rec, self.record = self.record, False
                    self.st, self.frames = st.clone(), list(frames)
                    try:
                        v = self.load(self.ev(x))
                        if not is_z3(v) or v.sort() != z3.IntSort():
                            raise KeyError
                        return v
                    except (PathEnd, Exit, Unsupported):
                        raise KeyError
                    finally:
                        self.st, self.frames, self.record = old, of, rec
                out.append(('bound%d.%d' % (i, j), g))
        return out

    # -------------------------------------------------- expressions
    def ev(self, n):
        k = n['kind']
        f = getattr(self, 'e_' + k, None)
        if f is None:
            raise Unsupported('expression ' + k)
        return f(n)

    def inner(self, n):
        return self.ev(n['inner'][0])

    def e_ExprWithCleanups(self, n):
        return self.inner(n)
    e_CXXBindTemporaryExpr = e_ExprWithCleanups
    e_MaterializeTemporaryExpr = e_ExprWithCleanups
    e_ParenExpr = e_ExprWithCleanups
    e_ConstantExpr = e_ExprWithCleanups

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev(n['inner'][-1])

    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_CharacterLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def e_FloatingLiteral(self, n):
        v = n['value']
        from fractions import Fraction
        # the shortest decimal that denotes the literal's value (clang prints 17 digits)
        if self.typ(n) == ('float', 64):
            v = repr(float(v))
        else:
            for p in range(1, 10):
                import struct
                w = '%.*g' % (p, float(v))
                if struct.pack('f', float(w)) == struct.pack('f', float(v)):
                    v = w
                    break
        return z3.RealVal(str(Fraction(v)))

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))

    def e_CXXNullPtrLiteralExpr(self, n):
        return z3.IntVal(0)
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, n):
        return ty.zero(self.typ(n))

    def e_CXXScalarValueInitExpr(self, n):
        return ty.zero(self.typ(n))

    def e_StringLiteral(self, n):
        s = n['value']
        try:
            import ast as _a
            s = _a.literal_eval(s)
        except Exception:
            s = s.strip('"')
        return z3.StringVal(s)

    def e_PredefinedExpr(self, n):
        return z3.StringVal('fn')

    def e_CXXThisExpr(self, n):
        for fr in reversed(self.frames):
            if fr.this is not None:
                return ('this', fr.this)[1]
        raise Unsupported('this')

    def e_CXXDefaultArgExpr(self, n):
        return DEFAULT

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported('default member init')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') != 'sizeof':
            raise Unsupported(n.get('name'))
        if n.get('inner'):
            t = self.typ(n['inner'][0])
        else:
            at = n['argType']
            t = ty.parse(at.get('desugaredQualType', at['qualType']))
        t = strip_ref(t)
        if t.k == 'int':
            return z3.IntVal(t[1] // 8)
        if t.k == 'float':
            return z3.IntVal(t[1] // 8)
        if t.k == 'bool':
            return z3.IntVal(1)
        if t.k == 'array' and t[2]:
            return z3.IntVal(t[2] * (t[1][1] // 8))
        raise Unsupported('sizeof %r' % (t,))

    def e_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        k = rd['kind']
        i = rd['id']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            key = self.lookup(i)
            if key is not None:
                if key[0] == 'g':
                    return LV('var', key, None, self.vtypes[key])
                v = self.st.env.get(key)
                t = self.vtypes[key]
                if isinstance(v, (ObjRef, StreamVal, LambdaVal)):
                    return v
                if t.k == 'ref' and isinstance(v, (LV, IterVal)):
                    return v
                return LV('var', key, None, t)
            return self.global_ref(i, rd, n)
        if k == 'EnumConstantDecl':
            if i in self.prog.enum_consts:
                return z3.IntVal(self.prog.enum_consts[i][1])
            return self.stl.enum_const(self, rd)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return FnVal(rd)
        raise Unsupported('reference to ' + k)

    def global_ref(self, i, rd, n):
        q = None
        if i in self.prog.globals:
            q, node = self.prog.globals[i]
            j = i
            while j in self.prog.prev:
                j = self.prog.prev[j]
                if j in self.prog.globals:
                    q = self.prog.globals[j][0]
        else:
            h = self.stl.global_var(self, rd, n)
            if h is not None:
                return h
            raise Unsupported('global ' + rd.get('name', '?'))
        node = self.prog.globals_by_name.get(q, node)
        t = self.typ(node)
        if t.k == 'class':
            return ObjRef(z3.Int('GO:' + q), t)
        init = [x for x in node.get('inner', []) if 'Comment' not in x['kind'] and not x['kind'].endswith('Attr')]
        const = node.get('constexpr') or 'const ' in node['type']['qualType'] or node['type']['qualType'].endswith('const')
        if const and init and t.k != 'ptr':
            return self.convert(self.load(self.ev(init[-1])), t, None)
        key = ('g', q)
        self.vtypes[key] = t
        self.vnames[key] = q
        return LV('var', key, None, t)

    def e_MemberExpr(self, n):
        name = n.get('name', '')
        b = self.inner(n)
        bt = self.typ(n['inner'][0])
        if n.get('isArrow'):
            if isinstance(b, LV) and strip_ref(b.t).k in ('pair', 'tuple', 'class') and b.kind != 'var':
                pass
            elif isinstance(b, (ObjRef,)):
                pass
            elif isinstance(b, LV) and strip_ref(b.t).k in ('pair', 'tuple'):
                pass
            else:
                v = self.load(b)
                pt = bt
                if pt.k in ('ptr', 'uptr') and pt[1].k == 'class':
                    b = ObjRef(v, pt[1])
                else:
                    raise Unsupported('-> on %r' % (pt,))
        return self.member(b, name, n)

    def member(self, b, name, n=None):
        if isinstance(b, Moved):
            r = self.member(b.lv, name, n)
            return Moved(r) if isinstance(r, LV) else r
        if isinstance(b, ObjRef):
            h = self.stl.member(self, b, name)
            if h is not None:
                return h
            if n is not None and n.get('referencedMemberDecl') in self.prog.fields_by_id:
                return self.field(b, name, self.prog.fields_by_id[n['referencedMemberDecl']][0])
            # static data member or method
            rid = n.get('referencedMemberDecl') if n is not None else None
            if rid in self.prog.globals:
                return self.global_ref(rid, {'name': name}, n)
            return self.field(b, name)
        if name in ('first', 'second'):
            i = 0 if name == 'first' else 1
            if isinstance(b, LV):
                t = strip_ref(b.t)
                if b.kind == 'mapelem':
                    mt = strip_ref(b.a.t)
                    if i == 0:
                        return LV('tmp', b.b, None, mt[1])
                    return LV('mapv', b.a, b.b, mt[2])
                return LV('part', b, i, t[1 + i])
            if is_z3(b):
                return pget(b, i)
            if isinstance(b, TupVal):
                return b.vals[i]
        raise Unsupported('member %s of %r' % (name, type(b).__name__))

    # casts
    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        x = n['inner'][0]
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'DerivedToBase', 'UncheckedDerivedToBase',
                  'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'BaseToDerived', 'ToVoid',
                  'BitCast', 'Dependent', 'CPointerToObjCPointerCast'):
            v = self.ev(x)
            if ck == 'ArrayToPointerDecay':
                return self.stl.decay(self, v, n)
            if ck == 'UserDefinedConversion' and isinstance(v, (StreamVal,)):
                return v
            return v
        if ck == 'LValueToRValue':
            v = self.ev(x)
            return self.load(v)
        v = self.ev(x)
        if ck == 'NullToPointer':
            return z3.IntVal(0) if self.typ(n).k != 'cstr' else NULLSTR
        if isinstance(v, (StreamVal, ObjRef, IterVal)):
            if ck in ('PointerToBoolean',) and isinstance(v, ObjRef):
                return v.addr != 0
            return v
        v = self.load(v)
        t = self.typ(n)
        return self.cast(ck, v, t, self.typ(x), n)

    def cast(self, ck, v, t, ft, n):
        if ck in ('IntegralCast',):
            if t.k == 'bool':
                return to_bool(v)
            v = to_int(v)
            return self.int_cast(v, t, ft)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return to_bool(v)
        if ck == 'PointerToBoolean':
            if v.sort() == z3.StringSort():
                return z3.BoolVal(True)
            return v != 0
        if ck == 'IntegralToFloating':
            v = self.convert(v, t, None)
            return self.to_float(v, t) if not z3.is_rational_value(v) else v
        if ck == 'FloatingCast':
            if t == ('float', 32):
                return self.to_float(v, t)
            return v
        if ck == 'FloatingToIntegral':
            return self.real_to_int(v, t)
        if ck in ('LValueToRValue', 'NoOp', 'BitCast', 'ConstructorConversion'):
            return v
        raise Unsupported('cast ' + str(ck))

    def to_float(self, v, t):
        """narrowing to float; exact unless the rounding model is on"""
        if self.opts.get('rounding') and t == ('float', 32):
            return self.round32(v)
        return v

    def round32(self, v):
        if z3.is_rational_value(v):
            f = v.as_fraction()
            import struct
            try:
                if struct.unpack('f', struct.pack('f', float(f)))[0] == f:
                    return v
            except OverflowError:
                pass
        if z3.is_app(v) and v.decl().eq(rnd32):
            return v
        return rnd32(v)

    def nonneg(self, v):
        k = (v.get_id(), len(self.st.pc), self.st.pc[-1].get_id() if self.st.pc else 0)
        c = self.__dict__.setdefault('_nn', {})
        if k not in c:
            c[k] = (self.quick_valid(v >= 0, ms=150, quant=False), v)
        return c[k][0]

    def int_cast(self, v, t, ft):
        if t.k != 'int' or ft.k not in ('int', 'bool', 'enum'):
            return v
        bits, sg = t[1], t[2]
        if z3.is_int_value(v):
            x = v.as_long() % (1 << bits)
            if sg and x >= 1 << (bits - 1):
                x -= 1 << bits
            return z3.IntVal(x)
        if ft.k == 'bool':
            return v
        if ft.k == 'int':
            fb, fs = ft[1], ft[2]
            if (sg or not fs) and (bits > fb or (bits == fb and sg == fs)):
                return v
            if sg and fs and bits >= fb:
                return v
        if not sg:
            if ft.k == 'int' and ft[1] <= bits:
                if self.nonneg(v):
                    return v
                return z3.If(v >= 0, v, v + (1 << bits))
            return z3.If(z3.And(v >= 0, v < (1 << bits)), v, v % (1 << bits))
        lim = 1 << (bits - 1)
        return z3.If(z3.And(v >= -lim, v < lim), v, (v + lim) % (1 << bits) - lim)

    def e_CStyleCastExpr(self, n):
        ck = n.get('castKind')
        x = n['inner'][0]
        if ck == 'ToVoid':
            self.ev(x)
            return None
        v = self.ev(x)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'BitCast',
                  'LValueBitCast', 'BaseToDerived', 'LValueToRValue'):
            if isinstance(v, LV) and ck not in ('NoOp',):
                return self.load(v)
            return v
        if not is_z3(v):
            v = self.load(v)
        return self.cast(ck, v, self.typ(n), self.typ(x), n)
    e_CXXStaticCastExpr = e_CStyleCastExpr
    e_CXXFunctionalCastExpr = e_CStyleCastExpr
    e_CXXReinterpretCastExpr = e_CStyleCastExpr
    e_CXXConstCastExpr = e_CStyleCastExpr

    # construction of values
    def e_CXXConstructExpr(self, n):
        t = self.typ(n)
        xs = [x for x in n.get('inner', []) if x['kind'] != 'CXXDefaultArgExpr']
        if t.k == 'class':
            if self.stl.is_stream(t):
                return self.stl.local_stream(self, t, n, None)
            if len(xs) == 1:
                v = self.ev(xs[0])
                if isinstance(v, ObjRef) and self.derives(v.t[1], t[1]):
                    # copy / move into a temporary
                    o = ObjRef(self.alloc(t, 'tmp'), t)
                    self.copy_obj(o, v)
                    return o
                o = ObjRef(self.alloc(t, 'tmp'), t)
                self.construct(o, [v], node=n)
                return o
            o = ObjRef(self.alloc(t, 'tmp'), t)
            self.construct(o, [self.ev(x) for x in xs], node=n)
            return o
        if not xs:
            v = self.default_value(t)
            return (v if t.k == 'iter' else ty.zero(t)) if isinstance(v, Uninit) else v
        return self.stl.construct_value(self, t, xs, n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n):
        t = self.typ(n)
        if t.k == 'class':
            o = ObjRef(self.alloc(t, 'tmp'), t)
            self.ctor_into(o, n)
            return o
        return self.init_list(n, t)

    def e_CXXStdInitializerListExpr(self, n):
        return self.inner(n)

    def e_LambdaExpr(self, n):
        # captures by reference or this: the body is evaluated in the defining frame
        return LambdaVal(n, self.frames[-1], None)

    def call_lambda(self, lam, args):
        """inline a lambda's body; args are values or lvalues"""
        rec = lam.node['inner'][0]
        op = [x for x in rec.get('inner', []) if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()']
        if not op:
            raise Unsupported('generic lambda')
        op = op[0]
        from .ast import Func
        f = Func('lambda', op, None)
        # captured variables: the body refers to the original declarations
        fr = self.new_frame(f, lam.frame.this)
        fr.map = dict(lam.frame.map)
        fr.ret = ty.parse(f.ret)

        def body():
            self.frames.append(fr)
            for p, a in zip(f.params, args):
                self.bind_param(p, self.typ(p), a)
            self.exec(f.body)
        base = self.st
        outs = self.explore(body)
        for o in outs:
            if o.kind == 'return':
                o.kind = 'normal'
        return self.join(base, outs)

    def e_CXXNewExpr(self, n):
        t = self.typ(n)[1] if self.typ(n).k == 'ptr' else self.typ(n)
        if n.get('isArray'):
            return self.stl.new_array(self, n, t)
        inner = n.get('inner', [])
        if t.k == 'class':
            o = ObjRef(self.alloc(t, 'new'), t)
            ini = [x for x in inner if x['kind'] not in ('CXXDefaultArgExpr',)]
            if ini:
                self.ctor_into(o, ini[-1])
            else:
                self.construct(o, [])
            return o.addr
        raise Unsupported('new %r' % (t,))

    def e_CXXDeleteExpr(self, n):
        v = self.load(self.inner(n))
        t = self.typ(n['inner'][0])
        if n.get('isArray') and t.k == 'ptr' and t[1].k in ('float', 'int') and is_z3(v):
            f = self.stl.mem_field(self, t[1])
            old = self.hget(f, v)
            dead = vmk(sort(T(('vec', t[1]))), z3.IntVal(0), ty.varr(old))
            self.hset(f, v, z3.If(v == 0, old, dead))         # a later access is out of bounds
        return None      # the object is dead; nothing may refer to it (assumed)

    def e_CXXThrowExpr(self, n):
        raise Exit('throw', 'throw@%s' % self.where(n))

    # operators
    def e_UnaryOperator(self, n):
        op = n['opcode']
        x = n['inner'][0]
        if op == '&':
            v = self.ev(x)
            return self.stl.addr_of(self, v, n)
        if op == '*':
            v = self.ev(x)
            v2 = self.load(v) if isinstance(v, LV) else v
            t = self.typ(x)
            if isinstance(v2, ObjRef):
                return v2
            if t.k in ('ptr', 'uptr') and t[1].k == 'class':
                return ObjRef(v2, t[1])
            return self.stl.deref(self, v2, t, n)
        if op in ('++', '--'):
            lv = self.ev(x)
            v = self.load(lv)
            if isinstance(v, IterVal):
                nv = self.stl.iter_step(self, v, 1 if op == '++' else -1)
            else:
                t = strip_ref(lv.t)
                nv = self.arith('+' if op == '++' else '-', v, z3.IntVal(1) if v.sort() == z3.IntSort() else
                                z3.RealVal(1), t, n)
            self.store(lv, nv)
            return v if n.get('isPostfix') else lv
        v = self.load(self.ev(x))
        if op == '!':
            return NOT(to_bool(v))
        if op == '-':
            if z3.is_int_value(v):
                return z3.IntVal(-v.as_long())
            t = self.typ(n)
            if t.k == 'int' and not t[2]:
                return z3.If(v == 0, z3.IntVal(0), (1 << t[1]) - v)
            return -v
        if op == '+':
            return v
        if op in ('__extension__',):
            return v
        raise Unsupported('unary ' + op)

    def imul(self, a, b):
        """product of two integers; with opts umul, non-linear ones are a function with the ring's laws"""
        if not self.opts.get('umul') or z3.is_int_value(a) or z3.is_int_value(b):
            return a * b
        self.axiom(('umul',), umul_axioms())
        return imulf(a, b)

    def rmul(self, a, b):
        if not self.opts.get('umul') or z3.is_rational_value(a) or z3.is_rational_value(b):
            return a * b
        self.axiom(('urmul',), urmul_axioms())
        return rmulf(a, b)

    def arith(self, op, a, b, t, n=None):
        if t.k == 'float':
            a, b = self.convert(a, t, None), self.convert(b, t, None)
            if op == '+':
                r = a + b
            elif op == '-':
                r = a - b
            elif op == '*':
                r = self.rmul(a, b)
            elif op == '/':
                if self.opts.get('check_fdiv'):
                    self.oblige('no division by zero', b != 0, n, 'safety')
                if self.opts.get('umul') and not z3.is_rational_value(b):
                    self.axiom(('urmul',), urmul_axioms())
                    r = rdivf(a, b)
                else:
                    r = a / b
                if not z3.is_rational_value(b) and self.opts.get('div_facts'):
                    self.axiom(('fdiv', r.sexpr()), [z3.Implies(b > 0, z3.And((r < 1) == (a < b), (r > 0) == (a > 0),
                                                                              (r == 0) == (a == 0)))])
            else:
                raise Unsupported('float ' + op)
            if self.opts.get('rounding') and t == ('float', 32):
                return self.round32(r)
            return r
        a, b = to_int(a), to_int(b)
        lit = z3.is_int_value(a) and z3.is_int_value(b)
        uns = t.k == 'int' and not t[2]
        M = 1 << (t[1] if t.k == 'int' else 64)
        if lit and op in '+-*':
            x, y = a.as_long(), b.as_long()
            r = {'+': x + y, '-': x - y, '*': x * y}[op]
            return z3.IntVal(r % M if uns else r)
        if op == '+':
            if z3.is_int_value(b) and b.as_long() == 0:
                return a
            r = a + b
            return z3.If(r < M, r, r - M) if uns and t[1] >= 32 else r
        if op == '-':
            r = a - b
            return z3.If(r >= 0, r, r + M) if uns else r
        if op == '*':
            return self.imul(a, b)
        if op in '/%':
            if not z3.is_int_value(b) or b.as_long() == 0:
                self.oblige('divisor is not zero', b != 0, n, 'safety')
            if z3.is_int_value(b) and b.as_long() > 0:
                c = b.as_long()
                if lit:
                    q = abs(a.as_long()) // c * (1 if a.as_long() >= 0 else -1)
                    return z3.IntVal(q if op == '/' else a.as_long() - q * c)
                if uns:
                    return a / b if op == '/' else a % b
                if op == '/':
                    return z3.If(a >= 0, a / b, -((-a) / b))
                return z3.If(a >= 0, a % b, -((-a) % b))
            q, r = tdivf(a, b), tmodf(a, b)
            bq = self.imul(q, b) if self.opts.get('umul') else b * q
            self.axiom(('divmod', a.get_id(), b.get_id(), a.sexpr() if a.num_args() == 0 else 0), [
                z3.Implies(z3.And(0 <= a, a < b), z3.And(r == a, q == 0)),
                z3.Implies(z3.And(a == b, b != 0), z3.And(r == 0, q == 1)),
                z3.Implies(z3.And(a >= 0, b > 0), z3.And(0 <= r, r < b, q >= 0, q <= a, a == bq + r)),
                z3.Implies(z3.And(a < 0, b > 0), z3.And(-b < r, r <= 0, a == bq + r)),
                z3.Implies(b < 0, a == bq + r)])
            return q if op == '/' else r
        if op == '<<' and z3.is_int_value(b):
            return a * (1 << b.as_long())
        if op == '>>' and z3.is_int_value(b):
            return a / (1 << b.as_long())
        if op in ('&', '|') and lit:
            return z3.IntVal(a.as_long() & b.as_long() if op == '&' else a.as_long() | b.as_long())
        if op in ('&', '|', '^', '<<', '>>'):
            return self.fresh('bitop', t)
        raise Unsupported('operator ' + op)

    def e_BinaryOperator(self, n):
        op = n['opcode']
        x, y = n['inner']
        if op == '=':
            lv = self.ev(x)
            t = self.typ(x)
            if t.k == 'class':
                v = self.ev(y)
                if isinstance(lv, ObjRef) and isinstance(v, ObjRef):
                    self.copy_obj(lv, v)
                    return lv
                raise Unsupported('class assignment')
            v = self.ev(y)
            v = v.addr if isinstance(v, ObjRef) and t.k in ('ptr', 'uptr') else self.take(v, t)
            self.store(lv, v)
            return lv
        if op == ',':
            self.ev(x)
            return self.ev(y)
        if op in ('&&', '||'):
            a = self.cond(x)
            if op == '&&' and z3.is_false(a) or op == '||' and z3.is_true(a):
                return a
            if op == '&&' and z3.is_true(a) or op == '||' and z3.is_false(a):
                return self.cond(y)
            g = a if op == '&&' else NOT(a)
            r = self.guarded(g, lambda: self.cond(y))
            if r is None:
                c = self.decide([a, NOT(a)])
                if op == '&&':
                    return self.cond(y) if c == 0 else z3.BoolVal(False)
                return z3.BoolVal(True) if c == 0 else self.cond(y)
            return z3.And(a, r) if op == '&&' else z3.Or(a, r)
        a, b = self.ev(x), self.ev(y)
        a = a.addr if isinstance(a, ObjRef) else self.load(a)
        b = b.addr if isinstance(b, ObjRef) else self.load(b)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, self.typ(x))
        t = self.typ(n)
        if t.k in ('ptr', 'cstr'):
            return self.stl.ptr_arith(self, op, a, b, t, n)
        return self.arith(op, a, b, t, n)

    def guarded(self, g, fn):
        """evaluate fn under condition g without forking; None if it has side effects or forks"""
        base = self.st
        base_n = base.n

        def run():
            self.assume(g)
            return fn()
        if not self.feasible(g):
            base.n += 1
            return z3.BoolVal(True) if False else self._dead(g)
        outs = self.explore(run)
        if len(outs) != 1 or outs[0].kind != 'normal':
            base.n = base_n
            return None
        o = outs[0]
        if self.diff_roots(base, o.st) or not o.st.clock.eq(base.clock) or o.st.ghost != base.ghost:
            base.n = base_n
            return None
        for k, f in o.st.ax.items():
            base.ax.setdefault(k, f)
        extra = o.st.pc[len(base.pc) + 1:] if not z3.is_true(g) else o.st.pc[len(base.pc):]
        if extra:
            base.pc.append(z3.Implies(g, AND(extra)))
        self.st = base
        return o.val

    def _dead(self, g):
        return z3.BoolVal(True)

    def compare(self, op, a, b, t=None):
        if isinstance(a, IterVal) or isinstance(b, IterVal):
            return self.stl.iter_cmp(self, op, a, b)
        if a is NULLSTR or b is NULLSTR:
            o = b if a is NULLSTR else a
            isn = self.stl.is_null_str(self, o)
            return isn if op == '==' else NOT(isn)
        if isinstance(a, StreamVal) or isinstance(b, StreamVal):
            raise Unsupported('stream comparison')
        if a.sort() != b.sort():
            if a.sort() == z3.BoolSort() and b.sort() == z3.IntSort():
                a = to_int(a)
            elif b.sort() == z3.BoolSort() and a.sort() == z3.IntSort():
                b = to_int(b)
            elif a.sort() == z3.IntSort() and b.sort() == z3.RealSort():
                a = z3.ToReal(a)
            elif b.sort() == z3.IntSort() and a.sort() == z3.RealSort():
                b = z3.ToReal(b)
            else:
                raise Unsupported('comparison of %s and %s' % (a.sort(), b.sort()))
        if op == '==':
            r = a == b
        elif op == '!=':
            r = a != b
        elif a.sort() == z3.BoolSort():
            a, b = to_int(a), to_int(b)
            r = {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op]
        else:
            r = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
        if all(z3.is_int_value(x) or z3.is_rational_value(x) or z3.is_string_value(x) for x in (a, b)):
            return z3.simplify(r)
        return r

    def e_CompoundAssignOperator(self, n):
        x, y = n['inner']
        op = n['opcode'][:-1]
        # evaluate the right-hand side first (C++17 order); operands here are independent
        b = self.load(self.ev(y))
        lv = self.ev(x)
        a = self.load(lv)
        if a.sort() == z3.StringSort():
            raise Unsupported('string compound assignment')
        ct = n.get('computeResultType', n['type'])
        t = ty.parse(ct.get('desugaredQualType', ct['qualType']))
        lt = self.typ(x)
        if lt.k in ('ptr', 'cstr'):
            r = self.stl.ptr_arith(self, op, a, b, lt, n)
            self.store(lv, r)
            return lv
        r = self.arith(op, a, b, t, n)
        if lt.k == 'int' and t.k == 'float':
            r = self.real_to_int(r, lt)
        elif lt.k == 'int' and t.k == 'int':
            r = self.int_cast(r, lt, t) if lt != t else r
        elif lt.k == 'float':
            r = self.convert(r, lt, None)
            if t != lt:
                r = self.to_float(r, lt)
        self.store(lv, r)
        return lv

    def e_ConditionalOperator(self, n):
        c, x, y = n['inner']
        cv = self.cond(c)
        if z3.is_true(cv):
            return self.ev(x)
        if z3.is_false(cv):
            return self.ev(y)
        t = self.typ(n)
        if t.k != 'void':
            a = self.guarded(cv, lambda: self._rv(x))
            b = self.guarded(NOT(cv), lambda: self._rv(y)) if a is not None else None
            if a is not None and b is not None and is_z3(a) and is_z3(b) and a.sort() == b.sort():
                return z3.If(cv, a, b)
        base = self.st

        def run():
            return self.ev(x) if self.decide([cv, NOT(cv)]) == 0 else self.ev(y)
        return self.join(base, self.explore(run))

    def _rv(self, x):
        return self.load(self.ev(x))

    def e_ArraySubscriptExpr(self, n):
        x, y = n['inner']
        b = self.ev(x)
        i = self.load(self.ev(y))
        return self.stl.subscript(self, b, i, n, self.typ(x))

    # calls
    def callee(self, n):
        n = n['inner'][0]
        while n['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            n = n['inner'][0]
        return n

    def args(self, nodes):
        out = []
        for x in nodes:
            if x['kind'] == 'CXXDefaultArgExpr':
                break
            out.append(self.ev(x))
        return out

    def e_CallExpr(self, n):
        c = self.callee(n)
        nodes = n['inner'][1:]
        if c['kind'] == 'DeclRefExpr':
            rd = c['referencedDecl']
            i = rd['id']
            if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
                f = self.prog.by_id.get(i)
                if f is not None:
                    return self.call_func(f, None, self.args(nodes), n)
                return self.stl.call(self, rd, nodes, n)
            if rd['kind'] in ('VarDecl', 'ParmVarDecl'):
                v = self.ev(c)
                v = self.load(v)
                if isinstance(v, LambdaVal):
                    return self.call_lambda(v, self.args(nodes))
        if c['kind'] == 'MemberExpr':
            # static member function through an object
            f = self.prog.by_id.get(c.get('referencedMemberDecl'))
            if f is not None:
                return self.call_func(f, None, self.args(nodes), n)
        if c['kind'] == 'LambdaExpr':
            return self.call_lambda(self.ev(c), self.args(nodes))
        raise Unsupported('call of ' + c['kind'])

    def e_CXXMemberCallExpr(self, n):
        c = n['inner'][0]
        while c['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            c = c['inner'][0]
        if c['kind'] != 'MemberExpr':
            raise Unsupported('member call through ' + c['kind'])
        nodes = n['inner'][1:]
        base = c['inner'][0]
        f = self.prog.by_id.get(c.get('referencedMemberDecl'))
        b = self.ev(base)
        bt = self.typ(base)
        if f is not None:
            if c.get('isArrow') and not isinstance(b, ObjRef):
                v = self.load(b)
                b = ObjRef(v, bt[1])
            if isinstance(b, LV):
                b = self.load(b)
            return self.call_func(f, b, self.args(nodes), n)
        if c.get('isArrow') and not isinstance(b, (ObjRef, StreamVal)):
            if bt.k in ('ptr',) and bt[1].k == 'class':
                b = ObjRef(self.load(b), bt[1])
        return self.stl.method(self, b, strip_ref(bt), c['name'], nodes, n)

    def e_CXXOperatorCallExpr(self, n):
        c = self.callee(n)
        nodes = n['inner'][1:]
        rd = c['referencedDecl']
        f = self.prog.by_id.get(rd['id'])
        name = rd['name']
        if f is not None:
            a = self.args(nodes)
            if f.cls is not None and not f.static:
                this = a[0]
                if isinstance(this, LV):
                    this = self.load(this)
                return self.call_func(f, this, a[1:], n)
            return self.call_func(f, None, a, n)
        return self.stl.operator(self, name, nodes, n)


class _Sentinel:
    pass


DEFAULT = _Sentinel()
NULLSTR = _Sentinel()
