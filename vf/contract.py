"""Contracts: requires / ensures / modifies / exit conditions on functions of /repo; their verification and use."""
import os, time, subprocess, tempfile, hashlib
import z3
from . import types as ty
from .types import T, sort, strip_ref
from .engine import (Executor, Unsupported, ObjRef, LV, Exit, born, akind, is_z3, Obligation, AND, State, IterVal,
                     StreamVal, Outcome, TupVal)


class Missing(Exception):
    """a function or role the contract refers to is not in the source any more"""


class Ctx:
    """what a contract formula can talk about"""
    def __init__(self, ex, func, this, args, pre, node=None):
        self.ex, self.func, self.this, self.args, self.old = ex, func, this, args, pre
        self.new, self.res, self.node = None, None, node

    def st(self, new):
        return self.new if new else self.old

    def f(self, name, obj=None, old=False):
        """field value"""
        o = obj or self.this
        st = self.old if old or self.new is None else self.new
        return self.ex.load_in(st, self.ex.field(o, name))

    def fo(self, name, obj=None):
        return self.f(name, obj, old=True)

    def arg(self, i, old=False):
        st = self.old if old or self.new is None else self.new
        a = self.args[i]
        if isinstance(a, (ObjRef, IterVal, StreamVal)):
            return a
        if isinstance(a, LV):
            return self.ex.load_in(st, a)
        return a

    def argo(self, i):
        return self.arg(i, old=True)

    def g(self, name, addr, old=False):
        """ghost heap field"""
        st = self.old if old or self.new is None else self.new
        return self.ex.hget(name, addr, st)

    def glob(self, q, old=False):
        st = self.old if old or self.new is None else self.new
        key = ('g', q)
        if key not in self.ex.vtypes:
            n = self.ex.prog.globals_by_name.get(q)
            if n is None:
                raise Missing('global ' + q)
            self.ex.vtypes[key] = self.ex.typ(n)
            self.ex.vnames[key] = q
        if key not in st.env:
            st.env[key] = self.ex.global_init(key)
        return st.env[key]


class Contract:
    """one function's contract; the callables get a Ctx"""
    def __init__(self, name, sel, pre=None, post=None, modifies=None, exits=None, inline=False, invgens=(), setup=None,
                 allocates=(), opts=None, trusted=False, pure=False, note='', fresh_result=None, axioms=None,
                 npaths=None, frame=True, lemmas=None, verify=True, noreturn=None, iters=None,
                 ghost_exit=None, mkres=None):
        self.name, self.sel = name, sel
        self.pre, self.post, self.modifies, self.exits = pre, post, modifies, exits
        self.inline, self.invgens, self.setup, self.allocates = inline, list(invgens), setup, list(allocates)
        self.opts, self.trusted, self.note = opts or {}, trusted, note
        self.axioms, self.frame, self.lemmas, self.verify_it = axioms, frame, lemmas, verify
        self.noreturn, self.iters, self.ghost_exit = noreturn, iters, ghost_exit
        self.mkres = mkres

    def matches(self, func):
        q, npar, pts = (self.sel + (None, None))[:3]
        if func.qname != q:
            return False
        if npar is not None and len(func.params) != npar:
            return False
        if pts is not None:
            import re
            return all(re.search(a, b) for a, b in zip(pts, func.ptypes()))
        return True

    def named(self, x):
        r = []
        for i, y in enumerate(x or []):
            r.append(y if isinstance(y, tuple) else ('%d' % i, y))
        return r

    # ------------------------------------------------------ at a call site
    def apply(self, ex, func, this, args, node):
        args = self.norm_args(ex, func, args)
        old = ex.st.clone()
        c = Ctx(ex, func, this, args, old, node)
        if self.iters is not None:
            lv = self.iters(ex, this)
            for a in args:
                if isinstance(a, IterVal) and not a.c.same(lv):
                    raise Unsupported('%s: iterators into another container' % self.name)
        for nm, p in self.named(self.pre(c) if self.pre else []):
            ex.oblige('%s requires %s' % (self.name, nm), p, node, 'pre')
        if self.exits is not None:
            e = self.exits(c)
            if e is True:
                ok = z3.Bool('returns@%s%d' % (ex.st.pid, ex.st.n))
                ex.st.n += 1
                if ex.decide([ok, z3.Not(ok)]) == 1:
                    raise Exit('callee', self.name)
            elif e is not None and not z3.is_false(e):
                # exits(c): the callee may leave only when e holds
                ok = z3.Bool('returns@%s%d' % (ex.st.pid, ex.st.n))
                ex.st.n += 1
                if ex.decide([ok, z3.And(z3.Not(ok), e)]) == 1:
                    raise Exit('callee', self.name)
        old = ex.st.clone()
        c.old = old
        mods = list(self.modifies(c) if self.modifies else [])
        for r in mods:
            if isinstance(r, LV):
                self.havoc_lv(ex, r)
            elif r[0] == 'h*':
                ft = ex.field_type(r[1])
                ex.st.heap[r[1]] = ex.fresh('H' + r[1], z3.ArraySort(z3.IntSort(), sort(ft)))
            elif r[0] == 'h':
                ex.hset(r[1], r[2], ex.fresh(r[1].split('::')[-1], ex.field_type(r[1])))
            elif r[0] == 'g':
                key = ('g', r[1])
                c.glob(r[1])
                ex.st.env[key] = ex.fresh(r[1], ex.vtypes[key])
            else:
                raise Unsupported('modifies %r' % (r,))
        if self.allocates:
            nc = ex.fresh('clock', z3.IntSort())
            ex.assume(nc >= old.clock)
            for f in self.allocates:
                ft = ex.field_type(f)
                cur = ex.st.heap.get(f)
                cur = ex.heap_init(f) if cur is None else cur
                nh = ex.fresh('H' + f, z3.ArraySort(z3.IntSort(), sort(ft)))
                a = z3.Int('a!')
                ex.assume(z3.ForAll([a], z3.Implies(born(a) < old.clock, z3.Select(nh, a) == z3.Select(cur, a)),
                                    patterns=[z3.Select(nh, a)]))
                ex.st.heap[f] = nh
            ex.st.clock = nc
        rt = ty.parse(func.ret)
        res = None
        if func.kind == 'CXXConstructorDecl':
            rt = T(('void',))
        if rt.k != 'void':
            if rt.k == 'ref' and rt[1].k == 'class':
                res = ObjRef(ex.fresh('res', z3.IntSort()), rt[1])
            elif rt.k == 'class':
                res = ObjRef(ex.alloc(rt, 'res'), rt)
            elif self.mkres:
                res = None
            else:
                res = ex.fresh('res_' + func.qname.split('::')[-1], strip_ref(rt))
        c.new, c.res = ex.st, res
        if hasattr(self, 'mkres') and self.mkres:
            res = c.res = self.mkres(c)
        for nm, p in self.named(self.post(c) if self.post else []):
            ex.assume(p)
        if self.noreturn:
            raise Exit('abort', self.name)
        return res

    def norm_args(self, ex, func, args):
        out = []
        for i, p in enumerate(func.params):
            t = ex.typ(p)
            if i < len(args) and args[i] is not None and not (hasattr(args[i], '__class__') and
                                                             args[i].__class__.__name__ == '_Sentinel'):
                v = args[i]
            else:
                v = ex.ev(ex.default_arg(func, i))
            if t.k == 'ref':
                if v.__class__.__name__ == 'Moved':
                    v = v.lv
                if isinstance(v, LV) and v.kind == 'var' and isinstance(ex.st.env.get(v.a), (IterVal, StreamVal)):
                    v = ex.st.env[v.a]
                if isinstance(v, LV) and v.kind == 'var' and isinstance(ex.st.env.get(v.a), LV):
                    v = ex.st.env[v.a]
                if is_z3(v):
                    v = LV('tmp', ex.convert(v, t[1], None), None, t[1])
            elif t.k == 'class':
                pass
            else:
                if isinstance(v, ObjRef) and t.k in ('ptr', 'uptr'):
                    v = v.addr
                else:
                    v = ex.take(v, t)
            out.append(v)
        return out

    def havoc_lv(self, ex, lv):
        ex.store(lv, ex.fresh('mod', strip_ref(lv.t)))

    # ------------------------------------------------------ verification of the body
    def verify(self, ex, func):
        """generate the obligations of func against this contract"""
        ex.cur = func.qname
        st = ex.st = State()
        st.pid = 'v'
        this = None
        ex.frames = []
        st.clock = z3.Int('clock0')
        if func.cls is not None and not func.static and func.kind != 'FunctionDecl':
            a = z3.Int('this')
            this = ObjRef(a, T(('class', func.cls)))
            st.pc += [a > 0, akind(a) == 0]
            if func.kind == 'CXXConstructorDecl':
                st.pc += [born(a) == st.clock]
                st.clock = st.clock + 1
            else:
                st.pc += [born(a) < st.clock]
        args = []
        for i, p in enumerate(func.params):
            t = ex.typ(p)
            nm = 'p_' + (p.get('name') or str(i))
            if t.k == 'ref' and t[1].k == 'class' or t.k == 'class':
                ct = strip_ref(t)
                a = z3.Int(nm)
                st.pc += [a > 0, born(a) < st.clock]
                if ct[1].startswith('std::'):
                    args.append(StreamVal(nm))
                else:
                    args.append(ObjRef(a, ct))
            elif t.k == 'ref' and t[1].k == 'iter':
                args.append(self.iter_param(ex, i, t[1], this))
            elif t.k == 'iter':
                args.append(self.iter_param(ex, i, t, this))
            elif t.k == 'ref':
                key = ('p', nm)
                ex.vtypes[key] = t[1]
                ex.vnames[key] = p.get('name', '?')
                st.env[key] = ex.fresh(nm, t[1])
                args.append(LV('var', key, None, t[1]))
            else:
                v = ex.fresh(nm, t)
                if t.k in ('ptr', 'uptr'):
                    st.pc.append(z3.Or(v == 0, born(v) < st.clock))
                args.append(v)
        # heap well-formedness is assumed per contract (c.pre)
        c = Ctx(ex, func, this, args, None)
        if self.setup:
            self.setup(c)
        c.old = ex.st
        c.new = None
        args = c.args
        ex.axioms = list(self.axioms(c) if self.axioms else [])
        for nm, p in self.named(self.pre(c) if self.pre else []):
            ex.assume(p)
        old = ex.st.clone()
        c.old = old
        ex.invgens = [(lambda g: (lambda L: g(L, c)))(g) for g in self.invgens]
        ex.entry_state = old
        perm = self.exits(c) if self.exits else None

        def exit_check(e):
            if perm is True:
                return None
            if e.kind == 'assert':
                return z3.BoolVal(False)
            if perm is None:
                return z3.BoolVal(False)
            return perm
        ex.exit_check = exit_check
        base = ex.st

        def body():
            return ex.run_body(func, this, args)
        outs = ex.explore(body)
        ex.exit_check = None
        merged = []
        for o in outs:
            o.kind = 'normal'
        if len(outs) > 1 and self.opts.get('merge'):
            m = ex.merge(base, outs)
            outs = [m] if m is not None else outs
        for o in outs:
            ex.st = o.st
            c.new, c.res = o.st, o.val
            if isinstance(c.res, LV) and ty.parse(func.ret).k != 'ref':
                c.res = ex.load(c.res)
            if self.ghost_exit:
                self.ghost_exit(c)
            for nm, p in self.named(self.post(c) if self.post else []):
                ex.oblige('%s ensures %s' % (self.name, nm), p, None, 'post')
            if self.frame:
                self.frame_check(ex, c, old, o.st)
        return len(outs)

    def iter_param(self, ex, i, t, this):
        """iterators given to the function point into the container the contract names"""
        if self.iters is None:
            raise Unsupported('iterator parameter')
        lv = self.iters(ex, this)
        p = ex.fresh('pos%d' % i, z3.IntSort())
        return IterVal(lv, p, strip_ref(lv.t))

    def frame_check(self, ex, c, old, new):
        c2 = c
        mods = list(self.modifies(c2) if self.modifies else [])
        hm, whole, vm = {}, set(), []
        for r in mods:
            if isinstance(r, LV):
                q = r.root()
                if q.kind == 'heap':
                    hm.setdefault(q.a, []).append(q.b)
                elif q.kind == 'var':
                    vm.append(q.a)
            elif r[0] == 'h*':
                whole.add(r[1])
            elif r[0] == 'h':
                hm.setdefault(r[1], []).append(r[2])
            elif r[0] == 'g':
                vm.append(('g', r[1]))
        for d in ex.diff_roots(old, new):
            if d[0] == 'v':
                k = d[1]
                if k in vm:
                    continue
                if isinstance(k, tuple) and k[0] in ('p', 'g'):
                    x, y = old.env.get(k), new.env.get(k)
                    if is_z3(x) and is_z3(y):
                        ex.oblige('%s modifies only what it may: %s' % (self.name, ex.vnames.get(k, k)), x == y, None,
                                  'frame')
                continue
            f = d[1]
            if f in whole or f.startswith('$local'):
                continue
            if f in getattr(self, 'ignore_fields', ()):
                continue
            x = old.heap.get(f)
            x = ex.heap_init(f) if x is None else x
            y = new.heap[f]
            if d[2] is not None:
                a = d[2]
                if any(a.eq(q) for q in hm.get(f, [])):
                    continue
                ctor_this = c.this is not None and a.eq(c.this.addr) and c.func.kind == 'CXXConstructorDecl'
                if ctor_this:
                    continue
                allow = [a == q for q in hm.get(f, [])]
                ex.oblige('%s modifies only what it may: %s' % (self.name, f),
                          z3.Or(born(a) >= old.clock - (1 if c.func.kind == 'CXXConstructorDecl' else 0),
                                sel_eq(x, y, a), *allow), None, 'frame')
            else:
                a = z3.Int('af!')
                lim = old.clock - (1 if c.func.kind == 'CXXConstructorDecl' else 0)
                ex.oblige('%s modifies only what it may: %s' % (self.name, f),
                          z3.ForAll([a], z3.Implies(z3.And(born(a) < lim, *[a != q for q in hm.get(f, [])]),
                                                    z3.Select(y, a) == z3.Select(x, a))), None, 'frame')


def sel_eq(x, y, a):
    return z3.Select(x, a) == z3.Select(y, a)


class Registry:
    def __init__(self, contracts):
        self.all = list(contracts)

    def lookup(self, func):
        for k in self.all:
            if k.matches(func):
                return k
        return None


# ---------------------------------------------------------------------- discharging
Z3_MS = int(os.environ.get('VF_Z3_MS', '20000'))
CVC5_S = int(os.environ.get('VF_CVC5_S', '30'))


def smt2(o, axioms=()):
    s = z3.Solver()
    for h in o.hyps:
        s.add(h)
    s.add(z3.Not(o.goal))
    return s.to_smt2()


def run_cvc5(text, secs, extra=()):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        t = text.replace('(check-sat)', '')
        f.write('(set-logic ALL)\n' + t + '\n(check-sat)\n')
        name = f.name
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (secs * 1000), '--full-saturate-quant',
                            '--strings-exp'] + list(extra) + [name],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 10)
        out = p.stdout.decode(errors='replace').strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(name)
    return out


def check_text(job):
    """worker: (smt2 text, ms, cvc5 seconds) -> (status, backend, secs, model text)"""
    text, ms, cs = job
    t0 = time.time()
    ctx = z3.Context()
    model = ''
    st = 'unknown'
    sched = [('z3s', min(4000, ms)), ('z3', min(3000, ms)), ('z3e', min(3000, ms)), ('cvc5', min(6, cs)), ('z3s', ms), ('z3', ms), ('z3e', ms // 2), ('cvc5', cs)]
    done = set()
    for kind, lim in sched:
        if not lim or (kind, lim) in done:
            continue
        done.add((kind, lim))
        if kind == 'cvc5':
            out = run_cvc5(text, lim)
            if out == 'unsat':
                return ('proved', 'cvc5', time.time() - t0, '')
            if out == 'sat':
                return ('refuted', 'cvc5', time.time() - t0, model)
            continue
        s = z3.SimpleSolver(ctx=ctx) if kind == 'z3s' else z3.Solver(ctx=ctx)
        s.set('timeout', lim)
        if kind == 'z3s':
            s.set('smt.mbqi', False)
        if kind == 'z3e':
            s.set('random_seed', 7)
            s.set('smt.mbqi', False)
        s.from_string(text)
        r = s.check()
        if r == z3.unsat:
            return ('proved', 'z3', time.time() - t0, '')
        if r == z3.sat:
            try:
                m = s.model()
                model = '\n'.join(sorted('%s = %s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0))[:6000]
            except z3.Z3Exception:
                model = ''
            return ('refuted', 'z3', time.time() - t0, model)
    return ('unknown', 'z3+cvc5', time.time() - t0, model)


_spent = 0.0


def discharge(obls, procs=8, ms=None, cs=None):
    """decide every obligation; returns the list with status filled in"""
    import multiprocessing as mp
    ms = ms or Z3_MS
    cs = CVC5_S if cs is None else cs
    jobs = []
    for o in obls:
        if o.status == 'proved' or (o.status and o.backend):
            continue
        if o.text is None and z3.is_true(z3.simplify(o.goal)):
            o.status, o.backend = 'proved', 'simplifier'
            continue
        jobs.append(o)
    texts = [(o.text or smt2(o), ms, cs) for o in jobs]
    if len(jobs) == 0:
        return obls
    global _spent
    t0 = time.time()
    end = t0 + max(20, float(os.environ.get('VF_SOLVE', '280')) * max(1, ms / 20000) - _spent)
    with mp.get_context('fork').Pool(min(procs, len(jobs))) as pool:
        rs = [pool.apply_async(check_text, (t,)) for t in texts]
        for o, r in zip(jobs, rs):
            try:
                o.status, o.backend, o.secs, o.model = r.get(max(0.05, end - time.time()))
            except mp.TimeoutError:
                o.status = 'undecided'          # not within the time for all obligations: no verdict on it
        pool.terminate()
    _spent += time.time() - t0
    return obls
