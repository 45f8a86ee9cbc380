"""Contracts of the PolicyNet network (C15, and C01's range of its choices).

Arrays are blocks of memory (mem:f64: address -> length and contents); a freed block has length 0, so every access is
proved to lie in a live allocation. Non-linear products are a function with the laws of multiplication."""
import z3
from .. import types as ty
from ..types import T, sort, vlen, varr, FA
from ..contract import Contract, Missing
from ..engine import born, akind, addk, subk, imulf, rmulf, umul_axioms, urmul_axioms
from ..engine import rdivf
from ..stl import exp_f
from .common import role

F64 = T(('float', 64))
I32 = T(('int', 32, True))
MEM = 'mem:' + ty.tname(F64)
MEMI = 'mem:' + ty.tname(I32)
I, R = z3.IntSort(), z3.RealSort()
RA = z3.ArraySort(I, R)
FC = 'apollo::FCLayer'
RE = 'apollo::ReLU'
SM = 'apollo::Softmax'
ROW = z3.Function('row', I, I, I)
COL = z3.Function('col', I, I, I)
DOT = z3.Function('dot', RA, RA, I, I, I, R)               # sum over k < n of A[p+k]*B[q+k]
SDOT = z3.Function('sdot', RA, RA, I, I, I, I, I, R)       # sum over i < n of A[i*s+p]*B[i*t+q]
SSUM = z3.Function('ssum', RA, I, I, I, R)                 # sum over i < n of A[i*s+p]
VLIM = 2**31


def M(a, b):
    return imulf(a, b)


def index_hook(ex, i):
    """an index a*b + c with 0 <= c < b lies in row a, column c"""
    if not (z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ADD):
        return
    for x in i.children():
        if z3.is_app(x) and x.decl().eq(imulf):
            c = i - x if i.num_args() > 2 else [y for y in i.children() if not y.eq(x)][0]
            for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                ex.axiom(('rc', i.sexpr(), a.sexpr()), [z3.Implies(z3.And(0 <= c, c < b, 0 <= a), z3.And(
                    ROW(i, b) == a, COL(i, b) == c))])


def rc_facts(st, n):
    """every index is row * n + column"""
    p = z3.Int('prc')
    r, q = ROW(p, n), COL(p, n)
    put(st, ('rc', n.sexpr()), [FA([p], z3.Implies(z3.And(n > 0, p >= 0), z3.And(
        r >= 0, q >= 0, q < n, M(r, n) + q == p)), [r])])


def put(st, key, fs):
    for j, f in enumerate(fs):
        st.ax.setdefault(('pn',) + key + (j,), f)


def mem(c, a, st):
    return c.ex.hget(MEM, a, st)


def mul_facts(st):
    put(st, ('mul',), umul_axioms() + urmul_axioms())


def dot_facts(st, a, b, p, q, n):
    m = subk(n, 1)
    put(st, ('dot', a.get_id(), b.get_id(), p.sexpr(), q.sexpr(), n.sexpr()), [
        DOT(a, b, p, q, z3.IntVal(0)) == 0,
        z3.Implies(n >= 1, DOT(a, b, p, q, n) == DOT(a, b, p, q, m) + rmulf(
            z3.Select(a, p + m), z3.Select(b, q + m)))])


def sdot_facts(st, a, b, s, t, p, q, n):
    m = subk(n, 1)
    put(st, ('sdot', a.get_id(), b.get_id(), s.sexpr(), t.sexpr(), p.sexpr(), q.sexpr(), n.sexpr()), [
        SDOT(a, b, s, t, p, q, z3.IntVal(0)) == 0,
        z3.Implies(n >= 1, SDOT(a, b, s, t, p, q, n) == SDOT(a, b, s, t, p, q, m) + rmulf(
            z3.Select(a, M(m, s) + p), z3.Select(b, M(m, t) + q)))])


# ---------------------------------------------------------------- fully connected layer
ARR = ['weights', 'bias', 'weights_m', 'weights_v', 'weights_grad', 'bias_m', 'bias_v', 'bias_grad']
BUF = ['outputs', 'inputGrad']


def fld(c, obj, n, st):
    return c.ex.load_in(st, c.ex.field(obj, n))


def fc_inv(c, st, obj=None):
    o = obj or c.this
    f = lambda n: fld(c, o, n, st)
    mul_facts(st)
    i, k = f('inputSize'), f('outputSize')
    ln = lambda n: vlen(mem(c, f(n), st))
    size = {n: M(k, i) if n.startswith('weights') else k for n in ARR}
    rc_facts(st, i)
    rc_facts(st, k)
    return [('layer sizes', z3.And(i >= 1, k >= 1, M(k, i) < VLIM, i < VLIM, k < VLIM)),
            ('parameter arrays', z3.And(*[z3.And(f(n) > 0, akind(f(n)) == 0, ln(n) == size[n], born(f(n)) < st.clock)
                                          for n in ARR])),
            ('arrays are distinct', z3.Distinct(*[f(n) for n in ARR])),
            ('buffers', z3.And(f('maxBatchSize') >= 0, z3.Implies(f('outputs') != 0, buffers(c, st, o)),
                               z3.Implies(f('outputs') == 0, f('maxBatchSize') == 0)))]


def buffers(c, st, o):
    f = lambda n: fld(c, o, n, st)
    ln = lambda n: vlen(mem(c, f(n), st))
    return z3.And(
        f('outputs') > 0, f('inputGrad') > 0, akind(f('outputs')) == 0, akind(f('inputGrad')) == 0,
        born(f('outputs')) < st.clock, born(f('inputGrad')) < st.clock,
        ln('outputs') == M(f('maxBatchSize'), f('outputSize')),
        ln('inputGrad') == M(f('maxBatchSize'), f('inputSize')),
        z3.Distinct(*[f(n) for n in ARR + BUF]))


def apart(c, a, obj=None, names=ARR + BUF, st=None):
    """array a is none of the object's"""
    return z3.And(a > 0, *[a != fld(c, obj or c.this, n, st or c.old) for n in names])


def full(W, X, b, i, k, p):
    return DOT(W, X, M(COL(p, k), i), M(ROW(p, k), i), i) + z3.Select(b, COL(p, k))


def fc_out(c, st, out, W, X, b, i, k, n):
    """out[p] for p < n: weights times sample plus bias"""
    p = z3.Int('po')
    e = z3.Select(out, p)
    return FA([p], z3.Implies(z3.And(0 <= p, p < n), e == full(W, X, b, i, k, p)), [e])


def f64s(t):
    return t.k in ('vec', 'array') and t[1] == F64


def fc_forward(prog, verify=True):
    role(prog, FC, 'weights')

    def parts(c):
        st = c.old
        return (varr(mem(c, c.fo('weights'), st)), varr(mem(c, c.args[0], st)), varr(mem(c, c.fo('bias'), st)),
                c.fo('inputSize'), c.fo('outputSize'))

    def pre(c):
        i, k, B = c.fo('inputSize'), c.fo('outputSize'), c.args[1]
        return fc_inv(c, c.old) + [
            ('inputs for the batch', z3.And(B >= 1, vlen(mem(c, c.args[0], c.old)) >= M(B, i), apart(c, c.args[0]),
                                            akind(c.args[0]) == 0, M(B, i) < VLIM, M(B, k) < VLIM, B < VLIM,
                                            born(c.args[0]) < c.old.clock))]

    def post(c):
        W, X, b, i, k = parts(c)
        st = c.new
        same = lambda n: z3.And(c.f(n) == c.fo(n), mem(c, c.fo(n), st) == mem(c, c.fo(n), c.old))
        return [('returns the outputs', z3.And(c.res == c.f('outputs'), c.res > 0)),
                ('each output is weights times sample plus bias', fc_out(
                    c, st, varr(mem(c, c.res, st)), W, X, b, i, k, M(c.args[1], k))),
                ('the batch fits', c.f('maxBatchSize') >= c.args[1]),
                ('parameters are kept', z3.And(*[same(n) for n in ARR])),
                ('inputs are kept', mem(c, c.args[0], st) == mem(c, c.args[0], c.old)),
                ('sizes are kept', z3.And(c.f('inputSize') == i, c.f('outputSize') == k)),
                ('buffers are old or new', z3.And(*[z3.Or(c.f(n) == c.fo(n), born(c.f(n)) >= c.old.clock)
                                                    for n in BUF]))
                ] + fc_inv(c, st)

    def inv(L, c):
        W, X, b, i, k = parts(c)
        out = []
        own, outer = counters(L, c)
        for vn, vg in L.roots(pred=f64s):
            vn = 'out'

            def upto(cur, what, gap=0):
                def done(st):
                    return fc_out(c, st, varr(vg(st)), W, X, b, i, k, cur(st))

                def rest(st):
                    p = z3.Int('po')
                    e = z3.Select(varr(vg(st)), p)
                    return FA([p], z3.Implies(z3.And(cur(st) + gap <= p, p < M(c.args[1], k)), e == 0), [e])
                out.append(('%s done up to %s' % (vn, what), done))
                out.append(('%s zero from %s' % (vn, what), rest))
            for pn, pg in own:
                def zeroed(st, pg=pg):
                    p = z3.Int('po')
                    e = z3.Select(varr(vg(st)), p)
                    return FA([p], z3.Implies(z3.And(0 <= p, p < pg(st)), e == 0), [e])
                if len(outer) == 0:
                    out.append(('%s zero up to %s' % (vn, pn), zeroed))
                    upto(lambda st, pg=pg: M(pg(st), k), pn)
                for xn, xg in outer:
                    if len(outer) == 1:
                        upto(lambda st, pg=pg, xg=xg: M(xg(st), k) + pg(st), xn + '*k+' + pn)
                    for yn, yg in outer:
                        if xn == yn:
                            continue
                        upto(lambda st, xg=xg, yg=yg: M(xg(st), k) + yg(st), xn + '*k+' + yn + '!', 1)

                        def partial(st, xg=xg, yg=yg, pg=pg):
                            u, v, n = M(yg(st), i), M(xg(st), i), pg(st)
                            dot_facts(st, W, X, u, v, n)
                            dot_facts(st, W, X, u, v, addk(n, 1))
                            return z3.Select(varr(vg(st)), M(xg(st), k) + yg(st)) == DOT(W, X, u, v, n)
                        out.append(('%s partial %s %s %s' % (vn, xn, yn, pn), partial))
        for vn, vg in L.roots(t=F64):
            for pn, pg in own:
                for xn, xg in outer:
                    for yn, yg in outer:
                        if xn == yn:
                            continue
                        for wb in (0, 1):
                            def acc(st, xg=xg, yg=yg, pg=pg, vg=vg, wb=wb):
                                u, v, n = M(yg(st), i), M(xg(st), i), pg(st)
                                dot_facts(st, W, X, u, v, n)
                                dot_facts(st, W, X, u, v, addk(n, 1))
                                return vg(st) == DOT(W, X, u, v, n) + (z3.Select(b, yg(st)) if wb else 0)
                            out.append(('%s sum %s %s %s %d' % (vn, xn, yn, pn, wb), acc))
        return out
    return Contract('FCLayer::forward', (FC + '::forward', 2), pre=pre, post=post, invgens=[inv], allocates=[MEM],
                    modifies=lambda c: [c.ex.field(c.this, n) for n in BUF + ['maxBatchSize']] +
                    [('h', MEM, c.fo('outputs')), ('h', MEM, c.fo('inputGrad'))], verify=verify)


CDOT = z3.Function('cdot', RA, RA, I, I, I, I, R)          # sum over j < n of A[p+j]*B[j*t+q]


def zero_sums(st, G, X, W, i, k):
    p, q = z3.Ints('pz qz')
    z = z3.IntVal(0)
    a, b, d = SDOT(G, X, k, i, p, q, z), CDOT(G, W, p, i, q, z), SSUM(G, k, p, z)
    put(st, ('zs', G.get_id()), [FA([p, q], a == 0, [a]), FA([p, q], b == 0, [b]), FA([p], d == 0, [d])])


def step_sums(st, G, X, W, i, k, ci, cj, ck):
    """the sums one step further, at the element the loops are about to change"""
    n1, j1 = addk(ci, 1), addk(cj, 1)
    put(st, ('ss', G.get_id(), ci.sexpr(), cj.sexpr(), ck.sexpr()), [
        z3.Implies(ci >= 0, SDOT(G, X, k, i, cj, ck, n1) == SDOT(G, X, k, i, cj, ck, ci) + rmulf(
            z3.Select(G, M(ci, k) + cj), z3.Select(X, M(ci, i) + ck))),
        z3.Implies(cj >= 0, CDOT(G, W, M(ci, k), i, ck, j1) == CDOT(G, W, M(ci, k), i, ck, cj) + rmulf(
            z3.Select(G, M(ci, k) + cj), z3.Select(W, M(cj, i) + ck))),
        z3.Implies(ci >= 0, SSUM(G, k, cj, n1) == SSUM(G, k, cj, ci) + z3.Select(G, M(ci, k) + cj))])


def fc_grads(G, X, W, i, k, wg, ig, bg, B, ci, cj, ck):
    """the three gradients when the loops over samples, outputs, inputs stand at (ci, cj, ck)"""
    p = z3.Int('pg')
    out = []
    if wg is not None:
        e = z3.Select(wg, p)
        s = lambda n: SDOT(G, X, k, i, ROW(p, i), COL(p, i), n)
        out.append(FA([p], z3.Implies(z3.And(0 <= p, p < M(k, i)), e == z3.If(p < M(cj, i) + ck, s(addk(ci, 1)),
                                                                              s(ci))), [e]))
    if ig is not None:
        e = z3.Select(ig, p)
        s = lambda n: CDOT(G, W, M(ROW(p, i), k), i, COL(p, i), n)
        r = ROW(p, i)
        out.append(FA([p], z3.Implies(z3.And(0 <= p, p < M(B, i)), e == z3.If(
            r < ci, s(k), z3.If(r > ci, z3.RealVal(0), z3.If(COL(p, i) < ck, s(addk(cj, 1)), s(cj))))), [e]))
    if bg is not None:
        e = z3.Select(bg, p)
        out.append(FA([p], z3.Implies(z3.And(0 <= p, p < k), e == z3.If(
            p < cj, SSUM(G, k, p, addk(ci, 1)), SSUM(G, k, p, ci))), [e]))
    return out


def fc_backward(prog, verify=True):
    role(prog, FC, 'weights_grad')
    OUTS = ['weights_grad', 'inputGrad', 'bias_grad']

    def parts(c):
        st = c.old
        return (varr(mem(c, c.args[1], st)), varr(mem(c, c.args[0], st)), varr(mem(c, c.fo('weights'), st)),
                c.fo('inputSize'), c.fo('outputSize'))

    def pre(c):
        i, k, B = c.fo('inputSize'), c.fo('outputSize'), c.args[2]
        rows = lambda a, n: z3.And(vlen(mem(c, a, c.old)) >= M(B, n), apart(c, a), akind(a) == 0)
        return fc_inv(c, c.old) + [
            ('a batch seen by forward', z3.And(B >= 1, B <= c.fo('maxBatchSize'), M(B, i) < VLIM, M(B, k) < VLIM,
                                               c.fo('maxBatchSize') < VLIM, buffers(c, c.old, c.this))),
            ('inputs of the batch', rows(c.args[0], i)), ('gradients of the outputs', rows(c.args[1], k))]

    def post(c):
        G, X, W, i, k = parts(c)
        st, B = c.new, c.args[2]
        arr = lambda n: varr(mem(c, c.fo(n), st))
        z = z3.IntVal(0)
        g = lambda wg, ig, bg: fc_grads(G, X, W, i, k, wg, ig, bg, B, B, z, z)[0]
        zero_sums(st, G, X, W, i, k)
        keep = [n for n in ARR if n not in OUTS]
        return [('returns the input gradient', c.res == c.f('inputGrad')),
                ('weight gradients: sum over the batch of output gradient times input',
                 g(arr('weights_grad'), None, None)),
                ('input gradients: output gradients times weights', g(None, arr('inputGrad'), None)),
                ('bias gradients: sum of the output gradients', g(None, None, arr('bias_grad'))),
                ('other arrays are kept', z3.And(*[mem(c, c.fo(n), st) == mem(c, c.fo(n), c.old)
                                                   for n in keep + ['outputs']])),
                ] + fc_inv(c, st)

    def inv(L, c):
        G, X, W, i, k = parts(c)
        B = c.args[2]
        out = []
        own, outer = counters(L, c)
        z = lambda st: z3.IntVal(0)
        addrs = {n: c.fo(n) for n in OUTS}
        for r in L.mods:
            if r[0] != 'h' or r[1] != MEM or r[2] is None:
                continue
            role_ = [j for j, n in enumerate(OUTS) if addrs[n].eq(r[2])]
            if not role_:
                continue
            j = role_[0]
            vg = L.ex.root_getter(r)
            for pn, pg in own:
                if not outer:
                    def zeroed(st, pg=pg, vg=vg):
                        p = z3.Int('pg')
                        e = z3.Select(varr(vg(st)), p)
                        return FA([p], z3.Implies(z3.And(0 <= p, p < pg(st)), e == 0), [e])
                    out.append(('%s zero up to %s' % (OUTS[j], pn), zeroed))
                pos = []
                if len(outer) == 0:
                    pos.append((pg, z, z))
                if len(outer) == 1:
                    pos.append((outer[0][1], pg, z))
                if len(outer) >= 2:
                    for a in outer:
                        for b in outer:
                            if a[0] != b[0]:
                                pos.append((a[1], b[1], pg))
                for q, (gi, gj, gk) in enumerate(pos):
                    def at(st, gi=gi, gj=gj, gk=gk, vg=vg, j=j):
                        ci, cj, ck = gi(st), gj(st), gk(st)
                        zero_sums(st, G, X, W, i, k)
                        step_sums(st, G, X, W, i, k, ci, cj, ck)
                        v = varr(vg(st))
                        return fc_grads(G, X, W, i, k, *[v if x == j else None for x in range(3)], B, ci, cj, ck)[0]
                    out.append(('%s at %s.%d' % (OUTS[j], pn, q), at))
        return out
    return Contract('FCLayer::backward', (FC + '::backward', 3), pre=pre, post=post, invgens=[inv],
                    modifies=lambda c: [('h', MEM, c.fo(n)) for n in OUTS], verify=verify)


def counters(L, c):
    """(integers this loop changes, local integers of the enclosing loops it does not)"""
    own, outer = [], []
    for key, v in L.entry.env.items():
        t = L.ex.vtypes.get(key)
        if t is None or t.k != 'int' or not z3.is_expr(v) or not isinstance(key, tuple) or key[0] in ('p', 'g'):
            continue
        e = (L.ex.vnames.get(key, str(key)), (lambda k: lambda st: st.env[k])(key))
        if ('v', key) in L.mods:
            own.append(e)
        elif not z3.is_int_value(v) and z3.is_const(v) and not any(z3.is_expr(a) and v.eq(a) for a in c.args):
            outer.append(e)
    return own, outer




# ---------------------------------------------------------------- activations
def act_inv(c, st, obj=None):
    o = obj or c.this
    f = lambda n: fld(c, o, n, st)
    mul_facts(st)
    ln = lambda n: vlen(mem(c, f(n), st))
    one = lambda n: z3.And(f(n) > 0, akind(f(n)) == 0, born(f(n)) < st.clock, ln(n) == f('maxArraySize'))
    return [('buffers', z3.And(f('maxArraySize') >= 0, f('maxArraySize') < VLIM,
                               z3.Implies(f('outputs') != 0, z3.And(one('outputs'), one('inputGrad'),
                                                                    f('outputs') != f('inputGrad'))),
                               z3.Implies(f('outputs') == 0, f('maxArraySize') == 0)))]


def pointwise(name, val, ok=None):
    """array[p] == val(st-independent, p) for p < n"""
    def at(arr, n, lo=0):
        p = z3.Int('pp')
        e = z3.Select(arr, p)
        return FA([p], z3.Implies(z3.And(lo <= p, p < n), val(e, p)), [e])
    return at


def act_forward(cls, prog, verify=True):
    """ReLU: element-wise max(x, 0)"""
    role(prog, cls, 'outputs')

    def pre(c):
        B, n = c.args[1], c.args[2]
        return act_inv(c, c.old) + [
            ('inputs of the batch', z3.And(B >= 1, n >= 1, vlen(mem(c, c.args[0], c.old)) >= M(B, n), M(B, n) < VLIM,
                                           B < VLIM, n < VLIM, apart(c, c.args[0], names=BUF), akind(c.args[0]) == 0,
                                           born(c.args[0]) < c.old.clock))]

    def done(c, arr, n):
        X = varr(mem(c, c.args[0], c.old))
        return pointwise('relu', lambda e, p: e == z3.If(z3.Select(X, p) > 0, z3.Select(X, p), z3.RealVal(0)))(arr, n)

    def post(c):
        st = c.new
        return [('returns the outputs', z3.And(c.res == c.f('outputs'), c.res > 0)),
                ('the batch fits', c.f('maxArraySize') >= M(c.args[1], c.args[2])),
                ('each output is the positive part of its input', done(c, varr(mem(c, c.res, st)),
                                                                        M(c.args[1], c.args[2]))),
                ('inputs are kept', mem(c, c.args[0], st) == mem(c, c.args[0], c.old)),
                ('buffers are old or new', z3.And(*[z3.Or(c.f(n) == c.fo(n), born(c.f(n)) >= c.old.clock)
                                                    for n in BUF]))] + act_inv(c, st)

    def inv(L, c):
        out = []
        own, outer = counters(L, c)
        for vn, vg in L.roots(pred=f64s):
            for pn, pg in own:
                out.append(('out up to %s' % pn, lambda st, vg=vg, pg=pg: done(c, varr(vg(st)), pg(st))))
        return out
    return Contract('ReLU::forward', (cls + '::forward', 3), pre=pre, post=post, invgens=[inv], allocates=[MEM],
                    modifies=lambda c: [c.ex.field(c.this, n) for n in BUF + ['maxArraySize']] +
                    [('h', MEM, c.fo('outputs')), ('h', MEM, c.fo('inputGrad'))], verify=verify)


def act_backward(cls, prog, verify=True):
    role(prog, cls, 'inputGrad')

    def pre(c):
        B, n = c.args[2], c.args[3]
        rows = lambda a: z3.And(vlen(mem(c, a, c.old)) >= M(B, n), a > 0, a != c.fo('inputGrad'), akind(a) == 0)
        return act_inv(c, c.old) + [
            ('a batch seen by forward', z3.And(B >= 1, n >= 1, M(B, n) <= c.fo('maxArraySize'), B < VLIM, n < VLIM)),
            ('inputs of the batch', rows(c.args[0])), ('gradients of the outputs', rows(c.args[1]))]

    def done(c, arr, n):
        X, G = varr(mem(c, c.args[0], c.old)), varr(mem(c, c.args[1], c.old))

        def val(e, p):
            x, g = z3.Select(X, p), z3.Select(G, p)
            return z3.And(z3.Implies(x > 0, e == g), z3.Implies(x < 0, e == 0), z3.Or(e == g, e == 0))
        return pointwise('relu', val)(arr, n)

    def post(c):
        st = c.new
        return [('returns the input gradient', c.res == c.f('inputGrad')),
                ('gradients pass where the input is positive and nowhere it is negative',
                 done(c, varr(mem(c, c.res, st)), M(c.args[2], c.args[3]))),
                ('outputs are kept', mem(c, c.fo('outputs'), st) == mem(c, c.fo('outputs'), c.old))] + act_inv(c, st)

    def inv(L, c):
        own, outer = counters(L, c)
        return [('grad up to %s' % pn, lambda st, vg=vg, pg=pg: done(c, varr(vg(st)), pg(st)))
                for vn, vg in L.roots(pred=f64s) for pn, pg in own]
    return Contract('ReLU::backward', (cls + '::backward', 4), pre=pre, post=post, invgens=[inv],
                    modifies=lambda c: [('h', MEM, c.fo('inputGrad'))], verify=verify)


# ---------------------------------------------------------------- softmax
MAXR = z3.Function('maxr', RA, I, I, R)                    # max of A[b] and A[b+j] for j < n
ESUM = z3.Function('esum', RA, R, I, I, R)                 # sum over j < n of exp(A[b+j] - a)


def maxr_facts(st, X, b, n):
    m = subk(n, 1)
    v, w = MAXR(X, b, m), z3.Select(X, b + m)
    put(st, ('maxr', X.get_id(), b.sexpr(), n.sexpr()), [
        MAXR(X, b, z3.IntVal(0)) == z3.Select(X, b),
        z3.Implies(n >= 1, MAXR(X, b, n) == z3.If(w > v, w, v))])


def esum_facts(st, X, a, b, n):
    m = subk(n, 1)
    put(st, ('esum', X.get_id(), a.sexpr(), b.sexpr(), n.sexpr()), [
        ESUM(X, a, b, z3.IntVal(0)) == 0,
        z3.Implies(n >= 1, ESUM(X, a, b, n) == ESUM(X, a, b, m) + exp_f(z3.Select(X, b + m) - a))])


def soft(X, n, p, whole=True):
    b = M(ROW(p, n), n)
    a = MAXR(X, b, n)
    e = exp_f(z3.Select(X, p) - a)
    return rdivf(e, ESUM(X, a, b, n)) if whole else e


def softmax_forward(prog, verify=True):
    role(prog, SM, 'outputs')

    def pre(c):
        B, n = c.args[1], c.args[2]
        rc_facts(c.old, n)
        return act_inv(c, c.old) + [
            ('inputs of the batch', z3.And(B >= 1, n >= 1, vlen(mem(c, c.args[0], c.old)) >= M(B, n), M(B, n) < VLIM,
                                           B < VLIM, n < VLIM, apart(c, c.args[0], names=BUF), akind(c.args[0]) == 0,
                                           born(c.args[0]) < c.old.clock))]

    def parts(c):
        return varr(mem(c, c.args[0], c.old)), c.args[2]

    def rows(X, n, arr, top, mid=None, end=None):
        """arr[p]: softmax for p < top, the numerator for mid <= p < end"""
        p = z3.Int('ps')
        e = z3.Select(arr, p)
        f = [z3.Implies(z3.And(0 <= p, p < top), e == soft(X, n, p))]
        if mid is not None:
            f.append(z3.Implies(z3.And(mid <= p, p < end), e == soft(X, n, p, False)))
        return FA([p], z3.And(*f), [e])

    def post(c):
        X, n = parts(c)
        st = c.new
        return [('returns the outputs', z3.And(c.res == c.f('outputs'), c.res > 0)),
                ('the batch fits', c.f('maxArraySize') >= M(c.args[1], n)),
                ('each output is the softmax of its row', rows(X, n, varr(mem(c, c.res, st)), M(c.args[1], n))),
                ('inputs are kept', mem(c, c.args[0], st) == mem(c, c.args[0], c.old)),
                ('buffers are old or new', z3.And(*[z3.Or(c.f(x) == c.fo(x), born(c.f(x)) >= c.old.clock)
                                                    for x in BUF]))] + act_inv(c, st)

    def inv(L, c):
        X, n = parts(c)
        out = []
        own, outer = counters(L, c)

        def alphas(arr, k):
            p = z3.Int('ps')
            e = z3.Select(arr, p)
            return FA([p], z3.Implies(z3.And(0 <= p, p < k), e == MAXR(X, M(p, n), n)), [e])
        for vn, vg in L.roots(pred=f64s):
            for pn, pg in own:
                if not outer:
                    def maxima(st, vg=vg, pg=pg):
                        maxr_facts(st, X, M(pg(st), n), n)
                        return alphas(varr(vg(st)), pg(st))
                    out.append(('%s row maxima up to %s' % (vn, pn), maxima))
                    out.append(('%s softmax up to row %s' % (vn, pn), lambda st, vg=vg, pg=pg: rows(
                        X, n, varr(vg(st)), M(pg(st), n))))
                for xn, xg in outer:
                    def part(st, vg=vg, pg=pg, xg=xg):
                        b, j = M(xg(st), n), pg(st)
                        maxr_facts(st, X, b, j)
                        maxr_facts(st, X, b, addk(j, 1))
                        return z3.And(z3.Select(varr(vg(st)), xg(st)) == MAXR(X, b, j),
                                      alphas(varr(vg(st)), xg(st)))
                    out.append(('%s[%s] maximum of %s' % (vn, xn, pn), part))
                    out.append(('%s rows before %s, numerators up to %s' % (vn, xn, pn), lambda st, vg=vg, pg=pg, xg=xg: rows(
                        X, n, varr(vg(st)), M(xg(st), n), M(xg(st), n), M(xg(st), n) + pg(st))))
                    out.append(('%s softmax up to %s*n+%s, numerators after' % (vn, xn, pn), lambda st, vg=vg, pg=pg, xg=xg: rows(
                        X, n, varr(vg(st)), M(xg(st), n) + pg(st), M(xg(st), n) + pg(st), M(xg(st), n) + n)))
        for vn, vg in L.roots(t=F64):
            for pn, pg in own:
                for xn, xg in outer:
                    def total(st, vg=vg, pg=pg, xg=xg):
                        b, j = M(xg(st), n), pg(st)
                        a = MAXR(X, b, n)
                        esum_facts(st, X, a, b, j)
                        esum_facts(st, X, a, b, addk(j, 1))
                        return vg(st) == ESUM(X, a, b, j)
                    out.append(('%s sum of %s' % (vn, pn), total))

                    def mx(st, vg=vg, pg=pg, xg=xg):
                        b, j = M(xg(st), n), pg(st)
                        maxr_facts(st, X, b, j)
                        maxr_facts(st, X, b, addk(j, 1))
                        return vg(st) == MAXR(X, b, j)
                    out.append(('%s maximum of %s' % (vn, pn), mx))
        return out
    return Contract('Softmax::forward', (SM + '::forward', 3), pre=pre, post=post, invgens=[inv], allocates=[MEM],
                    modifies=lambda c: [c.ex.field(c.this, x) for x in BUF + ['maxArraySize']] +
                    [('h', MEM, c.fo('outputs')), ('h', MEM, c.fo('inputGrad'))], verify=verify)


def softmax_grad(prog, verify=True):
    role(prog, SM, 'inputGrad')

    def parts(c):
        st = c.old
        return (varr(c.ex.hget(MEMI, c.args[0], st)), varr(mem(c, c.args[1], st)), varr(mem(c, c.args[2], st)),
                c.args[3], c.args[4])

    def pre(c):
        st = c.old
        A, P, W, B, n = parts(c)
        rc_facts(st, n)
        p = z3.Int('pa')
        e = z3.Select(A, p)
        big = lambda a, k: z3.And(a > 0, akind(a) == 0, a != c.fo('inputGrad'), vlen(mem(c, a, st)) >= k)
        return act_inv(c, st) + [
            ('a batch seen by forward', z3.And(B >= 1, n >= 1, M(B, n) <= c.fo('maxArraySize'), B < VLIM, n < VLIM)),
            ('probabilities and rewards of the batch', z3.And(big(c.args[1], M(B, n)), big(c.args[2], B))),
            ('actions of the batch', z3.And(c.args[0] > 0, akind(c.args[0]) == 0,
                                            vlen(c.ex.hget(MEMI, c.args[0], st)) >= B, FA([p], z3.Implies(z3.And(
                                                0 <= p, p < B), z3.And(0 <= e, e < n)), [e])))]

    def grad(c, p, bonus=True):
        A, P, W, B, n = parts(c)
        r, b = z3.Select(W, ROW(p, n)), z3.ToReal(B)
        g = rdivf(rmulf(-r, z3.Select(P, p)), b)
        return g + z3.If(COL(p, n) == z3.Select(A, ROW(p, n)), rdivf(r, b), z3.RealVal(0)) if bonus else g

    def done(c, arr, top, end=None):
        p = z3.Int('pl')
        e = z3.Select(arr, p)
        f = [z3.Implies(z3.And(0 <= p, p < top), e == grad(c, p))]
        if end is not None:
            f.append(z3.Implies(z3.And(top <= p, p < end), e == grad(c, p, False)))
        return FA([p], z3.And(*f), [e])

    def post(c):
        A, P, W, B, n = parts(c)
        st = c.new
        return [('returns the input gradient', c.res == c.f('inputGrad')),
                ('gradient of the expected reward: reward times (chosen minus probability) over the batch size',
                 done(c, varr(mem(c, c.res, st)), M(B, n))),
                ('outputs are kept', mem(c, c.fo('outputs'), st) == mem(c, c.fo('outputs'), c.old))] + act_inv(c, st)

    def inv(L, c):
        A, P, W, B, n = parts(c)
        out = []
        own, outer = counters(L, c)
        for vn, vg in L.roots(pred=f64s):
            for pn, pg in own:
                if not outer:
                    out.append(('grad up to row %s' % pn, lambda st, vg=vg, pg=pg: done(c, varr(vg(st)), M(pg(st), n))))
                for xn, xg in outer:
                    for full in (0, 1):
                        out.append(('grad before row %s, part up to %s %d' % (xn, pn, full), lambda st, vg=vg, pg=pg, xg=xg, full=full:
                                    done(c, varr(vg(st)), M(xg(st), n) + (pg(st) if full else 0), M(xg(st), n) + pg(st))))
        return out
    return Contract('Softmax::lossGrad', (SM + '::lossGrad', 5), pre=pre, post=post, invgens=[inv],
                    modifies=lambda c: [('h', MEM, c.fo('inputGrad'))], verify=verify)


def contracts(prog):
    return [fc_forward(prog), fc_backward(prog), act_forward(RE, prog), act_backward(RE, prog),
            softmax_forward(prog), softmax_grad(prog)]
