"""Contracts of RandomForestImpl (C10, and C01's range of its predictions)."""
import z3
from .. import types as ty
from ..types import T, sort, vlen, vat, varr, FA, FV
from ..contract import Contract, Missing
from ..engine import born, addk, subk
from .common import role
from .treemodels import INT, VF, VVF, VI

R = 'RandomForestImpl'
DT = 'DecisionTreeImpl'
UNS = T(('int', 32, False))
GHOST = {'$tN': INT, '$tF': VVF, '$tL': VI, '$tdepth': UNS}     # what a tree was built from
I = z3.IntSort()
PRED = z3.Function('tree_pred', I, FV, I)                       # a tree's prediction (pure)
TA = z3.ArraySort(I, I)
VOTES = z3.Function('votes', TA, FV, I, TA)                     # votes per class of the first n trees


def unfold(a, f, n):
    """votes of n trees from those of n - 1; votes of none"""
    k = z3.Int('cv')
    m = subk(n, 1)
    prev, cur = VOTES(a, f, m), VOTES(a, f, n)
    p = PRED(z3.Select(a, m), f)
    z = VOTES(a, f, z3.IntVal(0))
    return [z3.Implies(n >= 1, cur == z3.Store(prev, p, z3.Select(prev, p) + 1)),
            FA([k], z3.Select(z, k) == 0, [z3.Select(z, k)])]


def note(st, a, f, n):
    for j, x in enumerate(unfold(a, f, n)):
        st.ax.setdefault(('votes', a.get_id(), f.get_id(), n.sexpr(), j), x)


def fields(prog):
    return (role(prog, R, 'rfc', 'vector<.*unique_ptr<DecisionTreeImpl'), role(prog, R, 'num_classes', '^int$'),
            role(prog, R, 'num_trees'), role(prog, R, 'max_depth'))


def ints(t):
    return t.k in ('array', 'vec') and t[1].k == 'int'


def predict_contract(prog, verify=True):
    tf, nf, _, _ = fields(prog)

    def pre(c):
        k = z3.Int('kt')
        a, f = varr(c.fo(tf)), c.argo(0)
        p = PRED(z3.Select(a, k), f)
        return [('N >= 1', c.fo(nf) >= 1),
                ('trees exist and predict a class', FA([k], z3.Implies(
                    z3.And(0 <= k, k < vlen(c.fo(tf))), z3.And(z3.Select(a, k) > 0, 0 <= p, p < c.fo(nf))),
                    [z3.Select(a, k)])),
                ('fewer than 2^31 trees', vlen(c.fo(tf)) < 2**31)]

    def post(c):
        k = z3.Int('kc')
        a, f, n = varr(c.fo(tf)), c.argo(0), vlen(c.fo(tf))
        note(c.new, a, f, n)
        V = VOTES(a, f, n)
        v = z3.Select(V, k)
        return [('a class', z3.And(0 <= c.res, c.res < c.fo(nf))),
                ('no class has more votes', FA([k], z3.Implies(
                    z3.And(0 <= k, k < c.fo(nf)), v <= z3.Select(V, c.res)), [v])),
                ('every lower class has fewer votes', FA([k], z3.Implies(
                    z3.And(0 <= k, k < c.res), v < z3.Select(V, c.res)), [v])),
                ('the features are kept', c.arg(0) == f)]

    def inv(L, c):
        a, f, n = varr(c.fo(tf)), c.argo(0), c.fo(nf)
        k = z3.Int('kc')
        out = []
        for vn, vg in L.roots(pred=ints):
            for pn, pg in L.progress():
                def zero(st, vg=vg, pg=pg):
                    e = z3.Select(varr(vg(st)), k)
                    return FA([k], z3.Implies(z3.And(0 <= k, k < pg(st)), e == 0), [e])

                def votes(st, vg=vg, pg=pg):
                    p = pg(st)
                    note(st, a, f, p)
                    note(st, a, f, addk(p, 1))
                    e = z3.Select(varr(vg(st)), k)
                    return FA([k], z3.Implies(z3.And(0 <= k, k < n), e == z3.Select(VOTES(a, f, p), k)), [e])

                def bounded(st, vg=vg, pg=pg):
                    e = z3.Select(varr(vg(st)), k)
                    return FA([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= e, e <= pg(st))), [e])
                out += [('%s zero up to %s' % (vn, pn), zero), ('%s counts votes up to %s' % (vn, pn), votes),
                        ('%s at most %s' % (vn, pn), bounded)]
        for vn, vg in L.visible(pred=ints):
            for xn, xg in L.progress():
                out.append(('%s is a class' % xn, lambda st, xg=xg: z3.And(0 <= xg(st), xg(st) < n)))
                for yn, yg in L.progress():
                    if xn != yn:
                        out.append(('%s = votes of %s' % (xn, yn), lambda st, vg=vg, xg=xg, yg=yg:
                                    xg(st) == z3.Select(varr(vg(st)), yg(st))))
                        out.append(('%s < %s' % (xn, yn), lambda st, xg=xg, yg=yg: xg(st) < yg(st)))
                        for strict in (0, 1):
                            def best(st, vg=vg, xg=xg, yg=yg, strict=strict):
                                e = z3.Select(varr(vg(st)), k)
                                b = z3.Select(varr(vg(st)), xg(st))
                                if strict:
                                    return FA([k], z3.Implies(z3.And(0 <= k, k < xg(st)), e < b), [e])
                                return FA([k], z3.Implies(z3.And(0 <= k, k < yg(st)), e <= b), [e])
                            out.append(('%s best%d up to %s' % (xn, strict, yn), best))
        return out
    return Contract(R + '::predict', (R + '::predict', 1), pre=pre, post=post, invgens=[inv], modifies=lambda c: [],
                    verify=verify)


def in_labels(L, N):
    i = z3.Int('il')
    e = z3.Select(varr(L), i)
    return FA([i], z3.Implies(z3.And(0 <= i, i < vlen(L)), z3.And(0 <= e, e < N)), [e])


def same_len(F):
    i = z3.Int('iu')
    e = z3.Select(varr(F), i)
    return FA([i], z3.Implies(z3.And(0 <= i, i < vlen(F)), ty.vlen(e) == ty.vlen(z3.Select(varr(F), 0))), [e])


def one_label(F, L):
    i, j = z3.Ints('it jt')
    f = lambda k: z3.Select(varr(F), k)
    l = lambda k: z3.Select(varr(L), k)
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < vlen(F), 0 <= j, j < vlen(F), l(i) != l(j)), f(i) != f(j)),
                     patterns=[z3.MultiPattern(f(i), f(j))])


def tree_range(t, N, F):
    """predictions for vectors as long as the training ones are classes (DecisionTreeImpl contracts of C07/C01)"""
    f = z3.Const('fr', FV)
    p = PRED(t, f)
    return FA([f], z3.Implies(ty.vlen(f) == ty.vlen(z3.Select(varr(F), 0)), z3.And(0 <= p, p < N)), [p])


def good(tr, N, nf):
    """every tree predicts a class for every vector of nf features"""
    k = z3.Int('kt')
    f = z3.Const('fr', FV)
    p = PRED(z3.Select(varr(tr), k), f)
    return FA([k, f], z3.Implies(z3.And(0 <= k, k < vlen(tr), ty.vlen(f) == nf), z3.And(0 <= p, p < N)), [p])


def tree_contracts():
    def ctor(c):
        a = c.this.addr
        return [c.g('$tN', a) == c.argo(0), c.g('$tF', a) == c.argo(1), c.g('$tL', a) == c.argo(2),
                c.g('$tdepth', a) == c.argo(3),
                z3.Implies(in_labels(c.argo(2), c.argo(0)), tree_range(a, c.argo(0), c.argo(1)))]

    def cpre(c):
        F, L = c.argo(1), c.argo(2)
        return [('as many labels as feature vectors', vlen(F) == vlen(L)),
                ('at least one sample', z3.And(vlen(F) >= 1, vlen(F) < 2**30, vlen(z3.Select(varr(F), 0)) < 2**31)),
                ('feature vectors are equally long', same_len(F)), ('one label per feature vector', one_label(F, L)),
                ('N >= 0', c.argo(0) >= 0)]
    return [Contract(DT + '(N, features, labels, depth)', (DT + '::' + DT, 4), pre=cpre, post=ctor, verify=False,
                     modifies=lambda c: [('h', x, c.this.addr) for x in ('$tN', '$tF', '$tL', '$tdepth')] +
                     [c.args[1], c.args[2]], note='what the tree was built from; the tree itself under C07'),
            Contract(DT + '::predict', (DT + '::predict', 1), verify=False, modifies=lambda c: [],
                     post=lambda c: [c.res == PRED(c.this.addr, c.argo(0)), c.arg(0) == c.argo(0)],
                     note='a pure function of tree and features')]


def sample(c, F, L, feats, labels, n):
    """every one of the first n entries of (F, L) is a pair of the training set"""
    j, s = z3.Ints('js ss')
    f, l = z3.Select(varr(feats), s), z3.Select(varr(labels), s)
    e = z3.Select(varr(F), j)
    return FA([j], z3.Implies(z3.And(0 <= j, j < n), z3.Exists([s], z3.And(
        0 <= s, s < vlen(feats), e == f, z3.Select(varr(L), j) == l))), [e])


def built(c, st, tr, feats, labels, N, depth, n):
    """the first n trees were built as they should"""
    k = z3.Int('kb')
    t = z3.Select(varr(tr), k)
    g = lambda x: z3.Select(st.heap[x] if x in st.heap else c.ex.heap_init(x), t)
    rng = z3.And(0 <= k, k < n)
    m = vlen(feats)
    return [
        ('trees exist', FA([k], z3.Implies(rng, t > 0), [t])),
        ('each has N classes and max_depth', FA([k], z3.Implies(rng, z3.And(
            g('$tN') == N, g('$tdepth') == depth)), [t])),
        ('each has as many samples as the training set', FA([k], z3.Implies(rng, z3.And(
            vlen(g('$tF')) == m, vlen(g('$tL')) == m)), [t])),
        ('each sample is a (features, label) pair of the training set', FA([k], z3.Implies(rng, sample(
            c, g('$tF'), g('$tL'), feats, labels, m)), [t])),
        ('labels in 0..N-1: each tree predicts in 0..N-1', z3.Implies(
            in_labels(labels, N), good(tr, N, vlen(z3.Select(varr(feats), 0)))))]


def train_like(prog, name, sel, i0, ctor):
    tf, nf, kf, mf = fields(prog)

    def N(c):
        return c.argo(0) if ctor else c.fo(nf)

    def trees(c):
        return c.argo(i0 + 2) if ctor else c.fo(kf)

    def depth(c):
        return c.argo(i0 + 3) if ctor else c.fo(mf)

    def pre(c):
        F, L = c.argo(i0), c.argo(i0 + 1)
        return [('a training set', z3.And(vlen(F) >= 1, vlen(F) == vlen(L), vlen(F) < 2**30,
                                          vlen(z3.Select(varr(F), 0)) < 2**31)),
                ('feature vectors are equally long', same_len(F)),
                ('one label per feature vector', one_label(F, L)), ('N >= 0', N(c) >= 0)]

    def post(c):
        tr = c.f(tf)
        return [('exactly num_trees trees', vlen(tr) == trees(c)),
                ('configuration kept', z3.And(c.f(nf) == N(c), c.f(kf) == trees(c), c.f(mf) == depth(c))),
                ('the training set is kept', z3.And(c.arg(i0) == c.argo(i0), c.arg(i0 + 1) == c.argo(i0 + 1)))
                ] + built(c, c.new, tr, c.argo(i0), c.argo(i0 + 1), N(c), depth(c), vlen(tr))

    def inv(L, c):
        feats, labels = c.argo(i0), c.argo(i0 + 1)
        out = []
        for fn, fg in L.roots(t=VVF):
            for ln, lg in L.roots(t=VI):
                out.append(('samples', lambda st, fg=fg, lg=lg: sample(c, fg(st), lg(st), feats, labels,
                                                                       vlen(fg(st)))))
        for tn, tg in L.roots(pred=lambda t: t.k == 'vec' and t[1].k == 'uptr'):
            k = z3.Int('kb')

            def older(st, tg=tg):
                t = z3.Select(varr(tg(st)), k)
                return FA([k], z3.Implies(z3.And(0 <= k, k < vlen(tg(st))), z3.And(
                    born(t) < st.clock, born(t) >= c.old.clock)), [t])
            out.append(('trees are older', older))
            for j in range(5):
                out.append(('built %d' % j, lambda st, tg=tg, j=j: built(
                    c, st, tg(st), feats, labels, N(c), depth(c), vlen(tg(st)))[j][1]))
        return out
    return Contract(name, sel, pre=pre, post=post, invgens=[inv], allocates=list(GHOST),
                    modifies=lambda c: [c.ex.field(c.this, tf)])


def contracts(prog):
    tf, nf, kf, mf = fields(prog)
    ks = tree_contracts() + [predict_contract(prog)]
    ks.append(train_like(prog, R + '::train', (R + '::train', 2), 0, False))
    ks.append(train_like(prog, R + '(N, features, labels, trees, depth)', (R + '::' + R, 5), 1, True))
    ks.append(Contract(R + '(N, trees, depth)', (R + '::' + R, 3), modifies=lambda c: [], post=lambda c: [
        ('configured as given', z3.And(c.f(nf) == c.argo(0), c.f(kf) == c.argo(1), c.f(mf) == c.argo(2))),
        ('no trees yet', vlen(c.f(tf)) == 0)]))
    return ks
