"""Contracts of DecisionTreeImpl: what training builds and what prediction returns (C07, C01)."""
import z3
from .. import types as ty
from ..types import T, sort, vlen, vat, varr, FA, FV, pget, card, key_at, idx_of, fat, flen, sel
from ..contract import Contract, Missing
from ..engine import akind, born, addk, subk, IterVal, TupVal, LV
from .common import role
from .treemodels import INT, VF, VVF, VI

DT = 'DecisionTreeImpl'
ND = DT + '::Node'
I, B = z3.IntSort(), z3.BoolSort()
PAIR = T(('pair', VF, INT))
VP = T(('vec', PAIR))
SETI = T(('set', INT))
PA = z3.ArraySort(I, sort(PAIR))
IA = z3.ArraySort(I, I)
CS = z3.ArraySort(I, B)
CNT = z3.Function('CNT', PA, I, I, IA)                 # samples per label in [lo, hi)
PRE = z3.Function('PRE', PA, I, I, CS, I, I)           # samples whose label is among the first k classes
SQ = z3.Function('SQ', PA, I, I, CS, I, I)             # sum of squared counts of the first k classes
WIT = z3.Function('WIT', PA, I, I, I, I)               # a sample with a label that occurs
U64 = T(('int', 64, False))


def lab(a, i):
    return pget(z3.Select(a, i), 1)


def fv(a, i):
    return pget(z3.Select(a, i), 0)


def cnt_unfold(a, lo, hi):
    k = z3.Int('kc')
    m = subk(hi, 1)
    z = CNT(a, lo, lo)
    p = CNT(a, lo, m)
    return [z3.Implies(hi > lo, CNT(a, lo, hi) == z3.Store(p, lab(a, m), z3.Select(p, lab(a, m)) + 1)),
            FA([k], z3.Select(z, k) == 0, [z3.Select(z, k)])]


def pre_unfold(a, lo, hi, d, k):
    """first k classes from the first k - 1; lemma 'prefix' """
    m = subk(k, 1)
    c = z3.Select(CNT(a, lo, hi), key_at(d, m))
    return [PRE(a, lo, hi, d, z3.IntVal(0)) == 0, SQ(a, lo, hi, d, z3.IntVal(0)) == 0,
            z3.Implies(z3.And(1 <= k, k <= card(d)), z3.And(
                PRE(a, lo, hi, d, k) == PRE(a, lo, hi, d, m) + c, SQ(a, lo, hi, d, k) == SQ(a, lo, hi, d, m) + c * c))]


def put(st, key, fs):
    for j, f in enumerate(fs):
        st.ax.setdefault((key, j), f)


HINT = z3.Function('HINT', sort(PAIR), B)


HS = z3.Function('HS', sort(PAIR), sort(PAIR), I)


def hint2(st, x, y):
    """name two samples, for facts about pairs of samples"""
    put(st, ('hs', x.sexpr(), y.sexpr()), [HS(x, y) == 0])


def hint(st, term):
    """name a sample, so that quantified facts are instantiated for it"""
    put(st, ('hint', term.sexpr()), [HINT(term)])


def note_cnt(st, a, lo, hi):
    put(st, ('cnt', a.get_id(), lo.sexpr(), hi.sexpr()), cnt_unfold(a, lo, hi))


def pure(a, lo, hi):
    i = z3.Int('ip')
    return FA([i], z3.Implies(z3.And(lo <= i, i < hi), lab(a, i) == lab(a, lo)), [z3.Select(a, i)])


def in_classes(a, lo, hi, d):
    i = z3.Int('ip')
    return FA([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Select(d, lab(a, i))), [z3.Select(a, i)])


def count_facts(a, lo, hi):
    """lemma 'counts' """
    i, c = z3.Ints('ip cp')
    n = z3.Select(CNT(a, lo, hi), c)
    w = WIT(a, lo, hi, c)
    return [FA([c], z3.Implies(lo <= hi, z3.And(0 <= n, n <= hi - lo, z3.Implies(
                n > 0, z3.And(lo <= w, w < hi, lab(a, w) == c)))), [n]),
            FA([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Select(CNT(a, lo, hi), lab(a, i)) > 0), [z3.Select(a, i)]),
            FA([c, i], z3.Implies(z3.And(lo <= i, i < hi, n == hi - lo), lab(a, i) == c),
               [z3.MultiPattern(n, z3.Select(a, i))])]


PUREP = z3.Function('PURE', PA, I, I, B)


SKP = z3.Function('sk_pure', PA, I, I, I)                # a sample whose label differs from the first one's


def pure_def(a, lo, hi):
    i = z3.Int('ip')
    w = z3.Int('w_pure')
    sk = SKP(a, lo, hi)
    return [FA([i], z3.Implies(z3.And(PUREP(a, lo, hi), lo <= i, i < hi), lab(a, i) == lab(a, lo)),
               [z3.Select(a, i)]),
            z3.Or(PUREP(a, lo, hi), z3.And(lo <= sk, sk < hi, lab(a, sk) != lab(a, lo)))]


def sq_facts(a, lo, hi, d):
    """lemma 'squares': over all classes, the sum of squares is n^2 exactly for one label, and positive"""
    n = hi - lo
    s = SQ(a, lo, hi, d, card(d))
    return [z3.Implies(z3.And(lo < hi, in_classes(a, lo, hi, d)), z3.And(
        0 < s, s <= n * n, (s == n * n) == PUREP(a, lo, hi)))]


def data_field(prog):
    return role(prog, DT, 'data', r'vector<std::pair')


def cls_field(prog):
    return role(prog, DT, 'classes', r'set<int')


def gini_real(a, lo, hi, d):
    n = z3.ToReal(hi - lo)
    return 1 - z3.ToReal(SQ(a, lo, hi, d, card(d))) / (n * n)


def span(c):
    its = [x for x in c.args if isinstance(x, IterVal)]
    return its[0].pos, its[1].pos


def count_invs(L, c, df, cf):
    """inner loops: an int counts one label up to an iterator"""
    d0 = c.fo(df)
    a = varr(d0)
    lo, hi = span(c)
    out = []
    for xn, xg in L.progress():
        for yn, yg in L.progress():
            if xn == yn:
                continue
            for zn, zg in L.visible(pred=lambda t: t.k == 'int'):
                def g(st, xg=xg, yg=yg, zg=zg):
                    p = yg(st)
                    note_cnt(st, a, lo, p)
                    note_cnt(st, a, lo, addk(p, 1))
                    return xg(st) == z3.Select(CNT(a, lo, p), zg(st))
                out.append(('%s counts %s up to %s' % (xn, zn, yn), g))
    return out


def iters(prog):
    df = data_field(prog)
    return lambda ex, this: ex.field(this, df)


def range_pre(c, df, cf):
    lo, hi = span(c)
    return [('a range of the data', z3.And(0 <= lo, lo <= hi, hi <= vlen(c.fo(df)), vlen(c.fo(df)) < 2**31))]


def gini_contract(prog, verify=True):
    df, cf = data_field(prog), cls_field(prog)

    def pre(c):
        lo, hi = span(c)
        return range_pre(c, df, cf) + [('not empty', lo < hi), ('labels are known classes', in_classes(
            varr(c.fo(df)), lo, hi, c.fo(cf)))]

    def post(c):
        lo, hi = span(c)
        a, d = varr(c.fo(df)), c.fo(cf)
        c.ex.touch_dom(d, INT)
        put(c.new, ('sq', a.get_id(), lo.sexpr(), hi.sexpr()), sq_facts(a, lo, hi, d) + pure_def(a, lo, hi))
        g = c.arg(2)
        return [('gini = 1 - sum of squared label frequencies', g == gini_real(a, lo, hi, d)),
                ('gini is below 1', g < 1), ('so is the average of ginis', z3.ToReal(hi - lo) * g < z3.ToReal(hi - lo)), ('gini is 0 exactly for one label', (g <= 0) == PUREP(a, lo, hi))]

    def inv(L, c):
        a, d = varr(c.fo(df)), c.fo(cf)
        lo, hi = span(c)
        n = z3.ToReal(hi - lo)
        out = count_invs(L, c, df, cf)
        for gn, gg in L.roots(pred=lambda t: t.k == 'float'):
            for pn, pg in L.progress():
                for form in (0, 1):
                    def g(st, gg=gg, pg=pg, form=form):
                        p = pg(st)
                        put(st, ('pre', a.get_id(), d.get_id(), p.sexpr()), pre_unfold(a, lo, hi, d, p))
                        x = z3.ToReal(SQ(a, lo, hi, d, p)) / (n * n)
                        m = subk(p, 1)
                        y = z3.ToReal(z3.Select(CNT(a, lo, hi), key_at(d, m)))
                        X = z3.ToReal(SQ(a, lo, hi, d, m))
                        put(st, ('frac', a.get_id(), d.get_id(), p.sexpr()),
                            [z3.Implies(n > 0, (X + y * y) / (n * n) == X / (n * n) + (y / n) * (y / n))])
                        return gg(st) == (x if form == 0 else 1 - x)
                    out.append(('%s sums squares up to %s (%d)' % (gn, pn, form), g))
        return out
    return Contract('compute_gini', (DT + '::compute_gini', 3), pre=pre, post=post, invgens=[inv],
                    iters=iters(prog), modifies=lambda c: [c.args[2]], verify=verify)


def counts_contract(prog, verify=True):
    df, cf = data_field(prog), cls_field(prog)

    def vec_is(c, v, n):
        lo, hi = span(c)
        a, d = varr(c.fo(df)), c.fo(cf)
        k = z3.Int('kv')
        e = z3.Select(varr(v), k)
        return FA([k], z3.Implies(z3.And(0 <= k, k < n), e == z3.Select(CNT(a, lo, hi), key_at(d, k))),
                  [e, key_at(d, k)])

    def post(c):
        d = c.fo(cf)
        c.ex.touch_dom(d, INT)
        return [('one count per class', vlen(c.res) == card(d)),
                ('count k is that of class k', vec_is(c, c.res, card(d)))]

    def inv(L, c):
        out = count_invs(L, c, df, cf)
        for vn, vg in L.roots(pred=lambda t: t.k == 'vec' and t[1].k == 'int'):
            for pn, pg in L.progress():
                out.append(('%s holds counts up to %s' % (vn, pn),
                            lambda st, vg=vg, pg=pg: vec_is(c, vg(st), pg(st))))
        return out
    return Contract('get_count_per_class', (DT + '::get_count_per_class', 2), pre=lambda c: range_pre(c, df, cf),
                    post=post, invgens=[inv], iters=iters(prog), modifies=lambda c: [], verify=verify)


# ---------------------------------------------------------------- splitting
BAGS = z3.DeclareSort('Bag')
BAG = z3.Function('BAG', PA, I, BAGS)                          # multiset of the samples
DIST = z3.Function('DIST', PA, I, I, I)                        # number of distinct feature vectors in [lo, hi)
SEQ = z3.Function('SEQ', PA, I, I, I, z3.ArraySort(I, z3.RealSort()))     # sorted values of a feature in [lo, hi)
KD = z3.Function('KD', FV, FV, I)                              # a feature in which two vectors differ


def sort_hook(ex, v, w, lo, hi, et, lt):
    """std::sort on samples: the same multiset; sorted values of any feature are those of the multiset"""
    if et != PAIR:
        return
    a, b = varr(v), varr(w)
    f, i = z3.Ints('fs is')
    ex.assume(BAG(b, vlen(v)) == BAG(a, vlen(v)))
    ex.assume(DIST(b, lo, hi) == DIST(a, lo, hi))
    ex.assume(PUREP(b, lo, hi) == PUREP(a, lo, hi))
    ex.assume(FA([f], SEQ(b, lo, hi, f) == SEQ(a, lo, hi, f), [SEQ(b, lo, hi, f)]))
    x, y = z3.Const('hx!', sort(et)), z3.Const('hy!', sort(et))
    r = z3.simplify(lt(x, y)) if False else lt(x, y)
    F = None
    if z3.is_lt(r):
        p, q = r.arg(0), r.arg(1)
        if z3.is_app(p) and p.decl().eq(fat) and q.decl().eq(fat) and p.arg(0).eq(pget(x, 0)) and \
                q.arg(0).eq(pget(y, 0)) and p.arg(1).eq(q.arg(1)):
            F = p.arg(1)
    if F is not None:
        ex.assume(FA([i], z3.Implies(z3.And(lo <= i, i < hi), fat(fv(b, i), F) == z3.Select(SEQ(b, lo, hi, F), i)),
                     [z3.Select(b, i)]))


def consistent(a, lo, hi):
    """samples with different labels differ in some feature"""
    i, j = z3.Ints('ic jc')
    k = KD(fv(a, i), fv(a, j))
    hs = HS(z3.Select(a, i), z3.Select(a, j))       # a trigger; constant 0
    return FA([i, j], z3.Implies(z3.And(lo <= i, i < hi, lo <= j, j < hi, lab(a, i) != lab(a, j), hs == 0), z3.And(
        0 <= k, k < flen(fv(a, i)), fat(fv(a, i), k) != fat(fv(a, j), k))),
        [HS(z3.Select(a, i), z3.Select(a, j))])


def uniform(a, lo, hi, nf):
    i = z3.Int('iu')
    return FA([i], z3.Implies(z3.And(lo <= i, i < hi), flen(fv(a, i)) == nf), [z3.Select(a, i)])


def samples_pre(c, df, cf):
    lo, hi = span(c)
    a, d = varr(c.fo(df)), c.fo(cf)
    return range_pre(c, df, cf) + [
        ('not empty', lo < hi), ('labels are known classes', in_classes(a, lo, hi, d)),
        ('feature vectors are equally long', z3.And(uniform(a, lo, hi, flen(fv(a, lo))), flen(fv(a, lo)) < 2**31)),
        ('one label per feature vector', consistent(a, lo, hi))]


def outside(a, b, lo, hi):
    i = z3.Int('io')
    return FA([i], z3.Implies(z3.Or(i < lo, i >= hi), z3.Select(b, i) == z3.Select(a, i)), [z3.Select(b, i)])


def member(a, b, lo, hi):
    """every sample of b in the range is one of a"""
    i, j = z3.Ints('im jm')
    return FA([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Exists([j], z3.And(
        lo <= j, j < hi, z3.Select(b, i) == z3.Select(a, j)))), [z3.Select(b, i)])


def permuted(a, b, n, lo, hi):
    return [('samples outside the range are kept', outside(a, b, lo, hi)),
            ('samples in the range are those given', member(a, b, lo, hi)),
            ('the multiset of samples is kept', BAG(b, n) == BAG(a, n)),
            ('distinct feature vectors of the range are kept', DIST(b, lo, hi) == DIST(a, lo, hi))]


def dist_facts(a, lo, hi):
    """lemma 'distinct' """
    i = z3.Int('id')
    d = DIST(a, lo, hi)
    return [z3.Implies(lo < hi, d >= 1),
            FA([i], z3.Implies(z3.And(d <= 1, lo <= i, i < hi), fv(a, i) == fv(a, lo)), [z3.Select(a, i)])]


def dist_split(a, lo, mid, hi):
    """lemma 'distinct': vectors on the two sides differ"""
    i, j = z3.Ints('id jd')
    return [z3.Implies(z3.And(lo <= mid, mid <= hi, z3.ForAll([i, j], z3.Implies(
        z3.And(lo <= i, i < mid, mid <= j, j < hi), fv(a, i) != fv(a, j)))),
        DIST(a, lo, hi) == DIST(a, lo, mid) + DIST(a, mid, hi))]


def split_contract(prog, verify=True):
    df, cf = data_field(prog), cls_field(prog)

    def pre(c):
        lo, hi = span(c)
        a = varr(c.fo(df))
        put(c.old, ('pure', a.get_id(), lo.sexpr(), hi.sexpr()), pure_def(a, lo, hi))
        return samples_pre(c, df, cf) + [('more than one label', z3.Not(PUREP(a, lo, hi)))]

    def parts(c):
        if isinstance(c.res, TupVal):
            return c.res.vals
        raise Missing('a tuple with an iterator')

    def mkres(c):
        ex = c.ex
        its = [x for x in c.args if isinstance(x, IterVal)]
        rt = ty.parse(c.func.ret)
        vals = []
        for t in rt[1:]:
            if t.k == 'iter':
                vals.append(IterVal(its[0].c, ex.fresh('split', I), its[0].t))
            else:
                vals.append(ex.fresh('res', t))
        return TupVal(vals, rt)

    def post(c):
        lo, hi = span(c)
        a, b, n = varr(c.fo(df)), varr(c.f(df)), vlen(c.fo(df))
        v = parts(c)
        its = [x for x in v if isinstance(x, IterVal)]
        if len(its) != 1 or len(v) != 4 or v[1] is not its[0]:
            raise Missing('(gini, iterator, feature, threshold)')
        x, f, t = v[1].pos, v[2], v[3]
        i = z3.Int('isp')
        hint(c.new, z3.Select(b, x - 1))
        hint2(c.new, z3.Select(b, SKP(b, lo, hi)), z3.Select(b, lo))
        put(c.new, ('pure', b.get_id(), lo.sexpr(), hi.sexpr()), pure_def(b, lo, hi))
        hint(c.new, z3.Select(b, x))
        put(c.new, ('dist', b.get_id(), lo.sexpr(), x.sexpr(), hi.sexpr()),
            dist_split(b, lo, x, hi) + dist_facts(b, lo, x) + dist_facts(b, x, hi))
        return [('two non-empty parts', z3.And(lo < x, x < hi)),
                ('a feature', z3.And(0 <= f, f < flen(fv(a, lo)))),
                ('left of the split the feature is below the threshold', FA([i], z3.Implies(
                    z3.And(lo <= i, i < x), fat(fv(b, i), f) < t), [z3.Select(b, i)])),
                ('right of the split the feature is not below the threshold', FA([i], z3.Implies(
                    z3.And(x <= i, i < hi), fat(fv(b, i), f) >= t), [z3.Select(b, i)])),
                ('the number of samples is kept', vlen(c.f(df)) == n)] + permuted(a, b, n, lo, hi) + [
                ('the parts share no feature vector', z3.And(
                    DIST(b, lo, x) + DIST(b, x, hi) == DIST(a, lo, hi), DIST(b, lo, x) >= 1, DIST(b, x, hi) >= 1))]

    def inv(L, c):
        lo, hi = span(c)
        a, n = varr(c.fo(df)), vlen(c.fo(df))
        nf = flen(fv(a, lo))
        i, f = z3.Ints('isp fsp')
        cur = lambda st: varr(c.ex.load_in(st, c.ex.field(c.this, df)))
        out = []
        if L.roots(t=VP):
            for j in range(4):
                out.append(('permuted %d' % j, lambda st, j=j: permuted(a, cur(st), n, lo, hi)[j][1]))
            out.append(('sorted values', lambda st: FA([f], SEQ(cur(st), lo, hi, f) == SEQ(a, lo, hi, f),
                                                       [SEQ(cur(st), lo, hi, f)])))
            out.append(('labels', lambda st: PUREP(cur(st), lo, hi) == PUREP(a, lo, hi)))
            out.append(('first sample', lambda st: flen(fv(cur(st), lo)) == nf))
        its = [(nm, g) for nm, it, g, mod in L.iters() if mod]
        ints = L.visible(pred=lambda t: t.k == 'int')
        fls = L.visible(pred=lambda t: t.k == 'float')
        for xn, xg in its:
            for mn, mg in fls:
                out.append(('%s none: %s = 1' % (xn, mn), lambda st, xg=xg, mg=mg: z3.Implies(xg(st) == hi, mg(st) == 1)))
            for yn, yg in ints:
                def none_before(st, xg=xg, yg=yg):
                    b = cur(st)
                    e = fat(fv(b, i), f)
                    return z3.Implies(xg(st) == hi, FA([i, f], z3.Implies(z3.And(
                        lo <= i, i < hi, 0 <= f, f < yg(st)), e == fat(fv(b, lo), f)), [e]))
                out.append(('%s none: features before %s are constant' % (xn, yn), none_before))
                for zn, zg in its:
                    def none_upto(st, xg=xg, yg=yg, zg=zg):
                        b = cur(st)
                        e = z3.Select(b, i)
                        return z3.Implies(xg(st) == hi, FA([i], z3.Implies(z3.And(lo <= i, i < zg(st)), fat(
                            pget(e, 0), yg(st)) == fat(fv(b, lo), yg(st))), [e]))
                    if zn != xn:
                        out.append(('%s none: feature %s is constant up to %s' % (xn, yn, zn), none_upto))
                for tn, tg in fls:
                    def ok(st, xg=xg, yg=yg, tg=tg):
                        x, y, t = xg(st), yg(st), tg(st)
                        s = SEQ(a, lo, hi, y)
                        return z3.Or(x == hi, z3.And(lo < x, x < hi, 0 <= y, y < nf,
                                                     z3.Select(s, x - 1) < t, t <= z3.Select(s, x)))
                    out.append(('%s,%s,%s is a split' % (xn, yn, tn), ok))
            out.append(('%s after begin' % xn, lambda st, xg=xg: z3.And(lo < xg(st), xg(st) <= hi)))
        return out
    return Contract('split', (DT + '::split', 2), pre=pre, post=post, invgens=[inv], iters=iters(prog), mkres=mkres,
                    modifies=lambda c: [c.ex.field(c.this, df)], verify=verify)


# ---------------------------------------------------------------- building
GHOST = {'$ok': INT, '$lo': INT, '$hi': INT, '$dep': INT, '$own': INT, '$from': INT, '$to': INT}
NG = ['$ok', '$lo', '$hi', '$dep', '$own']
NF = ['predicted_class', 'feature_idx', 'threshold', 'left', 'right']


def heap(c, st, f):
    h = st.heap.get(f)
    return c.ex.heap_init(f) if h is None else h


class Nodes:
    """the node heap of a state"""
    def __init__(self, c, st, prog):
        for f in NF:
            setattr(self, f, heap(c, st, ND + '::' + role(prog, ND, f)))
        for g in NG:
            setattr(self, g[1:], heap(c, st, g))


def node_mode(cnt, d, p):
    """p is the lowest of the classes with the highest count"""
    k = z3.Int('cm')
    e = z3.Select(cnt, k)
    return FA([k], z3.Implies(z3.Select(d, k), z3.And(e <= z3.Select(cnt, p), z3.Implies(
        k < p, e < z3.Select(cnt, p)))), [e])


MODE = z3.Function('MODE', IA, CS, I, B)
SKM = z3.Function('sk_mode', IA, CS, I, I)


def mode_def(cnt, d, p):
    """MODE(cnt, d, p) == node_mode(cnt, d, p)"""
    k = SKM(cnt, d, p)
    e, q = z3.Select(cnt, k), z3.Select(cnt, p)
    return [z3.Implies(MODE(cnt, d, p), node_mode(cnt, d, p)),
            z3.Or(MODE(cnt, d, p), z3.And(z3.Select(d, k), z3.Or(e > q, z3.And(k < p, e >= q))))]


def node_facts(N, A, d, this, c0, c1, lo, hi, dep, md, dist, n):
    """what holds of a node n of a (sub)tree over [lo, hi) at depth dep, whose nodes were made in [c0, c1)"""
    l, h, e = z3.Select(N.lo, n), z3.Select(N.hi, n), z3.Select(N.dep, n)
    p, f, t = z3.Select(N.predicted_class, n), z3.Select(N.feature_idx, n), z3.Select(N.threshold, n)
    x, y = z3.Select(N.left, n), z3.Select(N.right, n)
    i = z3.Int('in')
    mine = lambda m: z3.And(z3.Select(N.ok, m) == 1, z3.Select(N.own, m) == this, c0 <= born(m), born(m) < c1, m > 0, akind(m) == 0)
    leaf = f == -1
    g = z3.And(mine(n), z3.Not(leaf))
    D = DIST(A, l, h)
    mid = z3.Select(N.hi, x)
    return mine(n), [
        ('node ranges lie in the tree\'s', z3.And(lo <= l, l < h, h <= hi)),
        ('depth is at most max_depth', z3.And(dep <= e, z3.Or(e <= md, e == dep))),
        ('predicts a known class', z3.Select(d, p)),
        ('a leaf predicts its most frequent label', z3.Implies(leaf, z3.And(x == 0, y == 0, MODE(CNT(A, l, h), d, p)))),
        ('a leaf has one label, or max_depth', z3.Implies(leaf, z3.Or(PUREP(A, l, h), e >= md))),
        ('each level separates feature vectors', z3.Or(D <= 1, D <= dist - (e - dep))),
        ('a split has two children', z3.Implies(z3.Not(leaf), z3.And(mine(x), mine(y)))),
        ('children are one level down', z3.Implies(z3.Not(leaf), z3.And(
            z3.Select(N.dep, x) == e + 1, z3.Select(N.dep, y) == e + 1))),
        ('children share the range', z3.Implies(z3.Not(leaf), z3.And(
            z3.Select(N.lo, x) == l, mid == z3.Select(N.lo, y), z3.Select(N.hi, y) == h))),
        ('a split is by a feature', z3.Implies(z3.Not(leaf), z3.And(0 <= f, f < flen(fv(A, lo))))),
        ('left samples are below the threshold', z3.Implies(z3.Not(leaf), FA([i], z3.Implies(
            z3.And(l <= i, i < mid), fat(fv(A, i), f) < t), [z3.Select(A, i)]))),
        ('right samples are not below the threshold', z3.Implies(z3.Not(leaf), FA([i], z3.Implies(
            z3.And(mid <= i, i < h), fat(fv(A, i), f) >= t), [z3.Select(A, i)])))]


def tree_inv(N, A, d, this, c0, c1, lo, hi, dep, md, dist):
    n = z3.Int('nn')
    g, fs = node_facts(N, A, d, this, c0, c1, lo, hi, dep, md, dist, n)
    return [(nm, FA([n], z3.Implies(g, f), [z3.Select(N.ok, n)])) for nm, f in fs]


def ext(a, b, lo, hi):
    """lemma 'extensional': ranges with the same samples have the same counts, labels, distinct vectors"""
    i, l, h = z3.Ints('ie le he')
    same = z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.Select(a, i) == z3.Select(b, i)))
    rng = z3.And(lo <= l, l <= h, h <= hi)
    return [z3.Implies(same, FA([l, h], z3.Implies(rng, F(a, l, h) == F(b, l, h)), [F(b, l, h)]))
            for F in (CNT, PUREP, DIST)]


def build_contract(prog, verify=True):
    df, cf = data_field(prog), cls_field(prog)
    tn = role(prog, DT, 'tree_nodes', r'vector<.*Node')

    def ints(c):
        return [c.argo(j) for j in range(len(c.args)) if not isinstance(c.args[j], IterVal)]

    def pre(c):
        md, dep = ints(c)
        lo, hi = span(c)
        a = varr(c.fo(df))
        c.ex.touch_dom(c.fo(cf), INT)
        put(c.old, ('pure', a.get_id(), lo.sexpr(), hi.sexpr()), pure_def(a, lo, hi) + count_facts(a, lo, hi) +
            dist_facts(a, lo, hi))
        return samples_pre(c, df, cf) + [('a depth', z3.And(0 <= dep, dep <= md, md < 2**63)),
                                           ('fewer than 2^31 classes', card(c.fo(cf)) < 2**31)]

    def post(c):
        md, dep = ints(c)
        lo, hi = span(c)
        a, b, n, d = varr(c.fo(df)), varr(c.f(df)), vlen(c.fo(df)), c.fo(cf)
        N = Nodes(c, c.new, prog)
        r = c.res
        put(c.new, ('ext', b.get_id()), ext(a, b, z3.IntVal(0), lo) + ext(a, b, hi, n))
        return [('the number of samples is kept', vlen(c.f(df)) == n)] + permuted(a, b, n, lo, hi) + [
            ('the root covers the range', z3.And(
                r > 0, akind(r) == 0, born(r) >= c.old.clock, born(r) < c.new.clock, z3.Select(N.ok, r) == 1, z3.Select(N.own, r) == c.this.addr,
                z3.Select(N.lo, r) == lo, z3.Select(N.hi, r) == hi, z3.Select(N.dep, r) == dep))
            ] + tree_inv(N, b, d, c.this.addr, c.old.clock, c.new.clock, lo, hi, dep, md, DIST(a, lo, hi))

    def ghost_exit(c):
        md, dep = ints(c)
        lo, hi = span(c)
        r = c.res
        for g, v in (('$ok', z3.IntVal(1)), ('$own', c.this.addr), ('$lo', lo), ('$hi', hi), ('$dep', dep)):
            c.ex.hset(g, r, v)
        b, d = varr(c.f(df)), c.fo(cf)
        N = Nodes(c, c.new, prog)
        c.ex.touch_dom(d, INT)
        x = z3.Select(N.hi, z3.Select(N.left, r))
        cnt = CNT(b, lo, hi)
        put(c.new, ('exit', r.sexpr()), mode_def(cnt, d, z3.Select(N.predicted_class, r)) + dist_split(b, lo, x, hi))
    return Contract('build_tree', (DT + '::build_tree', 4), pre=pre, post=post, iters=iters(prog), verify=verify,
                    allocates=[ND + '::' + f[0] for f in prog.classes[ND].fields] + NG, ghost_exit=ghost_exit,
                    modifies=lambda c: [c.ex.field(c.this, df), c.ex.field(c.this, tn)])


# ---------------------------------------------------------------- prediction, training
LEAFG = '$leaf'                      # ghost: the leaf the last prediction came from


def trained(c, st, prog, names=False):
    """the tree was trained: its nodes and its samples"""
    df, cf = data_field(prog), cls_field(prog)
    this = c.this.addr
    ld = lambda f: c.ex.load_in(st, c.ex.field(c.this, f))
    D, d = ld(df), ld(cf)
    A, n, md, root = varr(D), vlen(D), ld(role(prog, DT, 'max_depth')), ld(role(prog, DT, 'root'))
    c0, c1 = c.ex.hget('$from', this, st), c.ex.hget('$to', this, st)
    N = Nodes(c, st, prog)
    z = z3.IntVal(0)
    out = [('there are samples', z3.And(n >= 1, n < 2**31, flen(fv(A, z)) < 2**31)),
           ('feature vectors are equally long', uniform(A, z, n, flen(fv(A, z)))),
           ('one label per feature vector', consistent(A, z, n)),
           ('labels are known classes', in_classes(A, z, n, d)),
           ('the root covers all samples', z3.And(
               root > 0, akind(root) == 0, c0 <= born(root), born(root) < c1, c1 <= st.clock,
               z3.Select(N.ok, root) == 1, z3.Select(N.own, root) == this, z3.Select(N.lo, root) == 0,
               z3.Select(N.hi, root) == n, z3.Select(N.dep, root) == 0))
           ] + tree_inv(N, A, d, this, c0, c1, z, n, z, md, DIST(A, z, n))
    return out if names else [f for _, f in out]


def leaf_post(c, prog, n, f):
    """the leaf a prediction came from, starting at node n"""
    df, cf = data_field(prog), cls_field(prog)
    st = c.old
    N = Nodes(c, st, prog)
    A = varr(c.fo(df))
    this = c.this.addr
    m = c.glob(LEAFG)
    i = z3.Int('il')
    c0, c1 = c.ex.hget('$from', this, st), c.ex.hget('$to', this, st)
    return m, N, A, [
        ('comes from a leaf of the tree', z3.And(
            z3.Select(N.ok, m) == 1, z3.Select(N.own, m) == this, c0 <= born(m), born(m) < c1, m > 0, akind(m) == 0,
            z3.Select(N.feature_idx, m) == -1, c.res == z3.Select(N.predicted_class, m))),
        ('training samples with these features belong to the leaf', FA([i], z3.Implies(z3.And(
            z3.Select(N.lo, n) <= i, i < z3.Select(N.hi, n), fv(A, i) == f), z3.And(
                z3.Select(N.lo, m) <= i, i < z3.Select(N.hi, m))), [z3.Select(A, i)])),
        ('predicts a known class', z3.Select(c.fo(cf), c.res))]


def evaluate_contract(prog, verify=True):
    df = data_field(prog)

    def pre(c):
        n = c.args[0].addr
        N = Nodes(c, c.old, prog)
        this = c.this.addr
        c0, c1 = c.ex.hget('$from', this, c.old), c.ex.hget('$to', this, c.old)
        return trained(c, c.old, prog, True) + [
            ('a node of the tree', z3.And(z3.Select(N.ok, n) == 1, z3.Select(N.own, n) == this, c0 <= born(n),
                                          born(n) < c1, n > 0, akind(n) == 0)),
            ('as many features as in training', flen(c.argo(1)) == flen(fv(varr(c.fo(df)), z3.IntVal(0))))]

    def ghost_exit(c):
        n = c.args[0].addr
        N = Nodes(c, c.new, prog)
        c.new.env[('g', LEAFG)] = z3.If(z3.Select(N.feature_idx, n) == -1, n, c.glob(LEAFG))

    def post(c):
        return leaf_post(c, prog, c.args[0].addr, c.argo(1))[3]
    return Contract('evaluate_tree', (DT + '::evaluate_tree', 2), pre=pre, post=post, ghost_exit=ghost_exit,
                    modifies=lambda c: [('g', LEAFG)], verify=verify)


def predict_contract(prog, verify=True):
    df, cf = data_field(prog), cls_field(prog)

    def pre(c):
        return trained(c, c.old, prog, True) + [
            ('as many features as in training', flen(c.argo(0)) == flen(fv(varr(c.fo(df)), z3.IntVal(0))))]

    def post(c):
        f = c.argo(0)
        root = c.fo(role(prog, DT, 'root'))
        m, N, A, ps = leaf_post(c, prog, root, f)
        n, d = vlen(c.fo(df)), c.fo(cf)
        i = z3.Int('il')
        l, h = z3.Select(N.lo, m), z3.Select(N.hi, m)
        cnt = CNT(A, l, h)
        put(c.new, ('pred', m.sexpr()), mode_def(cnt, d, c.res) + count_facts(A, l, h) + pure_def(A, l, h) +
            dist_facts(A, l, h))
        hint2(c.new, z3.Select(A, SKP(A, l, h)), z3.Select(A, l))
        deep = c.fo(role(prog, DT, 'max_depth')) + 1 >= DIST(A, z3.IntVal(0), n)
        return ps + [
            ('the most frequent label of the leaf, the lowest on ties', node_mode(cnt, d, c.res)),
            ('a deep enough tree predicts the training label', FA([i], z3.Implies(z3.And(
                0 <= i, i < n, fv(A, i) == f, deep), c.res == lab(A, i)), [z3.Select(A, i)]))]
    return Contract(DT + '::predict', (DT + '::predict', 1), pre=pre, post=post,
                    modifies=lambda c: [('g', LEAFG)], verify=verify)


SKB = z3.Function('sk_bag', PA, PA, I, I)
POS = z3.Function('POS', PA, I, PA, I, I)          # where sample i of a lies in b, a permutation


def bag_facts(a, b, n):
    """lemma 'multiset': equal multisets have equal members"""
    i = z3.Int('ib')
    p = POS(a, i, b, n)
    return [z3.Implies(BAG(b, n) == BAG(a, n), FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
        0 <= p, p < n, z3.Select(b, p) == z3.Select(a, i))), [p]))]


def class_range(d, N):
    k = z3.Int('kc')
    return FA([k], z3.Implies(z3.Select(d, k), z3.And(0 <= k, k < N)), [z3.Select(d, k)])


def in_range_labels(L, N):
    i = z3.Int('il')
    e = z3.Select(varr(L), i)
    return FA([i], z3.Implies(z3.And(0 <= i, i < vlen(L)), z3.And(0 <= e, e < N)), [e])


def train_contract(prog, name, sel, i0, ctor):
    nf = role(prog, DT, 'num_classes', '^int$')

    def nc(c, old=False):
        return c.argo(0) if ctor else c.fo(nf)
    df, cf = data_field(prog), cls_field(prog)
    mf, rf = role(prog, DT, 'max_depth'), role(prog, DT, 'root')
    tn = role(prog, DT, 'tree_nodes', r'vector<.*Node')

    def pre(c):
        F, L = c.argo(i0), c.argo(i0 + 1)
        n = vlen(F)
        i, j = z3.Ints('it jt')
        f = lambda k: z3.Select(varr(F), k)
        l = lambda k: z3.Select(varr(L), k)
        k = KD(f(i), f(j))
        return [('samples', z3.And(n >= 1, n == vlen(L), n < 2**30, flen(f(z3.IntVal(0))) < 2**31)),
                ('feature vectors are equally long', FA([i], z3.Implies(z3.And(
                    0 <= i, i < n), flen(f(i)) == flen(f(z3.IntVal(0)))), [f(i)])),
                ('one label per feature vector', z3.ForAll([i, j], z3.Implies(z3.And(
                    0 <= i, i < n, 0 <= j, j < n, l(i) != l(j)), z3.And(
                    0 <= k, k < flen(f(i)), fat(f(i), k) != fat(f(j), k))), patterns=[z3.MultiPattern(f(i), f(j))]))] + (
                        [('N >= 0', c.argo(0) >= 0)] if ctor else [('fewer than 2^30 classes', card(c.fo(cf)) < 2**30)])

    def post(c):
        F, L = c.argo(i0), c.argo(i0 + 1)
        A, n = varr(c.f(df)), vlen(F)
        i = z3.Int('it')
        q = POS(c.ghost_a, i, A, n)
        put(c.new, ('bag', A.get_id()), bag_facts(c.ghost_a, A, n))
        f = z3.Select(varr(F), i)
        return [('as many samples as given', vlen(c.f(df)) == n),
                ('every given sample is one of the tree\'s', FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
                    0 <= q, q < n, fv(A, q) == f, lab(A, q) == z3.Select(varr(L), i))), [f])),
                ('depth is kept', c.f(mf) == (c.argo(i0 + 2) if ctor else c.fo(mf))),
                ('labels in 0..N-1 keep the known classes in 0..N-1', z3.Implies(z3.And(
                    in_range_labels(L, nc(c, True)), z3.BoolVal(True) if ctor else class_range(c.fo(cf), nc(c, True))),
                    class_range(c.f(cf), nc(c, True)))),
                ('N is kept', c.f(nf) == nc(c, True))
                ] + trained(c, c.new, prog, True)

    def ghost_exit(c):
        F, L = c.argo(i0), c.argo(i0 + 1)
        c.ex.hset('$from', c.this.addr, c.old.clock)
        c.ex.hset('$to', c.this.addr, c.new.clock)
        # the samples in the order given
        g = c.ex.fresh('given', PA)
        i = z3.Int('ig')
        mk = sort(PAIR).constructor(0)
        c.ex.assume(FA([i], z3.Implies(z3.And(0 <= i, i < vlen(F)), z3.Select(g, i) == mk(
            z3.Select(varr(F), i), z3.Select(varr(L), i))), [z3.Select(g, i)]))
        x = z3.Const('xg', PA)
        k = SKB(x, g, vlen(F))
        c.ex.assume(FA([x], z3.Or(BAG(x, vlen(F)) == BAG(g, vlen(F)), z3.And(0 <= k, k < vlen(
            F), z3.Select(x, k) != z3.Select(g, k))), [BAG(x, vlen(F))]))       # lemma 'multiset'
        c.ghost_a = g

    def inv(L, c):
        F, LL = c.argo(i0), c.argo(i0 + 1)
        j = z3.Int('jv')
        out = []
        for vn, vg in L.roots(t=VP):
            def zipped(st, vg=vg):
                v = vg(st)
                e = z3.Select(varr(v), j)
                return FA([j], z3.Implies(z3.And(0 <= j, j < vlen(v)), z3.And(
                    pget(e, 0) == z3.Select(varr(F), j), pget(e, 1) == z3.Select(varr(LL), j))), [e])
            out.append(('%s holds the samples' % vn, zipped))
        for vn, vg in L.roots(t=VVF):
            for pn, pg in L.progress():
                def rest(st, vg=vg, pg=pg):
                    e = z3.Select(varr(vg(st)), j)
                    return FA([j], z3.Implies(z3.And(pg(st) <= j, j < vlen(F)), e == z3.Select(varr(F), j)), [e])
                out.append(('%s untouched from %s' % (vn, pn), rest))
        return out
    return Contract(name, sel, pre=pre, post=post, invgens=[inv], ghost_exit=ghost_exit,
                    allocates=[ND + '::' + f[0] for f in prog.classes[ND].fields] + NG,
                    modifies=lambda c: [c.args[i0], ('h', '$from', c.this.addr), ('h', '$to', c.this.addr)] + [
                        c.ex.field(c.this, f[0]) for f in prog.classes[DT].fields if f[0] not in (
                            mf, nf, 'unique_id', 'jit_evaluate_function')] + (
                        [('g', DT + '::unique_counter')] if ctor else []))


# ---------------------------------------------------------------- lemmas, by induction over the definitions
def lemmas():
    """the facts about CNT, SQ, PURE, DIST, BAG the contracts use, from their recursive definitions"""
    a, b = z3.Consts('a b', PA)
    lo, hi, l, h, c, i, w, k, mid, n, x0 = z3.Ints('lo hi l h c i w k mid n x0')
    d = z3.Const('d', CS)
    out = []
    sel = z3.Select

    def induct(nm, P, base, step, lower, defs, given=()):
        """P(v) for v >= lower"""
        out.append((nm + ': base', list(given) + list(base), P(lower)))
        v = z3.Int('v!ind')
        out.append((nm + ': step', list(given) + [v > lower, P(v - 1)] + list(defs(v)) + list(step), P(v)))
    rng = lambda j, u, v: z3.And(u <= j, j < v)
    cz = FA([c], sel(CNT(a, lo, lo), c) == 0, [sel(CNT(a, lo, lo), c)])
    cdef = lambda v: [CNT(a, lo, v) == z3.Store(CNT(a, lo, v - 1), lab(a, v - 1), sel(CNT(a, lo, v - 1), lab(a, v - 1)) + 1)]
    N_ = lambda v, y: sel(CNT(a, lo, v), y)
    induct('counts: 0 <= count <= n', lambda v: z3.ForAll([c], z3.And(0 <= N_(v, c), N_(v, c) <= v - lo)), [cz], [], lo, cdef)
    induct('counts: a counted label occurs', lambda v: z3.ForAll([c], z3.Implies(N_(v, c) > 0, z3.Exists([w], z3.And(
        rng(w, lo, v), lab(a, w) == c)))), [cz], [], lo, cdef)
    nonneg = z3.ForAll([c, i], z3.Implies(i >= lo, z3.And(0 <= N_(i, c), N_(i, c) <= i - lo)))
    induct('counts: a label that occurs is counted', lambda v: z3.ForAll([i], z3.Implies(rng(i, lo, v), N_(v, lab(a, i)) > 0)),
           [cz], [nonneg], lo, cdef)
    induct('counts: all samples have a label counted n times', lambda v: z3.ForAll([c, i], z3.Implies(z3.And(
        rng(i, lo, v), N_(v, c) == v - lo), lab(a, i) == c)), [cz], [nonneg], lo, cdef)
    induct('counts: one label is counted n times', lambda v: z3.Implies(z3.ForAll([i], z3.Implies(
        rng(i, lo, v), lab(a, i) == x0)), N_(v, x0) == v - lo), [cz], [], lo, cdef)
    # sums over the classes; c_k counts class k
    ck = lambda v, j: N_(v, key_at(d, j))
    pdef = lambda hh: (lambda v: [PRE(a, lo, hh, d, v) == PRE(a, lo, hh, d, v - 1) + ck(hh, v - 1),
                                  SQ(a, lo, hh, d, v) == SQ(a, lo, hh, d, v - 1) + ck(hh, v - 1) * ck(hh, v - 1)])
    zero = z3.IntVal(0)
    p0 = [PRE(a, lo, h, d, zero) == 0, SQ(a, lo, h, d, zero) == 0]
    pos = [z3.ForAll([c], N_(h, c) >= 0, patterns=[N_(h, c)])]
    induct('prefix: sums are not negative', lambda v: z3.And(PRE(a, lo, h, d, v) >= 0, SQ(a, lo, h, d, v) >= 0), p0, pos, zero, pdef(h))
    X, Y, C = z3.Ints('X Y C')
    # X = PRE, Y = SQ
    inv = lambda v: z3.And(PRE(a, lo, h, d, v) >= 0, SQ(a, lo, h, d, v) >= 0,
                           SQ(a, lo, h, d, v) <= PRE(a, lo, h, d, v) * PRE(a, lo, h, d, v),
                           z3.Implies(PRE(a, lo, h, d, v) > 0, SQ(a, lo, h, d, v) > 0))
    induct('squares: at most the square of the sum, positive', inv, p0, pos, zero, pdef(h))
    one = lambda v: z3.Implies(z3.And(PRE(a, lo, h, d, v) > 0, SQ(a, lo, h, d, v) == PRE(a, lo, h, d, v) * PRE(a, lo, h, d, v)),
                               z3.Exists([k], z3.And(rng(k, 0, v), ck(h, k) == PRE(a, lo, h, d, v))))
    induct('squares: equal only for one class', one, p0, pos + [
        z3.ForAll([k], inv(k), patterns=[PRE(a, lo, h, d, k)])], zero, pdef(h))
    conv = lambda v: z3.And(z3.Implies(z3.Exists([k], z3.And(rng(k, 0, v), ck(h, k) == PRE(a, lo, h, d, v))),
                                       SQ(a, lo, h, d, v) == PRE(a, lo, h, d, v) * PRE(a, lo, h, d, v)),
                            z3.ForAll([k], z3.Implies(rng(k, 0, v), ck(h, k) <= PRE(a, lo, h, d, v))))
    induct('squares: equal for one class', conv, p0, pos + [
        z3.ForAll([k], inv(k), patterns=[PRE(a, lo, h, d, k)])], zero, pdef(h))
    # over all classes PRE is n
    kt = [z3.ForAll([k], z3.Implies(rng(k, 0, card(d)), z3.And(sel(d, key_at(d, k)), idx_of(d, key_at(d, k)) == k)),
                    patterns=[key_at(d, k)]),
          z3.ForAll([c], z3.Implies(sel(d, c), z3.And(rng(idx_of(d, c), 0, card(d)), key_at(d, idx_of(d, c)) == c)),
                    patterns=[idx_of(d, c)])]
    y = lab(a, h - 1)
    grow = lambda v: z3.Implies(v <= card(d), PRE(a, lo, h, d, v) == PRE(a, lo, h - 1, d, v) + z3.If(
        z3.And(sel(d, y), idx_of(d, y) < v), 1, 0))
    induct('prefix: one more sample', grow, p0 + kt + [PRE(a, lo, h - 1, d, zero) == 0], kt + cdef(h), zero,
           lambda v: pdef(h)(v) + pdef(h - 1)(v), [h > lo])
    induct('prefix: no samples', lambda v: z3.Implies(v <= card(d), PRE(a, lo, lo, d, v) == 0),
           [PRE(a, lo, lo, d, zero) == 0], [cz], zero, pdef(lo))
    tot = lambda v: z3.Implies(z3.ForAll([i], z3.Implies(rng(i, lo, v), sel(d, lab(a, i)))), PRE(a, lo, v, d, card(d)) == v - lo)
    induct('prefix: all classes', tot, [PRE(a, lo, lo, d, card(d)) == 0], kt + [z3.ForAll([l], z3.Implies(
        l > lo, PRE(a, lo, l, d, card(d)) == PRE(a, lo, l - 1, d, card(d)) + z3.If(z3.And(sel(d, lab(a, l - 1)), idx_of(
            d, lab(a, l - 1)) < card(d)), 1, 0)), patterns=[PRE(a, lo, l, d, card(d))])], lo, lambda v: [])
    # squares against one label (sq_facts), from the above
    K = card(d)
    S, Pn = SQ(a, lo, h, d, K), PRE(a, lo, h, d, K)
    hyp = kt + pos + [lo < h, in_classes(a, lo, h, d), Pn == h - lo, inv(K), one(K), conv(K)] + pure_def(a, lo, h) + [
        z3.ForAll([c, i], z3.Implies(z3.And(rng(i, lo, h), N_(h, c) == h - lo), lab(a, i) == c),
                  patterns=[z3.MultiPattern(N_(h, c), sel(a, i))]),
        z3.Implies(PUREP(a, lo, h), N_(h, lab(a, lo)) == h - lo), K >= 0]
    out.append(('squares: bounds', hyp, z3.And(0 < S, S <= (h - lo) * (h - lo))))
    out.append(('squares: n^2 means one label', hyp + [S == (h - lo) * (h - lo), lab(a, lo) == lab(a, lo)], PUREP(a, lo, h)))
    out.append(('squares: one label means n^2', hyp + [PUREP(a, lo, h), sel(d, lab(a, lo))], S == (h - lo) * (h - lo)))
    # distinct feature vectors
    isnew = lambda A, u, v: z3.Not(z3.Exists([i], z3.And(rng(i, u, v - 1), fv(A, i) == fv(A, v - 1))))
    ddef = lambda A, u: (lambda v: [DIST(A, u, v) == DIST(A, u, v - 1) + z3.If(isnew(A, u, v), 1, 0)])
    dz = lambda A, u: [DIST(A, u, u) == 0]
    induct('distinct: at least one', lambda v: z3.And(DIST(a, lo, v) >= 0, z3.Implies(v > lo, DIST(a, lo, v) >= 1)),
           dz(a, lo), dz(a, lo), lo, ddef(a, lo))
    induct('distinct: at most one means equal', lambda v: z3.Implies(DIST(a, lo, v) <= 1, z3.ForAll([i], z3.Implies(
        rng(i, lo, v), fv(a, i) == fv(a, lo)))), [], [z3.ForAll([l], z3.Implies(l > lo, DIST(a, lo, l) >= 1),
                                                              patterns=[DIST(a, lo, l)])] + dz(a, lo), lo, ddef(a, lo))
    j = z3.Int('j')
    disj = lambda v: z3.ForAll([i, j], z3.Implies(z3.And(rng(i, lo, mid), rng(j, mid, v)), fv(a, i) != fv(a, j)))
    induct('distinct: sums over parts that share none', lambda v: z3.Implies(
        disj(v), DIST(a, lo, v) == DIST(a, lo, mid) + DIST(a, mid, v)), dz(a, mid), [], mid,
        lambda v: ddef(a, lo)(v) + ddef(a, mid)(v), [lo <= mid])
    # extensionality
    same = lambda v: z3.ForAll([i], z3.Implies(rng(i, l, v), sel(a, i) == sel(b, i)))
    cn = lambda A: (lambda v: [CNT(A, l, v) == z3.Store(CNT(A, l, v - 1), lab(A, v - 1), sel(CNT(A, l, v - 1), lab(A, v - 1)) + 1)])
    induct('extensional: counts', lambda v: z3.Implies(same(v), CNT(a, l, v) == CNT(b, l, v)),
           [CNT(A, l, l) == z3.K(I, z3.IntVal(0)) for A in (a, b)], [], l, lambda v: cn(a)(v) + cn(b)(v))
    induct('extensional: distinct', lambda v: z3.Implies(same(v), DIST(a, l, v) == DIST(b, l, v)),
           dz(a, l) + dz(b, l), [], l, lambda v: ddef(a, l)(v) + ddef(b, l)(v))
    out.append(('extensional: one label', [l < h, same(h)] + pure_def(a, l, h) + pure_def(b, l, h) + [
        sel(a, l) == sel(b, l)], PUREP(a, l, h) == PUREP(b, l, h)))
    # multisets as counts of samples
    BC = z3.Function('BAGC', PA, I, z3.ArraySort(sort(PAIR), I))
    bz = [BC(A, zero) == z3.K(sort(PAIR), z3.IntVal(0)) for A in (a, b)]
    bd = lambda A: (lambda v: [BC(A, v) == z3.Store(BC(A, v - 1), sel(A, v - 1), sel(BC(A, v - 1), sel(A, v - 1)) + 1)])
    x = z3.Const('x', sort(PAIR))
    induct('multiset: a member is counted', lambda v: z3.And(z3.ForAll([x], sel(BC(a, v), x) >= 0), z3.ForAll([i], z3.Implies(
        rng(i, 0, v), sel(BC(a, v), sel(a, i)) > 0))), bz, [], zero, bd(a))
    induct('multiset: what is counted is a member', lambda v: z3.ForAll([x], z3.Implies(sel(BC(b, v), x) > 0, z3.Exists(
        [i], z3.And(rng(i, 0, v), sel(b, i) == x)))), bz, [], zero, bd(b))
    induct('multiset: extensional', lambda v: z3.Implies(z3.ForAll([i], z3.Implies(rng(i, 0, v), sel(a, i) == sel(
        b, i))), BC(a, v) == BC(b, v)), bz, [], zero, lambda v: bd(a)(v) + bd(b)(v))
    return out


def contracts(prog):
    return [gini_contract(prog), counts_contract(prog), split_contract(prog), build_contract(prog),
            evaluate_contract(prog), predict_contract(prog),
            train_contract(prog, DT + '::train', (DT + '::train', 2), 0, False),
            train_contract(prog, DT + '(N, features, labels, depth)', (DT + '::' + DT, 4), 1, True)]
