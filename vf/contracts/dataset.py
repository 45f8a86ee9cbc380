"""Contracts of Apollo::Dataset (C04, C05 and their users)."""
import z3
from .. import types as ty
from ..types import T, sort, vlen, vat, mdom, mval, pget, pmk, card, key_at, idx_of, sel, FA
from ..contract import Contract, Missing
from .treemodels import DATA, VF, VVF, VI, INT

D = 'Apollo::Dataset'
MM = T(('map', VF, T(('pair', INT, T(('float', 64))))))
HALF = z3.RealVal('0.5')


def key(t, f, p):
    return pmk(sort(t[1]), f, p)


def touch(c, d, t):
    c.ex.touch_dom(d, t[1], True)


def recorded(t, old, new, k, m):
    """new = old after recording metric m for pair k"""
    x = z3.Const('kr', sort(t[1]))
    return [
        ('the pair is present, no pair is lost or invented', mdom(new) == z3.Store(mdom(old), k, z3.BoolVal(True))),
        ('a new pair stores the metric, a known one its moving average',
         sel(mval(new), k) == z3.If(sel(mdom(old), k), HALF * sel(mval(old), k) + HALF * m, m)),
        ('every other pair keeps its value', FA([x], z3.Implies(z3.And(x != k, sel(mdom(old), x)), z3.Select(
            mval(new), x) == z3.Select(mval(old), x)), [z3.Select(mval(new), x)])),
    ]


def insert_contract(prog, verify=True):
    df, t = DATA(prog)

    def post(c):
        o, n = c.fo(df), c.f(df)
        k = key(t, c.argo(0), c.argo(1))
        touch(c, mdom(o), t)
        r = recorded(t, o, n, k, c.argo(2))
        d1 = z3.Store(mdom(o), k, z3.BoolVal(True))
        touch(c, d1, t)
        r.append(('the size grows by one exactly for a new pair',
                  card(mdom(n)) == card(mdom(o)) + z3.If(sel(mdom(o), k), 0, 1)))
        return r
    return Contract('Dataset::insert(features, policy, metric)', (D + '::insert', 3), post=post, verify=verify,
                    modifies=lambda c: [c.ex.field(c.this, df), c.args[0]])


def size_contract(prog, verify=True):
    df, t = DATA(prog)

    def post(c):
        touch(c, mdom(c.fo(df)), t)
        return [('the number of distinct pairs', c.res == card(mdom(c.fo(df)))), ('>= 0', c.res >= 0)]
    return Contract('Dataset::size', (D + '::size', 0), post=post, modifies=lambda c: [], verify=verify)


def clear_contract(prog, verify=True):
    df, t = DATA(prog)

    def post(c):
        return [('no pair is left', mdom(c.f(df)) == z3.K(sort(t[1]), z3.BoolVal(False)))]
    return Contract('Dataset::clear', (D + '::clear', 0), post=post,
                    modifies=lambda c: [c.ex.field(c.this, df)], verify=verify)


TUP = T(('tuple', VF, INT, T(('float', 64))))


def list_contract(prog, verify=True):
    df, t = DATA(prog)

    def post(c):
        d = c.fo(df)
        i = z3.Int('il')
        touch(c, mdom(d), t)
        k = key_at(mdom(d), i)
        e = vat(c.res, i)
        return [('as many entries as pairs', vlen(c.res) == card(mdom(d))),
                ('entry i is pair i with its stored value', FA([i], z3.Implies(
                    z3.And(0 <= i, i < card(mdom(d))),
                    z3.And(pget(e, 0) == pget(k, 0), pget(e, 1) == pget(k, 1),
                           pget(e, 2) == z3.Select(mval(d), k))), [e, k]))]

    def inv(L, c):
        d = c.fo(df)
        out = []
        for vn, vg in L.roots(t=T(('vec', TUP))):
            for pn, pg in L.progress():
                def g(st, vg=vg, pg=pg):
                    i = z3.Int('il')
                    k = key_at(mdom(d), i)
                    e = z3.Select(ty.varr(vg(st)), i)
                    return FA([i], z3.Implies(
                        z3.And(0 <= i, i < pg(st)),
                        z3.And(pget(e, 0) == pget(k, 0), pget(e, 1) == pget(k, 1),
                               pget(e, 2) == z3.Select(mval(d), k))), [e, k])
                out.append(('list %s up to %s' % (vn, pn), g))
        return out
    return Contract('Dataset::toVectorOfTuples', (D + '::toVectorOfTuples', 0), post=post, modifies=lambda c: [],
                    invgens=[inv], verify=verify)


def merged(t, a, d, n, done):
    """n = a after recording each entry k of d with done(k) once"""
    x = z3.Const('km', sort(t[1]))
    av, dv, nv = z3.Select(mval(a), x), z3.Select(mval(d), x), z3.Select(mval(n), x)
    ind = z3.And(z3.Select(mdom(d), x), done(x))
    ina = z3.Select(mdom(a), x)
    return [
        ('exactly the pairs of both', FA([x], z3.Select(mdom(n), x) == z3.Or(ina, ind),
                                               [z3.Select(mdom(n), x)])),
        ('each entry is recorded once', FA([x], z3.Implies(z3.Or(ina, ind), nv == z3.If(
            z3.And(ina, ind), HALF * av + HALF * dv, z3.If(ind, dv, av))), [nv]))]


def merge_contract(prog, verify=True):
    df, t = DATA(prog)

    def post(c):
        touch(c, mdom(c.f(df)), t)
        touch(c, mdom(c.fo(df)), t)
        return merged(t, c.fo(df), c.f(df, obj=c.args[0], old=True), c.f(df), lambda k: z3.BoolVal(True)) + [
            ('the source is kept', c.f(df, obj=c.args[0]) == c.f(df, obj=c.args[0], old=True))]

    def inv(L, c):
        a, d = c.fo(df), c.f(df, obj=c.args[0], old=True)
        out = []
        for vn, vg in L.roots(t=t):
            for pn, pg in L.progress():
                for j in (0, 1):
                    def g(st, vg=vg, pg=pg, j=j):
                        return merged(t, a, d, vg(st), lambda k: idx_of(mdom(d), k) < pg(st))[j][1]
                    out.append(('merge %s up to %s (%d)' % (vn, pn, j), g))
        return out
    return Contract('Dataset::insert(dataset)', (D + '::insert', 1),
                    pre=lambda c: [('the source is another dataset', c.this.addr != c.args[0].addr)],
                    post=post, modifies=lambda c: [c.ex.field(c.this, df)], invgens=[inv], verify=verify)


def label_map(t, d, best, upto=None):
    """best maps exactly the feature vectors of d (of its first upto entries) to the policy with the least metric"""
    i = z3.Int('ib')
    f = z3.Const('fb', ty.FV)
    n = card(mdom(d)) if upto is None else upto
    k = key_at(mdom(d), i)
    b = z3.Select(mval(best), pget(k, 0))
    m = z3.Select(mval(d), k)
    bf = z3.Select(mval(best), f)
    kf = key(t, f, pget(bf, 0))
    return [
        ('every feature vector has a label', FA([i], z3.Implies(
            z3.And(0 <= i, i < n), z3.Select(mdom(best), pget(k, 0))), [k])),
        ('the label has the least metric', FA([i], z3.Implies(
            z3.And(0 <= i, i < n), pget(b, 1) <= m), [k])),
        ('the label is the lowest policy on ties', FA([i], z3.Implies(
            z3.And(0 <= i, i < n), z3.Implies(pget(b, 1) == m, pget(b, 0) <= pget(k, 1))), [k])),
        ('every label is measured, with its metric', FA([f], z3.Implies(
            z3.Select(mdom(best), f),
            z3.And(z3.Select(mdom(d), kf), idx_of(mdom(d), kf) < n, pget(bf, 1) == z3.Select(mval(d), kf))),
            [z3.Select(mdom(best), f)]))]


def reduce_contract(prog, verify=True):
    df, t = DATA(prog)

    def lists(F, P, best, n):
        i = z3.Int('ir')
        k = key_at(mdom(best), i)
        return [('feature i is key i of the map', FA([i], z3.Implies(
                    z3.And(0 <= i, i < n), z3.Select(ty.varr(F), i) == k), [z3.Select(ty.varr(F), i), k])),
                ('label i is the policy of key i', FA([i], z3.Implies(
                    z3.And(0 <= i, i < n), z3.Select(ty.varr(P), i) == pget(z3.Select(mval(best), k), 0)),
                    [z3.Select(ty.varr(P), i), k]))]

    def post(c):
        d, best = c.fo(df), c.arg(2)
        touch(c, mdom(d), t)
        touch(c, mdom(best), MM)
        n = card(mdom(best))
        return label_map(t, d, best) + [
            ('one feature vector and one label per key', z3.And(vlen(c.arg(0)) == n, vlen(c.arg(1)) == n)),
        ] + lists(c.arg(0), c.arg(1), best, n)

    def inv(L, c):
        d = c.fo(df)
        out = []
        for bn, bg in L.roots(t=MM):
            for pn, pg in L.progress():
                def first(st, bg=bg, pg=pg):
                    i = z3.Int('ib')
                    k = key_at(mdom(d), i)
                    b = z3.Select(mval(bg(st)), pget(k, 0))
                    return FA([i], z3.Implies(z3.And(0 <= i, i < pg(st), pget(b, 1) == z3.Select(mval(d), k)),
                                              idx_of(mdom(d), key(t, pget(k, 0), pget(b, 0))) <= i), [k])
                out.append(('label of %s is the first minimum up to %s' % (bn, pn), first))
                for j in range(4):
                    out.append(('labels %s up to %s (%d)' % (bn, pn, j), (lambda bg, pg, j: lambda st: label_map(
                        t, d, bg(st), pg(st))[j][1])(bg, pg, j)))
        for fn, fg in L.roots(t=VVF):
            for p2, qg in L.roots(t=VI):
                for bn, bg in L.visible(t=MM):
                    for pn, pg in L.progress():
                        for j in (0, 1):
                            out.append(('lists up to %s (%d)' % (pn, j), (lambda fg, qg, bg, pg, j: lambda st: lists(
                                fg(st), qg(st), bg(st), pg(st))[j][1])(fg, qg, bg, pg, j)))
        return out
    return Contract('Dataset::findMinMetricPolicyByFeatures', (D + '::findMinMetricPolicyByFeatures', 3),
                    pre=lambda c: [('the lists start empty', z3.And(vlen(c.argo(0)) == 0, vlen(c.argo(1)) == 0))],
                    post=post, modifies=lambda c: [c.args[0], c.args[1], c.args[2]], invgens=[inv], verify=verify)
