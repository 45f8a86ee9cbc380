"""C01: the chosen policy is always one of the region's policies."""
import z3
from .. import types as ty
from ..types import T, sort, vlen, varr, FA, mdom, mval, pget, sel, card
from ..contract import Contract, Missing
from ..engine import born
from ..stl import udlo, udhi
from .common import role
from . import c02, c03, forest, tree, treemodels as tm, region
from .dataset import reduce_contract, touch
from .treemodels import DATA, VF, VVF, VI, INT

PM = 'apollo::PolicyModel'
RNG = lambda x, n: z3.And(0 <= x, x < n)


# ---------------------------------------------------------------- Static, Random, DatasetMap
def static_contracts(prog):
    C = 'apollo::Static'
    pc = role(prog, C, 'policy_choice', r'^int$')
    inv = lambda c: RNG(c.f(pc), c.f('policy_count'))
    keep = lambda c: z3.And(c.f(pc) == c.fo(pc), c.f('policy_count') == c.fo('policy_count'))
    ks = [Contract('Static::Static', (C + '::Static', 2),
                   pre=lambda c: [('the policy is one of N (ensured by the factory)', RNG(c.argo(1), c.argo(0)))],
                   post=lambda c: [('invariant', inv(c)), ('policy_count = N', c.f('policy_count') == c.argo(0))]),
          Contract('Static::getIndex', (C + '::getIndex', 1), pre=lambda c: [('invariant', inv(c))],
                   post=lambda c: [('one of the policies', RNG(c.res, c.fo('policy_count'))), ('invariant', inv(c))],
                   modifies=lambda c: [])]
    for m in ('train', 'load', 'store'):
        ks.append(Contract('Static::' + m, (C + '::' + m,), pre=lambda c: [('invariant', inv(c))],
                           post=lambda c: [('invariant', z3.And(inv(c), keep(c)))], modifies=lambda c: []))
    return ks


def random_contracts(prog):
    C = 'apollo::Random'
    df = role(prog, C, 'random_dist', 'uniform_int_distribution')

    def inv(c):
        d, n = c.f(df), c.f('policy_count')
        return z3.And(n >= 1, udlo(d) == 0, udhi(d) == n - 1)
    ks = [Contract('Random::Random', (C + '::Random', 1), pre=lambda c: [('N >= 1', c.argo(0) >= 1)],
                   post=lambda c: [('invariant', inv(c)), ('policy_count = N', c.f('policy_count') == c.argo(0))]),
          Contract('Random::getIndex', (C + '::getIndex', 1), pre=lambda c: [('invariant', inv(c))],
                   post=lambda c: [('one of the policies', RNG(c.res, c.fo('policy_count'))), ('invariant', inv(c))],
                   modifies=lambda c: [c.ex.field(c.this, f[0]) for f in prog.classes[C].fields if f[0] != df] + [
                       c.args[0]])]
    for m in ('train', 'load', 'store'):
        ks.append(Contract('Random::' + m, (C + '::' + m,), modifies=lambda c: []))
    return ks


def in_policies(t, d, n):
    """every measurement of dataset d carries a policy in 0..n-1"""
    k = z3.Const('kp', sort(t[1]))
    return FA([k], z3.Implies(z3.Select(mdom(d), k), RNG(pget(k, 1), n)), [z3.Select(mdom(d), k)])


def dm_contracts(prog):
    df, t = DATA(prog)
    C = 'apollo::DatasetMap'
    bf = role(prog, C, 'best_policies', 'map<')
    data = lambda c: c.f(df, obj=c.args[0], old=True)

    def inv(c):
        f = z3.Const('fb', ty.FV)
        b = c.f(bf)
        return FA([f], z3.Implies(z3.Select(mdom(b), f), RNG(pget(z3.Select(mval(b), f), 0), c.f('policy_count'))),
                  [z3.Select(mdom(b), f)])
    n = lambda c: c.f('policy_count') == c.fo('policy_count')
    ks = [reduce_contract(prog, verify=False),
          Contract('DatasetMap::DatasetMap', (C + '::DatasetMap', 1), post=lambda c: [
              ('invariant', inv(c)), ('policy_count = N', c.f('policy_count') == c.argo(0))]),
          Contract('DatasetMap::train', (C + '::train', 1), pre=lambda c: [
              ('measured policies lie in 0..N-1', in_policies(t, data(c), c.fo('policy_count')))],
              post=lambda c: [touch(c, mdom(data(c)), t) or ('invariant', inv(c)), ('N is kept', n(c))],
              modifies=lambda c: [c.ex.field(c.this, bf)]),
          Contract('DatasetMap::getIndex', (C + '::getIndex', 1), pre=lambda c: [('invariant', inv(c))],
                   post=lambda c: [('one of the policies', RNG(c.res, c.fo('policy_count'))), ('invariant', inv(c)),
                                   ('N is kept', n(c))],
                   exits=lambda c: z3.Not(sel(mdom(c.fo(bf)), c.argo(0))), modifies=lambda c: [])]
    for m in ('load', 'store'):
        ks.append(Contract('DatasetMap::' + m, (C + '::' + m,), modifies=lambda c: []))
    return ks


# ---------------------------------------------------------------- DecisionTree, RandomForest
GH = {'$N': INT, '$inr': INT, '$nf': INT, '$trained': INT}


def callees(prog, impl, explorer=True):
    """$N(m): policies of model or classes of classifier m; $inr(t) = 1: everything the classifier can predict for a
    vector of $nf features lies in 0..$N-1 (the range postconditions of DecisionTreeImpl and RandomForestImpl below)"""
    G = lambda n, a: ('h', n, a)
    ks = [Contract('PolicyModel::getIndex(any)', (PM + '::getIndex', 1), verify=False,
                   pre=lambda c: [('a model of N >= 1 policies', c.g('$N', c.this.addr) >= 1)],
                   post=lambda c: [RNG(c.res, c.g('$N', c.this.addr))], modifies=lambda c: [c.args[0]])]
    if not impl:
        return ks

    def labels(c, i, a):
        return forest.in_labels(c.argo(i), c.g('$N', a, old=True))

    def tpost(c):
        a = c.this.addr
        F = c.argo(0)
        return [c.g('$trained', a) == 1, c.g('$nf', a) == vlen(z3.Select(varr(F), 0)),
                z3.Implies(z3.And(labels(c, 1, a), c.g('$inr', a, old=True) == 1), c.g('$inr', a) == 1)]

    def tpre(c):
        F, L = c.argo(0), c.argo(1)
        return [('a training set', z3.And(vlen(F) >= 1, vlen(F) == vlen(L))),
                ('feature vectors are equally long', forest.same_len(F)),
                ('one label per feature vector', forest.one_label(F, L))]
    ks.append(Contract(impl + '::train', (impl + '::train', 2), verify=False, pre=tpre, post=tpost,
                       modifies=lambda c: [G(x, c.this.addr) for x in ('$inr', '$nf', '$trained')] + [
                           c.args[0], c.args[1]]))
    ks.append(Contract(impl + '::predict', (impl + '::predict', 1), verify=False, modifies=lambda c: [],
                       pre=lambda c: [('trained', c.g('$trained', c.this.addr) == 1),
                                      ('as many features as in training', vlen(c.argo(0)) == c.g('$nf', c.this.addr))],
                       post=lambda c: [z3.Implies(c.g('$inr', c.this.addr) == 1,
                                                  RNG(c.res, c.g('$N', c.this.addr)))]))
    ks.append(Contract(impl + '::save', (impl + '::save', 1), verify=False, modifies=lambda c: []))
    ks.append(Contract(impl + '(N...)', (impl + '::' + impl, 3 if impl[0] == 'R' else 2,
                                         ['int', '^unsigned']), verify=False,
                       pre=lambda c: [('N >= 1', c.argo(0) >= 1)],
                       post=lambda c: [c.g('$N', c.this.addr) == c.argo(0), c.g('$inr', c.this.addr) == 1],
                       modifies=lambda c: [G(x, c.this.addr) for x in ('$N', '$inr')]))
    return ks


def model_contracts(prog, cls, impl, cfield):
    df, t = DATA(prog)
    C = 'apollo::' + cls
    cf = role(prog, C, cfield, impl)
    tf = role(prog, C, 'trainable', r'^bool$')
    ef = role(prog, C, 'explorer', r'unique_ptr<(apollo::)?PolicyModel')
    nt = impl[0] == 'R'

    def inv(c, st=None):
        n = c.f('policy_count')
        k, e = c.f(cf), c.f(ef)
        return z3.And(n >= 1, k > 0, k != e, c.g('$N', k) == n, c.g('$inr', k) == 1,
                      z3.Implies(c.f(tf), z3.And(e > 0, c.g('$N', e) == n)),
                      z3.Implies(z3.Not(c.f(tf)), c.g('$trained', k) == 1))
    data = lambda c: c.f(df, obj=c.args[0], old=True)

    def uniform(d):
        a, b = z3.Consts('ka kb', sort(t[1]))
        return FA([a], z3.Implies(z3.Select(mdom(d), a), vlen(pget(a, 0)) == UL(d)), [z3.Select(mdom(d), a)])
    UL = z3.Function('feature_count', sort(t), z3.IntSort())
    n_kept = lambda c: c.f('policy_count') == c.fo('policy_count')
    ks = [reduce_contract(prog, verify=False)]
    ks.append(Contract(cls + '::getIndex', (C + '::getIndex', 1), pre=lambda c: [
        ('invariant', inv(c)),
        ('once trained, as many features as in training',
         z3.Implies(z3.Not(c.fo(tf)), vlen(c.argo(0)) == c.g('$nf', c.fo(cf))))],
        post=lambda c: [('one of the policies', RNG(c.res, c.fo('policy_count'))), ('invariant', inv(c)),
                        ('N is kept', n_kept(c))], modifies=lambda c: [c.args[0]]))
    ks.append(Contract(cls + '::train', (C + '::train', 1), pre=lambda c: [
        ('invariant', inv(c)), ('there are measurements', card(mdom(data(c))) >= 1),
        ('measured policies lie in 0..N-1', in_policies(t, data(c), c.fo('policy_count'))),
        ('measured feature vectors are equally long', uniform(data(c)))],
        post=lambda c: [('invariant', inv(c)), ('N is kept', n_kept(c))],
        modifies=lambda c: [c.ex.field(c.this, tf)] + [('h', x, c.fo(cf)) for x in ('$inr', '$nf', '$trained')],
        axioms=lambda c: touch(c, mdom(data_of(c, df)), t) or []))
    ks.append(Contract(cls + '::store', (C + '::store', 1), pre=lambda c: [('invariant', inv(c))],
                       post=lambda c: [('invariant', inv(c)), ('N is kept', n_kept(c))], modifies=lambda c: []))
    i = 3 if nt else 2
    ks.append(Contract(cls + '::%s(exploring)' % cls, (C + '::' + cls, i + 1),
                       pre=lambda c: [('explorer of N policies', z3.And(
                           c.argo(0) >= 1, c.argo(i) > 0, born(c.argo(i)) < c.old.clock, c.g('$N', c.argo(i)) == c.argo(0)))],
                       post=lambda c: [('invariant', inv(c)), ('policy_count = N', c.f('policy_count') == c.argo(0))],
                       modifies=lambda c: [c.args[i]]))
    return ks


def data_of(c, df):
    return c.ex.load(c.ex.field(c.args[0], df))


def tree_contracts(prog):
    """range of a tree's predictions: the labels it was trained on are its classes, and it predicts a class"""
    ks = tree.contracts(prog)
    for k in ks:
        if k.name in ('compute_gini', 'get_count_per_class', 'split', 'build_tree'):
            k.verify_it = False
    df, cf = tree.data_field(prog), tree.cls_field(prog)
    nf = role(prog, tree.DT, 'num_classes')
    for k in ks:
        if k.name == tree.DT + '::predict':
            p0, q0 = k.pre, k.post
            k.pre = lambda c: p0(c) + [('known classes lie in 0..N-1', tree.class_range(c.fo(cf), c.fo(nf)))]
            k.post = lambda c: [('the prediction is in 0..N-1', RNG(c.res, c.fo(nf)))]
    ks.append(Contract(tree.DT + '(N, depth)', (tree.DT + '::' + tree.DT, 2, ['int', '^unsigned']),
                       pre=lambda c: [('N >= 0', c.argo(0) >= 0)],
                       post=lambda c: [('N classes', c.f(nf) == c.argo(0)),
                                       ('known classes lie in 0..N-1', tree.class_range(c.f(cf), c.argo(0)))],
                       modifies=lambda c: [('g', tree.DT + '::unique_counter')]))
    return ks


def forest_contracts(prog):
    ks = forest.contracts(prog)
    tf, nf, _, _ = forest.fields(prog)
    for k in ks:
        if k.name == forest.R + '::predict':
            p0 = k.pre
            nfe = z3.Int('nf_trained')

            def pre(c):
                kk = z3.Int('kt')
                a = varr(c.fo(tf))
                return [('N >= 1', c.fo(nf) >= 1), ('trees exist', FA([kk], z3.Implies(z3.And(
                    0 <= kk, kk < vlen(c.fo(tf))), z3.Select(a, kk) > 0), [z3.Select(a, kk)])),
                    ('every tree predicts in 0..N-1 (ensured by train)', forest.good(c.fo(tf), c.fo(nf), nfe)),
                    ('as many features as in training', vlen(c.argo(0)) == nfe),
                    ('fewer than 2^31 trees', vlen(c.fo(tf)) < 2**31)]
            k.pre = pre
    return ks


# ---------------------------------------------------------------- regions
def region_contracts(prog):
    R = region.R
    v = region.V(prog)

    def m(c):
        return c.fo('model')
    pre = lambda c: [('the region has a model of its N policies', z3.And(
        c.f('num_policies') >= 1, m(c) > 0, c.g('$N', m(c)) == c.f('num_policies')))]
    ctx = role(prog, 'Apollo::RegionContext', 'policy')
    post = lambda x: (lambda c: [('one of the region\'s policies', RNG(c.res, c.fo('num_policies'))),
                                 ('N is kept', z3.And(c.f('num_policies') == c.fo('num_policies'),
                                                      c.f('model') == c.fo('model')))])

    def obj(c, i):
        from ..engine import ObjRef
        a = c.args[0] if i else c.fo('current_context')
        return ObjRef(a, T(('class', 'Apollo::RegionContext')))
    mods = lambda i: (lambda c: [c.ex.field(obj(c, i), 'policy'), c.ex.field(obj(c, i), 'features')])
    live = lambda i: (lambda c: pre(c) + [('an open execution', (c.args[0] if i else c.fo('current_context')) > 0)])
    return [Contract('Region::getPolicyIndex(context)', (R + '::getPolicyIndex', 1), pre=live(1), post=post(1),
                     modifies=mods(1), exits=lambda c: True),
            Contract('Region::getPolicyIndex()', (R + '::getPolicyIndex', 0), pre=live(0), post=post(0),
                     modifies=mods(0), exits=lambda c: True)] + callees(prog, None)


def groups():
    dt = dict(files=['src/models/impl/DecisionTreeImpl.cpp'], contracts=tree_contracts, ghost=tree.GHOST,
              ghost_globals={tree.LEAFG: tree.INT},
              opts=dict(inv_ms=1500, sort_fwd=True, div_facts=True, unique_alloc=True), sort_hooks=[tree.sort_hook],
              verify=lambda k: k.name not in ('evaluate_tree',))
    rf = dict(files=['src/models/impl/RandomForestImpl.cpp'], contracts=forest_contracts, ghost=forest.GHOST,
              opts=dict(inv_ms=1500), verify=lambda k: k.name == forest.R + '::train' or 'predict' in k.name)
    return [dict(alts=[c02.groups(v)[0] for v in range(c02.VARIANTS)]),
            dict(files=['src/models/Static.cpp'], contracts=static_contracts),
            c03.groups()[1],
            dict(files=['src/models/Random.cpp'], contracts=random_contracts),
            dict(files=['src/models/DatasetMap.cpp'], contracts=dm_contracts),
            dict(files=['src/models/DecisionTree.cpp'], ghost=GH,
                 contracts=lambda p: callees(p, 'DecisionTreeImpl') + model_contracts(
                     p, 'DecisionTree', 'DecisionTreeImpl', 'dtree')),
            dict(files=['src/models/RandomForest.cpp'], ghost=GH,
                 contracts=lambda p: callees(p, 'RandomForestImpl') + model_contracts(
                     p, 'RandomForest', 'RandomForestImpl', 'rfc')),
            dt, rf,
            dict(files=['src/Region.cpp'], contracts=region_contracts, ghost=GH)]
