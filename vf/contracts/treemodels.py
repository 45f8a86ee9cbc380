"""Contracts of the DecisionTree and RandomForest models against their explorer and classifier (C08, C13)."""
import z3
from .. import types as ty
from ..types import T, sort, vlen
from ..contract import Contract, Missing
from ..engine import LV
from .common import role

INT = T(('int', 32, True))
F32 = T(('float', 32))
VF = T(('vec', F32))
VVF = T(('vec', VF))
VI = T(('vec', INT))
STR = T(('string',))
GHOST = {'$calls': INT, '$cres': INT, '$cfeat': VF,            # calls of a policy model's getIndex
         '$preds': INT, '$pres': INT, '$pfeat': VF,            # predictions of a classifier
         '$trains': INT, '$trainF': VVF, '$trainP': VI,        # trainings of a classifier
         '$loads': INT, '$file': STR,                          # loads of a classifier
         '$idepth': INT, '$itrees': INT, '$iclasses': INT}     # construction parameters of a classifier


def DATA(prog):
    for f in prog.classes['Apollo::Dataset'].fields:
        if 'map<' in f[1]:
            return f[0], ty.parse(f[1])
    raise Missing('the map of Apollo::Dataset')


def lab(prog):
    f, t = DATA(prog)
    s = sort(t)
    return f, z3.Function('labF', s, sort(VVF)), z3.Function('labP', s, sort(VI))


def concat(ex, a, b, t):
    return None


def callee_contracts(prog, impl, views=True):
    """explorer (any policy model) and classifier, as the models see them"""
    df, labF, labP = lab(prog)
    ks = []
    G = lambda n, k: ('h', n, k)

    def gi_post(c):
        a = c.this.addr
        return [c.g('$calls', a) == c.g('$calls', a, old=True) + 1, c.g('$cres', a) == c.res,
                c.g('$cfeat', a) == c.argo(0)]
    ks.append(Contract('PolicyModel::getIndex', ('apollo::PolicyModel::getIndex', 1), post=gi_post, verify=False,
                       modifies=lambda c: [G('$calls', c.this.addr), G('$cres', c.this.addr), G('$cfeat', c.this.addr),
                                           c.args[0]], note='any policy model'))

    def pr_post(c):
        a = c.this.addr
        return [c.g('$preds', a) == c.g('$preds', a, old=True) + 1, c.g('$pres', a) == c.res,
                c.g('$pfeat', a) == c.argo(0)]
    ks.append(Contract(impl + '::predict', (impl + '::predict', 1), post=pr_post, verify=False,
                       modifies=lambda c: [G(x, c.this.addr) for x in ('$preds', '$pres', '$pfeat')]))

    def tr_post(c):
        a = c.this.addr
        return [c.g('$trains', a) == c.g('$trains', a, old=True) + 1, c.g('$trainF', a) == c.argo(0),
                c.g('$trainP', a) == c.argo(1)]
    ks.append(Contract(impl + '::train', (impl + '::train', 2), post=tr_post, verify=False,
                       modifies=lambda c: [G(x, c.this.addr) for x in ('$trains', '$trainF', '$trainP')] +
                       [c.args[0], c.args[1]]))

    def ld_post(c):
        a = c.this.addr
        return [c.g('$loads', a) == c.g('$loads', a, old=True) + 1, c.g('$file', a) == c.argo(0)]
    ks.append(Contract(impl + '::load', (impl + '::load', 1), post=ld_post, verify=False, exits=lambda c: True,
                       modifies=lambda c: [G(x, c.this.addr) for x in ('$loads', '$file')]))
    ks.append(Contract(impl + '::save', (impl + '::save', 1), verify=False, modifies=lambda c: []))

    def fm_pre(c):
        return [('features, policies start empty', z3.And(vlen(c.argo(0)) == 0, vlen(c.argo(1)) == 0))]

    def fm_post(c):
        d = c.fo(df)
        return [c.arg(0) == labF(d), c.arg(1) == labP(d)]
    ks.append(Contract('Dataset::findMinMetricPolicyByFeatures',
                       ('Apollo::Dataset::findMinMetricPolicyByFeatures', 3), pre=fm_pre, post=fm_post, verify=False,
                       modifies=lambda c: [c.args[0], c.args[1], c.args[2]],
                       note='labF/labP: the labels reduced from the dataset (proved under C05)'))
    return ks


def model_contracts(prog, cls, impl, cfield, tfield='trainable', efield='explorer'):
    df, labF, labP = lab(prog)
    C = 'apollo::' + cls
    cf = role(prog, C, cfield, impl)
    tf = role(prog, C, tfield, r'^bool$')
    ef = role(prog, C, efield, r'unique_ptr<(apollo::)?PolicyModel')
    inv = lambda c: z3.And(c.f(cf) > 0, z3.Implies(c.f(tf), c.f(ef) > 0), c.f(cf) != c.f(ef))
    own = lambda c, n, a, old=False: c.g(n, a, old=old)
    E = lambda c: c.fo(ef)
    K = lambda c: c.fo(cf)
    same = lambda c, names, a: z3.And(*[c.g(n, a) == c.g(n, a, old=True) for n in names])
    P3, C3, T3 = ['$preds', '$pres', '$pfeat'], ['$calls', '$cres', '$cfeat'], ['$trains', '$trainF', '$trainP']
    keep = lambda c, *fs: z3.And(*[c.f(x) == c.fo(x) for x in fs])
    ks = []
    ks.append(Contract(cls + '::getIndex', (C + '::getIndex', 1), pre=lambda c: [('invariant', inv(c))],
                       post=lambda c: [
        ('until trained, the explorer is asked exactly once, with these features', z3.Implies(c.fo(tf), z3.And(
            c.g('$calls', E(c)) == c.g('$calls', E(c), old=True) + 1, c.g('$cfeat', E(c)) == c.argo(0)))),
        ('until trained, its choice is returned', z3.Implies(c.fo(tf), c.res == c.g('$cres', E(c)))),
        ('once trained, the classifier predicts for these features', z3.Implies(z3.Not(c.fo(tf)), z3.And(
            c.g('$preds', K(c)) > c.g('$preds', K(c), old=True), c.g('$pfeat', K(c)) == c.argo(0)))),
        ('once trained, its prediction is returned', z3.Implies(z3.Not(c.fo(tf)), c.res == c.g('$pres', K(c)))),
        ('once trained, the explorer is never consulted', z3.Implies(z3.Not(c.fo(tf)), same(c, C3, E(c)))),
        ('the model keeps its state', keep(c, tf, cf, ef))],
        modifies=lambda c: [('h', x, E(c)) for x in C3] + [('h', x, K(c)) for x in P3] + [c.args[0]]))
    ks.append(Contract(cls + '::isTrainable', (C + '::isTrainable', 0), modifies=lambda c: [],
                       post=lambda c: [('reports its state', c.res == c.fo(tf))]))

    def data(c):
        return c.f(df, obj=c.args[0], old=True)
    ks.append(Contract(cls + '::train', (C + '::train', 1), pre=lambda c: [('invariant', inv(c))],
                       post=lambda c: [
        ('not trainable afterwards', z3.Not(c.f(tf))),
        ('the classifier is trained once', c.g('$trains', K(c)) == c.g('$trains', K(c), old=True) + 1),
        ('on the labels reduced from the dataset', z3.And(c.g('$trainF', K(c)) == labF(data(c)),
                                                          c.g('$trainP', K(c)) == labP(data(c)))),
        ('classifier and explorer are kept', keep(c, cf, ef)),
        ('the dataset is kept', c.f(df, obj=c.args[0]) == data(c))],
        modifies=lambda c: [c.ex.field(c.this, tf)] + [('h', x, K(c)) for x in T3]))
    ks.append(Contract(cls + '::load', (C + '::load', 1), pre=lambda c: [('invariant', inv(c))],
                       exits=lambda c: True, post=lambda c: [
        ('not trainable afterwards', z3.Not(c.f(tf))),
        ('the classifier loads that file', z3.And(c.g('$loads', K(c)) == c.g('$loads', K(c), old=True) + 1,
                                                  c.g('$file', K(c)) == c.argo(0))),
        ('classifier and explorer are kept', keep(c, cf, ef))],
        modifies=lambda c: [c.ex.field(c.this, tf)] + [('h', x, K(c)) for x in ('$loads', '$file')]))
    ks.append(Contract(cls + '::store', (C + '::store', 1), pre=lambda c: [('invariant', inv(c))],
                       post=lambda c: [('the model keeps its state', keep(c, tf, cf, ef))], modifies=lambda c: []))
    # constructors
    nt = cls == 'RandomForest'

    def ctor_post(c):
        k = c.f(cf)
        i = 1 + (1 if nt else 0)
        r = [('trainable', c.f(tf)), ('explorer is the one given', c.f(ef) == c.argo(i + 1)),
             ('classifier is built for N classes', z3.And(k > 0, c.g('$iclasses', k) == c.argo(0))),
             ('classifier gets max_depth', c.g('$idepth', k) == c.argo(i)),
             ('policy_count = N', c.f('policy_count') == c.argo(0))]
        if nt:
            r.append(('classifier gets num_trees', c.g('$itrees', k) == c.argo(1)))
        return r
    ks.append(Contract(cls + '::%s(exploring)' % cls, (C + '::' + cls, 4 if nt else 3),
                       pre=lambda c: [('explorer given', z3.And(c.argo(3 if nt else 2) > 0))],
                       post=ctor_post, modifies=lambda c: [c.args[3 if nt else 2]]))
    ks.append(Contract(cls + '::%s(path)' % cls, (C + '::' + cls, 2), exits=lambda c: True,
                       post=lambda c: [('not trainable', z3.Not(c.f(tf))),
                                       ('classifier loaded from the path', z3.And(
                                           c.f(cf) > 0, c.g('$file', c.f(cf)) == c.argo(1)))],
                       modifies=lambda c: []))
    # classifier constructors as seen from here
    def ic(pairs):
        return lambda c: [c.g(n, c.this.addr) == c.argo(i) for n, i in pairs]
    if nt:
        ks.append(Contract(impl + '(N, trees, depth)', (impl + '::' + impl, 3), verify=False,
                           post=ic([('$iclasses', 0), ('$itrees', 1), ('$idepth', 2)]),
                           modifies=lambda c: [('h', x, c.this.addr) for x in ('$iclasses', '$itrees', '$idepth')]))
    else:
        ks.append(Contract(impl + '(N, depth)', (impl + '::' + impl, 2, ['int', '^unsigned']), verify=False,
                           post=ic([('$iclasses', 0), ('$idepth', 1)]),
                           modifies=lambda c: [('h', x, c.this.addr) for x in ('$iclasses', '$idepth')]))
    ks.append(Contract(impl + '(N, file)', (impl + '::' + impl, 2, ['int', 'string']), verify=False,
                       exits=lambda c: True, post=ic([('$iclasses', 0), ('$file', 1)]),
                       modifies=lambda c: [('h', x, c.this.addr) for x in ('$iclasses', '$file')]))
    return ks
