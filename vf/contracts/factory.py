"""Contracts of ModelFactory and of the model constructors it calls (C03, C13)."""
import z3
from .. import types as ty
from ..types import T, mdom, mval, sel
from ..contract import Contract, Missing
from ..engine import LV, born
from ..stl import stoi_f, stoi_ok, stoul_f, stoul_ok, stod_f, stod_ok
from .common import role

TAGS = dict(Static=1, DatasetMap=2, Random=3, RoundRobin=4, DecisionTree=5, RandomForest=6, PolicyNet=7, Optimal=8)
INT = T(('int', 32, True))
GHOST = {'$cls': INT, '$depth': INT, '$trees': INT, '$explorer': INT, '$npol': INT, '$nfeat': INT,
         '$lr': T(('float', 64)), '$beta': T(('float', 64)), '$beta1': T(('float', 64)), '$beta2': T(('float', 64)),
         '$threshold': T(('float', 64)), '$fresh': INT}
CF = 'apollo::ModelFactory::createPolicyModel'
SV = z3.StringVal


def has(m, k):
    return sel(mdom(m), SV(k))


def val(m, k):
    return sel(mval(m), SV(k))


def static_choice(m, n):
    p = z3.If(has(m, 'policy'), stoi_f(val(m, 'policy')), z3.IntVal(0))
    return p, z3.If(p < n, p, z3.IntVal(0))


def uparam(m, k, d):
    """an unsigned parameter: stoul of its text (as unsigned int), or its default"""
    v = stoul_f(val(m, k))
    return z3.If(has(m, k), z3.If(z3.And(v >= 0, v < 2 ** 32), v, v % 2 ** 32), z3.IntVal(d))


def dparam(m, k, d):
    return z3.If(has(m, k), stod_f(val(m, k)), z3.RealVal(d))


def ctor_contracts(prog):
    """constructors of the models, as seen by the factory: the ghost fields name the state the constructor must set
    (each is verified against its real fields in the constructor's own file, C08/C10/C13/C15)"""
    def setg(pairs):
        def post(c):
            return [('%s is set' % g, c.g(g, c.this.addr) == f(c)) for g, f in pairs]
        return post

    def mods(pairs):
        def m(c):
            r = [('h', g, c.this.addr) for g, f in pairs]
            return r
        return m
    ks = []
    A = lambda i: (lambda c: c.argo(i))
    dt = [('$npol', A(0)), ('$depth', A(1)), ('$explorer', A(2))]
    ks.append(Contract('DecisionTree::DecisionTree(factory view)', ('apollo::DecisionTree::DecisionTree', 3),
                       post=setg(dt), modifies=lambda c: mods(dt)(c) + [c.args[2]], verify=False))
    rf = [('$npol', A(0)), ('$trees', A(1)), ('$depth', A(2)), ('$explorer', A(3))]
    ks.append(Contract('RandomForest::RandomForest(factory view)', ('apollo::RandomForest::RandomForest', 4),
                       post=setg(rf), modifies=lambda c: mods(rf)(c) + [c.args[3]], verify=False))
    pn = [('$npol', A(0)), ('$nfeat', A(1)), ('$lr', A(2)), ('$beta', A(3)), ('$beta1', A(4)), ('$beta2', A(5)),
          ('$threshold', A(6))]
    ks.append(Contract('PolicyNet::PolicyNet(factory view)', ('apollo::PolicyNet::PolicyNet', 7),
                       post=setg(pn), modifies=mods(pn), verify=False))
    for nm in ('RoundRobin', 'Random'):
        ks.append(Contract('%s::%s(factory view)' % (nm, nm), ('apollo::%s::%s' % (nm, nm), 1),
                           post=setg([('$npol', A(0))]), modifies=mods([('$npol', A(0))]), verify=False))
    ks.append(Contract('Optimal::Optimal', ('apollo::Optimal::Optimal', 0), verify=False, post=lambda c: []))
    return ks


def factory_post(c, parts):
    name, nf, n, m = c.argo(0), c.argo(1), c.argo(2), c.argo(3)
    r = c.res
    out = [('a new object is returned', z3.And(r > 0, born(r) >= c.old.clock, born(r) < c.new.clock))]
    cls = lambda k: c.g('$cls', r) == TAGS[k]
    is_ = lambda k: name == SV(k)
    if 'static' in parts:
        p, ch = static_choice(m, n)
        out.append(('Static has a valid policy', z3.Implies(is_('Static'), p >= 0)))
        out.append(('Static is built with the configured policy', z3.Implies(is_('Static'), z3.And(
            cls('Static'), c.ex.hget('apollo::Static::policy_choice', r, c.new) == ch,
            c.ex.hget('apollo::PolicyModel::policy_count', r, c.new) == n))))
    if 'all' in parts:
        for k in ('DatasetMap',):
            out.append((k + ' is built', z3.Implies(is_(k), z3.And(
                cls(k), c.ex.hget('apollo::PolicyModel::policy_count', r, c.new) == n))))
        for k in ('Random', 'RoundRobin'):
            out.append((k + ' is built', z3.Implies(is_(k), z3.And(cls(k), c.g('$npol', r) == n))))
        out.append(('Optimal is built', z3.Implies(is_('Optimal'), cls('Optimal'))))
        ex_name = z3.If(has(m, 'explore'), val(m, 'explore'), SV('RoundRobin'))

        def explorer(r):
            e = c.g('$explorer', r)
            return z3.And(e > 0, *[z3.Implies(ex_name == SV(k), c.g('$cls', e) == TAGS[k]) for k in TAGS],
                          z3.Implies(z3.Or(ex_name == SV('RoundRobin'), ex_name == SV('Random')),
                                     c.g('$npol', e) == n))
        out.append(('DecisionTree gets max_depth (default 2)', z3.Implies(is_('DecisionTree'), z3.And(
            cls('DecisionTree'), c.g('$npol', r) == n, c.g('$depth', r) == uparam(m, 'max_depth', 2)))))
        out.append(('DecisionTree explores with explore (default RoundRobin)',
                    z3.Implies(is_('DecisionTree'), explorer(r))))
        out.append(('RandomForest gets num_trees (default 10) and max_depth (default 2)',
                    z3.Implies(is_('RandomForest'), z3.And(
                        cls('RandomForest'), c.g('$npol', r) == n, c.g('$trees', r) == uparam(m, 'num_trees', 10),
                        c.g('$depth', r) == uparam(m, 'max_depth', 2)))))
        out.append(('RandomForest explores with explore (default RoundRobin)',
                    z3.Implies(is_('RandomForest'), explorer(r))))
        out.append(('PolicyNet gets its parameters', z3.Implies(is_('PolicyNet'), z3.And(
            cls('PolicyNet'), c.g('$npol', r) == n, c.g('$nfeat', r) == nf,
            c.g('$lr', r) == dparam(m, 'lr', '0.01'), c.g('$beta', r) == dparam(m, 'beta', '0.5'),
            c.g('$beta1', r) == dparam(m, 'beta1', '0.5'), c.g('$beta2', r) == dparam(m, 'beta2', '0.9'),
            c.g('$threshold', r) == dparam(m, 'threshold', '0')))))
        out.append(('an unknown model name is rejected', z3.Or(*[is_(k) for k in TAGS])))
    return out


def factory_exit(c, parts):
    name, nf, n, m = c.argo(0), c.argo(1), c.argo(2), c.argo(3)
    is_ = lambda k: name == SV(k)
    bad = []
    bad.append(z3.And(is_('Static'), has(m, 'policy'),
                      z3.Or(z3.Not(stoi_ok(val(m, 'policy'))), stoi_f(val(m, 'policy')) < 0)))
    if 'all' not in parts:
        bad.append(z3.Not(is_('Static')))
        return z3.Or(*bad)
    nok = lambda k, f: z3.And(has(m, k), z3.Not(f(val(m, k))))
    exname = val(m, 'explore')
    badex = z3.And(has(m, 'explore'), z3.And(*[exname != SV(k) for k in TAGS]))
    bad.append(z3.And(is_('DecisionTree'), z3.Or(nok('max_depth', stoul_ok), badex)))
    bad.append(z3.And(is_('RandomForest'), z3.Or(nok('max_depth', stoul_ok), nok('num_trees', stoul_ok), badex)))
    bad.append(z3.And(is_('PolicyNet'), z3.Or(*[nok(k, stod_ok) for k in ('lr', 'beta', 'beta1', 'beta2', 'threshold')])))
    bad.append(z3.And(*[z3.Not(is_(k)) for k in TAGS]))
    return z3.Or(*bad)


def alloc_fields(prog):
    fs = ['$cls', '$depth', '$trees', '$explorer', '$npol', '$nfeat', '$lr', '$beta', '$beta1', '$beta2', '$threshold']
    return fs


def factory_contract(prog, parts):
    return Contract('ModelFactory::createPolicyModel', (CF, 4),
                    pre=lambda c: [('N >= 1', c.args[2] >= 1)],
                    post=lambda c: factory_post(c, parts),
                    exits=lambda c: factory_exit(c, parts), modifies=lambda c: [],
                    allocates=alloc_fields(prog), opts=dict(maxpaths=3000))
