"""C13: model specification strings are parsed and applied exactly."""
import copy
import z3
from .. import types as ty
from ..types import T, sort, mdom, mval, sel, key_at, FA
from ..contract import Contract, Missing
from ..engine import ObjRef, LV, born
from ..stl import sfind_f, ssub_f, slen_f
from . import factory, region, treemodels as tm
from .region import R, V

SV = z3.StringVal
STR = T(('string',))
MT = T(('umap', STR, STR))
MS = sort(MT)
S = z3.StringSort()
parse_f = z3.Function('parse_params', S, MS, MS)      # recursion over the comma-separated list
KEYS = dict(Static=['policy'], DecisionTree=['max_depth', 'explore', 'load', 'load-dataset'],
            RandomForest=['num_trees', 'max_depth', 'explore', 'load', 'load-dataset'],
            PolicyNet=['lr', 'beta', 'beta1', 'beta2', 'threshold', 'load', 'load-dataset'])


def upto(s, sep):
    """(position of the first separator or -1, text before it, text after it)"""
    i = sfind_f(s, SV(sep), 0)
    n = slen_f(s)
    return i, z3.If(i < 0, s, ssub_f(s, 0, i)), ssub_f(s, i + 1, n - (i + 1))


def add(m, kv):
    """one key[=value]; the first occurrence of a key wins"""
    i, k, v = upto(kv, '=')
    v = z3.If(i < 0, SV(''), v)
    return z3.If(sel(mdom(m), k), m, MS.constructor(0)(z3.Store(mdom(m), k, z3.BoolVal(True)),
                                                       z3.Store(mval(m), k, v)))


def unfold(s, m):
    i, kv, rest = upto(s, ',')
    return parse_f(s, m) == z3.If(i < 0, add(m, s), parse_f(rest, add(m, kv)))


def spec(info, m0):
    """(model name, parameters) of a specification"""
    i, name, rest = upto(info, ',')
    return name, z3.If(i < 0, m0, parse_f(rest, m0)), i


def allowed(name, k):
    return z3.Or(name == SV('StaticRegion'), *[z3.And(name == SV(n), z3.Or(*[k == SV(x) for x in ks]))
                                               for n, ks in KEYS.items()])


def known(name):
    return z3.Or(*[name == SV(n) for n in list(KEYS) + ['StaticRegion']])


def all_allowed(name, m):
    k = z3.Const('pk', S)
    return FA([k], z3.Implies(sel(mdom(m), k), allowed(name, k)), [z3.Select(mdom(m), k)])


def parse_contract(prog, verify=True):
    nm, pm = 'model_name', 'model_params'

    def post(c):
        name, ps, i = spec(c.argo(0), c.fo(pm))
        return [('the text before the first comma names the model', c.f(nm) == name),
                ('the parameters are exactly the listed ones', c.f(pm) == ps),
                ('every key is one the model defines', z3.Implies(i >= 0, z3.And(known(name), all_allowed(name, c.f(pm)))))]

    def exits(c):
        name, ps, i = spec(c.argo(0), c.fo(pm))
        k = z3.Const('pk', S)
        return z3.And(i >= 0, z3.Or(z3.Not(known(name)), z3.Exists([k], z3.And(sel(mdom(ps), k),
                                                                               z3.Not(allowed(name, k))))))

    def gen(L, c):
        out = []
        i, name, rest = upto(c.argo(0), ',')
        for r in L.roots():
            if getattr(r, 't', None) == STR or (isinstance(r, tuple) and False):
                pass
        for key, t in L.ex.vtypes.items():
            if t != STR or key not in L.entry.env:
                continue
            s0 = L.entry.env[key]
            if s0.sort() != S:
                continue

            def f(st, key=key):
                m = c.ex.load_in(st, c.ex.field(c.this, pm))
                s = st.env[key]
                c.ex.axiom(('unf', s.get_id(), m.get_id()), [unfold(s, m)])
                return parse_f(s, m) == parse_f(rest, c.fo(pm))
            out.append(('the rest of the list in %s' % L.ex.vnames.get(key, key), f))
        return out
    return Contract('Region::parsePolicyModel', (R + '::parsePolicyModel', 1), post=post, exits=exits,
                    modifies=lambda c: [c.ex.field(c.this, nm), c.ex.field(c.this, pm)], invgens=[gen], verify=verify)


def validate_contract(prog):
    def post(c):
        return [('every key is one the model defines', z3.And(known(c.argo(0)), all_allowed(c.argo(0), c.argo(1))))]

    def exits(c):
        k = z3.Const('pk', S)
        return z3.Or(z3.Not(known(c.argo(0))), z3.Exists([k], z3.And(sel(mdom(c.argo(1)), k),
                                                                     z3.Not(allowed(c.argo(0), k)))))

    def gen(L, c):
        out = []
        d = mdom(c.argo(1))
        i = z3.Int('vi')
        for pn, pg in L.progress():
            out.append(('keys before %s are allowed' % pn, lambda st, pg=pg: FA([i], z3.Implies(
                z3.And(0 <= i, i < pg(st)), allowed(c.argo(0), key_at(d, i))), [key_at(d, i)])))
        return out
    return Contract('validate', ('validate', 2), post=post, exits=exits, modifies=lambda c: [], invgens=[gen])


def ctor_contract(prog):
    """the region gets the model of its specification: its own, or the configured default when it has none"""
    def final(c):
        info = z3.If(c.argo(4) == SV(''), c.glob('Config::APOLLO_POLICY_MODEL', old=True), c.argo(4))
        return spec(info, ty.empty(MT))

    def post(c):
        name, ps, i = final(c)
        sr = name == SV('StaticRegion')
        nm, mp = c.f('model_name'), c.f('model_params')
        d = copy.copy(c)
        d.args = [nm, c.argo(0), c.argo(2), mp]
        d.res = c.f('model')
        rp = sel(mval(ps), c.argo(1))
        return [('the model is that of the specification', z3.Implies(z3.Not(sr), nm == name)),
                ('the parameters are those of the specification', z3.Implies(z3.Not(sr), mp == ps)),
                ('every key is one the model defines', z3.Implies(z3.And(z3.Not(sr), i >= 0), z3.And(
                    known(name), all_allowed(name, ps)))),
                ('StaticRegion: a Static model with the policy given for this region\'s name', z3.Implies(z3.And(
                    sr, slen_f(c.argo(1)) < 64), z3.And(
                    nm == SV('Static'), sel(mdom(ps), c.argo(1)), sel(mdom(mp), SV('policy')),
                    sel(mval(mp), SV('policy')) == rp)))] + \
            [('the model is built accordingly: ' + n, f) for n, f in factory.factory_post(d, ('static', 'all'))]
    return Contract('Region::Region', (R + '::Region', 6), pre=lambda c: [('N >= 1', c.args[2] >= 1)], post=post,
                    exits=lambda c: True, frame=False)


def ctor_callees(prog):
    """what the constructor calls, as far as the model specification is concerned"""
    rc = region.model_contracts(prog)
    H = lambda *ns: (lambda c: [('h*', n) for n in ns])
    any_ = dict(verify=False, exits=lambda c: True)
    df, dt = tm.DATA(prog)
    return rc + [
        Contract('Apollo::instance', ('Apollo::instance', 0), verify=False, modifies=lambda c: [],
                 post=lambda c: [c.res > 0, born(c.res) < c.old.clock]),
        Contract('Timer::create', ('Apollo::Timer::create', 0), verify=False, modifies=lambda c: [],
                 post=lambda c: [c.res > 0]),
        Contract('Dataset::load', ('Apollo::Dataset::load', 1), modifies=lambda c: [c.ex.field(c.this, df)], **any_),
        Contract('Dataset::size', ('Apollo::Dataset::size', 0), modifies=lambda c: [], verify=False,
                 post=lambda c: [c.res >= 0]),
        Contract('Region::train', (R + '::train', 3), modifies=H('$trains', '$trainD', '$trainable'), **any_),
        Contract('Region::autoTrain', (R + '::autoTrain', 0), modifies=H('$trains', '$trainD', '$trainable'), **any_)]


def groups():
    def fac(prog):
        return factory.ctor_contracts(prog) + [factory.factory_contract(prog, ('static', 'all'))]

    def reg(prog):
        fc = factory.factory_contract(prog, ('static', 'all'))
        fc.verify_it = False
        return [parse_contract(prog), validate_contract(prog), ctor_contract(prog), fc] + ctor_callees(prog)

    def gh(prog):
        g = dict(factory.GHOST)
        g.update(region.ghost(prog))
        g['apollo::Static::policy_choice'] = tm.INT      # Static is not visible in Region.cpp
        return g
    return [dict(files=['src/Region.cpp'], contracts=reg, ghost=gh),
            dict(files=['src/ModelFactory.cpp'], contracts=fac, ghost=factory.GHOST)]
