"""Contracts of Apollo::Region and Apollo (C01, C11, C12): execution bookkeeping and training triggers."""
import z3
from .. import types as ty
from ..types import T, sort, vlen, mdom, mval, pget, card, key_at, idx_of, sel, FA
from ..contract import Contract, Missing
from ..engine import ObjRef, LV
from .treemodels import DATA, VF, INT
from .dataset import insert_contract, size_contract, merge_contract, reduce_contract, key, recorded, touch
from .common import role

R = 'Apollo::Region'
X = 'Apollo::RegionContext'
BOOL = T(('bool',))
F64 = T(('float', 64))
PM = 'apollo::PolicyModel'


def ghost(prog):
    df, t = DATA(prog)
    return {'$calls': INT, '$cres': INT, '$cfeat': VF,        # choices of a policy model
            '$trains': INT, '$trainD': t, '$trainable': BOOL,  # its trainings
            '$metric': F64, '$starts': INT, '$stops': INT}    # timers


class V:
    """views of the state through a Ctx"""
    def __init__(self, prog):
        self.prog = prog
        self.df, self.dt = DATA(prog)
        self.DS = ('class', 'Apollo::Dataset')

    def cfg(self, c, n, old=False):
        return c.glob('Config::APOLLO_' + n, old=old)

    def ds_obj(self, c, raddr):
        return c.ex.field(ObjRef(raddr, T(('class', R))), 'dataset')

    def dsaddr(self, c, raddr):
        o = self.ds_obj(c, raddr)
        return o.addr if isinstance(o, ObjRef) else o

    def data(self, c, raddr, old=False):
        o = self.ds_obj(c, raddr)
        return c.f(self.df, obj=o, old=old)

    def model(self, c, raddr, old=False):
        return c.ex.hget(R + '::model', raddr, c.st(not old and c.new is not None))

    def sync(self, c, raddr):
        return c.ex.field(ObjRef(raddr, T(('class', R))), 'sync_context')

    def regions(self, c, old=False):
        ap = c.fo('apollo') if c.func.cls == R else c.this.addr
        return c.ex.hget('Apollo::regions', ap, c.old if old or c.new is None else c.new)


def model_contracts(prog):
    """any policy model (behavioural subtyping: every model class keeps to these)"""
    v = V(prog)
    H = lambda c, *ns: [('h', n, c.this.addr) for n in ns]
    ks = []
    ks.append(Contract('PolicyModel::getIndex', (PM + '::getIndex', 1), verify=False, exits=lambda c: True,
                       modifies=lambda c: H(c, '$calls', '$cres', '$cfeat'),
                       post=lambda c: [c.g('$calls', c.this.addr) == c.g('$calls', c.this.addr, old=True) + 1,
                                       c.g('$cres', c.this.addr) == c.res, c.g('$cfeat', c.this.addr) == c.argo(0)]))
    ks.append(Contract('PolicyModel::isTrainable', (PM + '::isTrainable', 0), verify=False, modifies=lambda c: [],
                       post=lambda c: [c.res == c.g('$trainable', c.this.addr)]))
    ks.append(Contract('PolicyModel::train', (PM + '::train', 1), verify=False, exits=lambda c: True,
                       modifies=lambda c: H(c, '$trains', '$trainD', '$trainable'),
                       post=lambda c: [c.g('$trains', c.this.addr) == c.g('$trains', c.this.addr, old=True) + 1,
                                       c.g('$trainD', c.this.addr) == c.f(v.df, obj=c.args[0], old=True)]))
    ks.append(Contract('PolicyModel::store', (PM + '::store', 1), verify=False, modifies=lambda c: [],
                       exits=lambda c: True))
    ks.append(Contract('PolicyModel::load', (PM + '::load', 1), verify=False, exits=lambda c: True,
                       modifies=lambda c: H(c, '$trainable')))
    return ks


def timer_contracts(prog):
    TM = 'Apollo::Timer'
    H = lambda c, *ns: [('h', n, c.this.addr) for n in ns]
    inc = lambda n: lambda c: [c.g(n, c.this.addr) == c.g(n, c.this.addr, old=True) + 1]
    return [Contract('Timer::start', (TM + '::start', 0), verify=False, post=inc('$starts'),
                     modifies=lambda c: H(c, '$starts', '$metric')),
            Contract('Timer::stop', (TM + '::stop', 0), verify=False, post=inc('$stops'),
                     modifies=lambda c: H(c, '$stops', '$metric')),
            Contract('Timer::isDone', (TM + '::isDone', 1), verify=False,
                     post=lambda c: [c.arg(0) == c.g('$metric', c.this.addr)], modifies=lambda c: [c.args[0]])]


def wf_regions(v, c, ap=None, old=False):
    """the registered regions are live objects, one per name, each owning its model"""
    rg = c.ex.hget('Apollo::regions', ap, c.old if old or c.new is None else c.new)
    st = c.old if c.new is None or old else c.new
    d = mdom(rg)
    c.ex.touch_dom(d, T(('string',)), True)
    i, j = z3.Ints('ri rj')
    reg = lambda k: z3.Select(mval(rg), key_at(d, k))
    M = lambda k: c.ex.hget(R + '::model', reg(k), st)
    n = card(d)
    return z3.And(
        FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            reg(i) > 0, M(i) > 0, c.ex.hget(R + '::apollo', reg(i), st) == ap, c.ex.hget(R + '::idx', reg(i), st) >= 0,
            c.ex.hget(R + '::pending_contexts', reg(i), st).sort().accessor(0, 0)(
                c.ex.hget(R + '::pending_contexts', reg(i), st)) == 0)), [key_at(d, i)]),
        FA([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(reg(i) != reg(j), M(i) != M(j))),
           [z3.MultiPattern(key_at(d, i), key_at(d, j))]))


def all_trained(v, c, ap, after=False):
    """the effect of Apollo::train on the models; everything but the training counters and trainable flags is read
    from the new state (training changes nothing else)"""
    st = c.new
    rg = c.ex.hget('Apollo::regions', ap, c.old)
    d = mdom(rg)
    c.ex.touch_dom(d, T(('string',)), True)
    i = z3.Int('ti')
    x = z3.Const('tk', sort(v.dt[1]))
    reg = z3.Select(mval(rg), key_at(d, i))
    m = c.ex.hget(R + '::model', reg, c.old)
    ds = c.ex.load_in(c.new if after else c.old, c.ex.field(v.ds_obj(c, reg), v.df))
    n = card(d)
    inr = z3.And(0 <= i, i < n)
    once = c.g('$trains', m) == c.g('$trains', m, old=True) + 1
    none = c.g('$trains', m) == c.g('$trains', m, old=True)
    ne = card(mdom(ds)) > 0
    per = z3.Not(v.cfg(c, 'SINGLE_MODEL', True) != 0)
    return [
        ('per-region models: every trainable region with data is trained once, on its own data',
         z3.Implies(per, FA([i], z3.Implies(inr, z3.If(z3.And(c.g('$trainable', m, old=True), ne), z3.And(
             once, c.g('$trainD', m) == ds), none)), [key_at(d, i)]))),
        ('single model: all regions are trained once on the same non-empty data, or none and there is no data',
         z3.Implies(z3.Not(per), z3.Or(
             FA([i], z3.Implies(inr, z3.And(none, z3.Not(ne))), [key_at(d, i)]),
             FA([i], z3.Implies(inr, z3.And(once, card(mdom(c.g('$trainD', m))) > 0)), [key_at(d, i)])))),
        ('single model: the data holds every region\'s pairs', z3.Implies(z3.Not(per), FA(
            [i, x], z3.Implies(z3.And(inr, once, z3.Select(mdom(ds), x)), z3.Select(mdom(c.g('$trainD', m)), x)),
            [z3.MultiPattern(key_at(d, i), z3.Select(mdom(ds), x))])))]


def none_trained(c, but=None):
    a = z3.Int('ma')
    t0 = c.old.heap.get('$trains')
    t0 = c.ex.heap_init('$trains') if t0 is None else t0
    t1 = c.new.heap.get('$trains')
    t1 = t0 if t1 is None else t1
    g = z3.BoolVal(True) if but is None else a != but
    return FA([a], z3.Implies(g, z3.Select(t1, a) == z3.Select(t0, a)), [z3.Select(t1, a)])


def trained(c, m, data):
    return z3.And(c.g('$trains', m) == c.g('$trains', m, old=True) + 1, c.g('$trainD', m) == data)


def region_trained(v, c, this, force=None):
    """effect of training this region"""
    m = v.model(c, this, True)
    d = v.data(c, this)
    c.ex.touch_dom(mdom(d), v.dt[1], True)
    go = z3.And(z3.Or(c.g('$trainable', m, old=True), z3.BoolVal(False) if force is None else force),
                card(mdom(d)) > 0)
    return z3.And(z3.If(go, trained(c, m, d), c.g('$trains', m) == c.g('$trains', m, old=True)), none_trained(c, m))


def trigger(v, c, this):
    """what autoTrain has to do, from the state after the execution was recorded"""
    ap = c.ex.hget(R + '::apollo', this, c.old)
    m = v.model(c, this, True)
    G, P = v.cfg(c, 'GLOBAL_TRAIN_PERIOD', True), v.cfg(c, 'PER_REGION_TRAIN_PERIOD', True)
    ne = c.ex.hget('Apollo::region_executions', ap, c.new)
    idx = c.ex.hget(R + '::idx', this, c.new)
    M = c.ex.hget(R + '::min_training_data', this, c.old)
    t = c.g('$trainable', m, old=True)
    d = v.data(c, this)
    c.ex.touch_dom(mdom(d), v.dt[1], True)
    gl = z3.And(t, G != 0, ne % G == 0)
    pr = z3.And(t, z3.Not(gl), P != 0, idx % P == 0)
    mn = z3.And(t, z3.Not(gl), z3.Not(pr), 0 < M, M <= card(mdom(d)))
    r = [('not trainable: nothing is trained', z3.Implies(z3.Not(t), none_trained(c)))]
    for nm, f in all_trained(v, c, ap, True):
        r.append(('global period: ' + nm, z3.Implies(gl, f)))
    r.append(('per-region period: this region is trained', z3.Implies(pr, region_trained(v, c, this))))
    r.append(('enough data: this region is trained', z3.Implies(mn, region_trained(v, c, this))))
    r.append(('otherwise nothing is trained', z3.Implies(z3.And(z3.Not(gl), z3.Not(pr), z3.Not(mn)),
                                                         none_trained(c))))
    return r


TG = [('h*', '$trains'), ('h*', '$trainD'), ('h*', '$trainable')]


def pend(c, a, st):
    return vlen(c.ex.hget(R + '::pending_contexts', a, st))


def inv(v, c, timer=True):
    """a usable region: built, registered with the runtime, no asynchronous contexts (this build has none)"""
    a = c.this.addr
    ap = c.f('apollo')
    s = v.sync(c, a)
    st = c.new or c.old
    return [('region is built', z3.And(ap > 0, c.f('model') > 0)),
            ('the execution index is not negative', c.f('idx') >= 0)] * (not timer) + ([
             ] if not timer else [
             ('region is built, with a timer', z3.And(ap > 0, c.f('model') > 0,
                                                      c.ex.load_in(st, c.ex.field(s, 'timer')) > 0)),
             ('the execution index is not negative', c.f('idx') >= 0)]) + [
            ('no pending asynchronous context', pend(c, a, st) == 0),
            ('registered regions are well formed', wf_regions(v, c, ap)),
            ('periods are not negative', z3.And(v.cfg(c, 'GLOBAL_TRAIN_PERIOD') >= 0,
                                                v.cfg(c, 'PER_REGION_TRAIN_PERIOD') >= 0)),
            ('exactly one modelling kind (C18)', (v.cfg(c, 'SINGLE_MODEL') != 0) != (v.cfg(c, 'REGION_MODEL') != 0)),
            ('local training (this build has no MPI; C18)', v.cfg(c, 'COLLECTIVE_TRAINING') == 0)]


def keeps(v, c):
    a = c.this.addr
    return []


def throws(v, c):
    """training may leave by an exception: retraining without OpenCV, per-region training in single-model mode, or a
    model or file error inside train/store"""
    return True


def train_contracts(prog, verify=True):
    v = V(prog)
    ks = []
    ks.append(Contract('Region::autoTrain', (R + '::autoTrain', 0), pre=lambda c: inv(v, c, False),
                       post=lambda c: trigger(v, c, c.this.addr), exits=lambda c: throws(v, c),
                       modifies=lambda c: TG, verify=verify))
    ks.append(Contract('Region::train', (R + '::train', 3), pre=lambda c: inv(v, c, False), post=lambda c: [
        ('trained once on its dataset when trainable (or forced) and it has data, otherwise not at all',
         region_trained(v, c, c.this.addr, c.args[2]))],
        exits=lambda c: throws(v, c), modifies=lambda c: [
            ('h', '$trains', v.model(c, c.this.addr, True)), ('h', '$trainD', v.model(c, c.this.addr, True)),
            ('h', '$trainable', v.model(c, c.this.addr, True))], verify=verify))

    def ai(c):
        return [('registered regions are well formed', wf_regions(v, c, c.this.addr)),
                ('exactly one modelling kind (C18)',
                 (v.cfg(c, 'SINGLE_MODEL') != 0) != (v.cfg(c, 'REGION_MODEL') != 0)),
                ('periods are not negative', z3.And(v.cfg(c, 'GLOBAL_TRAIN_PERIOD') >= 0,
                                                    v.cfg(c, 'PER_REGION_TRAIN_PERIOD') >= 0)),
                ('local training (this build has no MPI; C18)', v.cfg(c, 'COLLECTIVE_TRAINING') == 0)]

    def loopinv(L, c):
        rg = c.ex.hget('Apollo::regions', c.this.addr, c.old)
        d = mdom(rg)
        out = []
        i = z3.Int('ti')
        x = z3.Const('tk', sort(v.dt[1]))
        reg = z3.Select(mval(rg), key_at(d, i))
        m = c.ex.hget(R + '::model', reg, c.old)
        ds = c.ex.load_in(c.old, c.ex.field(v.ds_obj(c, reg), v.df))
        n = card(d)
        H0 = lambda nm: c.old.heap.get(nm) if c.old.heap.get(nm) is not None else c.ex.heap_init(nm)
        H1 = lambda st, nm: st.heap.get(nm) if st.heap.get(nm) is not None else H0(nm)
        t0 = z3.Select(H0('$trains'), m)
        for pn, pg in L.progress():
            def later(st, pg=pg):
                return FA([i], z3.Implies(z3.And(pg(st) <= i, i < n), z3.And(
                    z3.Select(H1(st, '$trains'), m) == t0,
                    z3.Select(H1(st, '$trainable'), m) == z3.Select(H0('$trainable'), m))), [key_at(d, i)])

            def done(st, pg=pg):
                go = z3.And(z3.Select(H0('$trainable'), m), card(mdom(ds)) > 0)
                tr = z3.Select(H1(st, '$trains'), m)
                return FA([i], z3.Implies(z3.And(0 <= i, i < pg(st)), z3.If(go, z3.And(
                    tr == t0 + 1, z3.Select(H1(st, '$trainD'), m) == ds), tr == t0)), [key_at(d, i)])
            out += [('regions after %s untouched' % pn, later), ('regions before %s trained' % pn, done)]
            # single model: the merged dataset (a local object) and the second loop
            for f, arr in list(L.entry.heap.items()):
                if f == 'Apollo::Dataset::' + v.df:
                    cand = []
                    z = arr
                    while z3.is_app(z) and z.decl().kind() == z3.Z3_OP_STORE:
                        cand.append(z.arg(1))
                        z = z.arg(0)
                    for a in cand:
                        def sup(st, pg=pg, a=a, f=f):
                            return FA([i, x], z3.Implies(
                                z3.And(0 <= i, i < pg(st), z3.Select(mdom(ds), x)),
                                z3.Select(mdom(z3.Select(st.heap[f], a)), x)),
                                [z3.MultiPattern(key_at(d, i), z3.Select(mdom(ds), x))])

                        def once(st, pg=pg, a=a, f=f):
                            return FA([i], z3.Implies(z3.And(0 <= i, i < pg(st)), z3.And(
                                z3.Select(H1(st, '$trains'), m) == t0 + 1,
                                z3.Select(H1(st, '$trainD'), m) == z3.Select(st.heap[f], a))), [key_at(d, i)])
                        out += [('merged data of regions before %s' % pn, sup),
                                ('models before %s trained on the merged data' % pn, once)]
        return out
    ks.append(Contract('Apollo::train', ('Apollo::train', 2), pre=ai,
                       post=lambda c: all_trained(v, c, c.this.addr), exits=lambda c: throws(v, c),
                       modifies=lambda c: TG, invgens=[loopinv], verify=verify))
    ks.append(Contract('Apollo::gatherCollectiveTrainingData', ('Apollo::gatherCollectiveTrainingData', 1),
                       exits=lambda c: True, post=lambda c: [('never returns in a build without MPI', z3.BoolVal(False))],
                       modifies=lambda c: [], verify=verify))
    ks.append(Contract('Region::collectPendingContexts', (R + '::collectPendingContexts', 0),
                       pre=lambda c: [('no pending asynchronous context', pend(c, c.this.addr, c.new or c.old) == 0)],
                       post=lambda c: [('still none', pend(c, c.this.addr, c.new or c.old) == 0)],
                       modifies=lambda c: [], verify=verify))
    return ks


def exec_contracts(prog, verify=True, both=('record', 'train')):
    v = V(prog)
    ks = []
    F = lambda o, n: (o, n)
    tt = lambda c, x, n, old=False: c.ex.load_in(c.old if old or c.new is None else c.new, c.ex.field(x, n))

    def sync(c):
        return v.sync(c, c.this.addr)

    def ctxp(c, i=0):
        return ObjRef(c.args[i], T(('class', X)))

    def is_sync(c, i=0):
        return [('the context is the one begin returned', c.args[i] == sync(c).addr)]

    def cur_sync(c):
        return [('an execution is open', c.f('current_context') == sync(c).addr)]

    def begun(c, feats):
        s = sync(c)
        return [('the execution index advances by one', c.f('idx') == c.fo('idx') + 1),
                ('the context carries this execution\'s index', tt(c, s, 'idx') == c.fo('idx')),
                ('features start afresh', tt(c, s, 'features') == feats(c)),
                ('it is the open context', z3.And(c.res == s.addr, c.f('current_context') == s.addr)),
                ('the timer is started once', c.g('$starts', tt(c, s, 'timer')) ==
                 c.g('$starts', tt(c, s, 'timer', True), old=True) + 1)]

    def bmods(c):
        s = sync(c)
        tm = tt(c, s, 'timer', True)
        return [c.ex.field(c.this, 'idx'), c.ex.field(c.this, 'current_context'), c.ex.field(s, 'idx'),
                c.ex.field(s, 'features'), ('h', '$starts', tm), ('h', '$metric', tm)]
    empty = lambda c: ty.fempty
    # emptiness is stated by length: a cleared vector and a new one are the same value
    ks.append(Contract('Region::createRegionContext', (R + '::createRegionContext', 1),
                       pre=lambda c: inv(v, c), exits=lambda c: c.args[0] != 0, modifies=lambda c: [
        c.ex.field(sync(c), 'features')], post=lambda c: [
        ('the synchronous context', c.res == sync(c).addr), ('features start empty',
                                                             tt(c, sync(c), 'features') == ty.fempty)],
        verify=verify))
    ks.append(Contract('Region::begin(kind)', (R + '::begin', 1, ['TimingKind']), pre=lambda c: inv(v, c),
                       exits=lambda c: c.args[0] != 0, post=lambda c: begun(c, empty), modifies=bmods, verify=verify))
    ks.append(Contract('Region::begin()', (R + '::begin', 0), pre=lambda c: inv(v, c), post=lambda c: begun(c, empty),
                       modifies=bmods, verify=verify))
    ks.append(Contract('Region::begin(features)', (R + '::begin', 1, ['vector<float']), pre=lambda c: inv(v, c),
                       post=lambda c: begun(c, lambda c: c.argo(0)), modifies=bmods, verify=verify))

    def setf(c, s, val):
        return [('the feature is appended', tt(c, s, 'features') == ty.fpush(tt(c, s, 'features', True), val))]
    ks.append(Contract('Region::setFeature(context, value)', (R + '::setFeature', 2),
                       pre=lambda c: [('a context', c.args[0] > 0)], post=lambda c: setf(c, ctxp(c), c.args[1]),
                       modifies=lambda c: [c.ex.field(ctxp(c), 'features')], verify=verify))
    ks.append(Contract('Region::setFeature(value)', (R + '::setFeature', 1), pre=lambda c: inv(v, c) + cur_sync(c),
                       post=lambda c: setf(c, sync(c), c.args[0]),
                       modifies=lambda c: [c.ex.field(sync(c), 'features')], verify=verify))

    def chosen(c, x):
        m = v.model(c, c.this.addr, True)
        return [('the model is asked once, with the features of this execution', z3.And(
                    c.g('$calls', m) == c.g('$calls', m, old=True) + 1,
                    c.g('$cfeat', m) == tt(c, x, 'features', True))),
                ('its choice is returned', c.res == c.g('$cres', m)),
                ('the context remembers the choice', tt(c, x, 'policy') == c.res),
                ('the features are kept', tt(c, x, 'features') == tt(c, x, 'features', True))]

    def gmods(c, x):
        m = v.model(c, c.this.addr, True)
        return [('h', n, m) for n in ('$calls', '$cres', '$cfeat')] + [c.ex.field(x, 'policy')]
    ks.append(Contract('Region::getPolicyIndex(context)', (R + '::getPolicyIndex', 1),
                       pre=lambda c: inv(v, c) + is_sync(c), exits=lambda c: True,
                       post=lambda c: chosen(c, sync(c)), modifies=lambda c: gmods(c, sync(c)), verify=verify))
    ks.append(Contract('Region::getPolicyIndex()', (R + '::getPolicyIndex', 0),
                       pre=lambda c: inv(v, c) + cur_sync(c), exits=lambda c: True,
                       post=lambda c: chosen(c, sync(c)), modifies=lambda c: gmods(c, sync(c)), verify=verify))
    # recording
    df = v.df

    def apx(c):
        return c.fo('apollo')

    def recs(c, metric, parts):
        s = sync(c)
        o, n = v.data(c, c.this.addr, True), v.data(c, c.this.addr)
        m = v.model(c, c.this.addr, True)
        do = z3.Or(v.cfg(c, 'PERSISTENT_DATASETS', True) != 0, c.g('$trainable', m, old=True))
        k = key(v.dt, tt(c, s, 'features', True), tt(c, s, 'policy', True))
        c.ex.touch_dom(mdom(o), v.dt[1], True)
        r = []
        if 'record' in parts:
            for nm, f in recorded(v.dt, o, n, k, metric):
                r.append(('trainable or persistent: recorded once under its features and policy: ' + nm,
                          z3.Implies(do, f)))
            r.append(('otherwise nothing is recorded', z3.Implies(z3.Not(do), n == o)))
            r.append(('the execution is closed', c.f('current_context') == 0))
        if parts:
            r.append(('one more execution in total', c.ex.hget('Apollo::region_executions', apx(c), c.new) ==
                      c.ex.hget('Apollo::region_executions', apx(c), c.old) + 1))
            r.append(('the region\'s execution index is not advanced again', c.f('idx') == c.fo('idx')))
        if 'train' in parts:
            r += trigger(v, c, c.this.addr)
        return r

    def cmods(c, stop=False):
        s = sync(c)
        r = [c.ex.field(v.ds_obj(c, c.this.addr), df), c.ex.field(s, 'features'),
             c.ex.field(c.this, 'current_context'), ('h', 'Apollo::region_executions', apx(c))] + TG
        if stop:
            tm = tt(c, s, 'timer', True)
            r += [('h', '$stops', tm), ('h', '$metric', tm)]
        return r
    lim = lambda c: [('execution count fits', c.ex.hget('Apollo::region_executions', c.f('apollo'), c.old or c.new) <
                      2 ** 64 - 1)]
    ks.append(Contract('Region::collectContext', (R + '::collectContext', 2),
                       pre=lambda c: inv(v, c) + is_sync(c) + lim(c), exits=lambda c: throws(v, c),
                       post=lambda c: recs(c, c.argo(1), both), modifies=cmods, verify=verify))
    ks.append(Contract('Region::end(context, metric)', (R + '::end', 2),
                       pre=lambda c: inv(v, c) + is_sync(c) + lim(c), exits=lambda c: throws(v, c),
                       post=lambda c: recs(c, c.argo(1), both), modifies=cmods, verify=verify))

    def stopped(c):
        tm = tt(c, sync(c), 'timer', True)
        return [('the timer is stopped once', c.g('$stops', tm) == c.g('$stops', tm, old=True) + 1)]
    met = lambda c: c.g('$metric', tt(c, sync(c), 'timer', True))
    ks.append(Contract('Region::end(context)', (R + '::end', 1, ['RegionContext']),
                       pre=lambda c: inv(v, c) + is_sync(c) + lim(c), exits=lambda c: throws(v, c),
                       post=lambda c: recs(c, met(c), both) + stopped(c), modifies=lambda c: cmods(c, True),
                       verify=verify))
    ks.append(Contract('Region::end(metric)', (R + '::end', 1, ['double']),
                       pre=lambda c: inv(v, c) + cur_sync(c) + lim(c), exits=lambda c: throws(v, c),
                       post=lambda c: recs(c, c.argo(0), both), modifies=cmods, verify=verify))
    ks.append(Contract('Region::end()', (R + '::end', 0),
                       pre=lambda c: inv(v, c) + cur_sync(c) + lim(c), exits=lambda c: throws(v, c),
                       post=lambda c: recs(c, met(c), both) + stopped(c), modifies=lambda c: cmods(c, True),
                       verify=verify))
    ks.append(Contract('Region::destroyRegionContext', (R + '::destroyRegionContext', 1), pre=is_sync,
                       post=lambda c: [], modifies=lambda c: [], verify=verify))
    return ks


def lift(name, k, n, exits=None):
    """the contract of a C function that forwards to the method with contract k on its first argument"""
    import copy

    def view(c):
        d = copy.copy(c)
        d.this = ObjRef(c.args[0], T(('class', R)))
        d.args = c.args[1:]
        return d
    w = lambda f: None if f is None else (lambda c: f(view(c)))
    return Contract(name, (name, n), pre=lambda c: [('a region', c.args[0] > 0)] + list(k.pre(view(c)) if k.pre else []),
                    post=w(k.post), modifies=w(k.modifies), exits=w(k.exits))


def cwrappers(prog, both=('train',)):
    """extern "C" interface"""
    by = {k.name: k for k in exec_contracts(prog, both=both) + train_contracts(prog)}
    import copy

    def noret(k):
        k = copy.copy(k)
        return k
    b = copy.copy(by['Region::begin()'])
    post = b.post

    def nores(c):
        s = V(prog).sync(c, c.this.addr)
        d = copy.copy(c)
        d.res = s.addr
        return post(d)
    b.post = nores
    t = copy.copy(by['Region::train'])
    for a in ('pre', 'post', 'modifies', 'exits'):
        f = getattr(t, a)

        def g(c, f=f):
            d = copy.copy(c)
            d.args = [c.args[0], z3.BoolVal(True), z3.BoolVal(False)]
            return f(d)
        setattr(t, a, g)
    return [lift('__apollo_region_begin', b, 1), lift('__apollo_region_end', by['Region::end()'], 1),
            lift('__apollo_region_set_feature', by['Region::setFeature(value)'], 2),
            lift('__apollo_region_get_policy', by['Region::getPolicyIndex()'], 1),
            lift('__apollo_region_train', t, 2)]
