"""C05: training labels are the fastest measured policy per feature vector."""
import z3
from .. import types as ty
from ..contract import Contract
from .common import role
from .dataset import *


def dm_contracts(prog):
    df, t = DATA(prog)
    C = 'apollo::DatasetMap'
    bf = role(prog, C, 'best_policies', 'map<')
    ks = [reduce_contract(prog, verify=False)]

    def tpost(c):
        d = c.f(df, obj=c.args[0], old=True)
        touch(c, mdom(d), t)
        return label_map(t, d, c.f(bf)) + [('the dataset is kept', c.f(df, obj=c.args[0]) == d)]
    ks.append(Contract('DatasetMap::train', (C + '::train', 1), post=tpost,
                       modifies=lambda c: [c.ex.field(c.this, bf)]))
    ks.append(Contract('DatasetMap::getIndex', (C + '::getIndex', 1), post=lambda c: [
        ('only a recorded feature vector is answered', sel(mdom(c.fo(bf)), c.argo(0))),
        ('the choice is its label', c.res == pget(sel(mval(c.fo(bf)), c.argo(0)), 0)),
        ('the labels are kept', c.f(bf) == c.fo(bf))],
        exits=lambda c: z3.Not(sel(mdom(c.fo(bf)), c.argo(0))), modifies=lambda c: []))
    for m in ('load', 'store'):
        ks.append(Contract('DatasetMap::' + m, (C + '::' + m,), modifies=lambda c: []))
    return ks


def groups():
    return [dict(files=['src/Dataset.cpp'], contracts=lambda p: [reduce_contract(p)]),
            dict(files=['src/models/DatasetMap.cpp'], contracts=dm_contracts)]
