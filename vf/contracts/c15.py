"""C15: PolicyNet's network computes its layers exactly and never goes stale."""
from . import policynet as pn


def groups():
    return [dict(files=['src/models/PolicyNet.cpp'], contracts=pn.contracts, opts=dict(umul=True, inv_ms=2000),
                 index_hooks=[pn.index_hook])]
