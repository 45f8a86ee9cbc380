"""C07: a trained decision tree reproduces its training data up to its depth."""
from . import tree


def groups():
    return [dict(files=['src/models/impl/DecisionTreeImpl.cpp'], contracts=tree.contracts, ghost=tree.GHOST, ghost_globals={tree.LEAFG: tree.INT},
                 opts=dict(inv_ms=1500, sort_fwd=True, div_facts=True, unique_alloc=True), sort_hooks=[tree.sort_hook])]


lemmas = tree.lemmas
