"""C09: saving and loading a tree or forest preserves every prediction."""
from . import parser, tree


def groups():
    return parser.groups() + [dict(files=['src/models/impl/DecisionTreeImpl.cpp'], contracts=lambda p: [
        tree.evaluate_contract(p), tree.predict_contract(p)], ghost=tree.GHOST, ghost_globals={tree.LEAFG: tree.INT},
        opts=dict(inv_ms=1500, unique_alloc=True))]
