"""C10: a random forest is a majority vote over trees built from the training data."""
from . import forest


def groups():
    return [dict(files=['src/models/impl/RandomForestImpl.cpp'], contracts=forest.contracts, ghost=forest.GHOST,
                 opts=dict(inv_ms=1500))]
