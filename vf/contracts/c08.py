"""C08: tree and forest models explore until trained, then use the classifier."""
from . import treemodels as tm


def groups():
    def c1(prog):
        return tm.callee_contracts(prog, 'DecisionTreeImpl') + \
            tm.model_contracts(prog, 'DecisionTree', 'DecisionTreeImpl', 'dtree')

    def c2(prog):
        return tm.callee_contracts(prog, 'RandomForestImpl') + \
            tm.model_contracts(prog, 'RandomForest', 'RandomForestImpl', 'rfc')
    return [dict(files=['src/models/DecisionTree.cpp'], contracts=c1, ghost=tm.GHOST),
            dict(files=['src/models/RandomForest.cpp'], contracts=c2, ghost=tm.GHOST)]
