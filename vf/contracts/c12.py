"""C12: automatic training happens exactly when its trigger says so."""
from .region import *

MINE = ('Region::autoTrain', 'Region::train', 'Region::collect', 'Region::end', 'Region::destroy')


def contracts(prog):
    return train_contracts(prog) + exec_contracts(prog, both=('train',)) + model_contracts(prog) + \
        timer_contracts(prog) + [insert_contract(prog, False), size_contract(prog, False),
                                 merge_contract(prog, False), reduce_contract(prog, False)] + cwrappers(prog)


def groups():
    return [dict(files=['src/Region.cpp'], contracts=contracts, ghost=ghost, opts=dict(split=True),
                 verify=lambda k: k.name.startswith(MINE)),
            dict(files=['src/Apollo.cpp'], contracts=contracts, ghost=ghost, opts=dict(split=True),
                 verify=lambda k: k.name.startswith('Apollo::') or k.name == '__apollo_region_train')]
