"""C11: each region execution is recorded exactly once under its features and policy."""
from .region import *


def contracts(prog):
    return train_contracts(prog) + exec_contracts(prog, both=('record',)) + model_contracts(prog) + \
        timer_contracts(prog) + [insert_contract(prog, False), size_contract(prog, False),
                                 merge_contract(prog, False), reduce_contract(prog, False)] + \
        cwrappers(prog, ('record',))


def groups():
    return [dict(files=['src/Region.cpp'], contracts=contracts, ghost=ghost, opts=dict(split=True),
                 verify=lambda k: k.name.startswith('Region::') and k.name not in ('Region::autoTrain',
                                                                                   'Region::train')),
            dict(files=['src/Apollo.cpp'], contracts=contracts, ghost=ghost, opts=dict(split=True),
                 verify=lambda k: k.name.startswith('__apollo_region') and 'train' not in k.name)]
