"""C03: the Static model always selects the configured policy."""
import z3
from ..contract import Contract
from .common import role
from . import factory

ST = 'apollo::Static'


def groups():
    def model(prog):
        pc = role(prog, ST, 'policy_choice', r'^int$')
        ks = [Contract('Static::getIndex', (ST + '::getIndex', 1),
                       post=lambda c: [('the configured policy is selected', c.res == c.fo(pc)),
                                       ('the configuration is kept', c.f(pc) == c.fo(pc))],
                       modifies=lambda c: []),
              Contract('Static::Static', (ST + '::Static', 2),
                       post=lambda c: [('the policy is stored', c.f(pc) == c.argo(1)),
                                       ('policy_count = N', c.f('policy_count') == c.argo(0))])]
        for m in ('train', 'load', 'store'):
            ks.append(Contract('Static::' + m, (ST + '::' + m,), post=lambda c: [('the configuration is kept',
                                                                                  c.f(pc) == c.fo(pc))],
                               modifies=lambda c: []))
        ks.append(Contract('Static::isTrainable', (ST + '::isTrainable', 0),
                           post=lambda c: [('not trainable', z3.Not(c.res))], modifies=lambda c: []))
        return ks

    def fac(prog):
        role(prog, ST, 'policy_choice')
        return factory.ctor_contracts(prog) + [factory.factory_contract(prog, ('static',))]
    return [dict(files=['src/models/Static.cpp'], contracts=model),
            dict(files=['src/ModelFactory.cpp'], contracts=fac, ghost=factory.GHOST)]
