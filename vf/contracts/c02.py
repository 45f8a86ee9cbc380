"""C02: RoundRobin visits all policies cyclically.

The abstract state of a model is next(this), the policy the next call has to choose. Three abstraction functions are
tried: the field holds the last choice, the next choice, or the number of choices so far."""
import re
import z3
from ..contract import Contract, Missing

RR = 'apollo::RoundRobin'
VARIANTS = 3


def state_field(prog):
    c = prog.classes.get(RR)
    if c is None:
        raise Missing('class ' + RR)
    m = [f[0] for f in c.fields if re.search(r'^(unsigned |signed |long |unsigned long )?(int|long|short|char|size_t)?$',
                                             f[1].strip()) and f[0]]
    for n in m:
        if n == 'last_policy':
            return n
    if len(m) == 1:
        return m[0]
    raise Missing('the state field of RoundRobin')


def groups(variant=0):
    def nx(l, n):
        if variant == 0:
            return z3.If(l + 1 == n, z3.IntVal(0), l + 1)
        if variant == 1:
            return l
        return l % n

    def rng(l, n):
        if variant == 0:
            return z3.And(-1 <= l, l < n)
        if variant == 1:
            return z3.And(0 <= l, l < n)
        return l >= 0

    def contracts(prog):
        lp = state_field(prog)

        def inv(c, old=False):
            n, l = c.f('policy_count', old=old), c.f(lp, old=old)
            return z3.And(n >= 1, n < 2 ** 31 - 1, rng(l, n))
        ks = []
        ks.append(Contract(
            'RoundRobin::RoundRobin', (RR + '::RoundRobin', 1, ['int']),
            pre=lambda c: [('N >= 1', z3.And(c.args[0] >= 1, c.args[0] < 2 ** 31 - 1))],
            post=lambda c: [('policy_count = N', c.f('policy_count') == c.args[0]),
                            ('no policy chosen yet: the next choice is 0', nx(c.f(lp), c.args[0]) == 0),
                            ('invariant', inv(c))]))
        ks.append(Contract(
            'RoundRobin::getIndex', (RR + '::getIndex', 1, ['vector<float']),
            pre=lambda c: [('invariant', inv(c))],
            post=lambda c: [('the choice is the next policy in the cycle', c.res == nx(c.fo(lp), c.fo('policy_count'))),
                            ('the cycle advances by one', nx(c.f(lp), c.fo('policy_count')) ==
                             z3.If(c.res + 1 == c.fo('policy_count'), z3.IntVal(0), c.res + 1)),
                            ('policy_count is kept', c.f('policy_count') == c.fo('policy_count')),
                            ('invariant', inv(c)),
                            ('features are kept', c.arg(0) == c.argo(0))],
            modifies=lambda c: [c.ex.field(c.this, lp)]))
        for m in ('train', 'load', 'store', 'isTrainable'):
            ks.append(Contract('RoundRobin::' + m, (RR + '::' + m,), post=lambda c: [], modifies=lambda c: []))
        return ks
    return [dict(files=['src/models/RoundRobin.cpp'], contracts=contracts)]


def lemmas():
    """choice(0) = 0 and choice(k+1) = succ(choice(k)), so choice(k) = k mod N for every k (induction)"""
    k, n, q, r = z3.Ints('k n q r')
    nx = lambda x: z3.If(x + 1 == n, z3.IntVal(0), x + 1)
    # k = n*q + r with 0 <= r < n: k mod n by its defining equation
    base = ('choice(0) = 0 mod N', [n >= 1, r == 0], z3.And(0 <= r, r < n, 0 == n * 0 + r))
    ind = ('choice(k) = k mod N implies choice(k+1) = (k+1) mod N',
           [n >= 1, k >= 0, 0 <= r, r < n, k == n * q + r],
           z3.And(0 <= nx(r), nx(r) < n, k + 1 == n * z3.If(r + 1 == n, q + 1, q) + nx(r)))
    return [base, ind]
