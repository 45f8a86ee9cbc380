"""Contracts of the Kokkos connector (C17)."""
import z3
from .. import types as ty
from ..types import T, sort, vlen, varr, vat, FA
from ..contract import Contract, Missing
from ..engine import Unsupported, LV, ObjRef, addk, subk, tdivf, imulf, umul_axioms, elem_fn, sub_fn, akind, born
from .policynet import counters
from .common import role


RNG = 'Kokkos_Tools_ValueRange'
UN = 'Kokkos_Tools_VariableValue_ValueUnion'
VV = 'Kokkos_Tools_VariableValue'
VI = 'Kokkos_Tools_VariableInfo'
INT64 = 1


def M(a, b):
    return imulf(a, b)


def bounds(c, rng, st):
    """(first admissible value, last admissible value, step) of an integer range"""
    f = lambda n: c.ex.load_in(st, c.ex.field(ObjRef(rng.addr if isinstance(rng, ObjRef) else rng, T(('class', RNG))), n))
    u = lambda n: c.ex.load_in(st, c.ex.field(c.ex.field(ObjRef(rng.addr if isinstance(rng, ObjRef) else rng, T(('class', RNG))), n), 'int_value'))
    return (z3.If(f('openLower'), u('lower') + 1, u('lower')), z3.If(f('openUpper'), u('upper') - 1, u('upper')),
            u('step'))


def count(prog):
    def pre(c):
        lo, hi, step = bounds(c, c.args[0], c.old)
        [c.old.ax.setdefault(('umul', j), f) for j, f in enumerate(umul_axioms())]
        return [('a non-empty integer range', z3.And(c.args[1] == INT64, lo <= hi, step > 0))]

    def post(c):
        lo, hi, step = bounds(c, c.args[0], c.old)
        r = c.res
        return [('the last counted value is in the range', z3.And(r >= 1, lo + M(subk(r, 1), step) <= hi)),
                ('the next one is not', lo + M(r, step) > hi)]
    return Contract('count_range_slices', ('count_range_slices', 2), pre=pre, post=post, modifies=lambda c: [])


VALS = [(VV, 'type_id'), (VV, 'metadata'), (UN, 'int_value'), (UN, 'double_value'), (UN, 'string_value')]


def elem_facts(st):
    """elements of arrays of values, and the unions in them, are told apart by array and index"""
    f, arr, idx, kid = elem_fn(VV)
    u, own, uk = sub_fn(VV, 'value')
    b, i, a = z3.Ints('eb ei ea')
    for j, x in enumerate([
            FA([b, i], z3.And(arr(f(b, i)) == b, idx(f(b, i)) == i, akind(f(b, i)) == kid, born(f(b, i)) == born(b),
                              f(b, i) > 0), [f(b, i)]),
            FA([a], z3.And(own(u(a)) == a, akind(u(a)) == uk, born(u(a)) == born(a), u(a) > 0), [u(a)])]):
        st.ax.setdefault(('kk', j), x)


def at(c, st, base, x):
    """(type_id, metadata, int_value) of element x of the array of values at base"""
    a = elem_fn(VV)[0](base, x)
    u = sub_fn(VV, 'value')[0](a)
    h = c.ex.hget
    return h(VV + '::type_id', a, st), h(VV + '::metadata', a, st), h(UN + '::int_value', u, st)


def outside(c, st, st0, base, heaps=VALS):
    """what is not in the array at base and existed in st0 is as it was"""
    f, arr, idx, kid = elem_fn(VV)
    u, own, uk = sub_fn(VV, 'value')
    a = z3.Int('oa')
    out = []
    for cl, n in heaps:
        h = [s.heap.get(cl + '::' + n) for s in (st, st0)]
        h = [c.ex.heap_init(cl + '::' + n) if x is None else x for x in h]
        mine = z3.And(akind(a) == kid, arr(a) == base) if cl == VV else z3.And(
            akind(a) == uk, akind(own(a)) == kid, arr(own(a)) == base)
        out.append(FA([a], z3.Implies(z3.And(born(a) < st0.clock, z3.Not(mine)), h[0][a] == h[1][a]), [h[0][a]]))
    return out


def filled(c, st, base, n, want):
    x = z3.Int('fx')
    f = elem_fn(VV)[0]
    return FA([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(*[g == w for g, w in zip(at(c, st, base, x), want(x))])),
              [f(base, x)])


def fill(prog):
    def base(c):
        a = c.args[0]
        return a.addr if isinstance(a, ObjRef) else a

    def want(c):
        lo, hi, step = bounds(c, c.args[1], c.old)
        return lambda x: (c.args[3], c.args[4], lo + M(x, step))

    def pre(c):
        elem_facts(c.old)
        [c.old.ax.setdefault(('umul', j), f) for j, f in enumerate(umul_axioms())]
        info = ObjRef(c.args[4], T(('class', VI)))
        c.ex.memtypes['objs:' + VV] = None
        return [('an integer variable', c.f('type', info) == INT64),
                ('room for every value', z3.And(c.args[2] <= c.ex.hget('objs:' + VV, base(c), c.old), c.args[2] >= 0,
                                                c.args[2] < 2**31, base(c) > 0, born(base(c)) < c.old.clock))]

    def post(c):
        elem_facts(c.new)
        return [('value x is lower bound plus x steps', filled(c, c.new, base(c), c.args[2], want(c)))] + [
            ('other values are kept', x) for x in outside(c, c.new, c.old, base(c))]

    def inv(L, c):
        out = []
        own, outer = counters(L, c)
        for cl, n in VALS:
            out.append(('others ' + n, lambda st, cl=cl, n=n: outside(c, st, L.entry, base(c), [(cl, n)])[0]))
        for pn, pg in own:
            out.append(('filled up to ' + pn, lambda st, pg=pg: filled(c, st, base(c), pg(st), want(c))))
        return out
    return Contract('form_set_from_range', ('form_set_from_range', 5), pre=pre, post=post, invgens=[inv],
                    modifies=lambda c: [('h*', cl + '::' + n) for cl, n in VALS])


SET, RANGE, UNB = 0, 1, 2
DB = 'VariableDatabaseData'
I64 = T(('int', 64, True))
MEM64 = 'mem:' + ty.tname(I64)


def associate(prog):
    role(prog, DB, 'candidate_set_size')
    role(prog, DB, 'candidate_values')

    def info(c):
        return ObjRef(c.args[1], T(('class', VI)))

    def cand(c, which):
        return c.ex.field(c.ex.field(info(c), 'candidates'), which)

    def db(c):
        return ObjRef(c.f('toolProvidedInfo', info(c), old=True), T(('class', DB)))

    def the_set(c):
        s = cand(c, 'set')
        p = c.f('int_value', c.ex.field(s, 'values'), old=True)
        c.ex.memtypes[MEM64] = I64
        return c.f('size', s, old=True), c.ex.hget(MEM64, p, c.old), p

    def pre(c):
        elem_facts(c.old)
        [c.old.ax.setdefault(('umul', j), f) for j, f in enumerate(umul_axioms())]
        c.ex.memtypes['objs:' + VV] = None
        q = c.f('valueQuantity', info(c))
        lo, hi, step = bounds(c, cand(c, 'range'), c.old)
        n, mem, p = the_set(c)
        return [('an integer variable', z3.And(c.f('type', info(c)) == INT64, c.args[1] > 0, born(c.args[1]) < c.old.clock)),
                ('its record', z3.And(db(c).addr > 0, born(db(c).addr) < c.old.clock, akind(db(c).addr) == 0)),
                ('a set, a non-empty range or nothing', z3.Or(
                    q == UNB,
                    z3.And(q == SET, n >= 0, n < 2**31, vlen(mem) == n, p > 0, born(p) < c.old.clock),
                    z3.And(q == RANGE, lo <= hi, step > 0, hi - lo < 2**31 - 1)))]

    def want(c, q):
        lo, hi, step = bounds(c, cand(c, 'range'), c.old)
        n, mem, p = the_set(c)
        return (lambda x: lo + M(x, step)) if q == RANGE else (lambda x: z3.Select(varr(mem), x))

    def vals(c, st, base, n, w, upto=None):
        x = z3.Int('vx')
        e = at(c, st, base, x)
        return FA([x], z3.Implies(z3.And(0 <= x, x < n), z3.And(e[0] == c.args[0], e[2] == w(x))),
                  [elem_fn(VV)[0](base, x)])

    def post(c):
        elem_facts(c.new)
        q = c.f('valueQuantity', info(c), old=True)
        lo, hi, step = bounds(c, cand(c, 'range'), c.old)
        n, mem, p = the_set(c)
        size, base = c.f('candidate_set_size', db(c)), c.f('candidate_values', db(c))
        return [('no candidates without a set or range', z3.Implies(q == UNB, size == 0)),
                ('as many candidates as the set has', z3.Implies(q == SET, size == n)),
                ('as many candidates as the range has', z3.Implies(q == RANGE, z3.And(
                    size >= 1, lo + M(subk(size, 1), step) <= hi, lo + M(size, step) > hi))),
                ('candidate x is value x of the set', z3.Implies(z3.And(q == SET, n > 0), vals(
                    c, c.new, base, n, want(c, SET)))),
                ('candidate x is lower bound plus x steps', z3.Implies(q == RANGE, vals(
                    c, c.new, base, size, want(c, RANGE)))),
                ('an array of its own', z3.Implies(size > 0, z3.And(
                    base > 0, c.ex.hget('objs:' + VV, base, c.new) == size, born(base) >= c.old.clock)))]

    def inv(L, c):
        out = []
        own, outer = counters(L, c)
        for vn, vg in L.visible(pred=lambda t: t == T(('ptr', T(('class', VV))))):
            for cl, n in VALS:
                out.append(('others ' + n, lambda st, cl=cl, n=n, vg=vg: outside(
                    c, st, L.entry, vg(L.entry), [(cl, n)])[0]))
            for pn, pg in own:
                out.append(('filled up to ' + pn, lambda st, pg=pg, vg=vg: vals(c, st, vg(st), pg(st), want(c, SET))))
        return out
    HEAPS = [VV + '::type_id', VV + '::metadata', UN + '::int_value', UN + '::double_value', UN + '::string_value']
    return Contract('associate_candidates', ('associate_candidates', 2), pre=pre, post=post, invgens=[inv],
                    modifies=lambda c: [('h*', h) for h in HEAPS] + [
                        c.ex.field(db(c), 'candidate_set_size'), c.ex.field(db(c), 'candidate_values')],
                    allocates=['objs:' + VV])


def contracts(prog):
    return [count(prog), fill(prog), associate(prog)]


def groups():
    return [dict(files=['src/connectors/kokkos/kokkos-connector.cpp'], contracts=contracts, opts=dict(umul=True))]
