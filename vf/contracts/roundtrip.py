"""Text round trip of datasets (C06): Dataset::store writes the tokens of the dataset, Dataset::load reads them back.

What is written to a stream is a sequence of tokens (ghost $out; $open is the token being written, $prec the precision
of the stream), what a Parser reads is a sequence of tokens (ghost $in, $ip, $cur). A token is a number (kind 1 int, 2
float, 3 double; its value and the precision it was printed with) followed by a piece of text, or only the text.
Assumed, and cross-checked by the harness: text written as white-space separated tokens is read as those tokens
(Parser::getNextToken, under contract in C19), and std::stoi/stof/stod give back the number printed, for floating point
if it was printed with max_digits10 digits, and stop behind it."""
import z3
from .. import types as ty
from ..types import T, sort, vlen, varr, vat, mdom, mval, pget, pmk, card, key_at, idx_of, sel, FA, flen, fat
from ..contract import Contract, Missing
from ..engine import Unsupported, LV, ObjRef, StreamVal, addk
from ..stl import Stl
from .common import role
from .dataset import DATA, D, touch, insert_contract, size_contract, clear_contract

I = z3.IntSort()
INT = T(('int', 32, True))
I64 = T(('int', 64, True))
TOK = T(('tuple', INT, T(('float', 64)), INT, INT))
TOKS = T(('vec', TOK))
PA = 'Parser'
_code = {'': 0}
CAT = z3.Function('cat', I, I, I)


def code(s):
    return z3.IntVal(_code.setdefault(s, len(_code)))


def word(s):
    return pmk(sort(TOK), z3.IntVal(0), z3.RealVal(0), z3.IntVal(0), code(s))


EMPTY = word('')


class TokStl(Stl):
    def gg(self, ex, n):
        k = ('g', n)
        return ex.st.env[k] if k in ex.st.env else ex.global_init(k)

    def gs(self, ex, n, v):
        ex.st.env[('g', n)] = v

    def add(self, ex, s):
        """the open token grows by s"""
        o = self.gg(ex, '$open')
        f = pget(o, 3)
        f = z3.simplify(f)
        if z3.is_int_value(f):
            r = code([x for x, y in _code.items() if y == f.as_long()][0] + s)
        else:
            r = CAT(f, code(s))
            ex.axiom(('cat', r.sexpr()), [z3.Implies(f == y, r == code(x + s)) for x, y in list(_code.items())])
        self.gs(ex, '$open', pmk(sort(TOK), pget(o, 0), pget(o, 1), pget(o, 2), r))

    def close(self, ex):
        o, v = self.gg(ex, '$open'), self.gg(ex, '$out')
        empty = z3.And(pget(o, 0) == 0, pget(o, 3) == 0)
        e = z3.simplify(empty)
        if z3.is_true(e):
            return
        if not z3.is_false(e):
            if ex.decide([empty, z3.Not(empty)]) == 0:
                self.gs(ex, '$open', EMPTY)
                return
        n = vlen(v)
        self.gs(ex, '$out', ty.vmk(sort(TOKS), addk(n, 1), z3.Store(varr(v), n, o)))
        self.gs(ex, '$open', EMPTY)

    def emit(self, ex, s):
        w = ''
        for ch in s:
            if ch.isspace():
                if w:
                    self.add(ex, w)
                    w = ''
                self.close(ex)
            else:
                w += ch
        if w:
            self.add(ex, w)

    def number(self, ex, v, kind):
        o = self.gg(ex, '$open')
        fresh = z3.And(pget(o, 0) == 0, pget(o, 3) == 0)
        k = z3.simplify(z3.If(fresh, z3.IntVal(kind), z3.IntVal(-1)))
        self.gs(ex, '$open', pmk(sort(TOK), k, z3.ToReal(v) if v.sort() == I else v, self.gg(ex, '$prec'), code('')))

    def mine(self, ex, s):
        """only the stream the caller gave"""
        return not isinstance(s, StreamVal) or 'cerr' not in str(s.name) and 'cout' not in str(s.name)

    def on_output(self, ex, s, v, node):
        if not self.mine(ex, s):
            return s
        t = ty.strip_ref(ex.typ(node))
        while isinstance(v, LV):
            v = ex.load(v)
        if isinstance(v, tuple) and v and v[0] == 'prec':
            self.gs(ex, '$prec', v[1])
            return s
        if not ty_ok(v):
            raise Unsupported('output of %r' % (v,))
        if z3.is_string_value(v):
            self.emit(ex, v.as_string().replace('\\u{a}', '\n').replace('\\u{9}', '\t').replace('\\u{d}', '\r'))
        elif t.k == 'int' and t[1] == 8:
            w = z3.simplify(v)
            if not z3.is_int_value(w):
                raise Unsupported('output of a character')
            self.emit(ex, chr(w.as_long()))
        elif t.k == 'int':
            self.number(ex, v, 1)
        elif t.k == 'float':
            self.number(ex, v, 2 if t[1] == 32 else 3)
        else:
            raise Unsupported('output of %r' % (t,))
        return s

    def op_out(self, ex, a, at, nodes, n):
        x = ex.strip(nodes[1])
        while x['kind'] == 'ImplicitCastExpr':
            x = ex.strip(x['inner'][0])
        if x['kind'] == 'DeclRefExpr' and x['referencedDecl'].get('name') == 'endl':
            s = ex.load(a) if isinstance(a, LV) else a
            if self.mine(ex, s):
                self.emit(ex, '\n')
            return a
        return super().op_out(ex, a, at, nodes, n)

    def f_setprecision(self, ex, xs, n):
        return ('prec', self.val(ex, xs[0]))

    def stream_method(self, ex, b, name, nodes, n):
        if name == 'precision':
            old = self.gg(ex, '$prec')
            vs = [self.val(ex, x) for x in nodes]
            if vs:
                self.gs(ex, '$prec', vs[0])
            return old
        return super().stream_method(ex, b, name, nodes, n)


def ty_ok(v):
    return isinstance(v, z3.ExprRef)


# ---------------------------------------------------------------- reading
def cur(c, st):
    return c.ex.st_glob(st, '$cur')


def gl(c, n, st):
    k = ('g', n)
    return st.env[k] if k in st.env else c.ex.global_init(k)


def lit(c, i=0):
    v = c.args[i]
    if isinstance(v, LV):
        v = c.ex.load(v)
    if not z3.is_string_value(v):
        raise Unsupported('text that is not a literal')
    return code(v.as_string())


def is_word(t, w):
    return z3.And(pget(t, 0) == 0, pget(t, 3) == w)


def same_tok(a, b):
    return z3.And(*[pget(a, i) == pget(b, i) for i in range(4)])


def parser_contracts():
    def more(c):
        return [('there is another token', z3.And(gl(c, '$ip', c.old) >= 0, gl(c, '$ip', c.old) < vlen(gl(c, '$in', c.old))))]

    def nxt(c):
        return [('next token', gl(c, '$cur', c.new) == vat(gl(c, '$in', c.old), gl(c, '$ip', c.old))),
                ('one further', gl(c, '$ip', c.new) == gl(c, '$ip', c.old) + 1)]
    NOTE = 'tokens of the text, see C19'
    MOD = lambda c: [('g', '$ip'), ('g', '$cur')]
    ks = [Contract('Parser::getNextToken (tokens)', (PA + '::getNextToken', 0), pre=more, post=nxt, modifies=MOD,
                   trusted=True, note=NOTE),
          Contract('Parser::getNextTokenEquals (tokens)', (PA + '::getNextTokenEquals', 1), pre=more, modifies=MOD,
                   post=lambda c: nxt(c) + [('compares', c.res == is_word(gl(c, '$cur', c.new), lit(c)))],
                   trusted=True, note=NOTE),
          Contract('Parser::getTokenEquals (tokens)', (PA + '::getTokenEquals', 1), modifies=lambda c: [],
                   post=lambda c: [('compares', c.res == is_word(gl(c, '$cur', c.old), lit(c)))],
                   trusted=True, note=NOTE),
          Contract('Parser::parseExpected (tokens)', (PA + '::parseExpected', 1), modifies=lambda c: [],
                   post=lambda c: [('expected', is_word(gl(c, '$cur', c.old), lit(c)))],
                   exits=lambda c: z3.Not(is_word(gl(c, '$cur', c.old), lit(c))), trusted=True, note=NOTE)]

    def parse(tag, rx, ok, conv):
        def post(c):
            o, n = gl(c, '$cur', c.old), gl(c, '$cur', c.new)
            return [('the number read is the one printed', z3.Implies(ok(o), conv(c.arg(0)) == pget(o, 1))),
                    ('the rest of the token follows', z3.Implies(ok(o), is_word(n, pget(o, 3))))]
        return Contract('Parser::parse<%s> (tokens)' % tag, (PA + '::parse', 1, [rx]), post=post, trusted=True,
                        pre=lambda c: [('a printed %s' % tag, ok(gl(c, '$cur', c.old)))],
                        modifies=lambda c: [('g', '$cur'), c.args[0]],
                        note='std::sto* gives back the number printed with max_digits10 digits')
    k = lambda o: pget(o, 0)
    for tag, rx in (('int', r'^int\b'), ('unsigned', r'^unsigned int\b'), ('size_t', r'^(unsigned long|size_t|std::size_t)\b')):
        ks.append(parse(tag, rx, lambda o: k(o) == 1, z3.ToReal))
    ks.append(parse('float', r'^float\b', lambda o: z3.And(k(o) == 2, pget(o, 2) >= 9), lambda v: v))
    ks.append(parse('double', r'^double\b', lambda o: z3.And(k(o) == 3, pget(o, 2) >= 17), lambda v: v))
    return ks


# ---------------------------------------------------------------- layout of a dataset
def POS(dom):
    s = dom.sort()
    return z3.Function('tokpos', s, I, I)


HEAD = 2
SEEN = z3.Function('SEEN', I, I, z3.BoolSort())      # true; names the indices a goal is about, for the matching


def put(ex, st, key, fs):
    for m, x in enumerate(fs):
        st.ax.setdefault((key, m), x)


def touch_in(ex, st, t, *doms):
    old, ex.st = ex.st, st
    try:
        for d in doms:
            ex.touch_dom(d, t[1], True)
    finally:
        ex.st = old


def layout_facts(c, t, d, st=None):
    """definition of the positions of the entries, known in the given state"""
    dom = mdom(d)
    P = POS(dom)
    i, j = z3.Ints('li lj')
    nf = lambda i: flen(pget(key_at(dom, i), 0))
    for st in ([st] if st is not None else [c.old, c.new]):
        if st is None:
            continue
        touch_in(c.ex, st, t, dom, z3.K(sort(t[1]), z3.BoolVal(False)))
        put(c.ex, st, 'push', ty.fv_axioms()[2:4])
        put(c.ex, st, ('layout', dom.sexpr()), [
            P(dom, z3.IntVal(0)) == HEAD, FA([i, j], SEEN(i, j), [SEEN(i, j)]),
            FA([i], z3.Implies(i >= 0, z3.And(P(dom, i + 1) == P(dom, i) + 10 + nf(i), nf(i) >= 0, nf(i) < 2 ** 61)),
               [key_at(dom, i)]),
            FA([i], z3.Implies(i >= 0, P(dom, i) >= HEAD), [P(dom, i)]),
            FA([i, j], z3.Implies(z3.And(0 <= i, i < j), P(dom, i) + 10 + nf(i) <= P(dom, j)),
               [z3.MultiPattern(P(dom, i), P(dom, j))])])
    return P


def tok_is(a, kind, val=None, prec=0, suf=''):
    f = [pget(a, 0) == kind, pget(a, 3) == code(suf)]
    if val is not None:
        f.append(pget(a, 1) == val)
    if prec:
        f.append(pget(a, 2) >= prec)
    return z3.And(*f)


def entry(A, p, k, m):
    """the tokens of one entry at p (features apart)"""
    nf = flen(pget(k, 0))
    at = lambda q: z3.Select(A, z3.simplify(q))
    q = p + 4 + nf
    W = lambda x, s: tok_is(at(x), 0, suf=s)
    return z3.And(tok_is(at(p), 1, suf=':'), W(p + 1, '{'), W(p + 2, 'features:'), W(p + 3, '['), W(q, '],'),
                  W(q + 1, 'policy:'), tok_is(at(q + 2), 1, z3.ToReal(pget(k, 1)), suf=','), W(q + 3, 'xtime:'),
                  tok_is(at(q + 4), 3, m, prec=17), W(q + 5, '},'))


def feature(A, p, f, j):
    return tok_is(z3.Select(A, p + 4 + j), 2, fat(f, j), prec=9, suf=',')


def entries(t, A, d, P, n):
    """entries 0..n-1 of dataset d are in A"""
    dom = mdom(d)
    i, j = z3.Ints('ei ej')
    k = key_at(dom, i)
    p = P(dom, i)
    f = pget(k, 0)
    return [('entry', FA([i], z3.Implies(z3.And(0 <= i, i < n), entry(A, p, k, z3.Select(mval(d), k))), [p])),
            ('features', FA([i, j], z3.Implies(z3.And(SEEN(i, j), 0 <= i, i < n, 0 <= j, j < flen(f)), feature(
                A, p, f, j)), [SEEN(i, j), z3.MultiPattern(p, fat(f, j))]))]


def layout(t, A, n, d, P):
    dom = mdom(d)
    N = card(dom)
    return [('it starts with data: {', z3.And(tok_is(z3.Select(A, 0), 0, suf='data:'), tok_is(z3.Select(A, 1), 0, suf='{'))),
            ('it ends with }', z3.And(tok_is(z3.Select(A, P(dom, N)), 0, suf='}'), n == P(dom, N) + 1))
            ] + entries(t, A, d, P, N)


def store(prog):
    df, t = DATA(prog)

    def pre(c):
        layout_facts(c, t, c.fo(df))
        return [('an empty stream', z3.And(vlen(gl(c, '$out', c.old)) == 0, gl(c, '$open', c.old) == EMPTY))]

    def post(c):
        d = c.fo(df)
        P = layout_facts(c, t, d)
        o = gl(c, '$out', c.new)
        return [('the text ' + n if i else 'the text starts', f) for i, (n, f) in enumerate(
            layout(t, varr(o), vlen(o), d, P))] + [
            ('no token is left open', gl(c, '$open', c.new) == EMPTY), ('the dataset is kept', c.f(df) == d)]

    def inv(L, c):
        d = c.fo(df)
        P = layout_facts(c, t, d, L.entry)
        dom = mdom(d)
        out = []
        A = lambda st: varr(gl(c, '$out', st))
        n = lambda st: vlen(gl(c, '$out', st))
        out.append(('no token is open', lambda st: gl(c, '$open', st) == EMPTY))
        out.append(('the precision stays', lambda st: gl(c, '$prec', st) == gl(c, '$prec', L.entry)))

        def prefix(st):
            x = z3.Int('px')
            return FA([x], z3.Implies(z3.And(0 <= x, x < n(L.entry)), z3.Select(A(st), x) == z3.Select(A(L.entry), x)),
                      [z3.Select(A(st), x)])
        out.append(('what was written stays', prefix))
        for pn, pg in L.progress():
            out.append(('up to position ' + pn, lambda st, pg=pg: n(st) == P(dom, pg(st))))
            for m in (0, 1):
                out.append(('entries up to %s %d' % (pn, m), lambda st, pg=pg, m=m: entries(
                    t, A(st), d, P, pg(st))[m][1]))
            out.append(('%s tokens more' % pn, lambda st, pg=pg: n(st) == n(L.entry) + pg(st)))
            for on, og in outer_positions(L):
                def feats(st, pg=pg, og=og):
                    i, j = z3.Ints('fi fj')
                    f = pget(key_at(dom, i), 0)
                    p = P(dom, i)
                    return FA([i, j], z3.Implies(z3.And(SEEN(i, j), i == og(L.entry), 0 <= j, j < pg(st)), feature(
                        A(st), p, f, j)), [SEEN(i, j), z3.MultiPattern(p, fat(f, j))])
                out.append(('features up to %s of %s' % (pn, on), feats))
        return out
    return Contract('Dataset::store', (D + '::store', 1), pre=pre, post=post, invgens=[inv],
                    modifies=lambda c: [('g', '$out'), ('g', '$open'), ('g', '$prec')])


def outer_positions(L):
    """positions of the iterations around this loop"""
    mine = {n for n, g in L.progress()}
    out = []
    for nm, v, g, m in L.iters():
        if not m:
            out.append((nm, g))
    return out


def load(prog):
    df, t = DATA(prog)

    def want(c):
        return gl(c, '$D', c.old)

    def pre(c):
        d = want(c)
        P = layout_facts(c, t, d)
        i = gl(c, '$in', c.old)
        touch(c, mdom(c.fo(df)), t)
        return [('the text of a dataset: ' + n, f) for n, f in layout(t, varr(i), vlen(i), d, P)] + [
            ('nothing is read yet', gl(c, '$ip', c.old) == 0),
            ('an empty dataset', mdom(c.fo(df)) == z3.K(sort(t[1]), z3.BoolVal(False)))]

    def post(c):
        d, n = want(c), c.f(df)
        layout_facts(c, t, d)
        k = z3.Const('rk', sort(t[1]))
        return [('the same pairs', FA([k], z3.Select(mdom(n), k) == z3.Select(mdom(d), k), [z3.Select(mdom(n), k)])),
                ('the same metrics', FA([k], z3.Implies(z3.Select(mdom(d), k), z3.Select(mval(n), k) == z3.Select(
                    mval(d), k)), [z3.Select(mval(n), k)]))]

    def inv(L, c):
        d = want(c)
        P = layout_facts(c, t, d, L.entry)
        dom = mdom(d)
        out = []
        ip = lambda st: gl(c, '$ip', st)
        data = lambda st: c.ex.load_in(st, c.ex.field(c.this, df))

        def cnt(st):
            touch_in(c.ex, st, t, mdom(data(st)))
            return card(mdom(data(st)))
        out.append(('position', lambda st: ip(st) == P(dom, cnt(st))))
        out.append(('count', lambda st: z3.And(0 <= cnt(st), cnt(st) <= card(dom))))
        k = z3.Const('rk', sort(t[1]))
        out.append(('pairs', lambda st: FA([k], z3.Select(mdom(data(st)), k) == z3.And(
            z3.Select(dom, k), idx_of(dom, k) < cnt(st)), [z3.Select(mdom(data(st)), k)])))
        out.append(('metrics', lambda st: FA([k], z3.Implies(z3.Select(mdom(data(st)), k), z3.Select(
            mval(data(st)), k) == z3.Select(mval(d), k)), [z3.Select(mval(data(st)), k)])))
        for vn, vg in L.roots(t=ty.VECF):
            f = lambda st: pget(key_at(dom, cnt(st)), 0)

            def pos(st, vg=vg):
                n, v = cnt(st), vg(st)
                put(c.ex, st, ('seen', n.get_id(), v.get_id()), [SEEN(n, flen(v))])
                return z3.And(ip(st) == P(dom, n) + 4 + flen(v), flen(v) <= flen(f(st)))
            out.append(('features position', pos))

            def pref(st, vg=vg):
                j = z3.Int('fj')
                v, w = vg(st), f(st)
                same = FA([j], z3.Implies(z3.And(0 <= j, j < flen(v)), fat(v, j) == fat(w, j)), [fat(v, j)])
                put(c.ex, st, ('ext', v.get_id(), w.get_id()), [z3.Implies(z3.And(flen(v) == flen(w), same), v == w)])
                return same
            out.append(('features', pref))
        return out
    return Contract('Dataset::load', (D + '::load', 1), pre=pre, post=post, invgens=[inv],
                    modifies=lambda c: [('g', '$ip'), ('g', '$cur'), c.ex.field(c.this, df)])


def contracts(prog):
    return [insert_contract(prog), size_contract(prog), clear_contract(prog), store(prog), load(prog)] + parser_contracts()


def groups():
    def ghost():
        from .treemodels import DATA
        return {'$out': TOKS, '$open': TOK, '$prec': I64, '$in': TOKS, '$ip': I64, '$cur': TOK}
    g = ghost()
    g['$D'] = T(('map', T(('pair', ty.VECF, INT)), T(('float', 64))))
    return [dict(files=['src/Dataset.cpp'], contracts=contracts, stl=TokStl, ghost_globals=g)]
