"""Contract of Parser::getNextToken over an arbitrary text (C19).

The stream is its text: ghost globals $text (character codes, 1-based offset 0), $len and $pos. Iterators of the
stream buffer read and advance $pos, as does the stream itself."""
import z3
from .. import types as ty
from ..types import T, sort, vlen, varr, vat, FA
from ..contract import Contract, Missing
from ..engine import Unsupported, LV, ObjRef, addk
from ..stl import Stl
from .common import role

I = z3.IntSort()
INT = T(('int', 64, True))
TEXT = T(('vec', T(('int', 32, True))))
PA = 'Parser'
AI = z3.ArraySort(I, I)
START0 = z3.Function('tokenstart0', AI, I, I, I)   # the same, not unfolded further
START = z3.Function('tokenstart', AI, I, I, I)     # (text, length, p): first position >= p of a token, or length
EOL = z3.Function('lineend', AI, I, I, I)          # position after the first newline at or after p, or length


def space(c):
    return z3.Or(c == 32, z3.And(9 <= c, c <= 13))


def facts():
    a, n, p = z3.Const('tx', AI), z3.Int('tn'), z3.Int('tp')
    s, e, c = START(a, n, p), EOL(a, n, p), z3.Select(a, p)
    q = z3.Int('tq')
    return [z3.ForAll([a, n, p], z3.And(s == START0(a, n, p), s == z3.If(p >= n, n, z3.If(
                space(c), START0(a, n, p + 1), z3.If(c == 35, START0(a, n, EOL(a, n, p)), p)))), patterns=[s]),
            z3.ForAll([a, n, p], z3.Implies(p <= n, z3.And(p <= s, s <= n, z3.Implies(s < n, z3.And(
                z3.Not(space(z3.Select(a, s))), z3.Select(a, s) != 35)))), patterns=[s]),
            z3.ForAll([a, n, p], z3.Implies(z3.And(p <= n), z3.And(p <= e, e <= n, z3.Implies(p < n, p < e))),
                      patterns=[e]),
            z3.ForAll([a, n, p, q], z3.Implies(z3.And(p <= q, q + 1 < e), z3.Select(a, q) != 10),
                      patterns=[z3.MultiPattern(e, z3.Select(a, q))]),
            z3.ForAll([a, n, p], z3.Implies(z3.And(p < e, e < n), z3.Select(a, e - 1) == 10), patterns=[e])]


class ParserStl(Stl):
    """streams that read $text"""
    def g(self, ex, n):
        return ex.st.env[('g', n)] if ('g', n) in ex.st.env else ex.global_init(('g', n))

    def here(self, ex):
        t, n, p = self.g(ex, '$text'), self.g(ex, '$len'), self.g(ex, '$pos')
        return varr(t), n, p

    def peek(self, ex):
        a, n, p = self.here(ex)
        return z3.If(p < n, z3.Select(a, p), z3.IntVal(-1))

    def goto(self, ex, p):
        ex.st.env[('g', '$pos')] = p

    def skip(self, ex, k=1):
        a, n, p = self.here(ex)
        self.goto(ex, z3.If(p < n, p + 1, p))

    def default_opaque(self, ex, t):
        return z3.IntVal(0) if 'istreambuf_iterator' in t[1] else super().default_opaque(ex, t)

    def construct_opaque(self, ex, t, xs, n):
        if 'istreambuf_iterator' in t[1]:
            self.use('std::istreambuf_iterator')
            if xs and 'istreambuf_iterator' in repr(ex.typ(xs[0])):
                return ex.load(ex.ev(xs[0]))
            return z3.IntVal(1 if xs else 0)
        return super().construct_opaque(ex, t, xs, n)

    def operator(self, ex, name, nodes, n):
        at = ty.strip_ref(ex.typ(nodes[0]))
        op = name[len('operator'):]
        if at.k == 'opaque' and 'istreambuf_iterator' in at[1]:
            a = ex.ev(nodes[0])
            if op == '*':
                return self.peek(ex)
            if op == '++' and len(nodes) == 1:
                self.skip(ex)
                return a
            if op in ('==', '!='):
                x, y = ex.load(a), self.val(ex, nodes[1])
                at_end = lambda v: z3.Or(v == 0, self.here(ex)[2] >= self.here(ex)[1])
                r = at_end(x) == at_end(y)
                return r if op == '==' else z3.Not(r)
            raise Unsupported('istreambuf_iterator operator' + op)
        return super().operator(ex, name, nodes, n)

    def f_isspace(self, ex, xs, n):
        return z3.If(space(self.val(ex, xs[0])), z3.IntVal(1), z3.IntVal(0))

    def stream_method(self, ex, b, name, nodes, n):
        a, ln, p = self.here(ex)
        if name == 'ignore':
            vs = [self.val(ex, x) for x in nodes if x['kind'] != 'CXXDefaultArgExpr']
            big = len(vs) == 2 and z3.is_int_value(z3.simplify(vs[0])) and z3.simplify(vs[0]).as_long() == 2**63 - 1
            if big and z3.is_int_value(z3.simplify(vs[1])) and z3.simplify(vs[1]).as_long() == 10:
                self.goto(ex, EOL(a, ln, p))
                return b
            if not vs:
                self.skip(ex)
                return b
            raise Unsupported('istream::ignore')
        if name in ('peek', 'get') and not nodes:
            c = self.peek(ex)
            if name == 'get':
                self.skip(ex)
            return c
        return super().stream_method(ex, b, name, nodes, n)


def text_of(c, st):
    g = lambda n: st.env[('g', n)] if ('g', n) in st.env else c.ex.global_init(('g', n))
    return varr(g('$text')), g('$len'), g('$pos')


def next_token(prog):
    role(prog, PA, 'buffer')
    role(prog, PA, 'token')

    def pre(c):
        a, n, p = text_of(c, c.old)
        i = z3.Int('ti')
        e = z3.Select(a, i)
        for j, f in enumerate(facts()):
            c.old.ax[('tok', j)] = f
        return [('text', z3.And(0 <= p, p <= n, FA([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(
            -128 <= e, e <= 127, e != 0)), [e]))),
                ('buffer', vlen(c.fo('buffer')) >= 1)]

    def unbroken(a, s, e):
        q = z3.Int('tb')
        x = z3.Select(a, q)
        return FA([q], z3.Implies(z3.And(s <= q, q < e), z3.Not(space(x))), [x])

    def copied(a, buf, s, k):
        i = z3.Int('tc')
        e = vat(buf, i)
        return FA([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(e == z3.Select(a, s + i), z3.Not(space(e)))), [e])

    def post(c):
        a, n, p0 = text_of(c, c.old)
        _, _, p1 = text_of(c, c.new)
        s = START(a, n, p0)
        buf = c.f('buffer')
        some = p0 < n
        return [('a token starts after white space and comments', z3.Implies(some, z3.And(s < n, p1 > s))),
                ('it is the text from there', z3.Implies(some, copied(a, buf, s, p1 - s))),
                ('up to the next white space', z3.Implies(some, z3.And(p1 < n, space(z3.Select(a, p1))))),
                ('it is terminated', z3.And(vat(buf, z3.If(some, p1 - s, 0)) == 0, p1 - s < vlen(buf))),
                ('at the end of the text the token is empty', z3.Implies(z3.Not(some), p1 == p0)),
                ('the token is the buffer', c.f('token') == c.ex.stl.cstring(buf)),
                ('it is returned', c.res == c.f('token') if c.res.sort() == z3.StringSort() else z3.BoolVal(True))]

    def inv(L, c):
        a, n, p0 = text_of(c, c.old)
        s = START(a, n, p0)
        out = [('a token start is kept', lambda st: z3.And(START(a, n, text_of(c, st)[2]) == s,
                                                           text_of(c, st)[2] <= s)),
               ('position is in the text', lambda st: z3.And(0 <= text_of(c, st)[2], text_of(c, st)[2] <= n))]
        out.append(('not at white space', lambda st: z3.Implies(text_of(c, st)[2] < n, z3.Not(
            space(z3.Select(a, text_of(c, st)[2]))))))
        out.append(('no white space in the token', lambda st: unbroken(a, s, text_of(c, st)[2])))
        for key in L.entry.env:
            t = L.ex.vtypes.get(key)
            if t is not None and t.k == 'int' and isinstance(key, tuple) and key[0] != 'g' and ('v', key) in L.mods:
                def part(st, key=key):
                    p, k = text_of(c, st)[2], st.env[key]
                    return z3.And(p == z3.If(s + k <= n, s + k, n), k >= 0, s <= n)
                out.append(('%s characters of the token are read' % L.ex.vnames.get(key), part))
                out.append(('%s characters are copied' % L.ex.vnames.get(key), lambda st, key=key: copied(
                    a, c.ex.load_in(st, c.ex.field(c.this, 'buffer')), s, z3.If(s + st.env[key] <= n, st.env[key],
                                                                                n - s))))
                out.append(('%s is below the buffer size' % L.ex.vnames.get(key), lambda st, key=key:
                            st.env[key] < vlen(c.fo('buffer'))))
        return out
    def exits(c):
        """only a run of characters too long for the buffer, or cut off by the end of the text, stops the program"""
        a, n, p0 = text_of(c, c.old)
        s = START(a, n, p0)
        e = s + vlen(c.fo('buffer'))
        return z3.And(p0 < n, unbroken(a, s, z3.If(e < n, e, n)))
    return Contract('Parser::getNextToken', (PA + '::getNextToken', 0), pre=pre, post=post, invgens=[inv], exits=exits,
                    modifies=lambda c: [('g', '$pos'), c.ex.field(c.this, 'buffer'), c.ex.field(c.this, 'token')])


def token_equals(prog):
    return Contract('Parser::getTokenEquals', (PA + '::getTokenEquals', 1),
                    post=lambda c: [('compares the token', c.res == (c.fo('token') == c.args[0])),
                                    ('the token is kept', c.f('token') == c.fo('token'))], modifies=lambda c: [])


def expected(prog):
    return Contract('Parser::parseExpected', (PA + '::parseExpected', 1),
                    post=lambda c: [('the token is the expected one', c.fo('token') == c.args[0]),
                                    ('the token is kept', c.f('token') == c.fo('token'))],
                    exits=lambda c: c.fo('token') != c.args[0], modifies=lambda c: [])


def error(prog):
    return Contract('Parser::error', (PA + '::error', 1), trusted=True, noreturn=True, post=lambda c: [],
                    modifies=lambda c: [], note='stops the program')


def next_equals(prog, nt):
    def post(c):
        a, n, p0 = text_of(c, c.old)
        return [x for x in nt.post(c) if x[0] != 'it is returned'] + [
            ('compares the new token', c.res == (c.f('token') == c.args[0]))]
    return Contract('Parser::getNextTokenEquals', (PA + '::getNextTokenEquals', 1), pre=nt.pre, post=post,
                    exits=nt.exits, modifies=nt.modifies)


def contracts(prog):
    nt = next_token(prog)
    return [nt, token_equals(prog), next_equals(prog, nt), expected(prog), error(prog)]


def groups():
    return [dict(files=['src/helpers/Parser.cpp'], contracts=contracts, stl=ParserStl,
                 ghost_globals={'$text': TEXT, '$len': INT, '$pos': INT})]
