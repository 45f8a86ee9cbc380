"""C06: storing and loading a dataset reproduces it."""
import z3
from . import parser, roundtrip


def groups():
    return parser.groups() + roundtrip.groups()


def lemmas():
    """the positions of the entries, defined by P(0) = HEAD and P(i + 1) = P(i) + 10 + nf(i), are increasing"""
    P = z3.Function('P', z3.IntSort(), z3.IntSort())
    nf = z3.Function('nf', z3.IntSort(), z3.IntSort())
    i, j = z3.Ints('i j')
    step = lambda k: [P(k + 1) == P(k) + 10 + nf(k), nf(k) >= 0]
    before = lambda i, j: P(i) + 10 + nf(i) <= P(j)
    H = roundtrip.HEAD
    return [('positions increase: base', step(i), before(i, i + 1)),
            ('positions increase: step', [before(i, j)] + step(j), before(i, j + 1)),
            ('positions start behind the head: base', [P(0) == H], P(0) >= H),
            ('positions start behind the head: step', [P(i) >= H] + step(i), P(i + 1) >= H)]
