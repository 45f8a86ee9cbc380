"""C04: measurements accumulate per (features, policy) as a moving average."""
import z3
from .. import types as ty
from .dataset import *


def groups():
    return [dict(files=['src/Dataset.cpp'], contracts=lambda p: [
        insert_contract(p), size_contract(p), clear_contract(p), list_contract(p), merge_contract(p)])]


def lemmas():
    """size = number of distinct pairs recorded since the last clear: induction over the operations, from the contracts
    of clear (empty) and insert (size grows by one exactly for a pair not present)"""
    S = z3.DeclareSort('Pair')
    a = z3.ArraySort(S, z3.BoolSort())
    R, R2 = z3.Consts('recorded recorded2', a)
    dom, dom2 = z3.Consts('dom dom2', a)
    k, x = z3.Consts('k x', S)
    return [('the pairs of the dataset are those recorded since the last clear',
             [dom == R, dom2 == z3.Store(dom, k, True), R2 == z3.Store(R, k, True)], dom2 == R2)]
