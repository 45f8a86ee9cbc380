"""Shared pieces of the contracts."""
import re
import z3
from .. import types as ty
from ..types import T
from ..contract import Missing

PM = 'apollo::PolicyModel'


def model_count_field(prog):
    return 'policy_count'


def role(prog, cls, name, typ=None):
    """field of a class by name, else the only field with that type"""
    c = prog.classes.get(cls)
    if c is None:
        raise Missing('class ' + cls)
    for f in c.fields:
        if f[0] == name:
            return name
    if typ is not None:
        m = [f[0] for f in c.fields if re.search(typ, f[1])]
        if len(m) == 1:
            return m[0]
    raise Missing('field %s of %s' % (name, cls))
