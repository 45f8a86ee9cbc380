"""C14: the synchronous timer measures elapsed monotonic seconds."""
import z3
from ..types import T
from ..contract import Contract, Missing
from .common import role

TS = 'TimerSync'


def groups():
    def contracts(prog):
        b = role(prog, TS, 'exec_time_begin')
        e = role(prog, TS, 'exec_time_end')
        k = prog.classes[TS]
        if not all(dict((f[0], f[1]) for f in k.fields)[x] == 'double' for x in (b, e)):
            raise Missing('double fields for the two time stamps')
        read = lambda c: z3.And(c.glob('$reads') > c.glob('$reads', old=True))
        mods = lambda x: (lambda c: [c.ex.field(c.this, x), ('g', '$clock'), ('g', '$reads')])
        return [
            Contract('TimerSync::start', (TS + '::start', 0),
                     post=lambda c: [('begin is the monotonic time of this call, in seconds',
                                      z3.And(read(c), c.f(b) == c.glob('$clock'))),
                                     ('end is kept', c.f(e) == c.fo(e))], modifies=mods(b)),
            Contract('TimerSync::stop', (TS + '::stop', 0),
                     post=lambda c: [('end is the monotonic time of this call, in seconds',
                                      z3.And(read(c), c.f(e) == c.glob('$clock'))),
                                     ('begin is kept', c.f(b) == c.fo(b))], modifies=mods(e)),
            Contract('TimerSync::isDone', (TS + '::isDone', 1),
                     post=lambda c: [('available', c.res),
                                     ('metric = end - begin', c.arg(0) == c.fo(e) - c.fo(b)),
                                     ('begin and end are kept', z3.And(c.f(b) == c.fo(b), c.f(e) == c.fo(e)))],
                     modifies=lambda c: [c.args[0]])]
    return [dict(files=['src/timers/TimerSync.cpp'], contracts=contracts,
                 ghost_globals={'$clock': T(('float', 64)), '$reads': T(('int', 64, True))})]
