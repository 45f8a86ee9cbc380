"""Proof part of a check: load the sources, generate every obligation, discharge them."""
import importlib, time, traceback, os
import z3
from . import ast, types as ty
from .types import T
from .engine import Executor, Unsupported, Obligation, State
from .contract import Registry, Missing, discharge
from .stl import Stl


class Proof:
    def __init__(self, pid):
        self.pid = pid
        self.obls, self.unsupported, self.functions = [], [], []
        self.inlined, self.assumed, self.used, self.lib = set(), [], set(), set()
        self.invs, self.files, self.secs, self.gen_secs = [], [], 0.0, 0.0
        self.vacuous = []

    def absorb(self, q):
        self.obls += q.obls
        self.unsupported += q.unsupported
        self.functions += q.functions
        self.inlined |= q.inlined
        self.assumed += q.assumed
        self.used |= q.used
        self.lib |= q.lib
        self.invs += q.invs
        self.files += [f for f in q.files if f not in self.files]
        self.secs += q.secs

    def settle(self):
        """obligations the time did not suffice for are outside the reach of this run, neither proved nor failed"""
        for o in self.obls:
            if o.status == 'undecided':
                self.unsupported.append((o.fn, 'no time left for the obligation: ' + o.name))
        self.obls = [o for o in self.obls if o.status != 'undecided']

    def failed(self):
        return [o for o in self.obls if o.status != 'proved']

    def ok(self):
        return not self.failed() and not self.unsupported and self.obls


_progs = {}


def load(files, extra=()):
    k = (tuple(files), tuple(extra))
    if k not in _progs:
        _progs[k] = ast.load(files, extra)
    return _progs[k]


def prove(pid, ms=None, cs=None, procs=8, only=None, verbose=False):
    """a contract module may offer several abstraction functions (VARIANTS): the property is proved when the
    obligations of one of them are all discharged"""
    m = importlib.import_module('vf.contracts.' + pid.lower())
    first = None
    for v in range(getattr(m, 'VARIANTS', 1)):
        P = prove1(pid, m, v, ms, cs, procs, only, verbose)
        if P.ok():
            return P
        first = first or P
    return first


BUDGET = float(os.environ.get('VF_BUDGET', '480'))       # seconds for generating the obligations


def jobs_of(P, G, only):
    """[(contract, function, registry, program)] of a group"""
    try:
        prog = load(G['files'], G.get('extra', ()))
    except ast.AstError as e:
        P.unsupported.append(('load', str(e)[:500]))
        return []
    P.files += [f for f in G['files'] if f not in P.files]
    try:
        ks = G['contracts'](prog)
    except Missing as e:
        P.unsupported.append(('contracts', str(e)))
        return []
    reg = Registry(ks)
    out = []
    for k in ks:
        if k.trusted or not k.verify_it:
            if k.trusted:
                P.assumed.append('%s: %s' % (k.name, k.note or 'assumed contract'))
            continue
        if only and only not in k.name:
            continue
        if 'verify' in G and not G['verify'](k):
            continue
        q, npar, pts = (k.sel + (None, None))[:3]
        fs = prog.find(q, npar, pts)
        if not fs:
            P.unsupported.append((k.name, 'function %s not found' % q))
            continue
        out += [(G, k, f, reg, prog) for f in fs]
    return out


def run_job(P, job, verbose):
    """obligations of one function"""
    G, k, f, reg, prog = job
    stl = (G.get('stl') or Stl)()
    opts = dict(G.get('opts', {}))
    opts.update(k.opts)
    ex = Executor(prog, reg, stl, opts)
    gh = G.get('ghost') or {}
    ex.ghost_fields = dict(gh(prog) if callable(gh) else gh)
    ex.memtypes = {'mem:' + ty.tname(x): x for x in (T(('float', 64)), T(('float', 32)), T(('int', 32, True)))}
    for gq, gt in G.get('ghost_globals', {}).items():
        ex.vtypes[('g', gq)] = gt
        ex.vnames[('g', gq)] = gq
    ex.index_hooks = tuple(G.get('index_hooks', ()))
    ex.sort_hooks = tuple(G.get('sort_hooks', ()))
    # the function under verification is executed from its body; recursion uses the contract
    tk = time.time()
    try:
        k.verify(ex, f)
        if verbose and time.time() - tk > 10:
            print('slow: %s %.1f s' % (k.name, time.time() - tk), flush=True)
        P.obls += ex.obls
        P.functions.append('%s %s' % (f.qname, f.type))
    except (Unsupported, Missing) as e:
        P.unsupported.append((k.name, '%s: %s' % (type(e).__name__, e)))
        if verbose:
            traceback.print_exc(limit=-int(os.environ.get("TB","8")))
    except (z3.Z3Exception, KeyError, TypeError, AttributeError, IndexError, AssertionError, ValueError,
            RecursionError) as e:
        P.unsupported.append((k.name, 'verifier: %r' % (e,)))
        if verbose:
            traceback.print_exc(limit=-int(os.environ.get("TB","8")))
    P.inlined |= ex.inlined
    P.used |= ex.used_contracts
    P.lib |= stl.used
    P.invs += ex.inv_kept
    P.secs += ex.solver_time


def child(conn, pid, job, verbose):
    import sys
    sys.setrecursionlimit(20000)
    Q = Proof(pid)
    try:
        run_job(Q, job, verbose)
        for o in Q.obls:
            o.freeze()
    except BaseException as e:
        Q.obls = []
        Q.unsupported.append((job[1].name, 'verifier: %r' % (e,)))
    conn.send(Q)
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def run_jobs(P, jobs, verbose, procs):
    """each function in a process of its own"""
    if os.environ.get('VAC') or os.environ.get('DUMP') or os.environ.get('SEQ'):
        for j in jobs:
            run_job(P, j, verbose)
        return
    import multiprocessing as mp
    from multiprocessing.connection import wait
    cx = mp.get_context('fork')
    todo, live, res = list(enumerate(jobs)), {}, {}
    end = time.time() + BUDGET
    while todo or live:
        while todo and len(live) < procs:
            i, j = todo.pop(0)
            r, w = cx.Pipe(False)
            p = cx.Process(target=child, args=(w, P.pid, j, verbose))
            p.start()
            w.close()
            live[r] = (i, p)
        for r in wait(list(live), timeout=max(0.1, end - time.time())):
            i, p = live.pop(r)
            try:
                res[i] = r.recv()
            except EOFError:
                res[i] = Proof(P.pid)
                res[i].unsupported.append((jobs[i][1].name, 'verifier process ended'))
            p.join()
        if time.time() > end:
            for r, (i, p) in live.items():
                p.kill()
                res[i] = Proof(P.pid)
                res[i].unsupported.append((jobs[i][1].name, 'no obligations within %d s' % BUDGET))
            for i, j in todo:
                res[i] = Proof(P.pid)
                res[i].unsupported.append((jobs[i][1].name, 'no obligations within %d s' % BUDGET))
            break
    for i in sorted(res):
        P.absorb(res[i])


def run_group(P, G, only, verbose, procs):
    run_jobs(P, jobs_of(P, G, only), verbose, procs)


def prove1(pid, m, variant, ms=None, cs=None, procs=8, only=None, verbose=False):
    t0 = time.time()
    P = Proof(pid)
    groups = m.groups(variant) if hasattr(m, 'VARIANTS') else m.groups()      # list of dict(files, extra, contracts(prog)->[Contract], opts)
    run_jobs(P, [j for G in groups if not G.get('alts') for j in jobs_of(P, G, only)], verbose, procs)
    for G in groups:
        alts = G.get('alts')
        if not alts:
            continue
        # alternative abstraction functions for the same class: the first one whose obligations are all discharged
        first = None
        for A in alts:
            Q = Proof(pid)
            run_group(Q, A, only, verbose, procs)
            discharge(Q.obls, procs, ms, cs)
            Q.settle()
            first = first or Q
            if Q.ok():
                first = Q
                break
        P.absorb(first)
    # lemmas over the contracts (no code)
    if hasattr(m, 'lemmas') and not only:
        for (nm, hyps, goal) in m.lemmas():
            P.obls.append(Obligation('lemma', nm, list(hyps), goal, None, 'lemma'))
    P.gen_secs = time.time() - t0
    if os.environ.get('DUMP'):
        from .contract import smt2
        for i, o in enumerate(P.obls):
            open('%s/%03d.smt2' % (os.environ['DUMP'], i), 'w').write('; %s: %s\n' % (o.fn, o.name) + smt2(o))
    if os.environ.get('VAC'):
        # are the hypotheses of some obligation contradictory? (development aid)
        os2 = [Obligation(o.fn, o.name, o.hyps, z3.BoolVal(False), o.loc, o.kind) for o in P.obls
               if o.kind in ('post', 'lemma')]
        discharge(os2, procs, 6000, 6)
        for o in os2:
            if o.status == 'proved':
                print('VACUOUS', o.fn, o.name, o.backend)
    discharge(P.obls, procs, ms, cs)
    P.settle()
    P.secs += sum(o.secs for o in P.obls)
    P.wall = time.time() - t0
    return P


if __name__ == '__main__':
    import sys
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    P = prove(pid, only=only, verbose=True, ms=int(os.environ.get('MS', '20000')), cs=int(os.environ.get('CS', '20')))
    print(len(P.functions), 'functions')
    print('inlined', sorted(P.inlined), 'used', sorted(P.used))
    for fn, ln, inv in (P.invs if os.environ.get('V') else ()):
        print('inv', fn, ln, inv)
    for o in P.obls:
        if o.status == 'proved' and o.secs < 2 and not os.environ.get('V'):
            continue
        print('%-8s %-10s %6.2fs %s: %s @%s' % (o.status, o.backend, o.secs, o.fn, o.name, o.loc))
        if o.status != 'proved' and os.environ.get('SHOW'):
            print('   GOAL', o.goal)
            print('   MODEL', o.model)
    print('unsupported', P.unsupported)
    print('wall %.1f gen %.1f' % (P.wall, P.gen_secs), len(P.obls), 'obligations', len(P.failed()), 'failed')
