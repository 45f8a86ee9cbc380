#!/usr/bin/env python3-vt
"""Check driver: run.py <property> [quick|thorough]

1. proof: contracts on the functions of /repo's current tree, every obligation discharged by z3/cvc5 (vf/);
2. replay: a concrete harness over the real code (harness/<id>.cpp), with the contract as oracle; it supplies the
   failing input when an obligation fails, cross-checks the proof, and stands in (labelled bounded) for functions
   the verifier cannot read any more.
Verdict: all obligations proved and no failing input -> 0; failing input -> VIOLATION; obligation not discharged
and no failing input -> VIOLATION ... no-failing-input-found."""
import json, os, shutil, subprocess, sys, tempfile, time, threading

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('VF_REPO', '/repo')
INC = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + REPO + '/src/connectors/kokkos/include']
LIB = ['Apollo.cpp', 'Config.cpp', 'Dataset.cpp', 'ModelFactory.cpp', 'Region.cpp', 'helpers/OutputFormatter.cpp',
       'helpers/Parser.cpp', 'models/Random.cpp', 'models/Static.cpp', 'models/DatasetMap.cpp',
       'models/RoundRobin.cpp', 'models/DecisionTree.cpp', 'models/RandomForest.cpp', 'models/PolicyNet.cpp',
       'models/impl/DecisionTreeImpl.cpp', 'models/impl/RandomForestImpl.cpp', 'models/Optimal.cpp',
       'timers/TimerSync.cpp']
from harness.spec import HARNESS


class Harness(threading.Thread):
    """builds and runs harness/<id>.cpp against the current tree"""
    def __init__(self, pid, seed, tier, scratch):
        super().__init__()
        self.pid, self.seed, self.tier, self.dir = pid, seed, tier, scratch
        self.status, self.out, self.cases, self.distinct, self.samples = 'none', '', 0, 0, []
        self.fail, self.secs = '', 0.0

    def run(self):
        t0 = time.time()
        try:
            self.work()
            if self.status == 'nobuild' and 'srcs' in HARNESS[self.pid]:
                self.clean()
                self.work(full=True)      # code may have moved to another file
            if self.status == 'nobuild' and HARNESS[self.pid].get('nopriv'):
                self.clean()
                self.work(full=True, flags=['-DVF_NOPRIV'])     # internals renamed: behaviour only
        except Exception as e:
            self.status, self.out = 'error', repr(e)
        self.secs = time.time() - t0

    def clean(self):
        for f in os.listdir(self.dir):
            if f.endswith('.o'):
                os.unlink(os.path.join(self.dir, f))

    def work(self, full=False, flags=()):
        extra = list(flags)
        h = dict(HARNESS[self.pid])
        if full:
            h.pop('srcs', None)
        cxx = h.get('cxx', ['g++'])
        flags = ['-std=c++14', '-O1', '-g', '-w', '-fno-omit-frame-pointer'] + h.get('flags', []) + extra + INC + \
                ['-I' + HERE + '/harness']
        if h.get('asan', True):
            flags.append('-fsanitize=address')
        srcs = []
        for s in list(h.get('srcs', LIB)) + h.get('add', []):
            if s in h.get('without', ()):
                continue
            srcs.append(os.path.join(REPO, 'src', s))
        known = set(LIB) | {'connectors/kokkos/kokkos-connector.cpp', 'models/RegressionTree.cpp'}
        # source files added to the build since
        for root, _, fs in os.walk(os.path.join(REPO, 'src')):
            for f in fs:
                rel = os.path.relpath(os.path.join(root, f), REPO + '/src')
                if f.endswith('.cpp') and rel not in known and 'Cuda' not in f and 'Hip' not in f and \
                        h.get('srcs') is None:
                    srcs.append(os.path.join(root, f))
        srcs.append(os.path.join(HERE, 'harness', h.get('file', self.pid.lower()) + '.cpp'))
        objs, procs = [], []
        for i, s in enumerate(srcs):
            o = os.path.join(self.dir, 'o%d.o' % i)
            objs.append(o)
            procs.append((s, subprocess.Popen(cxx + flags + ['-c', s, '-o', o], cwd=self.dir,
                                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        bad = ''
        for s, p in procs:
            out = p.communicate()[0].decode(errors='replace')
            if p.returncode:
                bad += '%s: %s\n' % (s, out[-1500:])
        if bad:
            self.status, self.out = 'nobuild', bad
            return
        exe = os.path.join(self.dir, 'harness')
        p = subprocess.run(cxx + flags + objs + ['-o', exe, '-ldl', '-lpthread'] + h.get('libs', []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            self.status, self.out = 'nobuild', p.stdout.decode(errors='replace')[-2000:]
            return
        wd = os.path.join(self.dir, 'wd')
        os.mkdir(wd)
        env = {k: v for k, v in os.environ.items() if not k.startswith('APOLLO_')}
        env.update(ASAN_OPTIONS='detect_leaks=0:handle_abort=0:allocator_may_return_null=1', HOME=wd, TMPDIR=wd,
                   OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1')
        env.update(h.get('env', {}))
        log = os.path.join(self.dir, 'log')
        res = os.path.join(self.dir, 'result')
        limit = 500 if self.tier == 'thorough' else 240
        with open(log, 'wb') as f:
            pr = subprocess.Popen(h.get('launch', []) + [exe, str(self.seed), self.tier, res], cwd=wd, env=env,
                                  stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = pr.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            try:
                os.killpg(pr.pid, 9)
            except OSError:
                pass
            pr.wait()
        self.out = open(log, 'rb').read()[-6000:].decode(errors='replace')
        last = ''
        if os.path.exists(res):
            for l in open(res, errors='replace'):
                l = l.rstrip('\n')
                if l.startswith('CASES '):
                    self.cases, self.distinct = [int(x) for x in l.split()[1:3]]
                elif l.startswith('SAMPLE '):
                    self.samples.append(l[7:][:400])
                elif l.startswith('FAIL '):
                    self.fail = self.fail or l[5:]
                elif l.startswith('CASE '):
                    last = l[5:]
        if self.fail:
            self.status = 'fail'
        elif rc == 0:
            self.status = 'pass'
        elif rc == 'timeout':
            self.status = 'fail'
            self.fail = 'does not terminate within %d s; in case: %s' % (limit, last)
        elif h.get('launch') and 'AddressSanitizer' not in self.out:
            self.status = 'error'        # the launcher, not the code
        else:
            self.status = 'fail'
            self.fail = 'process ended with status %s in case: %s' % (rc, last)


def findings(pid):
    known, fixed = [], []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        l = l.strip()
        if l.startswith('#') or not l:
            continue
        kind, rest = l.split(':', 1)
        if ('property=%s ' % pid) in rest + ' ':
            (known if kind == 'known' else fixed).append(rest.strip())
    return known, fixed


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    os.environ['VF_SCRATCH'] = scratch
    try:
        rc = check(pid, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def check(pid, tier, seed, t0, scratch):
    from vf.check import prove
    hs = Harness(pid, seed, tier, scratch)
    hs.start()
    slow = tier == 'thorough'
    P = prove(pid, ms=60000 if slow else 20000, cs=120 if slow else 30, procs=8)
    hs.join()
    failed = P.failed()
    errors = [x for x in P.unsupported]
    known, fixed = findings(pid)
    files = sorted(set(P.files))
    cov = dict(
        obligations=len(P.obls), discharged=len(P.obls) - len(failed),
        checker_cmd='python3-vt -m vf.check %s' % pid,
        trusted_base=['clang 18 front end (AST of the current /repo tree)', 'vf/ verification condition generator',
                      'z3 (python bindings) and cvc5'] + ['library contract: ' + x for x in sorted(P.lib)],
        functions_under_contract=sorted(set(P.functions)),
        functions_inlined_into_them=sorted(P.inlined), contracts_used_at_calls=sorted(P.used),
        assumed_contracts=sorted(set(P.assumed)),
        loop_invariants_inferred=len(P.invs), by_backend={}, solver_s=round(P.secs, 2),
        verifier_wall_s=round(P.wall, 2), files=files,
        outside_verifier_reach=['%s: %s' % x for x in errors],
        obligations_list=[dict(function=o.fn, obligation=o.name, status=o.status, backend=o.backend,
                               secs=round(o.secs, 3)) for o in P.obls][:400],
        bounded_cross_check=dict(status=hs.status, cases=hs.cases, distinct=hs.distinct, samples=hs.samples[:5],
                                 secs=round(hs.secs, 2), label='bounded'))
    for o in P.obls:
        cov['by_backend'][o.backend] = cov['by_backend'].get(o.backend, 0) + 1
    violations = 0
    rc = 0
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + '.txt')
    if os.path.exists(rp):
        os.unlink(rp)
    level = 'proof'
    if failed or errors or not P.obls:
        level = 'exploration' if not failed else 'proof'
    if level == 'exploration':
        cov.update(evaluations=hs.cases, distinct_nontrivial=hs.distinct, samples=hs.samples[:5] or ['none'],
                   rule='harness/%s.cpp (bounded stand-in for the functions outside the verifier\'s reach)'
                        % HARNESS[pid].get('file', pid.lower()))
    for k in known:
        print('KNOWN-FINDING: ' + k)
    if hs.status == 'fail' or failed:
        with open(rp, 'w') as f:
            f.write('property %s, tier %s, seed %d\n' % (pid, tier, seed))
            if hs.status == 'fail':
                f.write('\nFAILING INPUT (replayed against the real code by harness/%s.cpp, seed %d):\n%s\n' % (
                    HARNESS[pid].get('file', pid.lower()), seed, hs.fail))
                f.write('\nharness output:\n%s\n' % hs.out)
            for o in failed:
                f.write('\nFAILED OBLIGATION %s\n  function %s  location %s  kind %s\n  verifier: %s (%s, %.1f s)\n' % (
                    o.name, o.fn, o.loc, o.kind, o.status, o.backend, o.secs))
                if o.model:
                    f.write('  counterexample of the verifier:\n    %s\n' % o.model.replace('\n', '\n    ')[:6000])
                f.write('  goal: %s\n' % str(o.goal)[:3000])
            for x in errors:
                f.write('\nOUTSIDE REACH %s: %s\n' % x)
            f.write('\nreproduce: cd /verif && VERIF_SEED=%d python3-vt run.py %s %s\n' % (seed, pid, tier))
        violations = 1
        rc = 1
        tail = '' if hs.status == 'fail' else ' no-failing-input-found'
        for o in failed[:5]:
            print('failed obligation: %s [%s] at %s (%s)' % (o.name, o.fn, o.loc, o.status))
        if hs.status == 'fail':
            print('failing input: ' + hs.fail[:1000])
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, tail))
    elif errors or not P.obls:
        for x in errors:
            print('outside the verifier\'s reach: %s: %s' % x)
        if hs.status == 'pass':
            print('bounded stand-in passed: %d cases' % hs.cases)
        else:
            print('no answer: harness %s\n%s' % (hs.status, hs.out[-2000:]))
            rc = 2
    if hs.status in ('nobuild', 'error') and rc == 0:
        print('note: cross-check harness %s: %s' % (hs.status, hs.out[-500:]))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, violations=violations,
              assumptions=ASSUME + ['assumed contract: ' + a for a in sorted(set(P.assumed))],
              wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d functions under contract, %.1f s; cross-check %s (%d cases, bounded)'
          % (pid, len(P.obls), len(P.obls) - len(failed), len(set(P.functions)), time.time() - t0, hs.status,
             hs.cases))
    return rc


ASSUME = ['signed machine integers are treated as mathematical integers (no overflow); unsigned ones wrap',
          'floating point is treated as real arithmetic; rounding is covered by the bounded cross-check only',
          'partial correctness: termination is not proved',
          'no data races: the library is used from one thread at a time',
          'memory allocation does not fail; destructors of library types have no observable effect',
          'the contracts of standard library and system functions listed in trusted_base']

if __name__ == '__main__':
    main()
