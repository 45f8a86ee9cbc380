"""C18: contradictory configurations are rejected at start-up; every setting comes from its variable or default."""
import z3
from ..types import T
from ..contract import Contract, Missing
from ..stl import env_val, env_set, stoi_f, stoi_ok, stod_f, stod_ok

INTS = dict(COLLECTIVE_TRAINING=0, LOCAL_TRAINING=1, SINGLE_MODEL=0, REGION_MODEL=1, GLOBAL_TRAIN_PERIOD=0,
            PER_REGION_TRAIN_PERIOD=0, TRACE_POLICY=0, STORE_MODELS=0, TRACE_RETRAIN=0, TRACE_ALLGATHER=0,
            TRACE_BEST_POLICIES=0, RETRAIN_ENABLE=0, TRACE_CSV=0, PERSISTENT_DATASETS=0, STORE_EXEC_INFO=0)
REALS = dict(RETRAIN_TIME_THRESHOLD='2.0', RETRAIN_REGION_THRESHOLD='0.5')
STRS = dict(POLICY_MODEL='Static,policy=0', OUTPUT_DIR='.apollo', DATASETS_DIR='datasets', TRACES_DIR='traces',
            MODELS_DIR='models')
SV = z3.StringVal
io = z3.Bool('io_error')
text = lambda k, d: z3.If(env_set(SV('APOLLO_' + k)), env_val(SV('APOLLO_' + k)), SV(str(d)))


def literals():
    """std::stoi/std::stof of the default texts"""
    r = [z3.And(stoi_ok(SV(str(d))), stoi_f(SV(str(d))) == d) for d in (0, 1)]
    return r + [z3.And(stod_ok(SV(d)), stod_f(SV(d)) == z3.RealVal(d)) for d in REALS.values()]


def intval(k):
    return z3.If(env_set(SV('APOLLO_' + k)), stoi_f(env_val(SV('APOLLO_' + k))), z3.IntVal(INTS[k]))


def on(k):
    return intval(k) != 0


def valid():
    return z3.And(z3.Not(on('COLLECTIVE_TRAINING')), on('LOCAL_TRAINING'), on('SINGLE_MODEL') != on('REGION_MODEL'))


def groups():
    def contracts(prog):
        def post(c):
            g = lambda k: c.glob('Config::APOLLO_' + k)
            r = [('collective training is off (no MPI)', g('COLLECTIVE_TRAINING') == 0),
                 ('exactly one of collective and local training',
                  (g('COLLECTIVE_TRAINING') != 0) != (g('LOCAL_TRAINING') != 0)),
                 ('exactly one of single-model and per-region modelling',
                  (g('SINGLE_MODEL') != 0) != (g('REGION_MODEL') != 0)),
                 ('no execution counted yet', c.f('region_executions') == 0)]
            for k, d in INTS.items():
                r.append(('APOLLO_%s: its variable or %d' % (k, d), g(k) == intval(k)))
            for k, d in REALS.items():
                r.append(('APOLLO_%s: its variable or %s' % (k, d), g(k) == z3.If(
                    env_set(SV('APOLLO_' + k)), stod_f(env_val(SV('APOLLO_' + k))), z3.RealVal(d))))
            for k, d in STRS.items():
                r.append(('APOLLO_%s: its variable or %s' % (k, d), g(k) == text(k, d)))
            return r

        def exits(c):
            bad = [z3.And(env_set(SV('APOLLO_' + k)), z3.Not(stoi_ok(env_val(SV('APOLLO_' + k))))) for k in INTS]
            bad += [z3.And(env_set(SV('APOLLO_' + k)), z3.Not(stod_ok(env_val(SV('APOLLO_' + k))))) for k in REALS]
            return z3.Or(z3.Not(valid()), io, *bad)
        return [Contract('Apollo::Apollo', ('Apollo::Apollo', 0), post=post, exits=exits,
                         axioms=lambda c: literals(), frame=False,
                         opts=dict(maxpaths=4000, io_error=io)),
                Contract('createDir', ('apolloUtils::createDir', 1), exits=lambda c: io, post=lambda c: [],
                         modifies=lambda c: [], opts=dict(io_error=io))]
    return [dict(files=['src/Apollo.cpp'], contracts=contracts)]
