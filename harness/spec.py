"""How to build each harness."""
TREE = ['models/impl/DecisionTreeImpl.cpp', 'models/impl/RandomForestImpl.cpp', 'helpers/Parser.cpp',
        'helpers/OutputFormatter.cpp']
HARNESS = {
    'C02': dict(srcs=['models/RoundRobin.cpp']),
    'C03': dict(),
    'C04': dict(srcs=['Dataset.cpp', 'helpers/Parser.cpp']),
    'C05': dict(srcs=['Dataset.cpp', 'helpers/Parser.cpp', 'models/DatasetMap.cpp']),
    'C08': dict(),
    'C11': dict(),
    'C12': dict(),
    'C18': dict(),
    'C13': dict(),
    'C14': dict(srcs=['timers/TimerSync.cpp'], asan=False),
    'C17': dict(add=['connectors/kokkos/kokkos-connector.cpp']),
    'C15': dict(),
    'C07': dict(srcs=TREE, nopriv=True),
    'C09': dict(),
    'C01': dict(),
    'C06': dict(srcs=['Dataset.cpp', 'helpers/Parser.cpp']),
    'C19': dict(srcs=['helpers/Parser.cpp'], nopriv=True),
    'C10': dict(srcs=TREE, nopriv=True),
    'C16': dict(flags=['-DENABLE_MPI', '-I/usr/lib/x86_64-linux-gnu/openmpi/include',
                       '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi'], libs=['-lmpi_cxx', '-lmpi'],
                launch=['mpirun', '--oversubscribe', '-np', '3', '--mca', 'btl', 'self,vader',
                        '--mca', 'btl_vader_single_copy_mechanism', 'none'],
                env=dict(APOLLO_COLLECTIVE_TRAINING='1', APOLLO_LOCAL_TRAINING='0')),
}
