from vf.core import Harness
HARNESSES = []
ON = ['integers', 'reals', 'defaults', 'unknown']
for lib, n, p in ((3, '3d', 'MMG3D_'), (2, '2d', 'MMG2D_'), (1, 's', 'MMGS_')):
    for op in range(5):
        for side in ([0, 1, 2] if op == 4 else [0]):
            HARNESSES.append(Harness('%s_%s' % (n, ON[op] if op < 4 else 'angle%d' % side), 'params.c', n, unwind=12, defs=['LIB=%d' % lib, 'OP=%d' % op, 'SIDE=%d' % side],
                stubs=[p + 'memOption'] if op in (0,) else [], functions=[p + 'Set_iparameter', p + 'Get_iparameter', p + 'Set_dparameter', p + 'Init_parameters'],
                unwindset=['main.0:200'] if op==4 and side==0 else [],
                bounds='every key, every value of its documented domain (real: every non-NaN double), every previous value of all 50 settings'))
META = {'assumptions': ['cos and log are arbitrary functions', 'memory sizing (memOption) may succeed or fail']}
