from vf.core import Harness
HARNESSES = []
N = {3: '3d', 2: '2d', 1: 's'}
def H(n, lib, op, c, a=None, b=0, f=(), bounds='', tier='quick', **k):
    HARNESSES.append(Harness('%s_%s' % (N[lib], n), 'sizes.c', N[lib], unwind=8 if op == 4 else 45, defs=['LIB=%d' % lib, 'OP=%d' % op, 'C_=%d' % c] + (['GRID'] if op in (0, 1, 4) else []) + ([] if a is None else ['A=(%d)' % a, 'B=%d' % b]), functions=list(f), bounds=bounds, tier=tier, timeout=300, **k))
for set_ in range(4):
    H('truncate_%d' % set_, 3, 0, 16, set_ & 1, set_ >> 1, ['MMG5_solTruncature_iso', 'MMG5_check_hminhmax'], '5 vertices one of which unused, any sizes and %s' % ['no bound given', 'given minimal size', 'given maximal size', 'both bounds given'][set_])
    H('metric_%d' % set_, 2, 1, 16, set_ & 1, set_ >> 1, ['MMG5_scale_scalarMetric', 'MMG5_solTruncature_iso'], '5 vertices one of which unused, any user sizes, two requests in a row')
for lib in (3, 2, 1):
    P = {3: 'MMG3D', 2: 'MMG2D', 1: 'MMGS'}[lib]
    H('constant', lib, 2, 0, f=[P + '_Set_constantSize', 'MMG5_Compute_constantSize', 'MMG5_Set_constantSize'], bounds='5 vertices, any size and bounds, each given or not')
    for ne in (1, 2):
        H('mean_%d' % ne, lib, 3, ne, f=[P + '_doSol_iso', 'MMG5_solTruncature_iso'], bounds='%d elements of fixed shape, any bounds, each given or not' % ne)
for lib in (3, 2):
    P = {3: 'MMG3D', 2: 'MMG2D'}[lib]
    for ismet in (0, 1):
        for npar, msk in ((0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (2, 0), (2, 3)):
            H('local_%d_%d_%d' % (ismet, npar, msk), lib, 4, msk, ismet, npar, [P + '_defsiz_iso'], 'two inner elements, %d local parameters (vertex mask %d), any sizes, references and bounds, %s' % (npar, msk, 'user sizes' if ismet else 'no user size'), flags=['--max-field-sensitivity-array-size', '10300'] if lib == 3 else [], tier='thorough' if npar == 2 and not (lib == 3 and msk in (1, 3) and ismet or lib == 2 and msk == 0 and ismet == 0) else 'quick')
META = {'assumptions': ['sizes and bounds between 1e-6 and 1e6, given bounds ordered'], 'outside': ['sizes derived from the curvature of the boundary', 'anisotropic sizes (eigenvalue computations in floating point)']}
