from vf.core import Harness
HARNESSES = []
for lib, n in ((3, '3d'), (2, '2d'), (1, 's')):
    for a in (-1, 0):
        for b in range(4):
            for c in (0, 1):
                if lib == 1 and not c: continue
                HARNESSES.append(Harness('%s_scale_%s_%d_%s' % (n, 'met' if a == 0 else 'nomet', b, 'ls' if c else 'disp'), 'sizes.c', n, unwind=12, defs=['LIB=%d' % lib, 'OP=5', 'A=(%d)' % a, 'B=%d' % b, 'C_=%d' % c, 'GRID'], functions=['MMG5_scaleMesh', 'MMG5_unscaleMesh', 'MMG5_boundingBox', 'MMG5_scale_meshAndSol'], timeout=300, tier='quick' if (a + b + c + lib) % 2 == 0 else 'thorough',
                    
                    bounds='5 vertices one of which unused, in a box of side 4 at the origin; fixed coordinates, any of 64 sizes and parameters each, and %s values' % ('level-set' if c else 'displacement')))
META = {'assumptions': ['the box has a side that is a power of two, so that scaling is exact in floating point'], 'outside': ['rounding for other boxes']}
