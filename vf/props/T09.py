from vf.core import Harness
HARNESSES = []
NAMES = ['ball', 'vertices', 'lines', 'planarball', 'ends', 'collapse']
FN = [['MMG5_boulet'], ['MMG5_boulep'], ['MMG5_bouler'], ['MMG2D_boulep'], ['MMG2D_bouleendp'], ['boulechknm']]
CAPS = [1024, 1024, 1024, 1024, 1024, 1024]
def fan(lib, op, n, closed, nv=3, tier='quick'):
    HARNESSES.append(Harness('%s_%s_%d_%s' % ('planar' if lib == 1 else 'surface', NAMES[op], n, 'closed' if closed else 'open'), 'fans.c', '2d' if lib == 1 else 's', unwind=max(3 * (n + 3), n + 7), defs=['LIB=%d' % lib, 'OPN=%d' % op, 'N=%d' % n, 'CLOSED=%d' % closed, 'NV=%d' % nv, 'CAP=1024', 'CHKNM=%d' % (0 if n < 4 else 1)],
        functions=FN[op], timeout=300, mem_gb=4, tier=tier, flags=['--max-field-sensitivity-array-size', '300'], bounds='%s fan of %d triangles, every start, %d numberings, any references%s' % ('closed' if closed else 'open', n, nv, ' and edge attributes' if op in (2, 4) else '')))
for lib in (1, 2):
    for n in (3, 4, 5): fan(lib, 0, n, 1)
    for n in (1, 2, 3, 4): fan(lib, 0, n, 0)
for n in (3, 4): fan(2, 1, n, 1); fan(2, 2, n, 1, 2)
for n in (1, 3): fan(2, 1, n, 0); fan(2, 2, n, 0, 2)
fan(1, 2, 3, 1, 2); fan(1, 2, 2, 0, 2)
for n in (3, 4): fan(1, 3, n, 1); fan(1, 4, n, 1)
for n in (1, 3): fan(1, 3, n, 0); fan(1, 4, n, 0)
for n in (3, 4, 5): fan(2, 5, n, 1)
for n in (1, 2, 3): fan(2, 5, n, 0)
for lib in (2,):
    for n, c in ((1023, 1), (1024, 1), (1024, 0)):
        HARNESSES.append(Harness('%s_capacity_%d_%s' % ('planar' if lib == 1 else 'surface', n, 'closed' if c else 'open'), 'fans.c', '2d' if lib == 1 else 's', unwind=n + 2, defs=['LIB=%d' % lib, 'OPN=0', 'N=%d' % n, 'CLOSED=%d' % c, 'CAP=1024', 'CHKNM=0', 'OVER=1', 'NV=1'],
            functions=['MMG5_boulet'], timeout=300, mem_gb=4, tier='quick' if n == 1024 else 'thorough', flags=['--max-field-sensitivity-array-size', '3400'], bounds='%s fan of %d triangles against the capacity of 1024' % ('closed' if c else 'open', n)))
def sh(op, n, closed, nv=2, tier='quick', v0=0):
    nr = 6 if op == 7 else n + (not closed)
    HARNESSES.append(Harness('%s_%d_%s%s' % (['shell', 'settag', 'deltag', 'srcbdy', 'volball', 'surfball', 'x', 'innerball'][op], n, 'closed' if closed else 'open', '' if nv - v0 > 1 else '_%d' % v0), 'shells.c', '3d', unwind=4 * ((8 if op == 7 else n) + 2) + 6, defs=['OPN=%d' % op, 'N=%d' % n, 'CLOSED=%d' % closed, 'NV=%d' % nv, 'V0=%d' % v0, 'CAP=64'],
        functions=[['MMG5_coquil'], ['MMG5_settag'], ['MMG5_deltag'], ['MMG5_srcbdy'], ['MMG5_boulevolp'], ['MMG5_boulesurfvolp'], [], ['MMG5_boulevolp']][op] + ([] if op in (4, 5, 7) else ['MMG3D_findEdge']), timeout=300, mem_gb=4, tier=tier, flags=['--max-field-sensitivity-array-size', '300'],
        bounds='%s of %d elements, every start, %d numberings, any references%s' % ('ball of an inner vertex' if op == 7 else ('closed' if closed else 'open') + ' shell', 8 if op == 7 else n, nv - v0, ', any edge attributes, edge references 0 to 15' if op in (1, 2) else '')))
for op in (0, 2, 3): sh(op, 3, 1); sh(op, 4, 1, tier='thorough'); sh(op, 1, 0); sh(op, 3, 0)
for v in (0, 1): sh(1, 3, 1, v + 1, v0=v); sh(1, 4, 1, v + 1, 'thorough', v)
sh(1, 1, 0); sh(1, 3, 0)
for op in (4, 5): sh(op, 3, 1); sh(op, 4, 1); sh(op, 1, 0); sh(op, 3, 0)
sh(7, 8, 1)
META = {}
