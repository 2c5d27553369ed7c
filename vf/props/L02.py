from vf.core import Harness
from itertools import product
HARNESSES = []
T = {0: [(1, 2, 3, 4), (1, 3, 2, 5), (1, 2, 4, 6)], 1: [(1, 2, 3, 4), (1, 2, 5, 6), (3, 4, 7, 8)]}
FC = [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)]
def good(s, mode, nt, conf):
    # entities lying entirely on the zero level are refused by the caller
    for t in T[conf][:nt]:
        z = [s[v - 1] == '0' for v in t]
        if all(z) or mode and any(all(z[i] for i in f) for f in FC):
            return False
    return True
def code(s):
    return sum('-0+'.index(c) * 3 ** i for i, c in enumerate(s))
def H(n, mode, nt, pats, mats=-1, conf=0, rot=0, grow=0, tier='quick', b=''):
    pats = [p for p in pats if good(p, mode, nt, conf)]
    HARNESSES.append(Harness('3d_' + n, 'lscut3.c', '3d', unwind=100, defs=['MODE=%d' % mode, 'NT=%d' % nt, 'MATS=(%d)' % mats, 'GROW=%d' % grow, 'CONF=%d' % conf, 'ROT=%d' % rot, 'PAT=' + ','.join(str(code(p)) for p in pats)], checks=['bounds'],
        functions=['MMG3D_cuttet_lssurf', 'MMG3D_setref_lssurf'] if mode else ['MMG3D_cuttet_ls', 'MMG3D_setref_ls'], tier=tier, timeout=400, mem_gb=4,
        bounds='%d tetrahedra%s, vertex signs %s, %s%s; references arbitrary where no table gives them' % (nt, ' sharing edges only' if conf else '', ' '.join(pats) if len(pats) < 6 else '%d of the %d combinations' % (len(pats), 3 ** len(pats[0])),
            'no material table' if mats < 0 else 'kept entities mask %d' % mats, ', point table has to grow' if grow else '')))
ALL4 = [''.join(p) for p in product('-0+', repeat=4)]
for i in range(4):
    H('one_%d' % i, 0, 1, ALL4[i::8], tier='quick' if i < 3 else 'thorough')
    H('oneb_%d' % i, 0, 1, ALL4[i + 4::8], tier='thorough')
for i, (p, m, r) in enumerate((('+--++-', 1, 0), ('++--+-', 1, 4), ('+-+-0+', 1, 8), ('+---+0', 2, 11), ('-++-0-', 5, 6))):
    H('three_%d' % i, 0, 3, [p], m, rot=r, tier='quick' if i in (0, 3) else 'thorough')
for r in range(12):
    H('edge_%d' % r, 0, 3, ['+-+-++++'], 1, conf=1, rot=r, tier='quick' if r in (0, 5) else 'thorough')
H('only_keep', 0, 1, ['+-+-', '0+-+'], 1)
H('grow', 0, 1, ['+-+-'], -1, grow=1)
for i in range(8):
    H('s_one_%d' % i, 1, 1, ALL4[i::8], tier='quick' if i in (2, 5) else 'thorough')
for m in range(16):
    H('s_keep_%d' % m, 1, 1, ['+-+-', '++--', '+--0', '-+++'], m, rot=m % 12, tier='quick' if m in (1, 6, 15) else 'thorough')
H('s_two', 1, 2, ['+-+--'], 3)
H('s_grow', 1, 1, ['+-+-'], -1, grow=1)

T2 = [(1, 2, 3), (3, 2, 4), (1, 3, 5)]
NV2 = [0, 3, 4, 5]
def good2(s, mode, nt, em, rot):
    for t in T2[:nt]:
        if all(s[v - 1] == '0' for v in t):
            return False
    if mode:
        es = []
        for t in range(nt):
            tt = [T2[t][(i + rot + t) % 3] for i in range(3)]
            for i in range(3):
                e = frozenset((tt[(i + 1) % 3], tt[(i + 2) % 3]))
                if e not in es:
                    es.append(e)
        for k, e in enumerate(es):
            if em >> k & 1 and all(s[v - 1] == '0' for v in e):
                return False
    return True
def G(n, lib, mode, nt, pats, mats=-1, rot=0, grow=0, iso=1, em=0, met=0, tier='quick'):
    pats = [p for p in pats if good2(p, mode, nt, em, rot)]
    HARNESSES.append(Harness('%s_%s' % (lib, n), 'lscut2.c', lib, unwind=70, defs=['LIB=%d' % (2 if lib == '2d' else 1), 'MODE=%d' % mode, 'NT=%d' % nt, 'MATS=(%d)' % mats, 'GROW=%d' % grow, 'ISO=%d' % iso, 'EM=%d' % em, 'MET=%d' % met, 'ROT=%d' % rot,
        'PAT=' + ','.join(str(code(p)) for p in pats)], checks=['bounds'], libdefs=[] if lib == '2d' else ['-DVF_OWN_mmgs2'],
        functions=['MMG2D_cuttri' if lib == '2d' else 'MMGS_cuttri', 'MMG5_setref_lssurf' if mode else 'MMG5_setref_ls'], tier=tier, timeout=300, mem_gb=3,
        bounds='%d triangles, vertex signs %s%s, %s%s%s; references and tags arbitrary where no table gives them' % (nt, ' '.join(pats) if len(pats) < 6 else '%d of the %d combinations' % (len(pats), 3 ** len(pats[0])),
            ' (triangle references kept: iso=2)' if iso == 2 else '', 'no material table' if mats < 0 else 'kept entities mask %d' % mats, ', point table has to grow' if grow else '', ', edges with a reference mask %d' % em if mode else '')))
P3 = [''.join(p) for p in product('-0+', repeat=3)]
P5 = [''.join(p) for p in product('-0+', repeat=5)]
for lib in ('2d', 's'):
    G('one', lib, 0, 1, P3)
    for i in range(4):
        G('fan_%d' % i, lib, 0, 3, P5[5 * i + 3::37], rot=i % 3, tier='quick' if i < 2 else 'thorough')
        G('fan_keep_%d' % i, lib, 0, 3, P5[5 * i + 4::41], mats=(1, 3, 2, 5)[i], rot=i % 3, tier='quick' if i < 2 else 'thorough')
    G('keep2', lib, 0, 2, ['+--+', '+-++', '+-0-'], 1)
    G('only_keep', lib, 0, 1, ['+--', '+-0'], 1)
    G('iso2', lib, 0, 3, P5[7::45], iso=2)
    G('grow', lib, 0, 3, ['+--+-', '+-+-+'], grow=1, met=1)
    G('met', lib, 0, 2, ['+--+'], met=1)
    for i in range(4):
        G('s_%d' % i, lib, 1, 3, P5[11 * i + 2::43], em=(127, 45, 90, 107)[i], rot=i % 3, tier='quick' if i < 1 else 'thorough')
        G('s_keep_%d' % i, lib, 1, 3, P5[11 * i + 5::47], em=(127, 45, 90, 107)[i], mats=(4, 33, 18, 10)[i], rot=i % 3, tier='quick' if i < 1 else 'thorough')
    G('s_grow', lib, 1, 3, ['+--+-', '+-+-+'], em=127, grow=1, met=1)
