from vf.core import Harness
N = ['edge_value', 'edge_tag', 'face_value', 'edge_geom']
FN = [['MMG5_hashNew', 'MMG5_hashEdge', 'MMG5_hashUpdate', 'MMG5_hashGet', 'MMG5_hashPop'], ['MMG5_hashNew', 'MMG5_hashEdgeTag', 'MMG5_hashGet'],
      ['MMG5_hashNew', 'MMG5_hashFace', 'MMG5_hashGetFace'], ['MMG5_hNew', 'MMG5_hEdge', 'MMG5_hTag', 'MMG5_hGet', 'MMG5_hPop']]
HARNESSES = []
for t in range(4):
  no = 3 if t in (0, 3) else 1
  tot = 25 * no * no
  step = 25 if tot == 25 else 57
  for hs in (0, 1):
    for c0 in range(0, tot, step):
      HARNESSES.append(Harness(N[t] + '_ops%d_%d' % (hs + 1, c0), 'maps.c', '3d', unwind=12, defs=['T=%d' % t, 'MODE=0', 'NK=5', 'PRE=3', 'HSIZ=%d' % hs, 'HMAX=6', 'C0=%d' % c0, 'C1=%d' % min(tot, c0 + step)], unwindset=['main.0:100', 'main.1:100'],
        functions=FN[t], timeout=300, bounds='3 insertions followed by any 2 operations over a pool of 5 keys (equal smallest/largest vertices and sums), arbitrary values; %d buckets' % (hs + 1)))
  for nk, hs, hm in ((6, 0, 3), (6, 0, 0), (14, 0, 8), (14, 1, 8)):
    HARNESSES.append(Harness(N[t] + '_grow_%d_%d_%d' % (nk, hs, hm), 'maps.c', '3d', unwind=16, defs=['T=%d' % t, 'MODE=1', 'NK=%d' % nk, 'HSIZ=%d' % hs, 'HMAX=%d' % hm], checks=['bounds', 'pointer'],
        functions=FN[t], bounds='%d keys with arbitrary values inserted in a table of %d buckets created for %d, which must grow' % (nk, hs + 1, hm)))
META = {'assumptions': ['allocation succeeds']}
