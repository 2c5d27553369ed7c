"""Fortran entry points: the harness text is generated from the prototypes (and documented
Fortran interfaces) of the current public headers."""
import re, os, tempfile, atexit, shutil
from vf.core import Harness, REPO

HDR = {'3d': ('mmg3d', 'MMG3D'), '2d': ('mmg2d', 'MMG2D'), 's': ('mmgs', 'MMGS')}
# documented in a header, but the library has never had such an entry point (or none of its C name)
MISSING = {'3d': {'mmg3d_init_filenames', 'mmg3d_lenedgcoor', 'mmg3d_hashtetra', 'mmg3d_get_numberofnonbdytriangless'},
           '2d': {'mmg2d_defaultvalues', 'mmg2d_scalemesh'}, 's': {'mmgs_init_filenames', 'mmgs_savemshmesh_and_alldata'}}
# not documented as Fortran subroutines, yet present
EXTRA = {'3d': {'mmg3d_get_numberofnonbdytriangles'}, '2d': set(), 's': set()}
CORE = {'mmg5_init_filenames', 'mmg5_set_inputmeshname', 'mmg5_set_inputsolname', 'mmg5_set_outputmeshname',
        'mmg5_set_outputsolname', 'mmg5_scalemesh', 'mmg5_unscalemesh', 'mmg5_mmgfree_names'}
MAYNULL = {('mmg3d_mmg3dls', 2), ('mmg2d_mmg2dls', 2), ('mmgs_mmgsls', 2)}   # optional metric
GROUPS = 5

def protos(path, macro):
    t = open(path).read()
    subs = {}
    for m in re.finditer(r'SUBROUTINE\s+(\w+)\s*\(([^)]*)\)', t):
        subs[m.group(1).lower()] = [re.sub(r'\W', '', re.sub(r'\\n|&|>|\*', '', a)).lower() for a in m.group(2).split(',')]
    c = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    c = re.sub(r'//[^\n]*', '', c)
    out = {}
    for m in re.finditer(macro + r'\s+([\w\s\*]+?)\b(MMG\w+)\s*\(([^()]*)\)\s*;', c):
        out[m.group(2).lower()] = (m.group(1).strip(), m.group(2), [' '.join(a.split()) for a in m.group(3).split(',')], False)
    for m in re.finditer(macro + r'\s+extern\s+([\w\s\*]+?)\(\s*\*\s*(MMG\w+)\s*\)\s*\(([^()]*)\)\s*;', c):
        out[m.group(2).lower()] = (m.group(1).strip(), m.group(2), [' '.join(a.split()) for a in m.group(3).split(',')], True)
    return subs, out

def param(a, k):
    """-> (C declaration with name aK, kind, element type)"""
    dims = ''
    m = re.match(r'^(.*?)((?:\[\s*\w*\s*\])+)$', a)
    if m:
        a, dims = m.group(1).strip(), m.group(2)
    m = re.match(r'^(.*[\s\*])(\w+)$', a)
    ty = m.group(1).strip() if m and m.group(1).strip() not in ('const', 'unsigned') else a
    if '*' in a and a.rstrip().endswith('*'):
        ty = a
    const = bool(re.search(r'\bconst\b', ty))
    bare = re.sub(r'\bconst\b', '', ty).strip()
    decl = '%s a%d%s' % (ty, k, dims)
    if bare.replace(' ', '') == 'char*':
        return decl, 'str', 'char', const
    if dims or bare.endswith('*'):
        el = bare[:-1].strip() if not dims else bare
        return decl, 'ptr', el, const
    return decl, 'val', bare, const

def select(lib):
    d, _ = HDR[lib]
    mac = 'LIB' + d.upper() + '_EXPORT'
    subs, pr = protos(os.path.join(REPO, 'src', d, 'lib%s.h' % d), mac)
    _, core = protos(os.path.join(REPO, 'src/common/libmmgcommon_private.h'), r'LIBMMG_CORE_EXPORT')
    out = []
    for n in sorted((set(subs) - MISSING[lib]) | EXTRA[lib]):
        if n in pr:
            out.append((n, pr[n]))
    doc = len(out)
    for n in sorted(CORE):
        if n in core:
            out.append((n, core[n]))
    return out, subs

def value(ty):
    if ty == 'double': return 'vf_num()'
    if ty in ('int', 'MMG5_int', 'int32_t'): return 'vf_i32()'
    if ty in ('int8_t', 'char'): return '(int8_t)vf_u8()'
    if ty in ('uint8_t', 'unsigned char'): return 'vf_u8()'
    if ty in ('long', 'int64_t', 'long long'): return 'vf_i64()'
    return None

def fty(ty):
    # one-byte integers of the C interface are documented as default integers in Fortran
    return 'int' if ty in ('int8_t', 'uint8_t', 'char') else ty

def gen(lib, path):
    fs, subs = select(lib)
    d, U = HDR[lib]
    o = ['#include "lib%s_private.h"' % d, '#include "lib%s.h"' % d, '#include "%sexterns_private.h"' % ('mmgs' if lib == 's' else 'mmg' + lib),
         '#include "vf.h"', 'static int ncall;',
         'static MMG5_Mesh OM[4]; static MMG5_Sol OS[8];']
    calls, names = [], []
    stubs = []
    for n, (ret, cn, args, isptr) in fs:
        args = [a for a in args if a != 'void']
        ps = [param(a, k) for k, a in enumerate(args)]
        if any(value(p[2]) is None and p[2] not in ('MMG5_pMesh', 'MMG5_pSol', 'char') and p[1] != 'ptr' for p in ps) or (ret != 'void' and value(ret) is None):
            raise SystemExit('A08: parameter type not understood in %s(%s)' % (cn, ', '.join(args)))
        names.append(n)
        fdecl, E, pre, post, actual, stub = [], [], [], [], [], []
        nm = nso = 0
        for k, (decl, kind, ty, const) in enumerate(ps):
            g = '%s_e%d' % (n, k)
            if kind == 'val':
                E.append('static %s %s;' % (ty, g))
                fdecl.append('%s*' % fty(ty))
                if value(ty):
                    pre.append('%s x%d = %s; %s = x%d;' % (fty(ty), k, value(ty), g, k))
                    post.append('V_ASSERT(x%d==%s,"%s leaves its inputs alone");' % (k, g, n))
                else:
                    if ty == 'MMG5_pMesh':
                        ob = 'OM+%d' % nm; nm += 1
                    else:
                        ob = 'OS+%d' % nso; nso += 1
                    pre.append('%s x%d = %s; %s = x%d;' % (ty, k, ob, g, k))
                if (n, k) in MAYNULL:
                    pre.append('%s *p%d = &x%d; if ( vf_bool() ) { p%d = NULL; %s = NULL; }' % (ty, k, k, k, g))
                    actual.append('p%d' % k)
                else:
                    actual.append('&x%d' % k)
                stub.append('V_ASSERT(a%d==%s,"%s passes argument %d on");' % (k, g, n, k + 1))
            elif kind == 'ptr':
                E.append('static %s %s_b[4],%s,%s_w;' % (ty, g, g, g))
                fdecl.append('%s*' % fty(ty))
                if value(ty):
                    pre.append('%s = %s; %s_b[0] = %s; %s_w = %s;' % (g, value(ty), g, g, g, value(ty)))
                elif ty not in ('MMG5_pMesh', 'MMG5_pSol'):
                    actual.append('%s_b' % g)
                    stub.append('V_ASSERT((void*)a%d==(void*)%s_b,"%s passes argument %d on");' % (k, g, n, k + 1))
                    continue
                else:
                    pre.append('%s = %s; %s_b[0] = %s; %s_w = %s;' % (g, 'OS+%d' % nso, g, g, g, 'OS+%d' % (nso + 1)))
                    nso += 2
                actual.append('%s_b' % g)
                stub.append('V_ASSERT((void*)a%d==(void*)%s_b || *(%s*)a%d==%s,"%s passes argument %d on");' % (k, g, ty, k, g, n, k + 1))
                if not const:
                    stub.append('*(%s*)a%d = %s_w;' % (ty, k, g))
                    post.append('V_ASSERT(%s_b[0]==%s_w,"%s hands output %d back");' % (g, g, n, k + 1))
                else:
                    post.append('V_ASSERT(%s_b[0]==%s,"%s leaves its inputs alone");' % (g, g, n))
            else:
                E.append('static char %s_b[8]; static int %s_n;' % (g, g))
                fdecl += ['char*', 'int*']
                pre.append('{ int i; for ( i=0; i<6; i++ ) { uint8_t c = vf_u8(); V_ASSUME(c!=0); %s_b[i] = (char)c; } } int x%d = which; %s_n = x%d;' % (g, k, g, k))
                actual += ['%s_b' % g, '&x%d' % k]
                stub.append('{ int i; for ( i=0; i<4; i++ ) if ( i<%s_n ) V_ASSERT(a%d[i]==%s_b[i],"%s passes the characters of argument %d on"); V_ASSERT(a%d[%s_n]==0,"%s ends the string at the given length"); }' % (g, k, g, n, k + 1, k, g, n))
                post.append('V_ASSERT(x%d==%s_n,"%s leaves its inputs alone");' % (k, g, n))
        if ret != 'void':
            fdecl.append('%s*' % ret)
            E.append('static %s %s_r;' % (ret, n))
            pre.append('%s_r = %s; %s res = %s;' % (n, value(ret), ret, value(ret)))
            actual.append('&res')
            post.append('V_ASSERT(res==%s_r,"%s hands the result back");' % (n, n))
        if not fdecl:
            fdecl = ['void']
        o += E
        sig = '(%s)' % (', '.join(p[0] for p in ps) or 'void')
        fn = ('static %s rec_%s%s' if isptr else '%s %s%s') % (ret, cn, sig)
        o.append('%s { ncall++; %s %s }' % (fn, ' '.join(stub), 'return %s_r;' % n if ret != 'void' else ''))
        if not isptr:
            stubs.append(cn)
        ents = [n, n + '_', n + '__', n.upper()]
        for e in ents:
            o.append('void %s(%s);' % (e, ', '.join(fdecl)))
        A = ', '.join(actual)
        o.append('static void t_%s(int which) { %s %s ncall = 0; switch ( which ) { case 0: %s(%s); break; case 1: %s(%s); break; case 2: %s(%s); break; default: %s(%s); }\n  V_ASSERT(ncall==1,"%s calls its C function once"); %s }' % (
            n, ' '.join(pre), ('%s = rec_%s;' % (cn, cn)) if isptr else '', ents[0], A, ents[1], A, ents[2], A, ents[3], A, n, ' '.join(post)))
        calls.append('t_%s(w);' % n)
    per = (len(calls) + GROUPS - 1) // GROUPS
    o.append('int main(void) { int w; for ( w=0; w<4; w++ ) {')
    for g in range(GROUPS):
        o.append('#if GROUP==%d' % g)
        o += calls[g * per:(g + 1) * per]
        o.append('#endif')
    o.append('} V_WITNESS(); return 0; }')
    open(path, 'w').write('\n'.join(o) + '\n')
    return stubs, names, per

HARNESSES = []
META = {'assumptions': ['the entry points with a variable argument list (init_mesh, free_*) are not encoded',
                        'strings of at most 6 characters, lengths 0..3 given by the caller']}
_work = tempfile.mkdtemp(prefix='vf_gen_')
atexit.register(shutil.rmtree, _work, True)
for lib in ('3d', '2d', 's'):
    path = os.path.join(_work, 'fortran_%s.c' % lib)
    stubs, names, per = gen(lib, path)
    for g in range(GROUPS):
        HARNESSES.append(Harness('%s_group%d' % (lib, g), path, lib, unwind=12, defs=['GROUP=%d' % g], stubs=stubs, typed=False,
                                 checks=['bounds', 'pointer'], functions=[n + ' (4 spellings)' for n in names[g * per:(g + 1) * per]],
                                 bounds='every argument value; strings of up to 6 characters, given length 0..3; the four spellings of each entry point'))
