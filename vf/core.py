"""Driver for the solver-based checks: compiles /repo's current sources with
goto-cc, encodes a harness with CBMC, discharges it, replays counterexamples and
reachability witnesses on a native build of the same sources, writes evidence."""
import os, re, sys, json, time, glob, shutil, subprocess, resource, threading, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
VF = os.path.join(VERIF, 'vf')
NCPU = int(os.environ.get('VF_JOBS', os.cpu_count() or 4))

# /usr/bin holds CBMC 5.95.1.  The newer cbmc on PATH (6.11) mis-encodes reads through a
# pointer to an array member of an array element with symbolic index (see DESIGN.md).
TOOLS = os.environ.get('VF_TOOLS', '/usr/bin')
CBMC, GOTO_CC, GOTO_INSTRUMENT = (os.path.join(TOOLS, t) for t in ('cbmc', 'goto-cc', 'goto-instrument'))

BASE_DEFS = ['-DUSE_SCOTCH', '-DUSE_VTK', '-Dkiss_fft_scalar=double', '-std=gnu99']

class Err(Exception):
    pass

def sh(cmd, timeout=None, cwd=None, env=None, mem_gb=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.communicate()
        return 'timeout', ''

LIBDIRS = {'3d': ['common', 'mmg3d'], 's': ['common', 'mmgs'], '2d': ['common', 'mmg2d']}
MAINS = {'mmg3d.c', 'mmgs.c', 'mmg2d.c'}

class Harness:
    """One harness = one solver obligation set.
    src      file under /verif/harness
    lib      which library's sources are encoded ('3d','s','2d')
    unwind   default loop bound (unwinding assertions are always on; a failing one
             makes the driver double the bound)
    stubs    functions of the real code whose body is replaced by the harness
    defs     -D defines for the harness
    flags    further cbmc flags
    checks   cbmc's built-in checks to enable
    """
    def __init__(self, name, src, lib, unwind=8, defs=(), stubs=(), flags=(), checks=(),
                 unwindset=(), timeout=240, mem_gb=3.5, functions=(), bounds='', tier='quick', solver='minisat2',
                 libdefs=(), leak=False, witness=True, known=None, main_of=None, malloc_fail=False, native_leak=False,
                 assumptions=(), solvers=None, replay=True, object_bits=12, nativeflags=(), typed=True, oom=False):
        self.__dict__.update({k: v for k, v in locals().items() if k != 'self'})

class Ctx:
    def __init__(self, prop, tier, work):
        self.prop, self.tier, self.work = prop, tier, work
        self.lock = threading.Lock()
        self.libs = {}
        self.nat = {}
        self.mklock = {}
        self.inc = None

    # ---- include tree -------------------------------------------------------
    def includes(self):
        with self.lock:
            if self.inc:
                return self.inc
            root = os.path.join(self.work, 'include')
            m = os.path.join(root, 'mmg')
            for d in ('common', 'mmg3d', 'mmg2d', 'mmgs'):
                os.makedirs(os.path.join(m, d), exist_ok=True)
                for h in glob.glob(os.path.join(REPO, 'src', d, '*.h')):
                    t = os.path.join(m, d, os.path.basename(h))
                    if not os.path.lexists(t):
                        os.symlink(h, t)
            sub = {'DEF_POSIX': '#define MMG_POSIX', 'DEF_GNU': '#define MMG_GNU',
                   'DEF_MMG5_INT': '#define MMG5_int int32_t', 'DEF_MMG5_INTMAX': '#define MMG5_INTMAX INT_MAX',
                   'DEF_MMG5_PRId': '#define MMG5_PRId PRId32', 'DEF_MMG_SWPBIN': '#define MMG5_SWAPBIN(x) MMG5_swapbin(x)',
                   'DEF_MMG_ABS': '#define MMG5_abs(x) abs(x)'}
            src = open(os.path.join(REPO, 'src/common/mmgcmakedefines.h.in')).read()
            for k, v in sub.items():
                src = src.replace('@%s@' % k, v)
            src = re.sub(r'#cmakedefine01\s+(\w+)', r'#define \1 0', src)
            src = re.sub(r'#cmakedefine\s+(\w+)', r'/* #undef \1 */', src)
            if '@' in re.sub(r'/\*.*?\*/', '', src, flags=re.S):
                raise Err('unexpected placeholder in mmgcmakedefines.h.in')
            open(os.path.join(m, 'common', 'mmgcmakedefines.h'), 'w').write(src)
            v = open(os.path.join(REPO, 'src/common/mmgversion.h.in')).read()
            v = re.sub(r'@\w+@', '0', v)
            open(os.path.join(m, 'common', 'mmgversion.h'), 'w').write(v)
            open(os.path.join(root, 'mmgversion.h'), 'w').write(v)
            open(os.path.join(m, 'common', 'git_log_mmg.h'), 'w').write('#define MMG_GIT_BRANCH "x"\n#define MMG_GIT_COMMIT "x"\n#define MMG_GIT_DATE "x"\n')
            self.inc = ['-I' + root] + ['-I' + os.path.join(REPO, 'src', d) for d in ('common', 'mmg3d', 'mmgs', 'mmg2d')] + \
                       ['-I/usr/include/scotch', '-I' + VF, '-I' + HARN]
            return self.inc

    def _once(self, key, fn):
        with self.lock:
            lk = self.mklock.setdefault(key, threading.Lock())
        with lk:
            if key not in self.libs:
                self.libs[key] = fn()
            return self.libs[key]

    def sources(self, lib, main_of=None):
        out = []
        for d in LIBDIRS[lib]:
            for f in sorted(glob.glob(os.path.join(REPO, 'src', d, '*.c'))):
                b = os.path.basename(f)
                if b in MAINS and b != main_of:
                    continue
                out.append(f)
        return out

    def _compile(self, tool, lib, extra, sub, libdefs, main_of, fallback=None):
        inc = self.includes()
        # -DVF_OWN_<file>: the harness includes this source itself (to reach functions local to it)
        own = {x[9:] + '.c' for x in libdefs if x.startswith('-DVF_OWN_')}
        d = os.path.join(self.work, sub)
        os.makedirs(d, exist_ok=True)
        objs, jobs = [], []
        for f in [x for x in self.sources(lib, main_of) if os.path.basename(x) not in own]:
            o = os.path.join(d, os.path.basename(os.path.dirname(f)) + '_' + os.path.basename(f)[:-2] + '.o')
            defs = list(BASE_DEFS) + list(libdefs)
            if os.path.basename(f) in MAINS:
                defs.append('-Dmain=vf_cli_main')
            jobs.append((f, tool + defs + inc + extra + ['-c', f, '-o', o]))
            objs.append(o)
        with ThreadPoolExecutor(NCPU) as ex:
            for (f, c), (rc, out) in zip(jobs, ex.map(lambda j: sh(j[1], timeout=600), jobs)):
                if rc != 0 and fallback:
                    rc, out = sh(c[:1] + fallback + c[1:], timeout=600)
                if rc != 0:
                    raise Err('compilation of %s failed:\n%s' % (f, out[-2000:]))
        return objs

    def goto_lib(self, lib, libdefs=(), main_of=None, stubs=(), typed=()):
        typed = list(typed)
        k = ('gb', lib, tuple(libdefs), main_of, tuple(typed))
        tag = hashlib.sha1(repr(k).encode()).hexdigest()[:10]
        def mk():
            objs = self._compile([GOTO_CC], lib, typed, 'gb_' + tag, libdefs, main_of, fallback=['-DVF_NOMEM'])
            t = os.path.join(self.work, 'lib_%s.gb' % tag)
            rc, out = sh([GOTO_CC] + objs + ['-o', t], timeout=300)
            if rc != 0:
                raise Err('goto-cc link failed: ' + out[-2000:])
            return t
        base = self._once(k, mk)
        if not stubs:
            return base
        k2 = k + tuple(sorted(stubs))
        def mk2():
            t = os.path.join(self.work, 'lib_%s.gb' % hashlib.sha1(repr(k2).encode()).hexdigest()[:12])
            rc, out = sh([GOTO_INSTRUMENT] + sum([['--remove-function-body', s] for s in sorted(stubs)], []) + [base, t], timeout=300)
            if rc != 0:
                raise Err('goto-instrument failed: ' + out[-2000:])
            return t
        return self._once(k2, mk2)

    def native_lib(self, lib, libdefs=(), main_of=None):
        k = ('nat', lib, tuple(libdefs), main_of)
        tag = hashlib.sha1(repr(k).encode()).hexdigest()[:10]
        def mk():
            objs = self._compile(['gcc', '-w', '-g', '-O0',
                                  '-fPIC', '-fsanitize=address', '-fno-omit-frame-pointer'],
                                 lib, [], 'nat_' + tag, libdefs, main_of)
            ts = [o for o in objs]
            return ts
        return self._once(k, mk)

RESLINE = re.compile(r'^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)\s*$')

class Result:
    pass

def typed_flags(h):
    return (['-DVF_TYPED'] + (['-DVF_OOM'] if h.oom else []) + ['-include', 'vf_pre.h']) if h.typed else []

class MemGate:
    """Keeps the sum of the memory limits of running solvers within the machine."""
    def __init__(self, total):
        self.c = threading.Condition(); self.free = total; self.total = total
    def take(self, n):
        n = min(n, self.total)
        with self.c:
            while self.free < n:
                self.c.wait()
            self.free -= n
        return n
    def give(self, n):
        with self.c:
            self.free += n
            self.c.notify_all()
GATE = MemGate(float(os.environ.get('VF_MEM_GB', '28')))

def run_harness(ctx, h):
    """-> dict with status: ok | violation | inconclusive | vacuous, details"""
    t0 = time.time()
    r = {'harness': h.name, 'status': 'inconclusive', 'why': '', 'props': 0, 'proved': 0, 'failed': [], 'solver_s': 0.0,
         'steps': 0, 'vccs': 0, 'vccs_left': 0, 'vars': 0, 'clauses': 0, 'missing': [], 'queries': 0, 'wit_replayed': None,
         'functions': list(h.functions), 'bounds': h.bounds, 'unwind': h.unwind}
    try:
        inc = ctx.includes()
        lib = ctx.goto_lib(h.lib, h.libdefs, h.main_of, h.stubs, typed_flags(h))
        hd = os.path.join(ctx.work, 'h_' + h.name)
        os.makedirs(hd, exist_ok=True)
        ho = os.path.join(hd, 'h.o')
        src = h.src if h.src.startswith('/') else os.path.join(HARN, h.src)
        hdefs = ['-D' + d for d in h.defs]
        rc, out = sh([GOTO_CC] + BASE_DEFS + list(h.libdefs) + hdefs + typed_flags(h) + inc + ['-c', src, '-o', ho], timeout=120)
        if rc != 0:
            raise Err('harness %s does not compile:\n%s' % (h.src, out[-3000:]))
        g = os.path.join(hd, 'h.gb')
        rc, out = sh([GOTO_CC, ho, lib, '-o', g], timeout=300)
        if rc != 0:
            raise Err('link of harness failed:\n' + out[-3000:])
        g2 = os.path.join(hd, 'h2.gb')
        rc, out = sh([GOTO_INSTRUMENT, '--drop-unused-functions', g, g2], timeout=300)
        if rc != 0:
            raise Err('goto-instrument failed:\n' + out[-3000:])
        os.unlink(g)
    except Err as e:
        r['why'] = str(e)
        r['wall'] = time.time() - t0
        return r
    unwind = h.unwind
    uset = dict((u.rsplit(':', 1)[0], int(u.rsplit(':', 1)[1])) for u in h.unwindset)
    solvers = list(h.solvers) if h.solvers else [h.solver]
    attempt = 0
    si = 0
    chk = {'bounds': '--bounds-check', 'pointer': '--pointer-check', 'div': '--div-by-zero-check',
           'overflow': '--signed-overflow-check', 'leak': '--memory-leak-check', 'undefshift': '--undefined-shift-check',
           'float': '--nan-check'}
    scale = float(os.environ.get('VF_TIME_SCALE', '1'))
    while True:
        cmd = [CBMC, g2, '--object-bits', str(h.object_bits), '--unwind', str(unwind), '--unwinding-assertions', '--trace',
               '--slice-formula', '--verbosity', '8'] + [chk[c] for c in h.checks] + list(h.flags)
        if uset:
            cmd += ['--unwindset', ','.join('%s:%d' % (k, v) for k, v in sorted(uset.items()))]
        cmd += ['--malloc-may-fail', '--malloc-fail-null'] if h.malloc_fail else []
        s = solvers[si]
        if s == 'minisat2':
            pass
        elif s == 'kissat':
            cmd += ['--external-sat-solver', 'kissat']
        elif s in ('z3', 'cvc5'):
            cmd += ['--' + s]
        ts = time.time()
        got = GATE.take(h.mem_gb)
        ts = time.time()
        try:
            rc, out = sh(cmd, timeout=h.timeout * scale, mem_gb=h.mem_gb)
        finally:
            GATE.give(got)
        r['queries'] += 1
        r['cbmc_s'] = round(time.time() - ts, 2)
        if os.environ.get('VF_KEEP'):
            open(os.path.join(hd, 'out.txt'), 'w').write(' '.join(cmd) + '\n' + out)
        if rc == 'timeout':
            if si + 1 < len(solvers):
                si += 1
                continue
            r['why'] = 'solver time limit (%ss) reached' % h.timeout
            break
        for m in re.finditer(r'Runtime Solver: ([\d.e+-]+)s', out):
            r['solver_s'] += float(m.group(1))
        m = re.search(r'size of program expression: (\d+) steps', out)
        if m: r['steps'] = int(m.group(1))
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', out)
        if m: r['vccs'], r['vccs_left'] = int(m.group(1)), int(m.group(2))
        m = re.findall(r'(\d+) variables, (\d+) clauses', out)
        if m: r['vars'], r['clauses'] = int(m[-1][0]), int(m[-1][1])
        r['missing'] = sorted(set(re.findall(r'no body for (?:function|callee) (\S+)', out)))
        res = [RESLINE.match(l) for l in out.split('\n')]
        res = [m.groups() for m in res if m]
        if 'VERIFICATION' not in out or not res:
            r['why'] = 'cbmc gave no verdict (rc=%s): %s' % (rc, ' / '.join([l for l in out.split('\n') if 'nwinding' not in l and l.strip()][-5:])[-600:])
            break
        if any(x[3] in ('UNKNOWN', 'ERROR') for x in res):
            r['why'] = 'cbmc: undecided assertions'
            break
        wit = [x for x in res if 'VF_WITNESS' in x[2]]
        other = [x for x in res if 'VF_WITNESS' not in x[2]]
        fails = [x for x in other if x[3] == 'FAILURE']
        unw = [x for x in fails if 'unwinding assertion' in x[2] or 'recursion unwinding' in x[2]]
        real = [x for x in fails if x not in unw]
        r['props'] = len(other)
        r['proved'] = len(other) - len(fails)
        r['unwind'] = unwind
        if unw and not real:
            attempt += 1
            if attempt > 4:
                r['why'] = 'loop bound exceeded: ' + ', '.join(x[0] for x in unw)
                break
            # the bound of a loop found to iterate further is doubled and the query repeated
            for x in unw:
                m = re.match(r'(.*)\.unwind\.(\d+)$', x[0])
                if m:
                    l = m.group(1) + '.' + m.group(2)
                    uset[l] = 2 * uset.get(l, unwind)
                else:
                    unwind = unwind * 2
            r['unwindset'] = dict(uset)
            continue
        if real:
            r['failed'] = [(x[0], x[1], x[2]) for x in real]
            traces = split_traces(out)
            r['status'] = 'candidate'
            r['traces'] = {x[0]: traces.get(x[0], []) for x in real}
            break
        if h.witness:
            if not wit:
                r['why'] = 'no reachability witness in harness'; r['status'] = 'vacuous'; break
            bad = [x for x in wit if x[3] != 'FAILURE']
            if bad:
                r['why'] = 'reachability witness not reached: the harness is vacuous'; r['status'] = 'vacuous'; break
            tr = split_traces(out)
            r['wit_vals'] = [tr.get(x[0], []) for x in wit]
        r['status'] = 'ok'
        break
    if r['status'] == 'candidate' and h.replay:
        replay_candidates(ctx, h, hd, r)
    elif r['status'] == 'candidate':
        r['status'] = 'violation'
        r['replay'] = None
    elif r['status'] == 'ok' and h.witness and h.replay:
        try:
            exe = native_exe(ctx, h, hd)
            ok = 0
            for i, v in enumerate(r.get('wit_vals', [])):
                vf = os.path.join(hd, 'wit%d.txt' % i)
                open(vf, 'w').write('\n'.join(v) + '\n')
                rc, out = run_native(exe, vf, h)
                if rc == 0 and 'VF_WITNESS_REACHED' in out:
                    ok += 1
                else:
                    r['wit_note'] = 'witness %d: rc=%s %s' % (i, rc, out[-600:])
                r.setdefault('wit_sample', {'inputs': [hx for hx in v[:24]], 'native_rc': rc if isinstance(rc, int) else -1})
            r['wit_replayed'] = ok
            r['wit_total'] = len(r.get('wit_vals', []))
        except Err as e:
            r['wit_note'] = str(e)[-600:]
    r.pop('wit_vals', None)
    r['wall'] = round(time.time() - t0, 2)
    if not os.environ.get('VF_KEEP'):
        for f in ('h.o', 'h2.gb', 'replay.exe'):
            try:
                os.unlink(os.path.join(hd, f))
            except OSError:
                pass
    return r

def split_traces(out):
    tr = {}
    parts = re.split(r'^Trace for (\S+):\s*$', out, flags=re.M)
    for i in range(1, len(parts), 2):
        vals = []
        body = parts[i + 1]
        for m in re.finditer(r'^\s*INPUT vfin: \S+ \(([01 ]+)\)', body, flags=re.M):
            vals.append('%x' % int(m.group(1).replace(' ', ''), 2))
        tr[parts[i]] = vals
    return tr

NATLOCK = threading.Lock()
def native_exe(ctx, h, hd):
    exe = os.path.join(hd, 'replay.exe')
    if os.path.exists(exe):
        return exe
    objs = ctx.native_lib(h.lib, h.libdefs, h.main_of)
    inc = ctx.includes()
    src = h.src if h.src.startswith('/') else os.path.join(HARN, h.src)
    san = ['-fsanitize=address,bounds', '-fno-sanitize-recover=bounds']
    rc, out = sh(['gcc', '-w', '-g', '-O0', '-fPIC'] + san + BASE_DEFS + list(h.libdefs) + ['-D' + d for d in h.defs] + ['-DVF_REPLAY'] + inc + list(h.nativeflags) +
                 [src, os.path.join(VF, 'vf_replay.c')] + objs +
                 ['-o', exe, '-Wl,--allow-multiple-definition', '-Wl,--unresolved-symbols=ignore-all', '-lm', '-lrt'], timeout=300)
    if rc != 0:
        raise Err('native build of harness failed: ' + out[-2000:])
    return exe

def run_native(exe, vals, h):
    env = dict(os.environ)
    env['VF_VALUES'] = vals
    env['ASAN_OPTIONS'] = 'exitcode=99:detect_leaks=%d:allocator_may_return_null=1:abort_on_error=0' % (1 if h.native_leak else 0)
    env['UBSAN_OPTIONS'] = 'exitcode=99'
    rc, out = sh([exe], timeout=60, env=env, cwd=os.path.dirname(exe))
    return rc, out

def replay_candidates(ctx, h, hd, r):
    try:
        exe = native_exe(ctx, h, hd)
    except Err as e:
        r['status'] = 'inconclusive'
        r['why'] = 'counterexample found but not replayable: ' + str(e)[-800:]
        return
    notes = []
    for name, line, desc in r['failed']:
        vals = r['traces'].get(name, [])
        vf = os.path.join(hd, 'cex_%s.txt' % re.sub(r'\W', '_', name))
        open(vf, 'w').write('\n'.join(vals) + '\n')
        rc, out = run_native(exe, vf, h)
        if rc not in (0, 77, 90):
            rd = os.path.join(VERIF, 'replays', ctx.prop, h.name)
            os.makedirs(rd, exist_ok=True)
            shutil.copy(vf, os.path.join(rd, 'inputs.txt'))
            with open(os.path.join(rd, 'report.txt'), 'w') as f:
                f.write('property %s harness %s\nviolated assertion: %s (line %s) %s\nother violated: %s\nnative replay exit: %s\n%s\n' %
                        (ctx.prop, h.name, name, line, desc, [x[0] + ': ' + x[2] for x in r['failed']], rc, out[-4000:]))
                f.write('\nreplay again: cd /verif && bin/replay %s %s %s\n' % (ctx.prop, h.name, os.path.join(rd, 'inputs.txt')))
            r['status'] = 'violation'
            r['replay'] = os.path.join(rd, 'report.txt')
            r['viol'] = '%s: %s [native: %s]' % (name, desc, (re.findall(r'VF_VIOLATED: .*|ERROR: AddressSanitizer: \S+|Assertion .* failed|runtime error.*', out) or ['rc=%s' % rc])[0])
            return
        notes.append('%s (%s): native rc=%s %s' % (name, desc, rc, out[-200:]))
    r['status'] = 'inconclusive'
    r['why'] = 'counterexample(s) did not reproduce natively: ' + ' | '.join(notes[:4])

def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']

def run_check(prop, harnesses, tier, meta):
    """Runs all harnesses of a property; prints the verdict; returns the exit code."""
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    only = os.environ.get('VF_ONLY')
    base = os.environ.get('VF_WORK') or tempfile.mkdtemp(prefix='vf_%s_' % prop)
    os.makedirs(base, exist_ok=True)
    hs = [h for h in harnesses if (tier == 'thorough' or h.tier == 'quick')]
    if only:
        hs = [h for h in hs if re.search(only, h.name)]
    ctx = Ctx(prop, tier, base)
    results = []
    rc = 0
    try:
        # build the libraries first (they use all cores), then the obligations
        for key in sorted({(h.lib, tuple(h.libdefs), h.main_of, tuple(typed_flags(h))) for h in hs}, key=repr):
            ctx.goto_lib(*key[:3], typed=key[3])
        for key in sorted({(h.lib, tuple(h.libdefs), h.main_of) for h in hs}, key=repr):
            ctx.native_lib(*key)
        order = sorted(hs, key=lambda h: -h.timeout)
        with ThreadPoolExecutor(max(1, min(NCPU, 8))) as ex:
            for r in ex.map(lambda h: run_harness(ctx, h), order):
                results.append(r)
                if os.environ.get('VF_VERBOSE'):
                    print('  %-40s %-12s %6.1fs (cbmc %s) props=%d unwind=%s steps=%s vars=%s wit=%s %s' % (r['harness'], r['status'], r['wall'], r.get('cbmc_s'),
                          r['props'], r['unwind'], r['steps'], r['vars'], r['wit_replayed'], (r['why'] or r.get('viol', '') or r.get('wit_note', ''))[:700]), flush=True)
    except Err as e:
        print('ERROR property=%s %s' % (prop, e))
        rc = 2
    finally:
        if not os.environ.get('VF_KEEP') and not os.environ.get('VF_WORK'):
            shutil.rmtree(base, ignore_errors=True)
    byname = {h.name: h for h in hs}
    kf = [k for k in known_findings() if k.get('property') == prop and not k.get('fixed')]
    viol = 0
    incon = 0
    for r in results:
        h = byname[r['harness']]
        if h.known:
            if r['status'] == 'violation':
                entry = [k for k in kf if k['id'] == h.known]
                if entry:
                    print('KNOWN-FINDING: property=%s %s' % (prop, entry[0]['summary']))
                else:
                    viol += 1
                    print('VIOLATION property=%s replay=%s' % (prop, r.get('replay')))
            continue
        if r['status'] == 'violation':
            viol += 1
            print('VIOLATION property=%s replay=%s' % (prop, r.get('replay')))
            print('   harness %s: %s' % (r['harness'], r.get('viol', '')))
        elif r['status'] != 'ok':
            incon += 1
            print('INCONCLUSIVE property=%s harness=%s: %s' % (prop, r['harness'], r['why'][:600]))
    if viol:
        rc = 1
    elif incon or rc:
        rc = 2
    wall = time.time() - t0
    write_evidence(prop, tier, seed, meta, hs, results, wall, viol)
    if rc == 0:
        print('OK property=%s harnesses=%d assertions=%d wall=%.1fs' % (prop, len(results), sum(r['props'] for r in results), wall))
    return rc

def write_evidence(prop, tier, seed, meta, hs, results, wall, viol):
    miss = sorted({m for r in results for m in r['missing']})
    cov = {
        'states': sum(r['steps'] for r in results),
        'transitions': sum(r['vccs'] for r in results),
        'traces_validated_against_impl': sum((r['wit_replayed'] or 0) for r in results),
        'samples': [{'harness': r['harness'], 'bounds': r['bounds'], 'witness': r.get('wit_sample')} for r in results if r.get('wit_sample')][:6]
                   or [{'harness': r['harness'], 'bounds': r['bounds']} for r in results][:6],
        'explanation': 'Bounded symbolic model checking with CBMC of the sources in /repo. states = steps of the unrolled symbolic program; '
                       'transitions = verification conditions generated from it; traces_validated_against_impl = reachability-witness '
                       'assignments found by the solver and executed on the natively compiled sources.',
        'harnesses': [{'name': r['harness'], 'status': r['status'], 'functions': r['functions'], 'bounds': r['bounds'], 'unwind': r['unwind'],
                       'assertions': r['props'], 'proved': r['proved'], 'solver_s': round(r['solver_s'], 2), 'wall_s': r['wall'],
                       'sat_vars': r['vars'], 'sat_clauses': r['clauses'], 'vccs_after_simplification': r['vccs_left'],
                       'note': r.get('wit_note', '')[:300]} for r in results],
        'obligations': sum(r['props'] for r in results),
        'discharged': sum(r['proved'] for r in results),
        'solver_queries': sum(r['queries'] for r in results),
        'solver_time_s': round(sum(r['solver_s'] for r in results), 2),
        'unmodelled_functions_return_any_value': miss,
        'stubs': sorted({s for h in hs for s in h.stubs}),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': list(meta.get('assumptions', [])) + sorted({a for h in hs for a in h.assumptions}),
          'wall_s': round(wall, 2), 'violations': viol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w').write(json.dumps(ev, indent=1) + '\n')
