"""Checks that need more than the common program runner."""
from vp import *
import families
import vp, random, concurrent.futures, subprocess, json, os, re
from check import conformance, compile_violation, describe

def math_check(mode, ps, nq, nt):
    def run(rep, work, tier, seed):
        import mathgen, mathref
        r = random.Random('%s-%s' % (rep.pid, seed))
        n = nq if tier == 'quick' else nt
        progs = [mathgen.g_math(r, t, fn, i, ps) for t in FLT for fn in mathgen.ONE + mathgen.TWO for i in range(n)]
        if mode == 'special': progs += [p for t in FLT for fn in mathgen.ONE + mathgen.TWO for p in mathgen.g_lattice(r, t, fn)]
        if mode == 'accuracy': progs += [mathgen.g_sweep(r, t, fn, i) for t in FLT for fn in mathgen.LOGS for i in range(1 if tier == 'quick' else 24)]
        if mode == 'accuracy':
            for i in range(1 if tier == 'quick' else 12):
                for t in FLT:
                    for fn in mathgen.KERNELS:
                        for p in mathgen.g_binades(r, t, fn): p.id += '.%d' % i; progs.append(p)
        build = Build(work, ['MATH'], FLT, tier=tier, opt='-O1' if tier == 'quick' else '-O2', lib=True)
        try: build.build()
        except CompileFailure as e:
            compile_violation(rep, e); return
        r.shuffle(progs)
        for c in range(0, len(progs), 400):
            part = progs[c:c + 400]
            vp.REF.clear(); vp.REF.update(mathref.table(mathgen.keys(part)))
            conformance(rep, None, work, part, build, 'c%d' % c, module='MathTrace', env={'MODE': mode})
            if len(rep.viol) > 5: break
        rep.cov['functions'] = len(mathgen.ONE + mathgen.TWO)
        rep.assume += ['true values enclosed by mpmath (96-bit truncations)', 'platform libm behind functions without a vector kernel']
    return run

# ------------------------------------------------------------------ C24
def env_check(rep, work, tier, seed):
    import mathgen, mathref, check
    check.run_fam(rep, work, tier, seed)
    if len(rep.viol) > 5: return
    r = random.Random('C24m-%s' % seed)
    n = 1 if tier == 'quick' else 10
    sub = os.path.join(work, 'm'); os.mkdir(sub)
    build = Build(sub, ['MATH'], FLT, isas=['sse2', 'avx2'] if tier == 'quick' else None, tier=tier, opt='-O1' if tier == 'quick' else '-O2', lib=True, cflags=['-frounding-math'], abi_fn=families.env_abis)
    try: build.build()
    except CompileFailure as e:
        compile_violation(rep, e); return
    progs = [mathgen.g_env(r, t, fn, i, .6) for t in FLT for fn in mathgen.ONE + mathgen.TWO for i in range(n)]
    r.shuffle(progs)
    for c in range(0, len(progs), 400):
        part = progs[c:c + 400]
        vp.REF.clear(); vp.REF.update(mathref.table(mathgen.keys(part)))
        conformance(rep, None, sub, part, build, 'm%d' % c, module='MathTrace', env={'MODE': 'all'})
        if len(rep.viol) > 5: break

# ------------------------------------------------------------------ C26
OPTS = [(1, ('DPM_HANDLE_ERRORS',)), (0, ('DPM_HANDLE_ERRORS', 'DPM_PROPAGATE_NAN', 'DPM_INLINE_EXTENSIONS')), (2, ('DPM_PROPAGATE_NAN', 'DPM_INLINE_EXTENSIONS'))]
def opt_check(rep, work, tier, seed):
    """the library built with its options off: h.opt tells the specification what they leave open"""
    import mathgen, mathref
    r = random.Random('C26-%s' % seed)
    quick = tier == 'quick'
    n, m = (2, 14) if quick else (25, 250)
    for o, off in OPTS[:2] if quick else OPTS:
        sub = os.path.join(work, 'o%d' % o); os.mkdir(sub)
        build = Build(sub, ['MATH', 'MANIP', 'FBIN', 'ROUND', 'CLASS'], FLT, isas=['sse2', 'avx2'] if quick else None, tier=tier,
                      opt='-O1' if quick else '-O2', lib=True, abi_fn=families.env_abis, off=off)
        try: build.build()
        except CompileFailure as e:
            compile_violation(rep, e); continue
        hd = lambda isa, ab: {'opt': o}
        progs = []
        for t in FLT:
            for g in (families.g_c15, families.g_c16) + (() if quick else (families.g_c17, families.g_c18)):
                for i in range(m):
                    r.small = r.random() < .2
                    p = g(r, t, i); p.id = t + p.id; progs.append(p)
        r.small = False
        r.shuffle(progs)
        for c in range(0, len(progs), 1200):
            conformance(rep, None, sub, progs[c:c + 1200], build, 'x%d' % c, header=hd)
        progs = [mathgen.g_math(r, t, fn, i, .35) for t in FLT for fn in mathgen.ONE + mathgen.TWO for i in range(n)]
        r.shuffle(progs)
        for c in range(0, len(progs), 400):
            part = progs[c:c + 400]
            vp.REF.clear(); vp.REF.update(mathref.table(mathgen.keys(part)))
            conformance(rep, None, sub, part, build, 'm%d' % c, header=hd, module='MathTrace', env={'MODE': 'all'})
            if len(rep.viol) > 5: break
    rep.assume += ['true values enclosed by mpmath (96-bit truncations)', 'erroneous arguments read as: infinite, domain and pole errors, results out of range']

# ------------------------------------------------------------------ C22
TRAIT_TYPES = dict(list(CPP.items()) + [('ld', 'long double')])
def abi_check(rep, work, tier, seed):
    isas = [i for i in (ISA if tier != 'quick' else QUICK_ISA) if i != 'dbg' and not i.startswith('clang') and (i != 'avx512' or HAVE512)]
    jobs = [(i, t) for i in isas for t in TRAIT_TYPES]
    r = random.Random('C22-%s' % seed)
    def rtag(): return 'S' if r.random() < .2 else 'av<%d, %s>' % (r.choice([1, 2, 3, 4, 5, 7, 8, 16, 17, 32]), r.choice(['0', '16', '32', '64', 'SIZE_MAX']))
    extra = os.path.join(work, 'extra.hpp')
    with open(extra, 'w') as f:
        for _ in range(60 if tier == 'quick' else 250):
            f.write('com<%s>();\n' % ', '.join(rtag() for _ in range(r.randint(1, 5))))
            f.write('ded<%s>();\n' % ', '.join([str(r.choice([1, 2, 3, 4, 5, 7, 8, 16, 17, 32]))] + [rtag() for _ in range(r.randint(0, 5))]))
    def one(j):
        exe = os.path.join(work, 'traits_%s_%s' % j)
        cmd = ['g++', '-std=c++20', '-O0', '-w'] + ISA[j[0]] + ['-I' + REPO] + DEFS + ['-DTRAIT_EXTRA="%s"' % extra, '-DTRAIT_T=' + TRAIT_TYPES[j[1]], os.path.join(VERIF, 'driver', 'traits.cpp'), '-o', exe]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode: return j, None, p.stderr
        q = subprocess.run([exe], capture_output=True, text=True, timeout=60)
        return j, [json.loads(l) for l in q.stdout.splitlines()], q.returncode
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, jobs))
    for j, ev, err in res:
        if ev is None:
            e = CompileFailure('%s/%s' % j, err); compile_violation(rep, e); return
    res = [x for x in res if x[1]]
    path = os.path.join(work, 'abi.ndjson')
    with open(path, 'w') as f:
        for j, ev, rc in res: f.write(json.dumps({'w': 32 if j[0].startswith('avx') else 16, 'avx2': int(j[0].startswith(('avx2', 'avx512'))), 'ev': ev}) + '\n')
    rc, out, st = tlc('AbiModel', env={'TRACE': path}, work=work)
    if 'CONSUMED' not in out or st is None:
        open('/tmp/vp-tlc-failure.txt', 'w').write(out)
        raise Broken('TLC did not consume the answers:\n' + '\n'.join(l for l in out.splitlines() if 'rror' in l or 'STUCK' in l)[:1500])
    for a, b in sorted({(int(a), int(b)) for a, b in re.findall(r'<<"MISMATCH", (\d+), (\d+)', out)}):
        j, ev, _ = res[a - 1]; q = ev[b - 1]
        info = {'what': 'query %s of %s on %s: %s' % (q['q'], j[1], j[0], json.dumps(q, separators=(',', ':'))), 'type': j[1], 'where': [j[0]], 'query': q}
        k = rep.match_known(info)
        if k: rep.knownhit[k['what']] = rep.knownhit.get(k['what'], 0) + 1; continue
        rep.violation(info)
    rep.cov['states'] += st['distinct']; rep.cov['transitions'] += st['generated']
    rep.cov['traces_validated_against_impl'] += len(res)
    rep.cov['queries'] = sum(len(x[1]) for x in res)
    rep.cov['samples'] += [{'configuration': '%s/%s' % x[0], 'query': x[1][len(x[1]) // 3]} for x in res[::max(1, len(res) // 3)]][:3]

# ------------------------------------------------------------------ C23
from values import *
CX_BIN = ['add', 'sub', 'mul', 'div', 'mod', 'and', 'or', 'xor']
CX_OPS = set('''dumpv dumpm bc mov mmov mbc gen gen.-.ic mgen lit lit.-.ctor mlit mlit.-.ctor mldm same.store msame.store get get.-.ref set.asg mget mget.-.ref
 mset.asg mset.and mset.or mset.xor un.neg un.pos un.not inc.inc.pre inc.dec.pre inc.inc.post inc.dec.post lnot mun.not mun.bnot mun.neg mun.pos
 blend mblend bin.min.v bin.max.v bin.min.s bin.max.s minmax.-.v minmax.-.s clamp.-.v clamp.-.s red.add red.add.op red.add.h red.mul.op red.mul.h red.min.h red.max.h
 mov.rt.packed mmov.rt.packed bin.shl.v bin.shr.v bin.shl.vq bin.shr.vq shk.shli.v shk.shri.v shk.shli.vq shk.shri.vq red.and.op red.or.h red.xor.h'''.split()
 + ['bin.%s.%s' % (o, w) for o in CX_BIN for w in ('v', 's', 'vq', 'sq')] + ['cmp.%s.v' % c for c in families.CMPS]
 + ['mbin.%s.v' % o for o in ('mand', 'mor', 'mxor', 'mland', 'mlor', 'meq', 'mne')] + ['mbin.%s.vq' % o for o in ('mand', 'mor', 'mxor')]
 + ['mred.' + o for o in families.MREDS] + ['cvt.%s.cast' % u for u in families.MEMU])
CX_SHUF = (1, 3, 5, 9, 14, 17, 18)
CX_KS = {1: [0, 1, 3, 6], 2: [0, 1, 7, 8, 14], 4: [0, 1, 15, 16, 30], 8: [0, 1, 31, 32, 33, 62]}
CXN = 16
def cx_ok(ins, t, native=False):
    o = ins[0]
    if native and o in CX_REF: return False
    if o in ('shuf', 'mshuf', 'shufd'): return ins[5] in CX_SHUF and not (o == 'shufd' and ins[5] in (9, 14))
    if o.startswith('shk.') and o.split('.')[1] in ('lsl', 'lsr', 'asl', 'asr'): return ins[5] in CX_KS[SIZE[t]]
    return o in CX_OPS
def cx_float(r, t): return fv(t, r.choice([r.randrange(-8, 9) / 2, float(r.randrange(-100, 101)), r.randrange(1, 64) / 8, 1.0, -0.0, 0.0]))
def cx_prog(r, t, i, native=False):
    p = Prog('%scx%s%d' % (t, 'n' if native else 'p', i), t)
    if t[0] != 'f':
        pool = ['g_c01', 'g_c02', 'g_c03', 'g_c04', 'g_c05', 'g_c06', 'g_c09', 'g_c10', 'g_c11', 'g_c12', 'g_c13']
        families.start(p, r, t, 6, 5)
        streams = [families.pieces(getattr(families, g)(r, t, 0)) for g in r.sample(pool, 3)]
        n = 0
        while any(streams) and n < 45:
            q = r.choice([s for s in streams if s])
            for ins in q.pop(0):
                if ins[0] == 'gen.-.ic': ins = ('gen',) + ins[1:]
                if ins[0].startswith('cvt.') and ins[0].split('.')[1] in families.MEMU: ins = ('cvt.%s.cast' % ins[0].split('.')[1],) + ins[1:]
                if cx_ok(ins, t, native): p.ins.append(ins); n += 1
        # values that conversions to floating types and back keep representable
    else:
        val = lambda: b''.join(cx_float(r, t) for _ in range(MAXN))
        nz = lambda n=MAXN: b''.join(fv(t, r.choice([1.0, -2.0, 0.5, 3.0, -1.5, 7.0])) for _ in range(n))
        for d in range(6): p.op('lit', d, x=val())
        for d in range(5): p.op('mlit', d, x=mask(r))
        rv = families.rv
        for j in range(40):
            d, a, b, c = rv(r), rv(r), rv(r), rv(r)
            o = r.choice(['arith', 'arith', 'cmp', 'cmp', 'mask', 'mred', 'blend', 'mm', 'red', 'acc', 'shuf', 'cvt', 'lit', 'lit'])
            if o == 'lit': p.op(r.choice(['lit', 'lit.-.ctor', 'gen']), d, x=val())
            elif o == 'arith':
                f = r.choice(['add', 'sub', 'mul', 'div', 'un', 'inc'])
                if f == 'un': p.op(r.choice(['un.neg', 'un.pos']), d, a)
                elif f == 'inc': p.op('inc.%s.%s' % (r.choice(['inc', 'dec']), r.choice(['pre', 'post'])), d)
                else:
                    w = r.choice(['v', 's', 'vq', 'sq'])
                    if f in ('div', 'mul'): p.op('lit', 4, x=nz()); b = 4; p.op('lit', d, x=val()).op('lit', a, x=val())
                    p.op('bin.%s.%s' % (f, w), d, a, b, x=nz(1) if w[0] == 's' else None)
            elif o == 'cmp': p.op(*r.choice([('cmp.%s.v' % r.choice(families.CMPS), d, a, b), ('lnot', d, a)]))
            elif o == 'mask':
                q = Prog('', t); families.mask_op(r, q)
                p.ins += [z for z in q.ins if cx_ok(z, t, native)]
            elif o == 'mred': p.op('mred.' + r.choice(families.MREDS), 0, a)
            elif o == 'blend': p.op(r.choice(['blend', 'mblend']), d, a, b, c)
            elif o == 'mm':
                f = r.choice(['min', 'max', 'minmax', 'clamp']); w = r.choice(['v', 's'])
                if f == 'clamp':
                    lo = cx_float(r, t); hi = cx_float(r, t)
                    if families.key(t, lo) > families.key(t, hi): lo, hi = hi, lo
                    if w == 's': p.op('clamp.-.s', d, a, x=lo, y=hi)
                    else: p.op('lit', 4, x=lo * MAXN).op('lit', 5, x=hi * MAXN).op('clamp.-.v', d, a, 4, 5)
                elif f == 'minmax': p.op('minmax.-.' + w, d, a, b, (d + 1) % 4, x=cx_float(r, t) if w == 's' else None)
                else: p.op('bin.%s.%s' % (f, w), d, a, b, x=cx_float(r, t) if w == 's' else None)
            elif o == 'red':
                p.op('lit', 4, x=families.exact_lanes(random.Random(r.random()), t, 'add') if False else b''.join(fv(t, float(r.randrange(-200, 201)) / 4) for _ in range(MAXN)))
                p.op('red.' + r.choice(['add', 'add.op', 'add.h', 'min.h', 'max.h']), 0, 4)
            elif o == 'acc':
                q = Prog('', t); families.access_op(r, q, t)
                p.ins += [('gen',) + z[1:] if z[0] == 'gen.-.ic' else z for z in q.ins if cx_ok(z, t, native) and z[0] not in ('lit.-.ctor', 'gen', 'gen.-.ic', 'bc', 'set.asg')]
            elif o == 'shuf': p.op(r.choice(['shuf', 'mshuf']), d, a, k=r.choice(CX_SHUF))
            elif o == 'cvt':
                u = r.choice(families.MEMU); p.op('lit', 4, x=families.memvals(r, u, t)) if u[0] != 'f' else p.op('lit', 4, x=val())
                p.op('cvt.%s.cast' % u, 0, 4)
    for d in range(4): p.op(r.choice(['dumpv', 'same.store']), 0, d)
    for d in range(4): p.op(r.choice(['dumpm', 'msame.store']), 0, d)
    return p
CX_REF = {'get.-.ref', 'set.asg', 'mget.-.ref', 'mset.asg', 'mset.and', 'mset.or', 'mset.xor'}
CX_NABIS = lambda t: [('a16', 'dpm::simd_abi::ext::aligned_vector<%d, 16>' % (16 // SIZE[t]), 16 // SIZE[t]), ('fixed3', 'dpm::simd_abi::fixed_size<3>', 3), ('a32', 'dpm::simd_abi::ext::aligned_vector<5, 32>', 5), ('fixed7', 'dpm::simd_abi::fixed_size<7>', 7)]
def cx_emit(progs, t, abis_, path, native):
    s = SIZE[t]; D, B, tabs = [], [], []
    def lit(b):
        v = int.from_bytes(b, 'little')
        return 'std::bit_cast<%s>(std::uint%d_t(%#xu%s))' % (CPP[t], 8 * s, v, 'll' if s == 8 else '') if t[0] == 'f' else '%s(%#xu%s)' % (CPP[t], v, 'll' if s == 8 else '')
    def idx(x, name):
        if x is None: return -1
        if name.split('.')[0] in MASKX: B.extend(x[:CXN]); return len(B) - len(x[:CXN])
        k = min(len(x) // s, CXN); D.extend(x[j * s:(j + 1) * s] for j in range(k)); return len(D) - k
    for j, p in enumerate(progs):
        rows = []
        for n, d, a, b, c, k, x, y in p.ins: rows.append('{H("%s"),%d,%d,%d,%d,%d,%d,%d}' % (n, d, a, b, c, k, idx(x, n), idx(y, n)))
        tabs.append('constexpr CIns<T> p%d[] = {%s};' % (j, ','.join(rows)))
    with open(path, 'w') as f:
        f.write(('#define CX_NATIVE\n' if native else '') + '#include "cx.hpp"\nusing T = %s;\n' % CPP[t])
        f.write('constexpr T D[] = {%s};\nconstexpr u8 B[] = {%s};\n' % (','.join(map(lit, D)) or 'T()', ','.join(map(str, B)) or '0'))
        f.write('\n'.join(tabs) + '\nint main(int argc, char **)\n{\n')
        f.write('const T *vD = D; const u8 *vB = B; asm volatile("" : "+r"(vD), "+r"(vB));\n')
        for j, p in enumerate(progs):
            for lab, ab, n in abis_:
                f.write('{ static constexpr auto o = cx_run<T, %s>(p%d, std::size(p%d), D, B); cx_put("%s", "%s", "%s", %d, o);\n' % (ab, j, j, p.id, t, lab, n))
                f.write('  const CIns<T> *q = p%d; asm volatile("" : "+r"(q)); cx_put("%s", "%s", "%s-rt", %d, cx_run<T, %s>(q, std::size(p%d), vD, vB)); }\n' % (j, p.id, t, lab, n, ab, j))
        f.write('}\n')
CX_ABIS = [('scalar', 'dpm::simd_abi::scalar', 1), ('packed3', 'dpm::simd_abi::ext::packed_buffer<3>', 3), ('packed8', 'dpm::simd_abi::ext::packed_buffer<8>', 8),
           ('one16', 'dpm::simd_abi::ext::aligned_vector<1, 16>', 1), ('packed5', 'dpm::simd_abi::ext::packed_buffer<5>', 5)]
def cx_check(rep, work, tier, seed):
    r = random.Random('C23-%s' % seed)
    types = ['i8', 'u16', 'i32', 'u32', 'i64', 'f32', 'f64', 'u8'] if tier == 'quick' else INT + FLT
    per, units = (8, 1) if tier == 'quick' else (20, 6)
    ab = CX_ABIS if tier == 'thorough' else CX_ABIS[:3]
    jobs, progs = [], []
    for t in types:
        for u in range(units):
            ps = [cx_prog(r, t, u * per + i) for i in range(per)]
            progs += ps; jobs.append((t, u, ps, False))
            ps = [cx_prog(r, t, u * per + i, True) for i in range(per)]
            progs += ps; jobs.append((t, u, ps, True))
    assert len({p.id for p in progs}) == len(progs)
    isas = ['sse2', 'avx2']
    def one(j):
        t, u, ps, nat = j[0]; isa = j[1]
        src = os.path.join(work, 'cx_%s_%d_%d_%s.cpp' % (t, u, nat, isa)); exe = src[:-4]
        cx_emit(ps, t, CX_NABIS(t) if nat else ab, src, nat)
        p = cxx(['-O0', '-fpermissive', '-fconstexpr-ops-limit=2000000000', '-fconstexpr-loop-limit=10000000'] + ISA[isa] + [src, '-o', exe])
        if p.returncode: return j, None, p.stderr
        q = subprocess.run([exe], capture_output=True, text=True, timeout=120)
        log = exe + '.log'; open(log, 'w').write(q.stdout)
        return j, log, q.returncode
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, [(j, i) for j in jobs for i in isas]))
    corpus = Corpus()
    for (job, isa), log, rc in res:
        if log is None: compile_violation(rep, CompileFailure('%s/%s' % (isa, job[0]), rc)); continue
        corpus.add_logs({isa: (log, rc, '')}, progs)
    mm, st = validate(corpus, work)
    for idx, step in mm:
        info = describe(corpus, idx, step); info['where_s'] = ' '.join(info['where'])
        rep.violation(info)
    for isa, rc, cur, so in corpus.timeouts: rep.violation({'what': 'run-time evaluation on %s ended abnormally (rc %s) at %s' % (isa, rc, cur)})
    rep.cov['states'] += st['distinct']; rep.cov['transitions'] += st['generated']
    rep.cov['traces_validated_against_impl'] += len(corpus)
    rep.cov['executions'] = sum(len(o[3]) for o in corpus.order)
    rep.cov['samples'] += [{'program': o[1].id, 'configurations': ['%s/%s' % l for l in o[3]], 'first_outcomes': o[0][3].splitlines()[:4]} for o in corpus.order[:2]]

# ------------------------------------------------------------------ C25
CPU_SRC = 'dpm/detail/x86/cpuid.cpp'
CPU_CFG = [('g++', '-O2', True), ('g++', '-O0', True), ('clang++', '-O2', False)]
CPU_CFG_T = CPU_CFG + [('g++', '-O3', False), ('g++', '-O1', True), ('clang++', '-O0', True), ('g++', '-O2 -fPIC', True), ('g++', '-Os -mavx2', True)]
def cpu_build(work, j, cfg):
    """the library's detection with its cpuid and xgetbv instructions turned into calls"""
    cc, opt, inl = cfg
    flags = ['-std=c++20', '-w', '-mno-red-zone', '-I' + REPO] + (['-DDPM_INLINE_EXTENSIONS'] if inl else []) + opt.split()
    asm, exe, drv = (os.path.join(work, 'cpu%d%s' % (j, x)) for x in ('.s', '', '.o'))
    d = os.path.join(VERIF, 'driver', 'cpu')
    def run(c):
        p = subprocess.run(c, capture_output=True, text=True)
        if p.returncode: raise CompileFailure('%s %s' % (cc, opt), p.stderr)
    run([cc] + flags + ['-S', os.path.join(REPO, CPU_SRC), '-o', asm])
    text, n = open(asm).read(), 0
    for pat, to in ((r'cpuid', 'vp_cpuid'), (r'xgetbv', 'vp_xgetbv'), (r'\.byte\s+(?:0x0?f|15)(?:\s*,\s*|\s*\.byte\s+)(?:0x0?1|1)(?:\s*,\s*|\s*\.byte\s+)(?:0xd0|208)', 'vp_xgetbv')):
        text, k = re.subn(r'(?im)(^|;)(\s*)%s(?=\s*(?:$|;|#))' % pat, r'\1\2call %s' % to, text); n += k
    open(asm, 'w').write(text)
    run([cc] + flags + [os.path.join(d, 'cpudrv.cpp'), asm, os.path.join(d, 'stub.S'), '-ldl', '-o', exe])
    o = subprocess.run([cc, '-c', asm, '-o', drv]).returncode or subprocess.run(['objdump', '-d', '--no-show-raw-insn', drv], capture_output=True, text=True).stdout
    if not n or re.search(r'\t(cpuid|xgetbv)\b', str(o)): raise Broken('identification instructions of %s were not replaced' % CPU_SRC)
    return exe

def cpu_procs(work, deep, rep):
    rc, out, st = tlc('CpuModel', work=work, workers=4, consts={'Deep': 'TRUE' if deep else 'FALSE'})
    if 'No error has been found' not in out: raise Broken('CpuModel: ' + out[-1500:])
    rep.cov['states'] += st['distinct']; rep.cov['transitions'] += st['generated']
    procs = []
    for l in out.splitlines():
        if '"PROC' not in l and 'PROC' not in l: continue
        l = re.sub(r'(\d+)\.\.(\d+)', lambda m: str(list(range(int(m[1]), int(m[2]) + 1))), json.loads(l.strip()))
        v = json.loads(l.replace('<<', '[').replace('>>', ']').replace('{', '[').replace('}', ']'))
        procs.append(dict(zip(('vendor', 'max', 'l1c', 'l1d', 'l7b', 'sub', 'junk', 'xcr0', 'os'), v[1:])))
    return sorted(procs, key=str)

OSNAMES = 'fpu vme de pse tsc msr pae mce cx8 apic sep mtrr pge mca cmov pat pse36 clflush mmx fxsr {sse} {sse2} ht syscall nx lm constant_tsc rep_good nopl {pni} pclmulqdq {ssse3} cx16 pcid {sse4_1} {sse4_2} x2apic movbe popcnt aes hypervisor lahf_lm abm cpuid_fault'
def cpuinfo(os_, k, ncpu):
    fl = ' '.join(OSNAMES.format(**{n: n if n in os_ else '' for n in ('sse', 'sse2', 'pni', 'ssse3', 'sse4_1', 'sse4_2')}).split())
    rec = 'processor\t: %d\nvendor_id\t: GenuineIntel\ncpu family\t: 6\nmodel\t\t: %d\nmodel name\t: Virtual CPU %d\nstepping\t: 7\nmicrocode\t: 0x1\ncpu MHz\t\t: 2500.000\ncache size\t: 36608 KB\nphysical id\t: 0\nfpu\t\t: yes\ncpuid level\t: 31\nwp\t\t: yes\nflags\t\t: ' + fl + '\nbugs\t\t: spectre_v1 swapgs\nbogomips\t: 5000.00\nclflush size\t: 64\ncache_alignment\t: 64\naddress sizes\t: 46 bits physical, 48 bits virtual\npower management:\n\n'
    return ''.join(rec % (i, k, k) for i in range(ncpu))

def cpu_check(rep, work, tier, seed):
    deep = tier == 'thorough'
    procs = cpu_procs(work, deep, rep)
    if not procs: raise Broken('no processors generated')
    r = random.Random('C25-%s' % seed)
    def rb(p): return [b for b in range(32) if r.random() < p]
    for _ in range(150 if not deep else 3000):   # arbitrary register contents
        p = dict(vendor=r.choice(['GenuineIntel', 'AuthenticAMD', 'HygonGenuine', 'TCGTCGTCGTCG']), max=r.choice([0, 1, 4, 6, 7, 7, 13, 22, 31]), l1c=rb(.5), l1d=rb(.6), l7b=rb(.5), sub=rb(.3), junk=rb(.3),
                 xcr0=sorted({0} | {b for b in (1, 2, 5, 6, 7, 9) if r.random() < .8}), os=['sse', 'sse2', 'pni', 'ssse3', 'sse4_1', 'sse4_2'][:r.randrange(7)])
        if 27 in p['l1c']: p['l1c'] = sorted(set(p['l1c']) | {26})
        procs.append(p)
    exes = []
    for j, c in enumerate(CPU_CFG_T if deep else CPU_CFG):
        try: exes.append((c, cpu_build(work, j, c)))
        except CompileFailure as e: compile_violation(rep, e); return
    reg = lambda bs: '%x' % sum(1 << b for b in bs)
    infos = {}
    def info(os_, n):
        k = (tuple(os_), n)
        if k not in infos:
            infos[k] = os.path.join(work, 'cpuinfo%d' % len(infos)); open(infos[k], 'w').write(cpuinfo(os_, len(infos), n))
        return infos[k]
    jobs = []
    for j, (c, exe) in enumerate(exes):
        for k, p in enumerate(procs):
            jobs.append((c, exe, p, {'VP_CPU': '%s %x %s %s %s %s %s %s' % (p['vendor'], p['max'], reg(p['l1c']), reg(p['l1d']), reg(p['l7b']), reg(p['sub']), reg(p['junk']), reg(p['xcr0'])),
                                     'VP_CPUINFO': info(p['os'], 1 + k % 2)}))
        jobs.append((c, exe, None, {'VP_CPU': 'real'}))
    def one(j):
        try: q = subprocess.run([j[1]], capture_output=True, text=True, env=dict(os.environ, **j[3]), timeout=60)
        except subprocess.TimeoutExpired: return j, -1, []
        return j, q.returncode, [json.loads(l) for l in q.stdout.splitlines()]
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(one, jobs))
    rows = []
    for j, rc, ev in res:
        if rc or not ev: rep.violation({'what': 'feature detection built with %s %s ended abnormally (rc %s) on %s' % (j[0][0], j[0][1], rc, j[3]['VP_CPU'])}); continue
        p = j[2]
        if p is None:
            z = [e for e in ev if e['ev'] == 'self'][0]; ev = [e for e in ev if e['ev'] != 'self']
            have = open('/proc/cpuinfo').read().split('flags', 1)[-1].split('\n', 1)[0].split()
            p = dict(z, sub=[], junk=[], os=[n for n in ('sse', 'sse2', 'pni', 'ssse3', 'sse4_1', 'sse4_2') if n in have])
        rows.append((j, {'h': dict({k: p[k] for k in ('vendor', 'max', 'l1c', 'l1d', 'l7b', 'sub', 'junk', 'xcr0', 'os')}, virtual=int(j[2] is not None)), 'ev': ev}))
    # the same behaviour from differently built detectors is one trace
    uniq = {}
    for j, row in rows: uniq.setdefault(json.dumps(row), []).append(j)
    keys = list(uniq)
    path = os.path.join(work, 'cpu.ndjson')
    with open(path, 'w') as f: f.writelines(k + '\n' for k in keys)
    rc, out, st = tlc('CpuTrace', env={'TRACE': path}, work=work)
    if 'CONSUMED' not in out or st is None: raise Broken('TLC did not consume the reports: ' + out[-1500:])
    for a, b in sorted({(int(a), int(b)) for a, b in re.findall(r'<<"MISMATCH", (\d+), (\d+)', out)}):
        row = json.loads(keys[a - 1]); j = uniq[keys[a - 1]]
        inf = {'what': 'processor %s: %s' % (j[0][3]['VP_CPU'], json.dumps(row['ev'][b - 1])), 'where': sorted({'%s %s' % x[0][:2] for x in j}), 'processor': row['h'], 'history': row['ev']}
        k = rep.match_known(inf)
        if k: rep.knownhit[k['what']] = rep.knownhit.get(k['what'], 0) + 1; continue
        rep.violation(inf)
        if len(rep.viol) > 5: break
    rep.cov['states'] += st['distinct']; rep.cov['transitions'] += st['generated']
    rep.cov['traces_validated_against_impl'] += len(keys)
    rep.cov['executions'] = len(jobs); rep.cov['processors'] = len(procs) + 1
    rep.cov['samples'] += [{'processor': json.loads(k)['h'], 'history': json.loads(k)['ev']} for k in keys[::max(1, len(keys) // 3)]][:3]
    rep.assume += ['x86 Linux branch of the detection; other platforms not compiled here']

CHECKS = {
    'C25': cpu_check,
    'C24': env_check,
    'C26': opt_check,
    'C23': cx_check,
    'C22': abi_check,
    'C19': math_check('special', .5, 8, 60),
    'C20': math_check('accuracy', .0, 10, 120),
}
