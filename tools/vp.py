"""Shared machinery: build drivers from /repo, run programs, validate the recorded traces with TLC."""
import os, sys, re, json, time, random, shutil, subprocess, tempfile, hashlib, struct
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRV = os.path.join(VERIF, 'driver')
JAVA = ['java', '-Xss64m', '-XX:+UseParallelGC', '-cp',
        '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC']
NCPU = os.cpu_count() or 8
INT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
FLT = ['f32', 'f64']
SIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f32': 4, 'f64': 8}
CPP = {'i8': 'std::int8_t', 'u8': 'std::uint8_t', 'i16': 'std::int16_t', 'u16': 'std::uint16_t', 'i32': 'std::int32_t',
       'u32': 'std::uint32_t', 'i64': 'std::int64_t', 'u64': 'std::uint64_t', 'f32': 'float', 'f64': 'double'}
ISA = {'sse2': ['-msse2'], 'sse42': ['-msse4.2'], 'avx': ['-mavx'], 'avx2': ['-mavx2', '-mfma'],
       'sse3': ['-msse3'], 'ssse3': ['-mssse3'], 'avx2nofma': ['-mavx2', '-mno-fma'], 'dbg': ['-mavx2', '-mfma'],
       'sse41': ['-msse4.1'], 'clang': ['@clang', '-mavx2', '-mfma'], 'clangsse': ['@clang', '-msse4.2']}
AVX512 = ['-mavx512f', '-mavx512bw', '-mavx512dq', '-mavx512vl', '-mavx512cd', '-mavx2', '-mfma']
ISA['avx512'] = AVX512
def have_avx512():
    try: fl = set(re.search(r'^flags\s*:(.*)$', open('/proc/cpuinfo').read(), re.M).group(1).split())
    except Exception: return False
    return {'avx512f', 'avx512bw', 'avx512dq', 'avx512vl', 'avx512cd', 'avx2', 'fma'} <= fl
# the AVX-512 kernels are exercised only where the processor can run them
HAVE512 = have_avx512()
QUICK_ISA = os.environ['VP_ISAS'].split(',') if os.environ.get('VP_ISAS') else ['sse2', 'sse42', 'avx', 'avx2', 'dbg']
DEFS = ['-DDPM_INLINE_EXTENSIONS', '-DDPM_HANDLE_ERRORS', '-DDPM_PROPAGATE_NAN']
MAXN = 80

class Broken(Exception):
    """The check itself could not give an answer."""

class CompileFailure(Exception):
    def __init__(self, what, log): self.what, self.log = what, log

# ------------------------------------------------------------------ ABI matrix
# other types of the same representation, used in place of the fixed-width ones on one instruction set
ALT = {'avx': {'i8': 'char', 'u8': 'char8_t', 'i16': 'short', 'u16': 'char16_t', 'i32': 'wchar_t', 'u32': 'char32_t', 'i64': 'long long', 'u64': 'unsigned long long'}}
def cpp(t, isa): return ALT.get(isa, {}).get(t, CPP[t])

def abis(t, isa, tier='quick'):
    """(label, C++ ABI, generic?) list for element type t on an instruction set."""
    s = SIZE[t]
    r = []
    avx = isa.startswith('avx') or isa in ('dbg', 'clang')
    if isa in ('sse2', 'avx2'):
        r += [('scalar', 'dpm::simd_abi::scalar'), ('packed5', 'dpm::simd_abi::ext::packed_buffer<5>')]
    r.append(('fixed3', 'dpm::simd_abi::fixed_size<3>'))
    r.append(('a16', 'dpm::simd_abi::ext::aligned_vector<%d,16>' % (16 // s + (3 if s < 8 else 1))))
    r.append(('native', 'dpm::simd_abi::native<%s>' % cpp(t, isa)))
    if avx:
        r.append(('a32', 'dpm::simd_abi::ext::aligned_vector<%d,32>' % (32 // s + 16 // s + 1)))
        r.append(('sse', 'dpm::simd_abi::ext::sse<%s>' % cpp(t, isa)))
    else:
        r.append(('a16w', 'dpm::simd_abi::ext::aligned_vector<%d,16>' % (32 // s + 8 // s)))
    if isa == 'sse42':      # many registers
        r.append(('wide', 'dpm::simd_abi::ext::aligned_vector<%d,16>' % {1: 79, 2: 43, 4: 21, 8: 11}[s]))
    if tier == 'thorough':
        r.append(('fixedW', 'dpm::simd_abi::fixed_size<%d>' % (32 // s + 3)))
        r.append(('a32s', 'dpm::simd_abi::ext::aligned_vector<%d,32>' % (16 // s + 1)))
        r.append(('fixed2', 'dpm::simd_abi::fixed_size<2>'))
        r.append(('packed13', 'dpm::simd_abi::ext::packed_buffer<13>'))
        if s <= 2: r.append(('a16x', 'dpm::simd_abi::ext::aligned_vector<%d,16>' % (16 // s - 1)))
    return r

def sweep_abis(t, isa, tier='quick'):
    """Every fill level of one register: the lengths 1..W+1 (thorough also both register widths)."""
    s = SIZE[t]
    avx = isa.startswith('avx') or isa in ('dbg', 'clang')
    W = 32 if avx else 16
    r = [('w%d' % n, 'dpm::simd_abi::ext::aligned_vector<%d,%d>' % (n, W)) for n in range(1, W // s + 2)]
    if tier == 'thorough' and avx: r += [('h%d' % n, 'dpm::simd_abi::ext::aligned_vector<%d,16>' % n) for n in range(1, 16 // s + 2)]
    return r

# ----------------------------------------------------------------- compilation
def cxx(args, cwd=None, timeout=600):
    # the marker '@clang' selects the other compiler
    cc = 'clang++' if '@clang' in args else 'g++'
    args = [a for a in args if a != '@clang']
    p = subprocess.run([cc, '-std=c++20', '-w', '-fwrapv', '-I' + REPO, '-I' + DRV] + DEFS + args + ['-I' + os.path.join(DRV, 'gen')],
                       capture_output=True, text=True, cwd=cwd, timeout=timeout)
    return p

def compile_obj(src, obj, flags):
    p = cxx(flags + ['-c', src, '-o', obj])
    if p.returncode:
        if p.returncode < 0 or 'Killed' in p.stderr or 'internal compiler error' in p.stderr or 'No space left' in p.stderr:
            raise Broken('compiler failed: ' + p.stderr[-2000:])
        raise CompileFailure(os.path.basename(src), p.stderr)
    return obj

def lib_src():
    d = os.path.join(REPO, 'dpm', 'detail')
    return sorted(os.path.join(b, f) for b, _, fs in os.walk(d) for f in fs if f.endswith('.cpp'))

class Build:
    """Drivers for a family set over (isa, type group)."""
    def __init__(self, work, fams, types, isas=None, tier='quick', opt='-O1', lib=False, extra='', groups=None, abi_fn=None, cflags=(), off=()):
        # off: library options switched off, in the driver and in the library
        self.off = ['-U' + o for o in off]
        self.cflags = list(cflags) + self.off
        self.work, self.fams, self.tier, self.opt, self.lib = work, fams, tier, opt, lib
        self.isas = isas or (QUICK_ISA + (['ssse3', 'avx2nofma', 'sse41'] if tier == 'thorough' else []))
        self.types, self.extra = types, extra
        self.abi_fn = abi_fn or abis
        self.exes = {}
    def tu(self, isa, t):
        fn = os.path.join(self.work, 'tu_%s_%s.cpp' % (isa, t))
        L = ['#define F_%s' % f for f in self.fams]
        L += ['#include "common.hpp"', self.extra if self.extra else '', '#include "fam.hpp"', 'namespace {']
        for k, (lab, ab) in enumerate(self.abi_fn(t, isa, self.tier)):
            L.append('Reg<%s, %s> r%d("%s");' % (cpp(t, isa), ab, k, lab))
        L.append('}')
        open(fn, 'w').write('\n'.join(L) + '\n')
        return fn
    def flags(self, isa):
        o = ['-O0', '-UNDEBUG'] if isa == 'dbg' else [self.opt, '-DNDEBUG']
        return o + ISA[isa] + self.cflags
    def build(self):
        jobs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            mainobj = {}
            for isa in self.isas:
                o = os.path.join(self.work, 'main_%s.o' % isa)
                jobs.append(ex.submit(compile_obj, os.path.join(DRV, 'main.cpp'), o, self.flags(isa)))
                mainobj[isa] = [o]
            if self.lib:
                for isa in self.isas:
                    for src in lib_src():
                        s = os.path.relpath(src, REPO).replace('/', '_')
                        o = os.path.join(self.work, 'lib_%s_%s.o' % (isa, s))
                        jobs.append(ex.submit(compile_obj, src, o, (['-O2', '-DNDEBUG'] if isa != 'dbg' else ['-O0']) + ISA[isa] + self.off))
                        mainobj[isa].append(o)
            objs = {}
            for isa in self.isas:
                for t in self.types:
                    src = self.tu(isa, t)
                    o = src[:-4] + '.o'
                    objs[(isa, t)] = o
                    jobs.append(ex.submit(compile_obj, src, o, self.flags(isa)))
            err = None
            for j in jobs:
                try: j.result()
                except CompileFailure as e: err = err or e
            if err: raise err
            links = []
            for isa in self.isas:
                exe = os.path.join(self.work, 'drv_%s' % isa)
                self.exes[isa] = exe
                links.append(ex.submit(cxx, ['-o', exe] + [objs[(isa, t)] for t in self.types] + mainobj[isa]))
            for l in links:
                p = l.result()
                if p.returncode: raise CompileFailure('link', p.stderr)
        return self
    def run(self, progfile, tag, timeout=300):
        outs = {}
        def one(isa):
            out = os.path.join(self.work, 'log_%s_%s' % (tag, isa))
            p = subprocess.run([self.exes[isa], progfile, out, str(timeout)], capture_output=True, text=True, timeout=timeout + 60)
            return isa, out, p.returncode, p.stdout
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for isa, out, rc, so in ex.map(one, self.isas):
                outs[isa] = (out, rc, so)
        return outs

# -------------------------------------------------------------------- programs
class Prog:
    def __init__(self, pid, t): self.id, self.t, self.ins = pid, t, []
    def op(self, name, d=0, a=0, b=0, c=0, k=0, x=None, y=None):
        self.ins.append((name, d, a, b, c, k, x, y)); return self
    def text(self):
        L = ['prog %s %s' % (self.id, self.t)]
        for n, d, a, b, c, k, x, y in self.ins:
            L.append('%s %d %d %d %d %d %s %s' % (n, d, a, b, c, k, x.hex() if x else '-', y.hex() if y else '-'))
        return '\n'.join(L)

MASKX = {'mlit', 'mgen', 'mldm', 'mbc', 'mset', 'meset', 'shuf', 'mshuf', 'setmem'}
NOX = {'mov', 'blend'}
RM = ['ne', 'd', 'u', 'z']      # as encoded in MXCSR
def tok(s):
    c = s[0]
    if c == 'b': return [int(ch) for ch in s[1:]]
    if c == 'i': return int(s[1:])
    if c == 'm': return list(bytes.fromhex(s[1:]))
    if c == 'e': return [RM[int(s[1])], int(s[2]), [int(ch) for ch in s[3:8]]]
    n, h = s.split(':', 1)
    n = int(n)
    bts = bytes.fromhex(h)
    return [list(bts[i:i + n]) for i in range(0, len(bts), n)]
TOK = re.compile(r'\?|b\d*|i-?\d+|m[0-9a-f]*|e[0-3][01][01]{5}|[1-9]\d*:[0-9a-f]*')
def garbled(toks):
    """the operation died (marked !), before or while its results were reported, or wrote outside its object (x..)"""
    return any(not TOK.fullmatch(x) for x in toks)
def lanes(bts, s): return [list(bts[i:i + s]) for i in range(0, len(bts), s)]

# shuffle index lists: mirrors driver/fam.hpp
SHUF_SEED = 1
def shuf_list(L, n):
    ln = {7: 1, 8: max(n - 1, 1), 9: n + 1, 10: 2, 11: 2 * n, 12: n // 2 + 1, 13: 3, 14: 4, 15: 8, 16: n + 3}.get(L, n)
    def idx(i):
        if L == 0: return i
        if L == 1: return n - 1 - i
        if L == 2: return n - 1
        if L == 3: return (i + 1) % n
        if L == 4: return i // 2
        if L == 5: return (n // 2 + i // 2) % n if i % 2 else i // 2
        if L == 6: return (i + n // 2) % n
        if L == 8: return i
        if L in (9, 11): return i % n
        if L == 17: return 0 if i == n - 1 else i
        if L == 18: return (i ^ 1) % n
        h = 2166136261
        for x in (SHUF_SEED, L, i, n): h = ((((h ^ x) * 16777619) & 0xffffffff) ^ (h >> 15))
        return (h >> 8) % n
    return [idx(i) for i in range(ln)]

# operations whose destination / operands the specification reads
def event(ins, toks, t, n):
    name, d, a, b, c, k, x, y = ins
    p = name.split('.')
    e = {'o': p[0], 'd': d, 'a': a, 'b': b, 'c': c, 'k': k}
    e['f'] = p[1] if len(p) > 1 else '-'
    e['w'] = p[2] if len(p) > 2 else '-'
    if p[0] in ('el', 'elsc', 'eli'): return math_event(e, p, toks, t, n, x, y)
    if name == 'env.raise':
        e['x'] = [k >> j & 1 for j in range(5)]
    if p[0] == 'setmem': x = x[:a + (n - min(c, n)) * b]
    elif p[0] in ('ld', 'st', 'mld', 'mst'):
        # element kind and size; c < 0: unmasked
        e['f'], e['b'] = p[1][0], SIZE.get(p[1], 1)
        if p[2][0] != 'm': e['c'] = -1
        e['w'] = 'keep' if p[2] in ('me', 'mv') else '-'
    elif name == 'mlit.-.tail': x = bytes(v if i + c < n else 0 for i, v in enumerate(x[:n]))
    if p[0] == 'cvt': e['f'], e['b'] = p[1][0], SIZE[p[1]]
    if p[0] in ('pv', 'ps'): e['w'], e['b'] = p[2][0], SIZE[p[2]]
    if p[0] in ('shuf', 'mshuf', 'shufd'):
        e['x'] = shuf_list(k, n)
        if p[0] == 'shufd' and len(e['x']) != n: e['x'] = list(range(n))
    if x is not None:
        if p[0] in MASKX: e['x'] = list(x)
        elif p[0] in ('pv', 'ps'): e['x'] = lanes(x, SIZE[p[2]])[:n]
        elif p[0] in ('scale', 'pscale'): e['x'] = lanes(x, 8 if p[1] == 'scalbln' else 4)
        else: e['x'] = lanes(x, SIZE[t])
        if p[0] in ('lit', 'mlit', 'gen', 'mgen', 'mldm', 'scale', 'pscale'): e['x'] = e['x'][:n]
    if y is not None: e['y'] = lanes(y, SIZE[t])
    if not toks: raise Broken('no outcome for ' + name)
    if garbled(toks): return {'o': 'crash', 'env': []}
    if toks[0] == '?': raise Broken('driver does not know ' + name + ' for ' + t)
    if toks[-1][0] == 'e':
        e['env'] = tok(toks[-1]); toks = toks[:-1]
    if toks: e['r'] = tok(toks[0])
    if len(toks) > 1: e['q'] = tok(toks[1])
    return e

REF = {}      # (function, type, argument bytes, second argument bytes or None) -> enclosure
def math_event(e, p, toks, t, n, x, y):
    if not toks: raise Broken('no outcome for ' + '.'.join(p))
    if garbled(toks): return {'o': 'crash', 'env': []}
    if toks[0] == '?': raise Broken('driver does not know ' + '.'.join(p) + ' for ' + t)
    s = SIZE[t]
    L = lambda z: [z[i * s:(i + 1) * s] for i in range(n)]
    a = L(x); b = L(y) if y else [None] * n
    env = []
    if toks[-1][0] == 'e': env = tok(toks[-1]); toks = toks[:-1]
    r = {'env': env, 'o': p[0], 'f': p[1], 'a': [list(v) for v in a], 'b': [list(v) for v in b] if y else [], 'two': bool(y),
         'r': tok(toks[0]), 'q': tok(toks[1]) if len(toks) > 1 else [],
         'ref': [REF[(p[1], t, u, v)] for u, v in zip(a, b)], 'qref': []}
    if r['q']: r['qref'] = [REF[('cos', t, u, None)] for u in a]
    return r

class Corpus:
    """Recorded traces, deduplicated over ABI and instruction set."""
    def __init__(self): self.keys, self.order, self.events = {}, [], 0; self.timeouts = []
    def add_logs(self, outs, progs, header=None):
        byid = {p.id: p for p in progs}
        for isa, (log, rc, so) in outs.items():
            cur = None
            complete = False
            with open(log, errors='replace') as f:
                for line in f:
                    if line[0] == 'T':
                        _, pid, t, ab, n = line.split()
                        cur = (pid, t, ab, int(n)); body = []
                    elif line[0] == 'E':
                        hd = header(isa, cur[2]) if header else {}
                        key = (cur[0], cur[3], json.dumps(hd, sort_keys=True), ''.join(body))
                        if key not in self.keys:
                            self.keys[key] = len(self.order); self.order.append((key, byid[cur[0]], hd, []))
                        self.order[self.keys[key]][3].append((isa, cur[2]))
                        self.events += len(body); cur = None
                    elif cur: body.append(line)
            if rc != 0 or cur is not None:
                self.timeouts.append((isa, rc, cur, so.strip()[-200:]))
    def write(self, path, sel=None):
        with open(path, 'w') as f:
            for idx, (key, p, hd, labels) in enumerate(self.order):
                if sel is not None and idx not in sel: continue
                t, n = p.t, key[1]
                ev = []
                for line in key[3].splitlines():
                    parts = line.split(' ')
                    if len(parts) < 2: continue
                    e = event(p.ins[int(parts[0])], parts[1:], t, n)
                    ev.append(e)
                    if e['o'] == 'crash': break
                tr = {'k': t[0], 's': SIZE[t], 'n': n, 'fused': 0, 'opt': 2, 'env': int(any(i[0].startswith('env.') for i in p.ins))}
                tr.update(hd)
                tr['ev'] = ev
                f.write(json.dumps(tr, separators=(',', ':')) + '\n')
    def __len__(self): return len(self.order)

# ------------------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, workers=None, timeout=3000, work=None, extra=(), consts=None):
    """Runs TLC in a scratch copy of spec/; returns (rc, output, stats)."""
    work = work or tempfile.mkdtemp(prefix='vp-tlc-')
    d = tempfile.mkdtemp(prefix='tlc-', dir=work)
    for f in os.listdir(SPEC):
        if f.endswith(('.tla', '.cfg')): shutil.copy(os.path.join(SPEC, f), d)
    for k, v in (consts or {}).items():
        fn = os.path.join(d, cfg or module + '.cfg'); text = open(fn).read()
        open(fn, 'w').write(re.sub(r'\b%s = \S+' % k, lambda _: '%s = %s' % (k, v), text))
    e = dict(os.environ); e.update(env or {})
    cmd = JAVA + ['-workers', str(workers or NCPU), '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE', '-config', cfg or module + '.cfg'] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken('TLC timed out on ' + module)
    finally:
        shutil.rmtree(os.path.join(d, 'states'), ignore_errors=True)
    out = p.stdout + p.stderr
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    st = {'generated': int(m.group(1)), 'distinct': int(m.group(2))} if m else None
    shutil.rmtree(d, ignore_errors=True)
    return p.returncode, out, st

def validate(corpus, work, sel=None, module='Trace', env=None):
    """Checks the recorded traces; returns (mismatches [(trace index, step)], stats)."""
    path = os.path.join(work, 'traces.ndjson')
    corpus.write(path, sel)
    idxs = sorted(sel) if sel is not None else list(range(len(corpus.order)))
    ev = {'TRACE': path}
    ev.update(env or {})
    rc, out, st = tlc(module, env=ev, work=work)
    if 'CONSUMED' not in out or st is None:
        keep = os.path.join('/tmp', 'vp-tlc-failure.txt')
        open(keep, 'w').write(out)
        raise Broken('TLC did not consume the traces (%s):\n%s' % (keep, '\n'.join(l for l in out.splitlines() if 'rror' in l or 'STUCK' in l)[:1500]))
    mm = sorted({(idxs[int(a) - 1], int(b) - 1) for a, b in re.findall(r'<<"MISMATCH", (\d+), (\d+)', out)})
    return mm, st
