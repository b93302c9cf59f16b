"""Program generators, one per property."""
import math
from vp import *
from values import *

def start(p, r, t, nv=4, nm=0, **kw):
    for d in range(nv): p.op('lit', d, x=vec(r, t, **kw))
    for d in range(nm): p.op('mlit', d, x=mask(r))
def rv(r, n=4): return r.randrange(n)

class Fam:
    def __init__(self, pid, types, fams, gen, quick, thorough, sweep=0, sweep_thorough=0, **kw):
        self.pid, self.types, self.fams, self.gen, self.quick, self.thorough = pid, types, fams, gen, quick, thorough
        # programs per type for the sweep over every register fill level (0: no sweep)
        self.sweep, self.sweep_thorough = sweep, sweep_thorough
        self.kw = kw

# ---- C01 integer arithmetic
def divisor(r, t):
    while True:
        b = rnd(r, t)
        v = int.from_bytes(b, 'little')
        if v and v != (1 << 8 * SIZE[t]) - 1: return b
def g_c01(r, t, i):
    p = Prog('a%d' % i, t); start(p, r, t)
    for _ in range(26):
        d, a, b = rv(r), rv(r), rv(r)
        o = r.choice(['add', 'sub', 'mul', 'mul', 'un', 'inc', 'div', 'mod', 'lit'])
        if o == 'lit': p.op('lit', d, x=vec(r, t))
        elif o in ('add', 'sub', 'mul'):
            w = r.choice(['v', 'v', 'vq', 's', 'sq'])
            p.op('bin.%s.%s' % (o, w), d, a, b, x=rnd(r, t) if w[0] == 's' else None)
        elif o == 'un': p.op(r.choice(['un.neg', 'un.neg', 'un.pos']), d, a)
        elif o == 'inc': p.op('inc.%s.%s' % (r.choice(['inc', 'dec']), r.choice(['pre', 'post'])), d)
        else:
            w = r.choice(['v', 'vq', 's', 'sq'])
            if w[0] == 's': p.op('bin.%s.%s' % (o, w), d, a, b, x=divisor(r, t))
            else:
                # the divisor register is loaded just before, with non-zero lanes that cannot overflow
                b = (d + 1) % 4
                p.op('lit', b, x=b''.join(divisor(r, t) for _ in range(MAXN)))
                if a == b: a = d
                p.op('bin.%s.%s' % (o, w), d, a, b)
    for d in range(4): p.op('dumpv', 0, d)
    return p

# ---- C02 bitwise and shifts
def counts(r, t):
    w = 8 * SIZE[t]
    return b''.join(iv(t, r.choice([0, 1, w - 1, w // 2, r.randrange(w), r.randrange(w)])) for _ in range(MAXN))
KS = {1: [0, 1, 2, 3, 4, 5, 6, 7], 2: [0, 1, 3, 4, 7, 8, 9, 12, 14, 15], 4: [0, 1, 4, 7, 8, 15, 16, 17, 24, 30, 31], 8: [0, 1, 8, 16, 24, 31, 32, 33, 40, 47, 48, 62, 63]}
def g_c02(r, t, i):
    p = Prog('b%d' % i, t); start(p, r, t)
    w = 8 * SIZE[t]
    for _ in range(28):
        d, a, b = rv(r), rv(r), rv(r)
        o = r.choice(['and', 'or', 'xor', 'not', 'shv', 'shv', 'shi', 'shi', 'shk', 'shk', 'lit'])
        if o == 'lit': p.op('lit', d, x=vec(r, t))
        elif o in ('and', 'or', 'xor'):
            f = r.choice(['v', 'vq', 's', 'sq'])
            p.op('bin.%s.%s' % (o, f), d, a, b, x=rnd(r, t) if f[0] == 's' else None)
        elif o == 'not': p.op('un.not', d, a)
        elif o == 'shv':
            p.op('lit', 4, x=counts(r, t))
            p.op('bin.%s.%s' % (r.choice(['shl', 'shr']), r.choice(['v', 'vq'])), d, a, 4)
        elif o == 'shi': p.op('shk.%s.%s' % (r.choice(['shli', 'shri']), r.choice(['v', 'vq'])), d, a, k=r.randrange(w))
        else:
            ks = [k for k in KS[SIZE[t]] if k < w - (1 if t[0] == 'i' else 0)]
            p.op('shk.%s.v' % r.choice(['lsl', 'lsr'] + (['asl', 'asr'] if t[0] == 'i' else [])), d, a, k=r.choice(ks))
    for d in range(4): p.op('dumpv', 0, d)
    return p

# ---- C03 comparisons
def near(r, t, base):
    """lanes equal or close to those of base (so that ties and neighbours occur)"""
    s = SIZE[t]; out = b''
    for j in range(MAXN):
        b = base[j * s:(j + 1) * s]
        c = r.random()
        if c < .35: out += b
        elif c < .6: out += iv_any(int.from_bytes(b, 'little') + r.choice([-1, 1]), s)
        elif c < .75: out += iv_any(int.from_bytes(b, 'little') ^ (1 << (8 * s - 1)), s)
        else: out += rnd(r, t)
    return out
def iv_any(v, s): return (v % (1 << 8 * s)).to_bytes(s, 'little')
CMPS = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']
def g_c03(r, t, i):
    p = Prog('c%d' % i, t)
    x0, x1 = vec(r, t), vec(r, t)
    p.op('lit', 0, x=x0).op('lit', 1, x=near(r, t, x0)).op('lit', 2, x=x1).op('lit', 3, x=near(r, t, x1))
    for d in range(4): p.op('mlit', d, x=mask(r))
    for _ in range(4):
        for c in CMPS: p.op('cmp.%s.v' % c, rv(r), *r.choice([(0, 1), (1, 0), (2, 3), (3, 2), (0, 2), (1, 3), (0, 0)]))
        p.op('lnot', rv(r), rv(r))
        p.op('mred.%s' % r.choice(['all', 'any', 'none', 'some', 'count', 'minidx', 'maxidx']), 0, rv(r))
        p.op('blend', 4, rv(r), rv(r), rv(r))
        x0 = vec(r, t); p.op('lit', 0, x=x0).op('lit', 1, x=near(r, t, x0))
        if r.random() < .4:
            z = b''.join(r.choice([iv_any(0, SIZE[t]), iv_any(1 << (8 * SIZE[t] - 1), SIZE[t]), iv_any(1, SIZE[t])]) for _ in range(MAXN))
            p.op('lit', 2, x=z).op('lnot', rv(r), 2)
    for d in range(4): p.op('dumpm', 0, d)
    return p

# ---- C04 mask algebra
def meset_op(r, p, d, a, b):
    k = r.randrange(4096)
    if r.random() < .3: p.op('meget.' + r.choice(['and', 'or', 'xor']), 0, a, b, k=k)
    else: p.op('meset.' + r.choice(['cp', 'and', 'or', 'xor', 'sw', 'sw', 'bsw']), d, a, c=r.getrandbits(1), k=k, x=bytes([r.getrandbits(1)])).op('dumpm', 0, a)
def mask_op(r, p, full=True, nm=4):
    d, a, b, c = rv(r, nm), rv(r, nm), rv(r, nm), rv(r, nm)
    o = r.choice(['mbin', 'mbin', 'mbin', 'mun', 'mlit', 'mgen', 'mldm', 'mget', 'mset', 'meset', 'conv', 'mmov', 'mbc'])
    if o == 'mbin':
        w = r.choice(['v', 'v', 'vq'])
        p.op('mbin.%s.%s' % (r.choice(['mand', 'mor', 'mxor'] + (['mland', 'mlor', 'meq', 'mne'] if w == 'v' else [])), w), d, a, b)
    elif o == 'mun': p.op('mun.' + r.choice(['not', 'bnot', 'neg', 'pos']), d, a)
    elif o == 'mlit': p.op(r.choice(['mlit', 'mlit.-.ctor', 'mlit.-.va']), d, x=mask(r))
    elif o == 'mgen': p.op('mgen', d, x=mask(r))
    elif o == 'mldm': p.op('mldm', d, c=c, x=mask(r))
    elif o == 'mget': p.op(r.choice(['mget', 'mget.-.ref']), 0, a, k=r.randrange(64))
    elif o == 'mset': p.op('mset.' + r.choice(['asg', 'asg', 'and', 'or', 'xor']), d, k=r.randrange(64), x=bytes([r.getrandbits(1)]))
    elif o == 'meset': meset_op(r, p, d, a, b)
    elif o == 'conv': p.op(r.choice(['msame.packed', 'mmov.packed', 'mmov.fixed', 'msame.other']), d, a)
    elif o == 'mmov': p.op('mmov', d, a)
    elif o == 'mbc': p.op('mbc', d, x=bytes([r.getrandbits(1)]))
def g_c04(r, t, i):
    p = Prog('d%d' % i, t)
    for d in range(4): p.op('mlit', d, x=mask(r))
    for _ in range(34): mask_op(r, p)
    for d in range(4): p.op('dumpm', 0, d)
    return p

# ---- C05 mask reductions
MREDS = ['all', 'any', 'none', 'some', 'count', 'minidx', 'maxidx']
def g_c05(r, t, i):
    p = Prog('e%d' % i, t)
    start(p, r, t, 3, 4)
    for _ in range(9):
        c = r.random()
        if c < .25: p.op('cmp.%s.v' % r.choice(CMPS), rv(r), rv(r, 3), rv(r, 3))
        elif c < .35:
            x0 = vec(r, t); p.op('lit', 0, x=x0).op('lit', 1, x=x0).op('cmp.%s.v' % r.choice(['eq', 'ne', 'le', 'lt']), rv(r), 0, 1)
        elif c < .45: p.op('lnot', rv(r), rv(r, 3))
        elif c < .55: p.op('mblend', rv(r), rv(r), rv(r), rv(r))
        elif c < .65: p.op('mbc', rv(r), x=bytes([r.getrandbits(1)]))
        else: mask_op(r, p)
        m = r.randrange(4)
        if c < .9:  # look at what was just written
            for n_, d_, *_ in reversed(p.ins):
                if n_.split('.')[0] not in ('mget', 'msame', 'lit', 'mred'): m = d_; break
        if r.random() < .25: p.op('bred.' + r.choice(MREDS), 0, m, k=r.randrange(64))
        for o in (MREDS if r.random() < .5 else r.sample(MREDS, 3)): p.op('mred.' + o, 0, m)
    for d in range(4): p.op('dumpm', 0, d)
    return p

# ---- C06 min max clamp
def ordered(r, t, n):
    lo, hi = b'', b''
    s = SIZE[t]
    for _ in range(n):
        a, b = rnd(r, t, nan=False), rnd(r, t, nan=False)
        if key(t, a) > key(t, b): a, b = b, a
        lo += a; hi += b
    return lo, hi
def key(t, b):
    if t[0] == 'i': return int.from_bytes(b, 'little', signed=True)
    if t[0] == 'u': return int.from_bytes(b, 'little')
    return struct.unpack('<f' if t == 'f32' else '<d', b)[0]
def g_c06(r, t, i):
    p = Prog('f%d' % i, t)
    x0 = vec(r, t, nan=False)
    p.op('lit', 0, x=x0)
    y = b''.join(b if not (t[0] == 'f' and is_nan(t, b)) else x0[:SIZE[t]] for b in [near(r, t, x0)[j * SIZE[t]:(j + 1) * SIZE[t]] for j in range(MAXN)])
    p.op('lit', 1, x=y); start_more = [2, 3]
    for d in start_more: p.op('lit', d, x=vec(r, t, nan=False))
    for _ in range(20):
        d, a, b = rv(r), rv(r), rv(r)
        o = r.choice(['min', 'max', 'min', 'max', 'minmax', 'clamp', 'lit'])
        if o == 'lit': p.op('lit', d, x=vec(r, t, nan=False))
        elif o in ('min', 'max'):
            w = r.choice(['v', 'v', 's'])
            p.op('bin.%s.%s' % (o, w), d, a, b, x=rnd(r, t, nan=False) if w == 's' else None)
        elif o == 'minmax':
            w = r.choice(['v', 's'])
            p.op('minmax.-.' + w, d, a, b, (d + 1) % 4, x=rnd(r, t, nan=False) if w == 's' else None)
        else:
            w = r.choice(['v', 's'])
            lo, hi = ordered(r, t, MAXN if w == 'v' else 1)
            if w == 'v': p.op('lit', 4, x=lo).op('lit', 5, x=hi).op('clamp.-.v', d, a, 4, 5)
            else: p.op('clamp.-.s', d, a, x=lo, y=hi)
    for d in range(4): p.op('dumpv', 0, d)
    return p

# ---- C09 blend
def g_c09(r, t, i):
    p = Prog('g%d' % i, t); start(p, r, t, 4, 4)
    for _ in range(20):
        c = r.random()
        if c < .5: p.op('blend', rv(r), rv(r), rv(r), rv(r))
        elif c < .65: p.op('mblend', rv(r), rv(r), rv(r), rv(r))
        elif c < .75: p.op('cmp.%s.v' % r.choice(CMPS), rv(r), rv(r), rv(r))
        elif c < .8: p.op(r.choice(['bblend', 'sblend']), rv(r), rv(r), rv(r), rv(r), k=r.randrange(64))
        elif c < .9: mask_op(r, p)
        else: p.op('lit', rv(r), x=vec(r, t))
    for d in range(4): p.op('dumpv', 0, d).op('dumpm', 0, d)
    return p

# ---- C10 reductions
def exact_lanes(r, t, o):
    """float lanes whose every partial sum/product is exact"""
    c = r.random()
    inf = float('inf')
    if c < .12: return fv(t, r.choice([-0.0, -0.0, inf, -inf, 0.0])) * MAXN
    if c < .2: return b''.join(fv(t, r.choice([-0.0, -0.0, -0.0, 0.0])) for _ in range(MAXN))
    if c < .3: return b''.join(fv(t, r.choice([1.0, 2.0, -1.0, 1.0, 1.0, 1.0, 1.0, 1.0, -0.0 if o == 'mul' else 4.0, r.choice([inf, -inf])])) for _ in range(MAXN))
    if o == 'add': return b''.join(fv(t, float(r.randrange(-2000, 2001)) / 4) for _ in range(MAXN))
    c = r.random()
    return b''.join(fv(t, r.choice([1.0, -1.0, 2.0, 0.5, -2.0, -0.5, 1.0, 1.0])) if c < .7 else fv(t, r.choice([1.0, -1.0])) for _ in range(MAXN))
def g_c10(r, t, i):
    p = Prog('h%d' % i, t)
    if t[0] == 'f':
        for _ in range(4):
            p.op('lit', 0, x=exact_lanes(r, t, 'add')).op('lit', 1, x=exact_lanes(r, t, 'mul')).op('lit', 2, x=vec(r, t, nan=False))
            for o in ['add', 'add.op', 'add.opt', 'add.lam', 'add.h']: p.op('red.' + o, 0, 0)
            for o in ['mul.op', 'mul.h']: p.op('red.' + o, 0, 1)
            for o in ['min.h', 'max.h', 'max.lam']: p.op('red.' + o, 0, 2)
        x = fv(t, r.choice([float('inf'), float('-inf'), 0.0])) * MAXN
        y = x if r.random() < .5 else b''.join(r.choice([x[:SIZE[t]], rnd(r, t, nan=False)]) for _ in range(MAXN))
        p.op('lit', 2, x=x).op('lit', 3, x=y)
        for o in ['min.h', 'max.h', 'max.lam']: p.op('red.' + o, 0, 2).op('red.' + o, 0, 3)
    else:
        for _ in range(2):
            p.op('lit', 0, x=vec(r, t))
            # odd factors keep every lane visible in products, sparse bits keep every lane visible in and/or/xor
            p.op('lit', 1, x=b''.join(iv(t, r.getrandbits(8 * SIZE[t]) | 1) for _ in range(MAXN)))
            one = r.randrange(12)
            p.op('lit', 2, x=b''.join(iv(t, (-1 ^ (1 << r.randrange(8 * SIZE[t]))) if j == one else -1) for j in range(MAXN)))
            p.op('lit', 3, x=b''.join(iv(t, (1 << r.randrange(8 * SIZE[t])) if j == one else 0) for j in range(MAXN)))
            for o in ['add', 'add.op', 'add.opt', 'add.lam', 'add.h', 'min.h', 'max.h', 'max.lam', 'xor.op', 'xor.h']: p.op('red.' + o, 0, 0)
            for o in ['mul.op', 'mul.h']: p.op('red.' + o, 0, 1)
            for o in ['and.op', 'and.h']: p.op('red.' + o, 0, 2).op('red.' + o, 0, 0)
            for o in ['or.op', 'or.h']: p.op('red.' + o, 0, 3).op('red.' + o, 0, 0)
            e = rnd(r, t)
            p.op('lit', 0, x=e * MAXN).op('red.min.h', 0, 0).op('red.max.h', 0, 0).op('red.max.lam', 0, 0)
            p.op('red.min.h', 0, 2).op('red.max.h', 0, 2).op('red.min.h', 0, 3).op('red.max.h', 0, 3)
    return p

# ---- C12 access
def access_op(r, p, t, nv=4, nm=4):
    d, a = rv(r, nv), rv(r, nv)
    o = r.choice(['get', 'get', 'set', 'set', 'gen', 'ctor', 'native', 'native', 'bc', 'mget', 'mset', 'mnative', 'eset', 'meset', 'mun'])
    k = r.randrange(64)
    if o == 'get': p.op(r.choice(['get', 'get.-.ref']), 0, a, k=k)
    elif o == 'set': p.op('set.' + (r.choice(['asg', 'asg', 'add', 'sub']) if t[0] != 'f' else 'asg'), d, k=k, x=rnd(r, t))
    elif o == 'gen': p.op(r.choice(['gen', 'gen.-.ic']), d, x=vec(r, t))
    elif o == 'ctor': p.op('lit.-.ctor', d, x=vec(r, t))
    elif o == 'native': p.op(r.choice(['same.native', 'same.nsize', 'mov.native', 'mov.nwrite', 'mov.nfill']), d, a)
    elif o == 'bc': p.op('bc', d, x=rnd(r, t))
    elif o == 'mget': p.op(r.choice(['mget', 'mget.-.ref']), 0, rv(r, nm), k=k)
    elif o == 'mset': p.op('mset.' + r.choice(['asg', 'asg', 'and', 'or', 'xor']), rv(r, nm), k=k, x=bytes([r.getrandbits(1)]))
    elif o == 'meset': meset_op(r, p, rv(r, nm), rv(r, nm), rv(r, nm))
    elif o == 'mun': p.op(r.choice(['mun.not', 'mun.bnot']), rv(r, nm), rv(r, nm))
    elif o == 'eset': p.op(r.choice(['eset.cp', 'eset.sw']), d, a, k=r.randrange(4096)).op('dumpv', 0, a)
    elif o == 'mnative': p.op(r.choice(['mmov.native', 'mmov.nfill', 'mmov.nwrite', 'mgen', 'mbc']), rv(r, nm), rv(r, nm), x=mask(r))
def g_c12(r, t, i):
    p = Prog('l%d' % i, t); start(p, r, t, 4, 4)
    for _ in range(30): access_op(r, p, t)
    for d in range(4): p.op('dumpv', 0, d).op('dumpm', 0, d)
    return p

# ---- C07 / C08 memory
MEMU = ['i8', 'u16', 'i32', 'u64', 'f32', 'f64']
def memvals(r, t, u):
    """memory contents of element type u that convert to t in a defined way, mostly"""
    if u[0] == 'f' and t[0] != 'f':
        w = 8 * SIZE[t]
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if t[0] == 'i' else (0, (1 << w) - 1)
        def one():
            c = r.random()
            if c < .3: x = float(r.choice([0, 1, lo, hi // 2, 2, 3, 100, 127]))
            elif c < .6: x = r.uniform(max(lo, -1e6), min(hi, 1e6))
            else: x = r.uniform(lo, hi) * r.choice([.99, 1e-3, 1e-6])
            if t[0] == 'u' and r.random() < .2: x = r.choice([0.0, 0.5, 0.99, -0.0, -0.5, hi * .75])
            return fv(u, x)
        return b''.join(one() for _ in range(MAXN))
    return vec(r, u)
def placement(r, u, masked, low=False):
    """(pre, cut, place, offset) of a footprint"""
    s = SIZE.get(u, 1)
    c = r.random()
    if c < .45: return r.choice([0, 0, s, 3 * s]), (r.choice([0, 1, 2, 3, 5]) if masked else 0), 0
    if c < .75: return r.choice([0, s, 5 * s]), (r.choice([0, 0, 1]) if masked else 0), r.choice([1, 2])
    return 0, 0, 2
def mem_op(r, p, t, masked, nv=4, nm=4, us=None):
    u = r.choice(us or ([t] * 3 + MEMU))
    s = SIZE[u]
    pre, cut, place = placement(r, u, masked)
    form = r.choice(['e', 'e', 'e', 'c', 'v', 'o'])
    if masked: form = r.choice(['me', 'me', 'mc', 'mv'])
    if form in ('v', 'o', 'mv'): pre, place, cut = r.choice([0, 64]), r.choice([1, 2]), 0
    st = r.random() < .5
    if st and form in ('c', 'mc'): form = form[:-1] + 'e'
    k = pre
    c = r.randrange(nm)
    low = 0
    if masked and pre == 0 and place == 1 and form != 'mv' and r.random() < .6:
        low = r.choice([1, 2, 3]); k = -low * s      # the first lanes lie in the lower guard page
    blank = st or r.random() < .1
    body = memvals(r, t, u) if not st else r.randbytes(MAXN * s)
    p.op('setmem', 0, pre, s, cut + low, place, x=r.randbytes(pre) + body)
    if masked:
        mk = bytearray(mask(r)); mk[:low] = bytes(low)
        p.op('mlit.-.tail', c, c=cut, x=bytes(mk))
    if st:
        a = r.randrange(nv)
        if t[0] == 'f' and u[0] != 'f' or r.random() < .5: p.op('lit', a, x=memvals(r, u, t))
        p.op('st.%s.%s' % (u, form), 0, a, c=c, k=k)
        if r.random() < .4: p.op('ld.%s.%s' % (u, form if form not in ('o',) else 'e'), r.randrange(nv), c=c, k=k)
    else: p.op('ld.%s.%s' % (u, form), r.randrange(nv), c=c, k=k)
def truths(r, u):
    """memory of element type u: zeroes, ones and other values that count as true"""
    return b''.join(r.choice([iv(u, 0), iv(u, 0), iv(u, 1), rnd(r, u), iv(u, r.choice([2, 4, 128, 3, 1 << 8 * SIZE[u] // 2, 1 << 8 * SIZE[u] - 1])) if u[0] != 'f' else fv(u, r.choice([-0.0, 0.5, 1e-300, -1.0]))]) for _ in range(MAXN))
def mmem_op(r, p, masked, nm=4, us=('-', '-', 'u8', 'i32', 'f64')):
    u = r.choice(us)
    s = SIZE.get(u, 1)
    pre, cut, place = placement(r, u, masked)
    form = r.choice(['me', 'me', 'mc', 'mv'] if masked else ['e', 'e', 'c', 'v'])
    if form in ('v', 'mv'): pre, place, cut = r.choice([0, 64]), r.choice([1, 2]), 0
    st = r.random() < .5
    if st and form in ('c', 'mc'): form = form[:-1] + 'e'
    c = r.randrange(nm)
    p.op('setmem', 0, pre, s, cut, place, x=bytes(pre) + (mask(r) if not st and u == '-' else truths(r, u) if not st else r.randbytes(MAXN * s) if u != '-' else bytes(r.getrandbits(1) for _ in range(MAXN))))
    if masked: p.op('mlit.-.tail', c, c=cut, x=mask(r))
    if st: p.op('mst.%s.%s' % (u, form), 0, r.randrange(nm), c=c, k=pre)
    else: p.op('mld.%s.%s' % (u, form), r.choice([d for d in range(nm) if d != c]), c=c, k=pre)
def g_c07(r, t, i):
    p = Prog('m%d' % i, t); start(p, r, t, 4, 4)
    for j in range(14):
        mem_op(r, p, t, False)
        if j % 5 == 4: mmem_op(r, p, False, us=('-', 'i32'))
    for d in range(4): p.op('dumpv', 0, d).op('dumpm', 0, d)
    return p
def g_c08(r, t, i):
    p = Prog('n%d' % i, t); start(p, r, t, 4, 4)
    for j in range(12):
        mem_op(r, p, t, True, us=[t] * 4 + MEMU)
        if j % 4 == 3: mmem_op(r, p, True, us=('-', 'i32'))
    for d in range(4): p.op('dumpv', 0, d).op('dumpm', 0, d)
    return p
_c04 = g_c04
def g_c04m(r, t, i):
    p = _c04(r, t, i)
    for _ in range(6): mmem_op(r, p, r.random() < .6)
    for d in range(4): p.op('dumpm', 0, d)
    return p

# ---- C11 shuffle
NLISTS = 20
def g_c11(r, t, i):
    p = Prog('k%d' % i, t); start(p, r, t, 4, 4)
    order = list(range(NLISTS)); r.shuffle(order)
    for L in order[:14]:
        o = r.choice(['shuf', 'shuf', 'mshuf', 'shufd'])
        p.op(o, rv(r), rv(r), k=L)
        if r.random() < .1: p.op('sshuf', 0, rv(r), k=r.randrange(64))
        if r.random() < .2: p.op('lit', rv(r), x=vec(r, t))
        if r.random() < .2: p.op('cmp.' + r.choice(CMPS) + '.v', rv(r), rv(r), rv(r))
    for d in range(4): p.op('dumpv', 0, d).op('dumpm', 0, d)
    return p

# ---- C13 conversions
def g_c13(r, t, i):
    p = Prog('q%d' % i, t); start(p, r, t, 4, 4)
    for _ in range(14):
        u = r.choice(INT + FLT)
        a = rv(r)
        if t[0] == 'f' and u[0] != 'f' or r.random() < .4: p.op('lit', a, x=memvals(r, u, t))
        for f in r.sample(['same', 'cast', 'packed', 'fixed', 'a16', 'a32', 'ssc', 'ssv', 'sc'], 2): p.op('cvt.%s.%s' % (u, f), 0, a)
        c = r.random()
        if c < .3: p.op('mov.rt.' + r.choice(['packed', 'fixed', 'a16', 'a32', 'a64']), rv(r), rv(r))
        elif c < .5: p.op('mmov.rt.' + r.choice(['packed', 'fixed', 'a16', 'a32', 'a64']), rv(r), rv(r))
        elif c < .6: p.op('same.' + r.choice(['fixed', 'native', 'compat']), 0, rv(r))
        elif c < .7: p.op('msame.' + r.choice(['fixed', 'native', 'compat']), 0, rv(r))
    for d in range(4): p.op('dumpv', 0, d).op('dumpm', 0, d)
    return p

# ---- floating point
def fnear(r, t, base):
    """lanes related to base: equal, negated, neighbours, same exponent, multiples"""
    s = SIZE[t]; out = b''
    eb, mb = FMT[t]
    for j in range(MAXN):
        v = int.from_bytes(base[j * s:(j + 1) * s], 'little')
        c = r.random()
        if c < .15: w = v
        elif c < .3: w = v ^ (1 << 8 * s - 1)
        elif c < .45: w = v + r.choice([-1, 1, -2, 2])
        elif c < .55: w = v ^ r.getrandbits(mb)
        elif c < .7: w = v + (r.randrange(-3, 4) << mb)
        elif c < .8: w = v + (r.randrange(-mb - 2, mb + 3) << mb) ^ r.getrandbits(r.choice([1, 4, mb]))
        else: w = int.from_bytes(rnd(r, t), 'little')
        out += (w % (1 << 8 * s)).to_bytes(s, 'little')
    return out
def lerp_end(r, t): return rnd(r, t) if r.random() < .12 else fv(t, r.choice([r.uniform(-4, 4), float(r.randrange(-20, 21)), math.ldexp(r.uniform(-1, 1), r.randrange(-29, 30))]))
def lerp_t(r, t): return rnd(r, t) if r.random() < .12 else fv(t, r.choice([0.0, -0.0, 1.0, .5, r.random(), r.random(), r.uniform(-3, 4), math.ldexp(r.uniform(-1, 1), r.randrange(-25, 25))]))
def g_c14(r, t, i):
    p = Prog('r%d' % i, t)
    def fresh():
        x = vec(r, t)
        p.op('lit', 0, x=x).op('lit', 1, x=fnear(r, t, x)).op('lit', 2, x=vec(r, t)).op('lit', 3, x=fnear(r, t, x))
    fresh()
    for j in range(16):
        d, a, b, c = rv(r), rv(r), rv(r), rv(r)
        o = r.choice(['bin', 'bin', 'bin', 'bin', 'sqrt', 'un', 'inc', 'ft', 'ft', 'lerp'])
        if o == 'bin':
            w = r.choice(['v', 'v', 'v', 'vq', 's', 'sq'])
            p.op('bin.%s.%s' % (r.choice(['add', 'sub', 'mul', 'div']), w), d, a, b, x=rnd(r, t) if w[0] == 's' else None)
        elif o == 'sqrt':
            if r.random() < .5: p.op('lit', a, x=b''.join(bytes(z[:-1]) + bytes([z[-1] & (0x7f if r.random() < .9 else 0xff)]) for z in [rnd(r, t) for _ in range(MAXN)]))
            p.op('fu.sqrt', d, a)
        elif o == 'un': p.op(r.choice(['un.neg', 'un.pos', 'un.abs']), d, a)
        elif o == 'inc': p.op('inc.%s.%s' % (r.choice(['inc', 'dec']), r.choice(['pre', 'post'])), d)
        elif o == 'lerp':
            if r.random() < .7: p.op('lit', a, x=b''.join(lerp_end(r, t) for _ in range(MAXN))).op('lit', b, x=b''.join(lerp_end(r, t) for _ in range(MAXN)))
            if r.random() < .7: p.op('lit', c, x=b''.join(lerp_t(r, t) for _ in range(MAXN)))
            w = r.choice('vs')
            p.op('lerp.-.' + w, d, a, b, c, x=lerp_t(r, t) if w == 's' else None)
        else:
            if r.random() < .5:
                # the addend nearly cancels the product
                eb, mb = FMT[t]
                mk = lambda: fw(t, (r.getrandbits(1) << (eb + mb)) | (((1 << eb - 1) - 1 + r.randrange(-8, 9)) << mb) | r.getrandbits(mb))
                A, B, C = [], [], []
                for _ in range(MAXN):
                    x, y = mk(), mk()
                    fx, fy = key(t, x), key(t, y)
                    z = fv(t, -fx * fy)
                    if r.random() < .3: z = fw(t, int.from_bytes(z, 'little') + r.choice([-1, 1]))
                    A.append(x); B.append(y); C.append(z)
                p.op('lit', a, x=b''.join(A))
                b2 = (a + 1) % 4; c2 = (a + 2) % 4
                p.op('lit', b2, x=b''.join(B)).op('lit', c2, x=b''.join(C)); b, c = b2, c2
            p.op('ft.%s.v' % r.choice(['fma', 'fmadd', 'fmsub', 'fnmadd', 'fnmsub']), d, a, b, c)
        if j % 4 == 3: fresh()
    for d in range(4): p.op('dumpv', 0, d)
    return p
def expo(r, t, n, sz):
    eb, mb = FMT[t]
    E = 1 << (eb - 1)
    def one():
        c = r.random()
        if c < .4: return r.randrange(-12, 13)
        if c < .7: return r.randrange(-2 * E - mb, 2 * E + mb)
        if c < .9: return r.choice([E, -E, E - 1, 1 - E, E + mb, -E - mb, -E - mb - 1, 2 * E - 3, 2 * E, -2 * E, 3 * E, -3 * E, 0])
        if sz == 8 and r.random() < .5: return r.choice([2**32 + 1, -2**32 - 1, 2**40, -2**33 - 3, 2**63 - 1, -2**63, 2**31, -2**31 - 1, 2**32 - 2])
        return r.choice([2**31 - 1, -2**31, 65535, 65536, -65536, 32767, 4 * E + 1, -4 * E - 7, 1 << 20])
    return b''.join((one() % (1 << 8 * sz)).to_bytes(sz, 'little') for _ in range(n))
def g_c15(r, t, i):
    p = Prog('s%d' % i, t); start(p, r, t)
    for j in range(14):
        d, a = rv(r), rv(r)
        o = r.choice(['frexp.p', 'frexp.r', 'modf.p', 'modf.r', 'fu.logb', 'ilogb', 'scale', 'scale', 'scale', 'scale'])
        if o == 'scale':
            f = r.choice(['ldexp', 'scalbn', 'scalbln']); w = r.choice(['v', 'v', 's'])
            p.op('scale.%s.%s' % (f, w), d, a, x=expo(r, t, MAXN if w == 'v' else 1, 8 if f == 'scalbln' else 4))
        else: p.op(o, d, a, 0, (d + 1) % 4)
        p.op('lit', rv(r), x=vec(r, t))
    for d in range(4): p.op('dumpv', 0, d)
    return p
def g_c16(r, t, i):
    p = Prog('t%d' % i, t)
    if t[0] != 'f':
        start(p, r, t)
        for j in range(10): p.op('un.abs', rv(r), rv(r)).op('lit', rv(r), x=vec(r, t))
        return p
    for j in range(12):
        if j % 3 == 0:
            x = vec(r, t)
            p.op('lit', 0, x=x).op('lit', 1, x=fnear(r, t, x)).op('lit', 2, x=vec(r, t)).op('lit', 3, x=fnear(r, t, x))
        d, a, b = rv(r), rv(r), rv(r)
        o = r.choice(['copysign', 'nextafter', 'nextafter', 'nexttoward', 'ntl', 'fmin', 'fmax', 'fmin', 'fmax', 'fdim', 'fmod', 'remainder', 'remquo', 'abs', 'fabs'])
        if o in ('nextafter', 'nexttoward'): p.op('fb.%s.v' % o, d, a, b)
        elif o == 'ntl': p.op('ntl.-.' + r.choice('ud'), d, a, a if r.random() < .5 else b)
        elif o == 'remquo': p.op(r.choice(['remquo.p', 'remquo.r']), d, a, b)
        elif o == 'abs': p.op('un.abs', d, a)
        elif o == 'fabs': p.op('fu.fabs', d, a)
        else:
            w = r.choice(['v', 'v', 's'])
            p.op('fb.%s.%s' % (o, w), d, a, b, x=rnd(r, t) if w == 's' else None)
    for d in range(4): p.op('dumpv', 0, d)
    return p
def rvals(r, t):
    """lanes around the interesting points of rounding"""
    eb, mb = FMT[t]
    def one():
        c = r.random()
        if c < .3: return fv(t, r.randrange(-20, 21) / 2)
        if c < .5: return fw(t, int.from_bytes(fv(t, r.randrange(-2000, 2001) / 2), 'little') + r.choice([-1, 0, 1]) & ((1 << 8 * SIZE[t]) - 1))
        if c < .7:
            e = (1 << eb - 1) - 1 + r.choice([mb - 2, mb - 1, mb, mb + 1, 29, 30, 31, 32, 61, 62, 63, 64, -1, -2])
            return fw(t, (r.getrandbits(1) << (eb + mb)) | (e << mb) | r.choice([0, (1 << mb) - 1, r.getrandbits(mb), 1, (1 << mb) - 2]))
        return rnd(r, t)
    return b''.join(one() for _ in range(MAXN))
def g_c17(r, t, i):
    p = Prog('v%d' % i, t)
    for d in range(4): p.op('lit', d, x=rvals(r, t))
    for j in range(20):
        d, a = rv(r), rv(r)
        c = r.random()
        m = r.choice(['u', 'd', 'z'])
        if c < .3: p.op('fu.' + r.choice(['ceil', 'floor', 'trunc', 'round']), d, a)
        elif c < .4: p.op('fu.%s.%s' % (r.choice(['ceil', 'floor', 'trunc', 'round']), m), d, a)
        elif c < .6: p.op('fu.%s.%s' % (r.choice(['rint', 'nearbyint']), r.choice(['ne', m])), d, a)
        elif c < .8: p.op('irnd.' + r.choice(['lround', 'llround', 'iround_i', 'iround_l', 'itrunc_i', 'itrunc_l', 'ltrunc', 'lltrunc']), 0, a)
        else: p.op('irnd.%s.%s' % (r.choice(['lrint', 'llrint', 'irint_i', 'irint_l']), r.choice(['ne', m])), 0, a)
        p.op('lit', d, x=rvals(r, t))
    for d in range(4): p.op('dumpv', 0, d)
    return p
def g_c18(r, t, i):
    p = Prog('w%d' % i, t)
    x = vec(r, t)
    p.op('lit', 0, x=x).op('lit', 1, x=fnear(r, t, x)).op('lit', 2, x=vec(r, t)).op('lit', 3, x=fnear(r, t, x))
    for d in range(4): p.op('mlit', d, x=mask(r))
    for j in range(16):
        d, a, b = rv(r), rv(r), rv(r)
        c = r.random()
        if c < .35: p.op('fcls.' + r.choice(['isnan', 'isinf', 'isfinite', 'isnormal', 'signbit']), d, a)
        elif c < .48: p.op('fpclass', 0, a)
        elif c < .52: p.op('fnan', rv(r), k=r.choice([0, 1, 7, 255, 65536, r.randrange(4000000)]))
        else:
            w = r.choice(['v', 'v', 's'])
            p.op('fqc.%s.%s' % (r.choice(['isgreater', 'isgreaterequal', 'isless', 'islessequal', 'islessgreater', 'isunordered']), w), d, a, b, x=rnd(r, t) if w == 's' else None)
        c = r.random()
        if c < .25: p.op('mred.' + r.choice(MREDS), 0, d)
        elif c < .4: p.op('blend', 4, rv(r), rv(r), d)
        elif c < .5: p.op('mblend', rv(r), rv(r), rv(r), d)
        elif c < .6: p.op('mbin.%s.v' % r.choice(['mand', 'mor', 'mxor', 'meq']), rv(r), d, rv(r))
        if r.random() < .3:
            x = vec(r, t); p.op('lit', 0, x=x).op('lit', 1, x=fnear(r, t, x))
    for d in range(4): p.op('dumpm', 0, d)
    return p

# ---- C21 mixed programs: pieces of programs of every family over the same registers and memory
def pieces(p):
    """pieces that establish what they rely on: literals/memory first, then the operations that need them"""
    out, mem, prevlit = [], False, False
    for ins in p.ins:
        o = ins[0].split('.')[0]
        lit = o in ('lit', 'mlit', 'setmem')
        if o == 'setmem' or (lit and not prevlit and not mem) or not out:
            out.append([]); mem = o == 'setmem'
        out[-1].append(ins); prevlit = lit
    return out
MIXI = ['g_c01', 'g_c02', 'g_c03', 'g_c04', 'g_c05', 'g_c06', 'g_c07', 'g_c08', 'g_c09', 'g_c10', 'g_c11', 'g_c12']
MIXF = ['g_c03', 'g_c04', 'g_c05', 'g_c06', 'g_c07', 'g_c08', 'g_c09', 'g_c10', 'g_c11', 'g_c12', 'g_c14', 'g_c17', 'g_c18']
def g_c21(r, t, i):
    p = Prog('x%d' % i, t); start(p, r, t, 6, 5)
    pool = MIXF if t[0] == 'f' else MIXI
    streams = []
    for g in r.sample(pool, 4):
        q = pieces(globals()[g](r, t, 0))
        if q: streams.append(q)
    n = 0
    while streams and n < 70:
        q = r.choice(streams)
        for ins in q.pop(0):
            p.ins.append(ins); n += 1
        if not q: streams.remove(q)
    for d in range(6): p.op('dumpv', 0, d)
    for d in range(4): p.op('dumpm', 0, d)
    return p
MIXAB = {'sse2': ('scalar', 'packed5', 'a16'), 'sse42': ('native', 'a16w'), 'avx': ('fixed3', 'a32'), 'avx2': ('native', 'a32'), 'avx512': ('native', 'a16', 'a32'), 'dbg': ('a32',)}
MIXAB.update(sse41=MIXAB['sse42'], clang=MIXAB['avx2'], clangsse=MIXAB['sse2'])
def mix_abis(t, isa, tier='quick'):
    return [x for x in abis(t, isa, tier) if tier == 'thorough' or x[0] in MIXAB[isa]]

# ---- C24 pieces of every floating-point family under changing rounding modes and raised flags
ENVF = ['g_c14', 'g_c14', 'g_c15', 'g_c16', 'g_c17', 'g_c18', 'g_c03', 'g_c13', 'g_c07', 'g_c09', 'g_c06', 'g_c12', 'g_c05', 'g_c10']
ENVI = ['g_c13', 'g_c13', 'g_c07', 'g_c01', 'g_c03', 'g_c12', 'g_c10']
def g_c24(r, t, i):
    p = Prog('y%d' % i, t); start(p, r, t, 6, 5)
    pool = ENVF if t[0] == 'f' else ENVI
    streams = [pieces(globals()[g](r, t, 0)) for g in r.sample(pool, 3)]
    n = 0
    p.op('env.rm.' + r.choice(['u', 'd', 'z']))
    while any(streams) and n < 60:
        q = r.choice([s for s in streams if s])
        if r.random() < .5:
            c = r.random()
            if c < .7: p.op('env.rm.' + r.choice(['ne', 'u', 'd', 'z', 'u', 'd', 'z']))
            elif c < .9: p.op('env.raise', k=r.randrange(1, 32))
            else: p.op('env.clear')
        for ins in q.pop(0):
            # functions of the mode in force, not of one set around the call
            if ins[0].split('.')[0] in ('fu', 'irnd') and r.random() < .8: ins = ('.'.join(ins[0].split('.')[:2]),) + ins[1:]
            p.ins.append(ins); n += 1
    for d in range(6): p.op('dumpv', 0, d)
    return p
ENVAB = {'sse2': ('scalar', 'packed5', 'a16', 'native'), 'sse42': ('native', 'a16w'), 'avx': ('fixed3', 'a32'), 'avx2': ('native', 'a32'), 'avx512': ('native', 'a16w', 'a32'), 'dbg': ('a32',)}
ENVAB.update(sse41=ENVAB['sse42'], clang=ENVAB['avx2'], clangsse=ENVAB['sse2'])
def env_abis(t, isa, tier='quick'):
    return [x for x in abis(t, isa, tier) if tier == 'thorough' or x[0] in ENVAB[isa]]

# ---- C27 mixed operand types of the math functions
PROU = ['f32', 'f64', 'i32', 'u64']
PRO2 = ['remainder', 'fmax', 'fmin', 'fdim', 'fmod']
PROX = ['copysign', 'nextafter', 'hypot', 'pow', 'atan2', 'isgreater', 'isgreaterequal', 'isless', 'islessequal', 'islessgreater', 'isunordered']
PROT = ['fmadd', 'fmsub', 'fnmadd', 'fnmsub']
PRO1 = ['sqrt', 'cbrt', 'ext::rcp', 'ext::rsqrt', 'exp', 'exp2', 'expm1', 'log', 'log10', 'log2', 'log1p', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'erf', 'erfc', 'tgamma', 'lgamma', 'logb']
def small(r, t):
    """values that make ordinary arguments"""
    if t[0] == 'f': return rnd(r, t) if r.random() < .15 else fv(t, r.choice([r.uniform(-9, 9), float(r.randrange(-40, 41)), r.randrange(-40, 41) / 4]))
    return rnd(r, t) if r.random() < .2 else iv(t, r.randrange(0 if t[0] == 'u' else -40, 41))
def nz(b, t): return b if any(b) else iv(t, 3)
def g_c27(r, t, i):
    p = Prog('k%d' % i, t)
    new = lambda: b''.join(small(r, t) for _ in range(MAXN))
    for d in range(4): p.op('lit', d, x=new())
    for j in range(22):
        a, c = rv(r), rv(r)
        if r.random() < .4: p.op('lit', a, x=new())
        if t[0] != 'f' and r.random() < .45:
            o = r.choice(['pu', 'pu', 'pum', 'pfpc', 'pilogb', 'pfrexp', 'pscale'])
            if o == 'pu': p.op('pu.' + r.choice(PRO1), 0, a)
            elif o == 'pum': p.op('pum.' + r.choice(['isfinite', 'isinf', 'isnan', 'isnormal', 'signbit']), 0, a)
            elif o == 'pfrexp': p.op('pfrexp.' + r.choice('pr'), 0, a)
            elif o == 'pscale':
                f = r.choice(['ldexp', 'scalbn', 'scalbln']); w = r.choice('vs'); n = 8 if f == 'scalbln' else 4
                p.op('pscale.%s.%s' % (f, w), 0, a, x=b''.join(r.choice([r.randrange(-40, 41), r.randrange(-1200, 1200), r.choice([-2 ** 31, 2 ** 31 - 1])]).to_bytes(n, 'little', signed=True) for _ in range(MAXN if w == 'v' else 1)))
            else: p.op(o, 0, a)
            continue
        u = r.choice(PROU + ([t] if t in PROU else []))
        same = t == u
        val = lambda: small(r, u)
        if r.random() < .3 and u[0] == 'f' and t[0] != 'f': # comparable with the first operand
            val = lambda: fv(u, float(r.randrange(-40, 41)))
        pool = PRO2 * 2 + PROT + ['remquo']
        if not same: pool = pool + PROX + ['fma', 'lerp', 'lerp', 'remquor']
        elif t[0] != 'f': pool = pool + PROX
        f = r.choice(pool)
        if f in ('remainder', 'remquo', 'remquor') and t[0] != 'f' and u[0] != 'f':
            v0 = val; val = lambda: nz(v0(), u)
        sc = r.random() < .35 and f in PRO2 + ['pow'] + (['copysign'] if not same or t[0] != 'f' else []) + ([] if same else ['lerp'])
        p.op('%s.%s.%s' % ('ps' if sc else 'pv', f, u), 0, a, 0, c, x=val() if sc else b''.join(val() for _ in range(MAXN)))
    for d in range(4): p.op('dumpv', 0, d)
    return p
PROAB = {'sse2': ('scalar', 'packed5', 'a16'), 'sse42': ('native',), 'avx': ('fixed3', 'a32'), 'avx2': ('native', 'a16w'), 'avx512': ('native', 'a16w', 'a32'), 'dbg': ('a32',)}
PROAB.update(sse41=PROAB['sse42'], clang=PROAB['avx2'], clangsse=PROAB['sse2'])
def promo_abis(t, isa, tier='quick'):
    return [x for x in abis(t, isa, tier) if tier == 'thorough' or x[0] in PROAB[isa]]

# ---- every binade: kernels switch representation, normalise or saturate at particular exponents
CHL = {1: 16, 2: 11, 4: 7, 8: 5}     # arguments per call: some ABI of every instruction set has that many lanes
def chunks(r, t, vals, pid, body, per=12):
    """programs that load the values chunk by chunk and apply body to register 0"""
    vals = list(vals); r.shuffle(vals)
    n = CHL[SIZE[t]]; L = [vals[i:i + n] for i in range(0, len(vals), n)]
    out = []
    for k in range(0, len(L), per):
        p = Prog('%s%s%d' % (t, pid, k // per), t); out.append(p)
        for c in L[k:k + per]:
            p.op('lit', 0, x=b''.join(c + [r.choice(vals) for _ in range(MAXN - len(c))]))
            body(p, c)
    return out
def d_c15(r, t):
    lo, hi = erange(t); eb, mb = FMT[t]
    def body(p, c):
        for o in ('frexp.' + r.choice('pr'), 'modf.' + r.choice('pr'), 'fu.logb', 'ilogb'): p.op(o, 1, 0, 0, 2)
        # results around both ends of the range, and anywhere
        k = []
        for b in c:
            v = int.from_bytes(b, 'little') & (1 << eb + mb) - 1
            e = (v >> mb) - (hi - 1) if v >> mb else v.bit_length() - 1 + lo
            k.append(r.choice([lo - 2, lo - 1, lo, lo + 1, lo + 2, lo + mb - 1, lo + mb, lo + mb + 1, hi - 2, hi - 1, hi, hi + 1, r.randrange(lo, hi), r.randrange(lo, lo + mb)]) - e)
        f = r.choice(['ldexp', 'scalbn', 'scalbln']); sz = 8 if f == 'scalbln' else 4
        k += [r.randrange(-9, 10) for _ in range(MAXN - len(k))]
        p.op('scale.%s.v' % f, 3, 0, x=b''.join((x % (1 << 8 * sz)).to_bytes(sz, 'little') for x in k))
    return chunks(r, t, [binade(r, t, e) for e in range(lo, hi)], 'B', body)
def d_c17(r, t):
    lo, hi = erange(t); eb, mb = FMT[t]
    vals = [binade(r, t, e) for e in 3 * list(range(-4, 70)) + list(range(lo, hi, 13))]
    # halves and integers of every magnitude
    for e in range(0, mb + 2):
        m = 1 << e | r.getrandbits(e); vals += [fv(t, s * (m + f)) for s in (1, -1) for f in (0, .5)]
    def body(p, c):
        m = r.choice(['u', 'd', 'z'])
        for o in ('ceil', 'floor', 'trunc', 'round', 'rint.ne', 'rint.' + m, 'nearbyint.ne', 'nearbyint.' + m): p.op('fu.' + o, 1, 0)
        for o in r.sample(['lround', 'llround', 'iround_i', 'iround_l', 'itrunc_i', 'itrunc_l', 'ltrunc', 'lltrunc'], 2) + ['%s.%s' % (r.choice(['lrint', 'llrint', 'irint_i', 'irint_l']), x) for x in ('ne', m)]: p.op('irnd.' + o, 0, 0)
    return chunks(r, t, vals, 'B', body)
def d_c13(r, t):
    if t[0] == 'f':
        lo, hi = erange(t)
        vals = [binade(r, t, e) for e in 3 * list(range(-3, 64)) + list(range(lo, hi, 11))]
        us = FLT
        def body(p, c):
            p.op('cvt.%s.%s' % ('f64' if t == 'f32' else 'f32', r.choice(['same', 'cast', 'sc'])), 0, 0)
            for u in r.sample(INT, 3):
                b = memvals(r, u, t); p.op('lit', 1, x=b).op('cvt.%s.%s' % (u, r.choice(['same', 'cast', 'a16', 'a32'])), 0, 1)
        P = chunks(r, t, vals, 'B', body)
        # integers: every magnitude that the target holds
        for u in INT:
            w = 8 * SIZE[u] - (u[0] == 'i')
            V = [fv(t, s * (float(1 << k | r.getrandbits(k)) if r.random() < .8 else float(1 << k))) for k in range(w) for s in ((1, -1) if u[0] == 'i' else (1,))]
            V = [v for v in V if abs(struct.unpack('<f' if t == 'f32' else '<d', v)[0]) < 2.0 ** w]
            P += chunks(r, t, V, 'I' + u, lambda p, c: p.op('cvt.%s.%s' % (u, r.choice(['same', 'cast', 'a16', 'a32'])), 0, 0))
        # only the listed lanes are in the target's range: pad with them
        return P
    w = 8 * SIZE[t]
    vals = [iv(t, s * (1 << k | r.getrandbits(k))) for k in range(w) for s in ((1, -1) if t[0] == 'i' else (1,)) for _ in range(3)]
    # ties of the conversion to a narrower significand, and their neighbours
    for pr in (24, 53):
        for k in range(pr, w): vals += [iv(t, s * ((1 << k | r.getrandbits(pr - 1) << k - pr + 1 | 1 << k - pr) + d)) for s in ((1, -1) if t[0] == 'i' else (1,)) for d in (0, 1, -1)]
    def body(p, c):
        for u in FLT: p.op('cvt.%s.%s' % (u, r.choice(['same', 'cast', 'packed', 'fixed', 'a16', 'a32', 'ssc', 'ssv', 'sc'])), 0, 0)
        p.op('cvt.%s.%s' % (r.choice(INT), r.choice(['same', 'cast', 'a16', 'a32'])), 0, 0)
    return chunks(r, t, vals, 'B', body)
def d_c18(r, t):
    lo, hi = erange(t)
    def body(p, c):
        for o in ('isnan', 'isinf', 'isfinite', 'isnormal', 'signbit'): p.op('fcls.' + o, 0, 0)
        p.op('fpclass', 0, 0)
    return chunks(r, t, [binade(r, t, e) for e in list(range(lo, lo + FMT[t][1] + 20)) + list(range(hi - 20, hi)) + list(range(lo, hi, 17))], 'B', body)
# exception flags: quiet comparisons and nearbyint raise nothing, rounding "with exceptions" tells that it rounded
def d_flags(r, t, quiet, rounding):
    if t[0] != 'f': return []
    eb, mb = FMT[t]
    out = []
    for k in range(8):
        p = Prog('%sQ%d' % (t, k), t); out.append(p)
        tame = [fv(t, r.randrange(-200, 201) / 4) for _ in range(MAXN)]
        qn = lambda: fw(t, r.getrandbits(1) << eb + mb | (1 << eb) - 1 << mb | 1 << mb - 1 | r.getrandbits(mb - 1))
        def mix(odd):
            """ordinary lanes and one to three others among the first"""
            x = list(tame); r.shuffle(x)
            for i in r.sample(range(8), r.choice([1, 1, 2, 3])): x[i] = odd()
            return b''.join(x)
        whole = b''.join(fv(t, float(r.randrange(-2000, 2001))) for _ in range(MAXN))
        qc = ['isgreater', 'isgreaterequal', 'isless', 'islessequal', 'islessgreater', 'isunordered']
        for j in range(6):
            odd = qn if r.random() < .75 else lambda: r.choice([rnd(r, t), qn()])
            p.op('env.clear').op('lit', 0, x=mix(odd)).op('lit', 1, x=mix(odd) if r.random() < .5 else b''.join(tame))
            if r.random() < .3: p.op('env.rm.' + r.choice(['ne', 'u', 'd', 'z']))
            if quiet:
                for o in qc:
                    if r.random() < .8: p.op('fqc.%s.v' % o, r.randrange(4), *r.choice([(0, 1), (1, 0)]))
                    else: p.op('fqc.%s.s' % o, r.randrange(4), r.randrange(2), 0, x=r.choice([qn(), tame[0]]))
            if rounding:
                p.op('fu.nearbyint', 2, r.randrange(2))
                # whole lanes but for one of the first
                i = r.randrange(5); sz = SIZE[t]; x = bytearray(whole); x[i * sz:i * sz + sz] = fv(t, r.randrange(-60, 60) + r.choice([.25, .5, .75]))
                p.op('lit', 3, x=bytes(x))
                for o in r.sample(['fu.rint', 'irnd.lrint', 'irnd.llrint', 'irnd.irint_i', 'irnd.irint_l'], 3): p.op('env.clear').op(o, 2, 3)
                p.op('env.clear').op('fu.nearbyint', 2, 3)
    return out
DIRECTED = {'C13': [d_c13], 'C15': [d_c15], 'C17': [d_c17, lambda r, t: d_flags(r, t, 0, 1)], 'C18': [d_c18, lambda r, t: d_flags(r, t, 1, 0)],
            'C24': [lambda r, t: d_flags(r, t, 1, 1)]}
FAMS = {}
def fam(*a, **k): f = Fam(*a, **k); FAMS[f.pid] = f
ALLT = INT + FLT
fam('C01', INT, ['ARITH'], g_c01, 60, 600, sweep=0, sweep_thorough=30)
fam('C02', INT, ['BITS'], g_c02, 60, 600, sweep=0, sweep_thorough=30)
fam('C03', ALLT, ['CMP', 'MRED', 'BLEND'], g_c03, 40, 500, sweep=0, sweep_thorough=40)
fam('C04', ALLT, ['MASK', 'MEM', 'MEM_SELF'], g_c04m, 60, 500, sweep=3, sweep_thorough=30)
fam('C07', ALLT, ['MEM'], g_c07, 30, 400, sweep=4, sweep_thorough=40)
fam('C08', ALLT, ['MEM'], g_c08, 30, 400, sweep=6, sweep_thorough=40)
fam('C05', ALLT, ['MASK', 'MRED', 'CMP', 'BLEND'], g_c05, 60, 500, sweep=8, sweep_thorough=60)
fam('C06', ALLT, ['MINMAX'], g_c06, 40, 500, sweep=0, sweep_thorough=40)
fam('C09', ALLT, ['BLEND', 'CMP', 'MASK'], g_c09, 50, 500, sweep=4, sweep_thorough=40)
fam('C10', ALLT, ['RED'], g_c10, 26, 400, sweep=3, sweep_thorough=40)
fam('C11', ALLT, ['SHUF', 'CMP'], g_c11, 20, 200, sweep=0, sweep_thorough=20)
fam('C13', ALLT, ['CVT'], g_c13, 30, 300, sweep=0, sweep_thorough=20)
fam('C12', ALLT, ['ACCESS', 'MASK'], g_c12, 40, 400, sweep=0, sweep_thorough=40)
fam('C14', FLT, ['ARITH', 'FARITH'], g_c14, 60, 900, lib=True, sweep=0, sweep_thorough=30)
fam('C15', FLT, ['MANIP'], g_c15, 60, 900, lib=True)
fam('C16', ALLT, ['FBIN'], g_c16, 40, 600, lib=True)
fam('C17', FLT, ['ROUND'], g_c17, 60, 900, lib=True, cflags=['-frounding-math', '-ftrapping-math'])
fam('C18', FLT, ['CLASS', 'MRED', 'BLEND', 'MASK'], g_c18, 60, 900, lib=True, cflags=['-ftrapping-math'], sweep=0, sweep_thorough=30)
fam('C21', ['i8', 'u16', 'i32', 'u64', 'f32', 'f64'], ['ARITH', 'BITS', 'CMP', 'MRED', 'BLEND', 'MASK', 'MINMAX', 'RED', 'SHUF', 'ACCESS', 'MEM', 'FARITH', 'ROUND', 'CLASS'],
    g_c21, 45, 900, lib=True, cflags=['-frounding-math'], abi_fn=mix_abis)
fam('C24', ['f32', 'f64', 'i32', 'i64', 'u64'], ['ARITH', 'CMP', 'MRED', 'BLEND', 'MASK', 'MINMAX', 'RED', 'ACCESS', 'MEM', 'CVT', 'FARITH', 'MANIP', 'FBIN', 'ROUND', 'CLASS'],
    g_c24, 60, 900, lib=True, cflags=['-frounding-math', '-ftrapping-math'], abi_fn=env_abis)
fam('C27', ['i8', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64'], ['PROMO'], g_c27, 18, 300, lib=True, abi_fn=promo_abis)

# ---- every pair of bytes, every 16-bit word: domains small enough to enumerate
def grid(t, lo, hi, step=16):
    """literal operand pairs (a, b) covering cells lo..hi-1 of the byte x byte table, 16 cells per group"""
    for g in range(lo, hi, step):
        a = bytes((g + j) >> 8 for j in range(step)); b = bytes((g + j) & 255 for j in range(step))
        yield (a * MAXN)[:MAXN], (b * MAXN)[:MAXN]
def exh_pairs(body):
    def gen(t):
        for k in range(0, 65536, 1024):
            p = Prog('X%d' % (k >> 10), t)
            for a, b in grid(t, k, k + 1024):
                p.op('lit', 0, x=a).op('lit', 1, x=b)
                body(p, t, a, b)
            yield p
    return gen
def xb_c01(p, t, a, b):
    for o in ('add', 'sub', 'mul'): p.op('bin.%s.v' % o, 2, 0, 1)
    sg = t[0] == 'i'
    d = bytes(y if y and not (sg and y == 255) else 7 for y in b)
    if d != b: p.op('lit', 1, x=d)
    for o in ('div', 'mod'): p.op('bin.%s.v' % o, 2, 0, 1)
    if b[0] == 0:
        p.op('un.neg', 2, 0).op('lit', 3, x=b).op('inc.inc.pre', 3).op('lit', 3, x=b).op('inc.dec.pre', 3)
def xb_c02(p, t, a, b):
    for o in ('and', 'or', 'xor'): p.op('bin.%s.v' % o, 2, 0, 1)
    if max(b) < 16:
        p.op('lit', 4, x=bytes(y & 7 for y in b))
        for o in ('shl', 'shr'): p.op('bin.%s.v' % o, 2, 0, 4)
        for k in range(8):
            for o in ('shli', 'shri'): p.op('shk.%s.v' % o, 2, 0, k=k)
        p.op('un.not', 2, 0)
def xb_c03(p, t, a, b):
    for c in CMPS: p.op('cmp.%s.v' % c, 0, 0, 1)
def xb_c06(p, t, a, b): p.op('bin.min.v', 2, 0, 1).op('bin.max.v', 2, 0, 1).op('minmax.-.v', 2, 0, 1, 3)
EXH = {'C06': exh_pairs(xb_c06), 'C01': exh_pairs(xb_c01), 'C02': exh_pairs(xb_c02), 'C03': exh_pairs(xb_c03)}
def exh_abis(t, isa, tier='quick'):
    return [('w16', 'dpm::simd_abi::ext::aligned_vector<16,16>')] + ([('w32', 'dpm::simd_abi::ext::aligned_vector<32,32>')] if isa.startswith('avx') or isa in ('dbg', 'clang') else [])

# ---- behaviours of the specification itself (spec/VecGen.tla), replayed into the library
GEN = {'C04': [('mask', ('mbin', 'mun', 'mget', 'mset', 'meset', 'mmov', 'mldm')), ('mem', ('mld', 'mst'))], 'C05': [('mask', ('mred',))],
       'C07': [('mem', ('ld', 'st'))], 'C08': [('mem', ('ld', 'st'))], 'C09': [('mask3', ('mblend',)), ('blend', ('blend',))]}
def gen_keep(pid, st):
    masked = st['c'] >= 0
    return masked if pid == 'C08' else not masked if pid == 'C07' else True
def tile(m): return bytes((list(m) * MAXN)[:MAXN])
def gen_step(p, r, t, st):
    """one transition of the machine: its source state, then its event"""
    o, s = st['o'], SIZE[t]
    name = o
    if o in ('mbin', 'mun', 'mred', 'mset', 'meset'): name = '%s.%s' % (o, st['f'])
    if o == 'mbin': name += '.' + st['w']
    if o in ('ld', 'st', 'mld', 'mst'):
        k, sz = st['k'], (s if o in ('ld', 'st') else 1)
        body = r.randbytes((MAXN + k) * sz) if o in ('ld', 'st') else tile(st['R'][2:])[:MAXN] + bytes(k)
        p.op('mlit', 0, x=tile(st['M'][0])).op('mlit', 1, x=tile(st['M'][1]))
        if o in ('mld', 'mst'): body = bytes(k) + tile(st['R'][2:])
        p.op('setmem', 0, k * sz, sz, 0, r.randrange(3) if k == 0 else 0, x=body)
        form = 'e' if st['c'] < 0 else 'me'
        p.op('%s.%s.%s' % (o, t if o in ('ld', 'st') else '-', form), st['d'], st['a'], c=max(st['c'], 0), k=k * sz)
        return
    for j in range(3): p.op('mlit', j, x=tile(st['M'][j]))
    x = bytes(st['x']) if o == 'mset' else tile(st['x']) if st['x'] else b''
    p.op(name, st['d'], st['a'], st['b'], st['c'], k=st['k'], x=x)
    if name.startswith('mbin') or o in ('mun', 'mblend', 'mldm', 'mset'): p.op('dumpm', 0, (st['d'] + 1) % 3)
    if o == 'meset': p.op('dumpm', 0, st['a'])
