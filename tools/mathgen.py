"""Arguments for the elementary functions."""
import math
from vp import *
from values import *
ONE = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'exp2', 'expm1',
       'log', 'log2', 'log10', 'log1p', 'cbrt', 'sqrt', 'rcp', 'rsqrt', 'erf', 'erfc', 'tgamma', 'lgamma', 'sincos']
TWO = ['atan2', 'hypot', 'pow']
NL = 24
LIM = {'f32': (-149, 128, 24), 'f64': (-1074, 1024, 53)}
def q(t, x):
    """nearest representable (overflow: largest finite)"""
    try: return fv(t, x)
    except OverflowError: return fv(t, math.copysign(3.4028234e38, x))
def step(t, b, k):
    v = int.from_bytes(b, 'little'); w = 8 * SIZE[t]
    s = v >> (w - 1); m = (v & ((1 << (w - 1)) - 1)) + k
    if m < 0: s ^= 1; m = -m
    top = (0xff << 23) if t == 'f32' else (0x7ff << 52)
    return fw(t, (s << (w - 1)) | min(m, top - 1))
def jig(r, t, x):
    b = q(t, x)
    return step(t, b, r.choice([0, 0, 1, -1, 2, -2, r.randrange(-40, 41)]))
def logu(r, t, lo=None, hi=None, neg=True):
    l, h, p = LIM[t]
    e = r.uniform(l if lo is None else lo, (h - 1e-3) if hi is None else hi)
    try: x = math.ldexp(r.uniform(1, 2), math.floor(e)) if e < h - 1 else math.ldexp(r.uniform(1, 1.99), h - 1)
    except OverflowError: x = math.ldexp(1.9, h - 1)
    if neg and r.random() < .5: x = -x
    return q(t, x)
def mag(r, t, x): return q(t, x if r.random() < .5 else -x)
def dom(r, t, fn):
    """one ordinary argument"""
    l, h, p = LIM[t]
    c = r.random()
    if fn in ('sin', 'cos', 'tan', 'sincos'):
        lim = 12 if t == 'f32' else 27
        if c < .2: return mag(r, t, r.uniform(0, 10))
        if c < .4:
            b = jig(r, t, r.randrange(1, r.choice([9, 9, 100, 5000, 10 ** 6])) * math.pi / 4)
            return b if r.random() < .5 else step(t, b, 0)[:-1] + bytes([b[-1] ^ 0x80])
        if c < .6: return logu(r, t, -4, lim)
        if c < .7: return logu(r, t, lim - .3, lim + .3)
        if c < .8: return logu(r, t, lim, h)
        if c < .9: return mag(r, t, r.uniform(2 ** (lim - 2), 2 ** lim))
        return logu(r, t, l, -4)
    if fn in ('asin', 'acos', 'atanh'):
        if c < .35: return mag(r, t, r.uniform(0, 1))
        if c < .55: return mag(r, t, 1 - math.ldexp(r.random(), r.randrange(-p, 0)))
        if c < .75:
            b = jig(r, t, r.choice([.5, .625, .25, .75, .875, 1e-8, 6e-5, .125])); return b if r.random() < .5 else b[:-1] + bytes([b[-1] ^ 0x80])
        return logu(r, t, l, -1)
    if fn == 'acosh':
        if c < .4: return q(t, 1 + math.ldexp(1 + r.random(), r.randrange(-p + 1, 0)))
        if c < .7: return q(t, r.uniform(1, 20))
        return logu(r, t, 1, h, False)
    if fn in ('exp', 'exp2', 'expm1', 'sinh', 'cosh'):
        top = h if fn == 'exp2' else h * math.log(2)
        bot = l if fn == 'exp2' else l * math.log(2)
        if c < .5: return q(t, r.uniform(bot, top))
        if c < .7: return mag(r, t, r.uniform(0, 2))
        if c < .85: return jig(r, t, r.choice([top, bot, top - 1, bot + 1, -top, .5 * math.log(2), 1, -1]))
        return logu(r, t, l, 4)
    if fn in ('log', 'log2', 'log10'):
        if c < .3: return logu(r, t, neg=False)
        if c < .5: return q(t, 1 + r.uniform(-.3, .5))
        if c < .65: return step(t, q(t, 1.0), r.choice([-1, 1]) * r.randrange(1, 1 << r.randrange(1, p - 1)))
        if c < .8: return logu(r, t, l, l + p, False)
        if c < .9: return q(t, 2.0 ** r.randrange(l, h))
        return q(t, r.choice([10.0 ** r.randrange(-30, 30), r.uniform(.5, 4)]))
    if fn == 'log1p':
        if c < .25: return logu(r, t, neg=False)
        if c < .5: return q(t, r.uniform(-.99, 1))
        if c < .7: return step(t, q(t, -1.0), -r.randrange(1, 1 << r.randrange(1, p - 1)))
        if c < .8: return jig(r, t, r.choice([-.25, .41421356, -.29289321, .5, 1, 2 ** 23, 2 ** 24, 2 ** 52, 2 ** 53]))
        return logu(r, t, -p - 3, 0)if r.random() < .7 else logu(r, t, l, -p)
    if fn in ('cbrt', 'rcp'): return logu(r, t)
    if fn in ('sqrt', 'rsqrt'): return logu(r, t, neg=False)
    if fn == 'atan':
        if c < .4: return mag(r, t, r.uniform(0, 4))
        if c < .6: return mag(r, t, struct.unpack('<f' if t == 'f32' else '<d', jig(r, t, r.choice([.66, .4142135623730950, 2.414213562373095, 1, .4375, .6875, 1.1875, 2.4375])))[0])
        return logu(r, t)
    if fn in ('asinh', 'tanh', 'erf'):
        if c < .5: return mag(r, t, r.uniform(0, 6))
        return logu(r, t) if c < .8 else logu(r, t, -p, 3)
    if fn == 'erfc':
        if c < .8: return q(t, r.uniform(-6, 10.5 if t == 'f32' else 27.3))
        return logu(r, t, -p, 2)
    if fn == 'tgamma':
        top = 35.0 if t == 'f32' else 171.6
        if c < .6: return q(t, r.uniform(.05, top))
        if c < .8: return q(t, r.uniform(-top, 0) + 1e-4)
        return logu(r, t, -20, 2)
    if fn == 'lgamma':
        if c < .5: return q(t, r.uniform(.01, 30))
        if c < .7: return logu(r, t, -30, h - 12, False)
        return q(t, r.uniform(-20, 0) + 1e-4)
    raise KeyError(fn)
def dom2(r, t, fn):
    l, h, p = LIM[t]
    c = r.random()
    if fn == 'atan2':
        if c < .4: return mag(r, t, r.uniform(0, 5)), mag(r, t, r.uniform(0, 5))
        if c < .7:
            y = logu(r, t, -100, 100); x = dec(t, y) * 2.0 ** r.uniform(-12, 12)
            return y, mag(r, t, x)
        return logu(r, t), logu(r, t)
    if fn == 'hypot':
        if c < .3: return mag(r, t, r.uniform(0, 100)), mag(r, t, r.uniform(0, 100))
        if c < .8:
            a = logu(r, t, l, h - 1); x = abs(dec(t, a)) * 2.0 ** r.uniform(-p, p) if abs(dec(t, a)) < 2.0 ** (h - p - 3) else abs(dec(t, a)) * 2.0 ** r.uniform(-p, 0)
            return a, mag(r, t, x)
        return logu(r, t), logu(r, t)
    if fn == 'pow':
        if c < .3: return q(t, r.uniform(.01, 10)), q(t, r.uniform(-20, 20))
        if c < .6:
            x = logu(r, t, neg=False); lg = math.log2(dec(t, x)) or 1.0
            return x, q(t, max(-1e30, min(1e30, r.uniform(l, h) / lg)))
        if c < .8: return q(t, -abs(r.uniform(.1, 9))), q(t, float(r.randrange(-30, 31) or 3))
        if c < .9:
            x = q(t, 1 + math.ldexp(r.random() - .5, -r.randrange(1, p - 4)))
            lg = math.log2(dec(t, x)) or 1.0
            return x, q(t, max(-1e30, min(1e30, r.uniform(l, h) / lg)))
        return q(t, float(r.randrange(2, 20))), q(t, float(r.randrange(-12, 13)) or .5)
    raise KeyError(fn)
def dec(t, b): return struct.unpack('<f' if t == 'f32' else '<d', b)[0]
def nan(t, r): 
    eb, mb = FMT[t]
    return fw(t, (((1 << eb) - 1) << mb) | (1 << (mb - 1)) | r.getrandbits(mb - 1) | (r.getrandbits(1) << (eb + mb)))
def spec(r, t, fn):
    """one special (or boundary) argument"""
    l, h, p = LIM[t]
    c = r.random()
    base = [0.0, -0.0, math.inf, -math.inf, 1.0, -1.0]
    if c < .55: return q(t, r.choice(base))
    if c < .7: return nan(t, r)
    if c < .8: return q(t, r.choice([2.0, -2.0, 3.0, -3.0, .5, -.5, 4.0]))
    if c < .87: return step(t, q(t, r.choice([1.0, -1.0])), r.choice([1, -1]))
    if c < .92: return fw(t, r.choice([1, 1 | 1 << (8 * SIZE[t] - 1)]))
    if c < .95: return mag(r, t, math.ldexp(1.99, h - 1))
    return logu(r, t)
def lanes_for(r, t, fn, ps):
    if fn in TWO:
        out = []
        for _ in range(NL):
            a, b = dom2(r, t, fn)
            c = r.random()
            if c < ps:
                k = r.random()
                if k < .4: a = spec(r, t, fn)
                elif k < .7: b = spec(r, t, fn)
                else: a, b = spec(r, t, fn), spec(r, t, fn)
            out.append((a, b))
        return out
    return [(spec(r, t, fn) if r.random() < ps else dom(r, t, fn), None) for _ in range(NL)]
def emit(p, fn, L):
    x = b''.join(a for a, _ in L)
    y = b''.join(b for _, b in L) if L[0][1] is not None else None
    p.op('elsc.sin' if fn == 'sincos' else 'el.' + fn, x=x, y=y)
def g_math(r, t, fn, i, ps, rounds=1):
    p = Prog('%s.%s.%d' % (t, fn, i), t)
    for _ in range(rounds):
        L = lanes_for(r, t, fn, ps)
        emit(p, fn, L)
        k = r.randrange(1, 4)
        emit(p, fn, L[k:] + L[:k])
        M = lanes_for(r, t, fn, max(ps, .3))
        w = r.choice([.3, .5, .8])
        emit(p, fn, [a if r.random() < w else b for a, b in zip(L, M)])
        emit(p, fn, [r.choice(L)] * NL)
        emit(p, fn, L)
    return p
LOGS = ['log', 'log2', 'log10', 'log1p']
def g_sweep(r, t, fn, i):
    """logarithms: one argument from every slice of the mantissa (the kernels look constants up by its upper bits), most of them near one"""
    p = Prog('%s.%s.s%d' % (t, fn, i), t)
    l, h, pr = LIM[t]
    S = 64 if t == 'f32' else 256
    A = []
    for j in range(S):
        m = 1 + (j + r.random()) / S
        c = r.random()
        e = (0 if m < 1.42 else -1) if c < .5 else r.choice([0, -1, 1, 2, -2]) if c < .8 else r.randrange(-20, 24) if fn == 'log1p' else r.randrange(l + pr, h)
        x = math.ldexp(m, e)
        A.append((q(t, x - 1 if fn == 'log1p' else x), None))
    r.shuffle(A)
    while A:
        L, A = A[:CH[t]], A[CH[t]:]
        emit(p, fn, L + [r.choice(L) for _ in range(NL - len(L))])
    return p
# arguments per call in the sweeps: as many as every instruction set has lanes in some ABI
CH = {'f32': 7, 'f64': 5}
KERNELS = ['sin', 'cos', 'tan', 'sincos', 'asin', 'acos', 'atan', 'log', 'log2', 'log10', 'log1p', 'cbrt', 'sqrt', 'rcp', 'rsqrt', 'hypot']
def binades(r, t, fn):
    """one argument (or two) from every binade in which the function is not trivial"""
    l, h, p = LIM[t]
    def at(e, neg=False):
        c = r.random()
        x = math.ldexp(r.uniform(1, 2) if c < .7 else 1.0 if c < .85 else 2 - 2.0 ** (1 - p), e)
        return q(t, -x if neg else x)
    A = []
    if fn == 'hypot':
        # twice everywhere, and often where squares overflow or vanish
        for e, mid in [(e, False) for e in 2 * list(range(l, h))] + 16 * [(m + k, True) for m in (h // 2, l // 2, h // 2 - p, l // 2 + p) for k in range(-3, 3)]:
            d = r.choice([0, 0, 0, 1, 2, p // 2, p - 1, p, p + 1, p + 10, p + 11, p + 12, p + 13, r.randrange(0, p + 16)])
            if mid and r.random() < .6: d = r.choice([0, 0, 1])
            ab = [at(e, r.random() < .5), at(max(l, e - d), r.random() < .5)]
            if e == h - 1: ab[0] = q(t, math.ldexp(1.3, e))
            r.shuffle(ab); A.append(tuple(ab))
        return A
    neg = fn in ('sin', 'cos', 'tan', 'sincos', 'atan', 'cbrt', 'rcp')
    lo, hi = l, h
    if fn in ('asin', 'acos'): hi, neg = 0, True
    A = [at(e, neg and r.random() < .5) for e in range(lo, hi)]
    if fn in ('asin', 'acos'):
        for k in range(1, p + 1): A += [q(t, s * (1 - math.ldexp(r.uniform(1, 2), -k - 1))) for s in (1, -1)]
    if fn in ('sin', 'cos', 'tan', 'sincos'):
        for j in range(0, 129):
            A.append(step(t, q(t, (j if r.random() < .5 else -j or 1) * math.pi / 4), r.choice([0, 1, -1, 2, -2])))
            A.append(q(t, r.choice([1, -1]) * (j + r.random()) * math.pi / 4))
    if fn == 'log1p':
        A += [q(t, -math.ldexp(r.uniform(1, 2), e)) for e in range(l, -1)] + [step(t, q(t, -1.0), -(1 << k) - r.getrandbits(k)) for k in range(p - 2)]
    if fn in ('log', 'log2', 'log10'): A += [step(t, q(t, 1.0), s * ((1 << k) + r.getrandbits(k))) for k in range(p - 2) for s in (1, -1)]
    return [(x, None) for x in A]
def g_binades(r, t, fn):
    A = binades(r, t, fn)
    r.shuffle(A)
    ps = []
    while A:
        p = Prog('%s.%s.b%d' % (t, fn, len(ps)), t); ps.append(p)
        for _ in range(16):
            L, A = A[:CH[t]], A[CH[t]:]
            if L: emit(p, fn, L + [r.choice(L) for _ in range(NL - len(L))])
    return ps
def g_lattice(r, t, fn):
    """every special argument, and every pair of them"""
    l, h, p = LIM[t]
    V = [q(t, s * x) for x in (0.0, math.inf, 1.0, 2.0, 3.0, 4.0, .5, math.ldexp(1.75, h - 1), 1.25, 2.0 ** (p + 3)) for s in (1, -1)]
    V += [fw(t, k | s << (8 * SIZE[t] - 1)) for k in (1, (1 << FMT[t][1]) - 1, 1 << FMT[t][1]) for s in (0, 1)]
    V += [step(t, q(t, s), k) for s in (1.0, -1.0) for k in (1, -1)] + [nan(t, r) for _ in range(3)]
    if fn in TWO:
        V = [v for v in V if r.random() < .8 or v in (q(t, 0.0), q(t, -0.0), q(t, math.inf), q(t, -math.inf))] + [nan(t, r) for _ in range(2)]
        A = [(a, b) for a in V for b in V]
    else: A = [(a, None) for a in V]
    r.shuffle(A)
    ps = []
    while A:
        p = Prog('%s.%s.l%d' % (t, fn, len(ps)), t); ps.append(p)
        for _ in range(16):
            L, A = A[:CH[t]], A[CH[t]:]
            if L: emit(p, fn, L + [r.choice(L) for _ in range(NL - len(L))])
    return ps
def env_op(r, p):
    c = r.random()
    if c < .6: p.op('env.rm.' + r.choice(['ne', 'u', 'd', 'z']))
    elif c < .85: p.op('env.raise', k=r.randrange(1, 32))
    else: p.op('env.clear')
def g_env(r, t, fn, i, ps):
    """the same arguments under changing rounding modes"""
    p = Prog('%s.%s.e%d' % (t, fn, i), t)
    L = lanes_for(r, t, fn, ps)
    modes = ['u', 'd', 'z', 'ne']; r.shuffle(modes)
    for m in modes:
        p.op('env.rm.' + m)
        if r.random() < .3: p.op('env.raise', k=r.randrange(1, 32))
        k = r.randrange(0, 4)
        emit(p, fn, L[k:] + L[:k])
        if r.random() < .3: env_op(r, p); emit(p, fn, L)
        if r.random() < .5: L = lanes_for(r, t, fn, ps)
    return p
def keys(progs):
    K = set()
    for p in progs:
        s = SIZE[p.t]
        for name, d, a, b, c, k, x, y in p.ins:
            if name.startswith('env.'): continue
            fn = name.split('.')[1]
            for j in range(len(x) // s):
                u, v = x[j * s:(j + 1) * s], y[j * s:(j + 1) * s] if y else None
                K.add((fn, p.t, u, v))
                if name.startswith('elsc'): K.add(('cos', p.t, u, None))
    return K
