"""Reference enclosures of the elementary functions (mpmath): value floor-truncated to 96 bits."""
import struct, functools
import mpmath as mp
mp.mp.prec = 160
P = {'f32': (24, -126, 127), 'f64': (53, -1022, 1023)}
BAD = [0, [0], 0]
def dec(t, b): return struct.unpack('<f' if t == 'f32' else '<d', b)[0]
def big(x): return mp.mpf(x)
def lgam(x):
    # log|gamma|: extra precision near its zeros
    mp.mp.prec = 400
    try:
        if x > 0: return mp.loggamma(x)
        return mp.log(abs(mp.pi / mp.sin(mp.pi * x))) - mp.loggamma(1 - x)
    finally: mp.mp.prec = 160
def tgam(x):
    if x > 200: return mp.inf
    if x < -2000: return mp.mpf(0) if int(mp.floor(x)) % 2 == 0 else -mp.mpf(0)
    return mp.gamma(x)
def trig(fn):
    def g(x):
        e = mp.frexp(x)[1]
        mp.mp.prec = 160 + max(0, int(e)) + 80
        try: return fn(x)
        finally: mp.mp.prec = 160
    return g
def clampexp(fn, big_):
    def g(x):
        if x > big_: return mp.inf
        if x < -big_: return mp.mpf(0)
        return fn(x)
    return g
def powr(x, y):
    # result in the representable range?  otherwise clamp through the logarithm
    l = y * mp.log(abs(x), 2)
    s = -1 if x < 0 and int(y) % 2 else 1
    if l > 5000: return s * mp.inf
    if l < -5000: return ('z', s)
    mp.mp.prec = 300
    try: return s * mp.power(abs(x), y)
    finally: mp.mp.prec = 160
def fcosh(x): return mp.inf if abs(x) > 1e5 else mp.cosh(x)
def fsinh(x): return mp.sign(x) * mp.inf if abs(x) > 1e5 else (mp.sinh(x) if abs(x) > 1e-3 else small_sinh(x))
def hi(fn, p=2400):
    def g(*a):
        mp.mp.prec = p
        try: return fn(*a)
        finally: mp.mp.prec = 160
    return g
def small_sinh(x): return (mp.expm1(x) - mp.expm1(-x)) / 2
def fasinh(x): return mp.sign(x) * mp.log1p(abs(x) + x * x / (1 + mp.sqrt(1 + x * x)))
def fatanh(x): return (mp.log1p(x) - mp.log1p(-x)) / 2
def facosh(x):
    return mp.log1p((x - 1) + mp.sqrt((x - 1) * (x + 1)))
def fexpm1(x): return mp.inf if x > 1e5 else (mp.mpf(-1) if x < -1e5 else mp.expm1(x))
def ftanh(x): return mp.sign(x) if abs(x) > 1e5 else (mp.tanh(x) if abs(x) > 1e-3 else small_sinh(x) / mp.cosh(x))
def ferfc(x): return mp.mpf(0) if x > 1e4 else mp.erfc(x)
F1 = {'sin': trig(mp.sin), 'cos': trig(mp.cos), 'tan': trig(mp.tan), 'asin': mp.asin, 'acos': hi(mp.acos, 300), 'atan': mp.atan,
      'sinh': fsinh, 'cosh': fcosh, 'tanh': ftanh, 'asinh': fasinh, 'acosh': hi(facosh, 300), 'atanh': fatanh,
      'exp': clampexp(mp.exp, 1e5), 'exp2': clampexp(lambda x: mp.power(2, x), 1e5), 'expm1': fexpm1,
      'log': hi(mp.log, 300), 'log2': hi(lambda x: mp.log(x, 2), 300), 'log10': hi(lambda x: mp.log10(x), 300), 'log1p': mp.log1p,
      'cbrt': lambda x: mp.sign(x) * mp.cbrt(abs(x)), 'rcp': lambda x: 1 / x, 'rsqrt': lambda x: 1 / mp.sqrt(x),
      'erf': mp.erf, 'erfc': ferfc, 'tgamma': hi(tgam, 300), 'lgamma': lgam}
F2 = {'atan2': mp.atan2, 'hypot': mp.hypot, 'pow': powr}
def enc(t, v, x=None):
    p, emin, emax = P[t]
    if isinstance(v, tuple): return [0 if v[1] > 0 else 1, [1], emin - p - 3]
    if mp.isnan(v): return BAD
    s = 1 if v < 0 else 0
    if mp.isinf(v): return [s, [1], emax + 2]
    if v == 0: return [s, [1], emin - p - 3] if x is not None else BAD
    m, e = mp.frexp(abs(v))
    if e > emax + 2: return [s, [1], emax + 2]
    if e < emin - p - 3: return [s, [1], emin - p - 3]
    k = int(mp.floor(mp.ldexp(m, 96)))
    return [s, list(k.to_bytes(12, 'little')), int(e) - 96]
def ref1(fn, t, a):
    x = dec(t, a)
    if fn == 'sqrt' or x != x or x in (float('inf'), float('-inf')): return BAD
    try:
        v = F1[fn](mp.mpf(x))
        if isinstance(v, mp.mpc): return BAD
        if fn == 'tgamma' and x < -200 and v == 0: return [int(mp.floor(x)) % 2, [1], P[t][1] - P[t][0] - 3]
        return enc(t, v, x if fn in ('exp', 'exp2', 'erfc', 'tgamma') else None)
    except (ValueError, ZeroDivisionError, OverflowError): return BAD
def ref2(fn, t, a, b):
    x, y = dec(t, a), dec(t, b)
    if x != x or y != y or abs(x) == float('inf') or abs(y) == float('inf'): return BAD
    try:
        v = F2[fn](mp.mpf(x), mp.mpf(y))
        if isinstance(v, mp.mpc): return BAD
        return enc(t, v)
    except (ValueError, ZeroDivisionError, OverflowError): return BAD
def work(key):
    fn, t, a, b = key
    r = ref2(fn, t, a, b) if fn in F2 else ref1(fn, t, a)
    return key, {'s': r[0], 'm': r[1], 'e': r[2]}
def table(keys, procs=8):
    import multiprocessing as M
    keys = list(keys)
    with M.Pool(procs) as p: return dict(p.imap_unordered(work, keys, chunksize=200))
