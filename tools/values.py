"""Lane values: boundary lattices and seeded random values, as little-endian bytes."""
import struct, random
from vp import SIZE, MAXN

def iv(t, v): return (v % (1 << 8 * SIZE[t])).to_bytes(SIZE[t], 'little')
def fw(t, bits): return bits.to_bytes(SIZE[t], 'little')
def fv(t, x): return struct.pack('<f' if t == 'f32' else '<d', x)
FMT = {'f32': (8, 23), 'f64': (11, 52)}

_int = {}
def int_edges(t):
    if t in _int: return _int[t]
    w = 8 * SIZE[t]
    s = {0, 1, 2, 3, -1, -2, -3, (1 << w - 1) - 1, -(1 << w - 1), -(1 << w - 1) + 1, (1 << w - 1) - 2}
    for k in range(w):
        s |= {1 << k, (1 << k) - 1, (1 << k) + 1, -(1 << k), ~(1 << k)}
    for pat in (0x55, 0xaa, 0x0f, 0xf0, 0x80, 0x7f, 0x01, 0xfe):
        s.add(int.from_bytes(bytes([pat]) * (w // 8), 'little'))
    _int[t] = sorted({v % (1 << w) for v in s})
    return _int[t]

_flt = {}
def flt_edges(t):
    if t in _flt: return _flt[t]
    eb, mb = FMT[t]
    emax = (1 << eb) - 1
    bias = emax >> 1
    s = set()
    mant = [0, 1, 2, (1 << mb) - 1, (1 << mb) - 2, 1 << (mb - 1), (1 << (mb - 1)) + 1, (1 << (mb - 1)) - 1]
    exps = [0, 1, 2, bias - mb - 1, bias - mb, bias - 2, bias - 1, bias, bias + 1, bias + 2, bias + mb - 1, bias + mb, bias + mb + 1,
            bias + 30, bias + 31, bias + 32, bias + 62, bias + 63, emax - 2, emax - 1]
    for e in exps:
        if 0 <= e < emax:
            for m in mant: s.add((e << mb) | m)
    s |= {emax << mb, (emax << mb) | 1, (emax << mb) | (1 << (mb - 1)), (emax << mb) | ((1 << mb) - 1)}
    # small integers and halves
    for x in (0.5, 1.5, 2.5, 3.5, 4.5, 3, 5, 7, 10, 100, 0.1, 0.3, 1e10, 12345.678, 0.49999997, 0.75, 2147483647.5, 8388607.5, 4503599627370495.5):
        s.add(int.from_bytes(fv(t, x), 'little'))
    _flt[t] = sorted(s | {v | (1 << (eb + mb)) for v in s})
    return _flt[t]
def is_nan(t, b):
    eb, mb = FMT[t]
    v = int.from_bytes(b, 'little') & ((1 << (eb + mb)) - 1)
    return v > ((1 << eb) - 1) << mb
def is_fin(t, b):
    eb, mb = FMT[t]
    v = int.from_bytes(b, 'little') & ((1 << (eb + mb)) - 1)
    return v < ((1 << eb) - 1) << mb

def small_alphabet(t):
    """few enough values that every pair of them meets in some lane"""
    if t[0] == 'i': return [iv(t, x) for x in (0, 1, -1, 2, -(1 << 8 * SIZE[t] - 1), (1 << 8 * SIZE[t] - 1) - 1)]
    if t[0] == 'u': return [iv(t, x) for x in (0, 1, 2, 1 << 8 * SIZE[t] - 1, (1 << 8 * SIZE[t] - 1) - 1, (1 << 8 * SIZE[t]) - 1)]
    eb, mb = FMT[t]; sg = 1 << eb + mb; inf = ((1 << eb) - 1) << mb
    return [fw(t, x | s) for x in (0, inf, ((1 << eb - 1) - 1) << mb, 1, inf - 1) for s in (0, sg)] + [fw(t, inf | 1 << mb - 1)]
def rnd(r, t, nan=True):
    """one lane"""
    if getattr(r, 'small', False):
        while True:
            b = r.choice(small_alphabet(t))
            if nan or t[0] != 'f' or not is_nan(t, b): return b
    if t[0] in 'iu':
        c = r.random()
        if c < .5: return iv(t, r.choice(int_edges(t)))
        if c < .65: return iv(t, r.randrange(-9, 10))
        if c < .8: return iv(t, r.choice([1, -1]) * r.getrandbits(r.randrange(1, 8 * SIZE[t] + 1)))    # any magnitude
        return iv(t, r.getrandbits(8 * SIZE[t]))
    while True:
        c = r.random()
        eb, mb = FMT[t]
        if c < .45: b = fw(t, r.choice(flt_edges(t)))
        elif c < .6: b = fv(t, float(r.randrange(-40, 41)) / r.choice([1, 1, 2, 4, 3]))
        elif c < .8:  # moderate exponent
            e = ((1 << eb - 1) - 1) + (r.randrange(-30, 31) if c < .75 else r.randrange(-70, 71))
            b = fw(t, (r.getrandbits(1) << (eb + mb)) | (e << mb) | r.getrandbits(mb))
        else: b = fw(t, r.getrandbits(8 * SIZE[t]))
        if nan or not is_nan(t, b): return b
def vec(r, t, n=MAXN, **kw): return b''.join(rnd(r, t, **kw) for _ in range(n))
def mask(r, n=MAXN):
    c = r.random()
    if c < .08: return bytes(n)
    if c < .16: return bytes([1]) * n
    if c < .3:
        b = bytearray(n); b[r.randrange(0, 16)] = 1; return bytes(b)
    if c < .4:
        b = bytearray([1]) * n; b[r.randrange(0, 16)] = 0; return bytes(b)
    p = r.choice([.2, .5, .5, .8])
    return bytes(1 if r.random() < p else 0 for _ in range(n))

def binade(r, t, e, neg=None):
    """a number of binade e (subnormal ones included): random, lowest or highest of it"""
    eb, mb = FMT[t]; bias = (1 << eb - 1) - 1
    if neg is None: neg = r.random() < .5
    c = r.random()
    m = r.getrandbits(mb) if c < .7 else 0 if c < .85 else (1 << mb) - 1
    if e >= 1 - bias: v = (e + bias) << mb | m
    else:
        k = e + bias - 1 + mb       # position of the top bit
        v = 1 << k | m >> mb - k if k else 1
    return fw(t, v | neg << eb + mb)
def erange(t): eb, mb = FMT[t]; bias = (1 << eb - 1) - 1; return 1 - bias - mb, bias + 1
