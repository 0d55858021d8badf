"""Exact reals: values are Polys over real atoms (cells, cos/sin of rational turns, pi, square roots, sums)."""
import math
from fractions import Fraction
from .poly import *
from .poly import _n

PI = Poly.of(atom('pi'))
INEXACT = []      # constants that are not (roundings of) exact values; for the precision property

def cosA(turn): return _trig('cos', turn)
def sinA(turn): return _trig('sin', turn)
def _trig(k, turn):
    turn = P(turn)
    # reduce the constant part modulo one turn
    c = turn.cval()
    c2 = Fraction(c) % 1
    turn = turn - c + _n(c2)
    if turn.is_const():
        v = Fraction(turn.cval()) % 1
        t = {'cos': {0: 1, Fraction(1, 4): 0, Fraction(1, 2): -1, Fraction(3, 4): 0}, 'sin': {0: 0, Fraction(1, 4): 1, Fraction(1, 2): 0, Fraction(3, 4): -1}}[k]
        if v in t: return C(t[v])
    return Poly.of(atom(k, turn))
import vf.poly as _p
_p._REBUILD['cos'] = cosA
_p._REBUILD['sin'] = sinA

def angle(v):
    """v = pi * P -> turn P/2"""
    q = v * PI.inv()
    pid = sid(PI)
    for m in q.t:
        for a, e in m:
            if a == pid or ATOMS[a].kind in ('rd', 'cell', 'cos', 'sin', 'sqrt', 'junk', 'r32', 'sum'): raise ToolLimit(f'angle {v}')
    return q * Fraction(1, 2)
def cos(v): return cosA(angle(v))
def sin(v): return sinA(angle(v))
def sqrt(v):
    if v.is_const():
        q = Fraction(v.cval())
        if q < 0: raise ToolLimit('sqrt of negative')
        n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if n * n == q.numerator and d * d == q.denominator: return C(_n(Fraction(n, d)))
        return Poly.of(atom('sqrt', q))
    raise ToolLimit(f'sqrt of {v}')
def mul(a, b):
    r = a * b
    # sqrt(q)^2 = q
    for m in r.t:
        for x, e in m:
            if ATOMS[x].kind == 'sqrt' and abs(e) >= 2: return _sq(r)
    return r
def _sq(r):
    out = ZERO
    for m, c in r.t.items():
        mm = []; k = Fraction(1)
        for x, e in m:
            if ATOMS[x].kind == 'sqrt' and abs(e) >= 2:
                h = e // 2 if e > 0 else -((-e) // 2)
                k *= ATOMS[x].args[0] ** h; e -= 2 * h
            if e: mm.append((x, e))
        out = out + Poly({tuple(mm): _n(c * k)})
    return out
def recip(b):
    if len(b.t) > 1: return Poly.of(atom('invp', b))
    return b.inv()
_r32 = [0]
def round32(v):
    if v.is_const():
        c = Fraction(v.cval())
        import struct
        f = struct.unpack('<f', struct.pack('<f', float(c)))[0]
        if Fraction(f) == c: return v
        return C(_n(Fraction(f)))
    return Poly.of(atom('r32', v))

_REC = None
def _table():
    """exact values recognised in literals: sqrt(q), cos(2 pi a/b) and their halves, multiples of pi"""
    global _REC
    if _REC is None:
        _REC = []
        for q in (2, 3, 5, 6, Fraction(1, 2), Fraction(1, 3), Fraction(3, 4), Fraction(1, 8)):
            _REC.append((math.sqrt(q), sqrt(C(q))))
        for b in (5, 7, 8, 9, 10, 12, 16, 20, 24, 32):
            for a in range(1, b):
                if math.gcd(a, b) == 1:
                    _REC.append((math.cos(2 * math.pi * a / b), cosA(C(Fraction(a, b)))))
                    _REC.append((math.sin(2 * math.pi * a / b), sinA(C(Fraction(a, b)))))
        for k in (1, 2, Fraction(1, 2), Fraction(1, 3), Fraction(1, 4), Fraction(1, 6), Fraction(1, 8), 4):
            _REC.append((math.pi * float(k), PI * k))
        _REC.append((1 / math.pi, PI.inv())); _REC.append((2 / math.pi, PI.inv() * 2))
    return _REC
def f64const(x):
    if x != x or math.isinf(x): return Poly.of(atom('special', str(x)))
    q = Fraction(x)
    if q.denominator <= 1 << 20: return C(_n(q))
    for v, p in _table():
        for s in (1, -1):
            if abs(x - s * v) <= 2.3e-16 * abs(v): return p * s
    r = q.limit_denominator(1000)      # a rounded simple fraction such as 1/3
    if r and abs(x - r.numerator / r.denominator) <= 2.3e-16 * abs(x): return C(_n(r))
    return C(_n(q))
def coarse(q):
    """a rational constant that is neither a short binary fraction nor a recognised value"""
    return isinstance(q, Fraction) and q.denominator > 1 << 16
def f32const(x):
    if x != x or math.isinf(x): return Poly.of(atom('special', str(x)))
    return C(_n(Fraction(x)))
