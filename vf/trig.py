"""Normal form of trigonometric polynomials: sums of monomial * rational * e(turn), turns modulo 1, constants modulo cyclotomics."""
from fractions import Fraction
from math import lcm
import cmath
from .poly import *
from .poly import _n, recip
from .ctx import *
from . import reals, sample

Q4 = Fraction(1, 4)
_SQ = {2: {Fraction(1, 8): 1, Fraction(7, 8): 1}, 3: {Fraction(1, 12): 1, Fraction(11, 12): 1}, 5: {Fraction(0): 1, Fraction(1, 5): 2, Fraction(4, 5): 2}}
def cmul(a, b):
    r = {}
    for x, c in a.items():
        for y, d in b.items():
            z = (x + y) % 1
            v = r.get(z, 0) + c * d
            if v: r[z] = v
            else: r.pop(z, None)
    return r
def sqrtc(q):
    """square root of a positive rational as a combination of roots of unity"""
    q = Fraction(q)
    n = q.numerator * q.denominator      # sqrt(q) = sqrt(n)/den
    k = Fraction(1, q.denominator)
    r = {Fraction(0): k}
    f = 2
    while f * f <= n:
        while n % (f * f) == 0: n //= f * f; r = {x: c * f for x, c in r.items()}
        f += 1
    for p in (2, 3, 5):
        if n % p == 0: r = cmul(r, _SQ[p]); n //= p
    if n != 1: raise ToolLimit(f'sqrt({q})')
    return r

_CYC = {}
def cyclo(n):
    """cyclotomic polynomial coefficients, low degree first"""
    if n in _CYC: return _CYC[n]
    num = [-1] + [0] * (n - 1) + [1]
    for d in range(1, n):
        if n % d == 0:
            den = cyclo(d)
            q = [0] * (len(num) - len(den) + 1)
            num = list(num)
            for i in range(len(q) - 1, -1, -1):
                q[i] = num[i + len(den) - 1] // den[-1]
                for j, c in enumerate(den): num[i + j] -= q[i] * c
            num = q
    _CYC[n] = num
    return num
def iszero(cs):
    """is sum c_q e(q) = 0 for a dict of constant turns?"""
    cs = {q: c for q, c in cs.items() if c}
    if not cs: return True
    N = 1
    for q in cs: N = lcm(N, q.denominator)
    if N > 2000: return abs(sum(complex(c) * cmath.exp(2j * cmath.pi * float(q)) for q, c in cs.items())) < 1e-12 and False
    v = [Fraction(0)] * N
    for q, c in cs.items(): v[int(q * N)] += c
    ph = cyclo(N)
    d = len(ph) - 1
    for i in range(N - 1, d - 1, -1):
        if v[i]:
            c = v[i]
            for j, k in enumerate(ph): v[i - d + j] -= c * k
    return not any(v)

def powturn(ctx, m, c):
    """c * (product of powers of g and ginv) / p  ->  c * g^(E mod p-1) / p, as a monomial with a 'gpow' atom; c an integer"""
    if not isinstance(c, int): return None
    E = ZERO; M = None; rest = []
    for a, e in m:
        A = ATOMS[a]
        if A.kind == 'powmod':
            g, x, mod_ = A.args
            if e < 0 or not is_sym(g) or (M is not None and M != mod_): return None
            nm = ATOMS[sid(g)].args[0]
            if nm not in ('g', 'ginv'): return None
            M = mod_; E = E + x * e * (1 if nm == 'g' else -1)
        else: rest.append((a, e))
    # the rest must be 1/p
    if Poly({tuple(rest): 1}) != recip(M): return None
    # exponents count modulo p-1
    Q, R = polydiv(E, M - 1)
    if Q.t and ctx.integral(Q): E = R
    if not E.t: return tuple(rest)
    return tuple(sorted(rest + [(atom('gpow', E, M).id, 1)]))
def turnnorm(ctx, turn):
    """turn modulo 1 -> (symbolic part, constant in [0,1))"""
    t = {}
    const = Fraction(0)
    for m, c in turn.t.items():
        if not m: const += Fraction(c); continue
        if any(ATOMS[a].kind == 'powmod' for a, e in m):
            m2 = powturn(ctx, m, c)
            if m2 is not None: t[m2] = _n(t.get(m2, 0) + c); continue
        if ctx.mono_integral(m):
            f = Fraction(c) % 1
            if not f: continue
            # residue of the monomial modulo the denominator
            r = 1
            for a, e in m:
                x = ctx.atom_res(a, f.denominator)
                if x is None: r = None; break
                r = r * x ** e
            if r is not None: const += f * r; continue
            t[m] = _n(f)
        else: t[m] = c
    return Poly(t), const % 1

class T:
    """{(monomial, turn): {const turn: rational}}"""
    def __init__(s): s.d = {}
    def add(s, mono, turn, cs):
        k = (mono, turn)
        x = s.d.setdefault(k, {})
        for q, c in cs.items():
            v = x.get(q, 0) + c
            if v: x[q] = v
            else: x.pop(q, None)
    def zero(s):
        return all(iszero(c) for c in s.d.values())
    def nonzero(s): return {k: c for k, c in s.d.items() if not iszero(c)}

def eqsubst(ctx, deep=False, prefer=()):
    """substitutions from equality facts  x = poly (deep: also inequalities that are provably tight)"""
    sub = {}
    fs = list(ctx.f)
    ges = {c[1] for c in fs if c is not True and c is not False and c[0] == 'ge'}
    for p in list(ges):
        if -p in ges: fs.append(('eq', p))
    if deep:
        cc = ctx
        for c in sorted((c for c in ctx.f if c is not True and c is not False and c[0] == 'ge'), key=lambda c: len(c[1].free)):
            if ('eq', c[1]) not in fs and cc.prove(('ge', -c[1])): fs.append(('eq', c[1])); cc = cc.plus(('eq', c[1]))
    for c in fs:
        if c is True or c is False or c[0] != 'eq': continue
        try: p = c[1].subst(sub)
        except ToolLimit: continue
        p = p * p.denom()
        best = None
        for m, k in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'sym':
                a = m[0][0]
                cf = p.coeff(a)
                if cf is None or not cf[0].is_const(): continue
                x = -cf[1] * _n(Fraction(1) / cf[0].cval())
                if not ctx.integral(x): continue
                if a in x.free: continue
                if best is None or (a not in prefer, len(x.t)) < (best[0] not in prefer, len(best[1].t)): best = (a, x)
        if best:
            a, x = best
            try:
                sub = {k: v.subst({a: x}) for k, v in sub.items()}
                sub[a] = x
            except ToolLimit: pass
    return sub

def normal(ctx, p, sub=None):
    """p: polynomial over cos/sin/sqrt atoms and plain symbols -> T"""
    if sub: p = p.subst(sub)
    r = T()
    for m, c in p.t.items():
        terms = {ZERO: {Fraction(0): Fraction(c)}}     # symbolic turn -> constants
        mono = []
        for a, e in m:
            A = ATOMS[a]
            if A.kind in ('cos', 'sin'):
                if e < 0: raise ToolLimit('reciprocal of a trigonometric value')
                f = {}
                ts, tc = turnnorm(ctx, A.args[0])
                tn, tcn = turnnorm(ctx, -A.args[0])
                if A.kind == 'cos': ps = ((ts, tc, Fraction(1, 2), Fraction(0)), (tn, tcn, Fraction(1, 2), Fraction(0)))
                else: ps = ((ts, tc, Fraction(1, 2), -Q4), (tn, tcn, Fraction(1, 2), Q4))
                for _ in range(e):
                    nt = {}
                    for t, cs in terms.items():
                        for s, sc, k, ph in ps:
                            t2, x = turnnorm(ctx, t + s)
                            d = nt.setdefault(t2, {})
                            for q, cc in cs.items():
                                z = (q + sc + ph + x) % 1
                                d[z] = d.get(z, 0) + cc * k
                    terms = nt
            elif A.kind == 'sqrt':
                sq = sqrtc(A.args[0])
                if e < 0: sq = {q: k / Fraction(A.args[0]) for q, k in sq.items()}; 
                for _ in range(abs(e)): terms = {t: cmul(cs, sq) for t, cs in terms.items()}
            elif A.kind in ('cell', 'rd', 'sum', 'junk', 'pi', 'r32', 'special'): raise ToolLimit(f'{A.kind} in a coefficient')
            else: mono.append((a, e))
        for t, cs in terms.items(): r.add(tuple(mono), t, cs)
    return r

# ---------------------------------------------------------------- concrete evaluation (for refutation only)
import math
def ev(p, env):
    """numeric value of a polynomial; env: sym id -> int. exact for integers"""
    tot = 0
    for m, c in p.t.items():
        v = c
        for a, e in m:
            x = evatom(a, env)
            if e < 0: v = v / (Fraction(x) if isinstance(x, (int, Fraction)) else x) ** (-e)
            else: v = v * x ** e
        tot = tot + v
    return _n(tot) if isinstance(tot, Fraction) else tot
def evatom(a, env):
    A = ATOMS[a]
    k = A.kind
    if k == 'sym':
        if a in env: return env[a]
        raise KeyError(a)
    if k == 'cos': return math.cos(2 * math.pi * float(Fraction(ev(A.args[0], env)) % 1))
    if k == 'sin': return math.sin(2 * math.pi * float(Fraction(ev(A.args[0], env)) % 1))
    if k == 'sqrt': return math.sqrt(A.args[0])
    if k == 'pi': return math.pi
    if k == 'div':
        q = ev(A.args[1], env)
        return ev(A.args[0], env) // q if q else 0
    if k == 'max': return max(ev(A.args[0], env), ev(A.args[1], env))
    if k == 'min': return min(ev(A.args[0], env), ev(A.args[1], env))
    if k == 'exp':
        return Fraction(A.args[0]) ** int(ev(A.args[1], env)) if ev(A.args[1], env) < 0 else A.args[0] ** int(ev(A.args[1], env))
    if k in ('tau', 'tauinv'): return sample.GL['_tau' if k == 'tau' else '_tin'](*[int(ev(x, env)) for x in A.args])
    if k == 'powmod': return pow(int(ev(A.args[0], env)), int(ev(A.args[1], env)), int(ev(A.args[2], env)))
    if k == 'r32':
        import struct
        return struct.unpack('<f', struct.pack('<f', float(ev(A.args[0], env))))[0]
    raise ToolLimit(f'evaluate {k}')
def evcond(c, env):
    if c is True or c is False: return c
    if c[0] == 'ge': return ev(c[1], env) >= 0
    if c[0] == 'eq': return ev(c[1], env) == 0
    if c[0] == 'ne': return ev(c[1], env) != 0
    if c[0] == 'and': return all(evcond(x, env) for x in c[1])
    if c[0] == 'or': return any(evcond(x, env) for x in c[1])
    return True
