"""Concrete assignments that satisfy a context: they refute entailments without a solver call and serve as witnesses."""
import random
from fractions import Fraction
from .poly import *

_CODE = {}
class NoEval(Exception): pass
def _isprime(n):
    if n < 2: return False
    d = 2
    while d * d <= n:
        if n % d == 0: return False
        d += 1
    return True
def _pm(b, e, m):
    if e < 0 or m <= 0: raise NoEval()
    return pow(b, e, m)
def _fd(a, b):
    if b <= 0: raise NoEval()
    return a // b
def _ex(b, e):
    if e < 0 or e > 300: raise NoEval()
    return b ** e
def _tau(b, r, j):
    if r < 0 or r > 60 or b < 1: raise NoEval()
    if not 0 <= j < b * 4 ** r: return 0
    if r == 0: return j
    Q = b * 4 ** (r - 1)
    p, v = divmod(j, Q)
    t = _tau(b, r - 1, v)
    return 4 * t + p if p < 3 else 4 * (Q - 1 - t) + 3
def _tin(b, r, x):
    if r < 0 or r > 60 or b < 1: raise NoEval()
    if not 0 <= x < b * 4 ** r: return 0
    if r == 0: return x
    Q = b * 4 ** (r - 1)
    p, t = x % 4, x // 4
    return p * Q + _tin(b, r - 1, t if p < 3 else Q - 1 - t)
GL = {'_tau': _tau, '_tin': _tin, '_pm': _pm, '_fd': _fd, '_ex': _ex, 'max': max, 'min': min}
def src(p, scale=1):
    ts = []
    for m, c in p.t.items():
        c = c * scale
        if isinstance(c, Fraction):
            if c.denominator != 1: raise NoEval()
            c = c.numerator
        s = str(c)
        for a, e in m:
            if e < 0: raise NoEval()
            s += f'*{asrc(a)}' + (f'**{e}' if e > 1 else '')
        ts.append(s)
    return '(' + '+'.join(ts) + ')' if ts else '0'
def asrc(a):
    A = ATOMS[a]
    k = A.kind
    if k == 'sym': return f'e[{a}]'
    if k in ('max', 'min'):
        d = A.args[0].denom() * A.args[1].denom()
        if d != 1: raise NoEval()
        return f'{k}({src(A.args[0])},{src(A.args[1])})'
    if k == 'div':
        d = A.args[0].denom() * A.args[1].denom()
        return f'_fd({src(A.args[0], d)},{src(A.args[1], d)})'
    if k == 'exp': return f'_ex({A.args[0]},{src(A.args[1])})'
    if k == 'tau': return f'_tau({src(A.args[0])},{src(A.args[1])},{src(A.args[2])})'
    if k == 'tauinv': return f'_tin({src(A.args[0])},{src(A.args[1])},{src(A.args[2])})'
    if k == 'powmod': return f'_pm({src(A.args[0])},{src(A.args[1])},{src(A.args[2])})'
    raise NoEval()
def fn(p):
    """compiled sign-preserving evaluator of p, or None"""
    f = _CODE.get(p, 0)
    if f == 0:
        try: f = eval('lambda e: ' + src(p, p.denom()), GL)
        except (NoEval, RecursionError, SyntaxError, MemoryError): f = None
        _CODE[p] = f
    return f
def val(p, env):
    """exact value"""
    f = fn(p)
    if f is None: raise NoEval()
    v = f(env)
    d = p.denom()
    return v if d == 1 else Fraction(v, d)
def holds(c, env):
    """truth of a condition; NoEval/KeyError when not evaluable"""
    if c is True or c is False: return c
    k = c[0]
    if k in ('ge', 'eq', 'ne'):
        f = fn(c[1])
        if f is None: raise NoEval()
        v = f(env)
        return v >= 0 if k == 'ge' else v == 0 if k == 'eq' else v != 0
    if k == 'and': return all(holds(x, env) for x in c[1])
    if k == 'or': return any(holds(x, env) for x in c[1])
    if k == 'op':
        key = c[1]
        if key[0] == 'pow2': n = val(key[1], env); t = n > 0 and n & (n - 1) == 0
        elif key[0] == 'prime':
            n = val(key[1], env)
            if n > 10**7: raise NoEval()
            t = _isprime(n)
        else: return True
        return t == c[2]
    raise NoEval()
def cfree(c):
    if c is True or c is False: return frozenset()
    if c[0] in ('ge', 'eq', 'ne'): return c[1].free
    if c[0] in ('and', 'or'):
        f = frozenset()
        for x in c[1]: f |= cfree(x)
        return f
    if c[0] == 'op':
        f = frozenset()
        for x in c[1]:
            if isinstance(x, Poly): f |= x.free
        return f
    return frozenset()

def _sid(nm):
    a = atom('sym', nm); return a.id
_PR = {}
def _proot(p):
    """the smallest generator of the multiplicative group modulo the prime p"""
    if p not in _PR:
        fs = []; n = p - 1; d = 2
        while d * d <= n:
            if n % d == 0:
                fs.append(d)
                while n % d == 0: n //= d
            d += 1
        if n > 1: fs.append(n)
        _PR[p] = next(g for g in range(1, p) if all(pow(g, (p - 1) // f, p) != 1 for f in fs))
    return _PR[p]
RNG = random.Random(7)
def pick(lo, hi, res):
    """value in [lo, hi] (hi may be None) with the residue"""
    m, r = res or (1, 0)
    if hi is None:
        hi = lo + RNG.choice((0, 1, 2, 3, 5, 8, 12, 30)) + m
    if hi < lo: return None
    a = lo + (r - lo) % m
    if a > hi: return None
    n = (hi - a) // m
    k = RNG.choice((0, n, RNG.randint(0, n), RNG.randint(0, n)))
    return a + m * k
def extend(env, missing, facts, res):
    """assign the missing symbols; None when stuck"""
    env = dict(env)
    missing = set(missing)
    while missing:
        best = None
        for s in missing:
            lo, hi, score = None, None, 0
            ok = True
            for c in facts:
                if c is True or c is False or c[0] not in ('ge', 'eq'): continue
                fr = c[1].free
                if s not in fr: continue
                if fr & missing != {s}:
                    continue
                cf = c[1].coeff(s)
                if cf is None: continue
                try: A, B = val(cf[0], env), val(cf[1], env)
                except (NoEval, KeyError): continue
                if A == 0: continue
                q = Fraction(-B) / A
                fl = q.numerator // q.denominator
                ce = -((-q.numerator) // q.denominator)
                if c[0] == 'eq' or A > 0: lo = ce if lo is None else max(lo, ce)
                if c[0] == 'eq' or A < 0: hi = fl if hi is None else min(hi, fl)
            score = (lo is not None) + 2 * (hi is not None)
            if best is None or score > best[0]: best = (score, s, lo, hi)
        sc, s, lo, hi = best
        if lo is None: lo = 0 if hi is None or hi >= 0 else hi - 5
        v = None
        nm = ATOMS[s].args[0]
        if nm in ('g', 'ginv'):
            q = env.get(_sid('p'))
            if q is None and _sid('p') in missing: s = _sid('p'); lo, hi = 2, None
            elif q is not None and _isprime(q):
                gg = env.get(_sid('g')) if nm == 'ginv' else None
                if gg is None: gg = _proot(q)
                v = gg if nm == 'g' else pow(gg, -1, q) if gg % q else None
        if v is None: v = pick(lo, hi, res.get(s))
        if v is None: return None
        env[s] = v
        missing.discard(s)
    return env
