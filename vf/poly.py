"""Integer-valued symbolic expressions: Laurent polynomials with rational coefficients over interned atoms."""
from fractions import Fraction
from math import gcd

class ToolLimit(Exception):
    """the verifier cannot handle this construct: never an alarm"""

ATOMS = []
_INTERN = {}

class Atom:
    __slots__ = ('id', 'kind', 'args', 'free')
    def __repr__(self):
        if self.kind == 'sym': return self.args[0]
        return f"{self.kind}({', '.join(map(str, self.args))})"

def atom(kind, *args):
    k = (kind,) + args
    a = _INTERN.get(k)
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.kind = kind; a.args = args
        f = set()
        if kind == 'sym': f.add(a.id)
        for x in args:
            if hasattr(x, 'free'): f |= x.free
        a.free = frozenset(f)
        ATOMS.append(a); _INTERN[k] = a
    return a

def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1: return c.numerator
    return c

class Poly:
    __slots__ = ('t', '_h', '_f')
    def __init__(self, t):
        self.t = t; self._h = None; self._f = None
    @staticmethod
    def const(c): return Poly({(): c} if c else {})
    @staticmethod
    def of(a): return Poly({((a.id, 1),): 1})
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o): return isinstance(o, Poly) and self.t == o.t
    @property
    def free(self):
        if self._f is None:
            f = set()
            for m in self.t:
                for a, _ in m: f |= ATOMS[a].free
            self._f = frozenset(f)
        return self._f
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def cval(self): return self.t.get((), 0)
    def __add__(self, o):
        if isinstance(o, (int, Fraction)): o = Poly.const(o)
        if not o.t: return self
        if not self.t: return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v: r[m] = _n(v)
            else: r.pop(m, None)
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        if isinstance(o, (int, Fraction)): o = Poly.const(o)
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def __mul__(self, o):
        if isinstance(o, (int, Fraction)):
            if o == 0: return ZERO
            return Poly({m: _n(c * o) for m, c in self.t.items()})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, k = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2 * k
                if v: r[m] = _n(v)
                else: r.pop(m, None)
        return Poly(r)
    __rmul__ = __mul__
    def __pow__(self, n):
        if n < 0:
            return self.inv() ** (-n)
        r = ONE
        for _ in range(n): r = r * self
        return r
    def inv(self):
        if len(self.t) != 1: raise ToolLimit(f"reciprocal of {self}")
        (m, c), = self.t.items()
        r = {}
        k = 1
        mm = []
        for a, e in m:
            A = ATOMS[a]
            if A.kind == 'exp':   # b^E -> b^-E
                x = exp(A.args[0], -A.args[1])
                if e != 1: raise ToolLimit('exp power')
                (m2, c2), = x.t.items()
                mm += list(m2); k = k * c2
            else: mm.append((a, -e))
        return Poly({tuple(sorted(mm)): _n(Fraction(1) / c * k)})
    def __repr__(self):
        if not self.t: return '0'
        s = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            f = '*'.join(repr(ATOMS[a]) + (f'^{e}' if e != 1 else '') for a, e in m)
            if not m: s.append(str(c))
            elif c == 1: s.append(f)
            elif c == -1: s.append('-' + f)
            else: s.append(f'{c}*{f}')
        return ' + '.join(s).replace('+ -', '- ')
    def subst(self, sub):
        """sub: dict atom-id (syms) -> Poly"""
        if not sub or self.free.isdisjoint(sub): return self
        r = ZERO
        plain = {}
        for m, c in self.t.items():
            if not any(not ATOMS[a].free.isdisjoint(sub) for a, _ in m):
                plain[m] = c; continue
            p = Poly({(): c})
            for a, e in m:
                A = ATOMS[a]
                if A.free.isdisjoint(sub): q = Poly({((a, 1),): 1})
                elif A.kind == 'sym': q = sub[a]
                else: q = rebuild(A, sub)
                if e < 0: q = recip(q); e = -e
                for _ in range(e): p = p * q
            r = r + p
        return r + Poly(plain)
    def deg_in(self, aid):
        d = 0
        for m in self.t:
            for a, e in m:
                if a == aid: d = max(d, e)
        return d
    def coeff(self, aid):
        """(A, B) with self = A*x + B, or None if not linear in x (or x hidden in a structured atom / negative power)"""
        A, B = {}, {}
        for m, c in self.t.items():
            k = 0
            for a, e in m:
                if a == aid: k = e
                elif aid in ATOMS[a].free: return None
            if k == 0: B[m] = c
            elif k == 1: A[tuple(x for x in m if x[0] != aid)] = c
            else: return None
        return Poly(A), Poly(B)
    def denom(self):
        d = 1
        for c in self.t.values():
            if isinstance(c, Fraction): d = d * c.denominator // gcd(d, c.denominator)
        return d
    def atoms(self):
        return {a for m in self.t for a, _ in m}

def mmul(m1, m2):
    """product of two monomials -> (monomial, numeric factor)"""
    if not m1: return m2, 1
    if not m2: return m1, 1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v: d[a] = v
        else: d.pop(a, None)
    k = 1
    exps = [a for a in d if ATOMS[a].kind == 'exp']
    if len(exps) > 1 or (exps and d[exps[0]] != 1):
        by = {}
        for a in exps:
            A = ATOMS[a]
            by[A.args[0]] = by.get(A.args[0], ZERO) + A.args[1] * d.pop(a)
        for b, E in by.items():
            x = exp(b, E)
            (mm, c), = x.t.items()
            k = k * c
            for a, e in mm: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items())), k

ZERO = Poly({})
ONE = Poly({(): 1})
def C(n): return Poly.const(n)
def P(x): return x if isinstance(x, Poly) else Poly.const(x)
_cnt = [0]
def sym(name): return Poly.of(atom('sym', name))
def fresh(name):
    _cnt[0] += 1
    return sym(f"{name}'{_cnt[0]}")
def sid(p):
    (m, c), = p.t.items()
    return m[0][0]
def is_sym(p):
    if len(p.t) != 1: return False
    (m, c), = p.t.items()
    return c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'sym'

def exp(b, E):
    """b^E, b a positive int, E a Poly; constant part of the exponent is pulled out"""
    E = P(E)
    c = E.cval()
    if isinstance(c, Fraction): raise ToolLimit('fractional exponent')
    R = E - c
    k = Fraction(b) ** c
    if not R.t: return C(_n(k))
    return Poly({((atom('exp', b, R).id, 1),): _n(k)})

def recip(q):
    """1/q: a sum gets an atom of its own"""
    return q.inv() if len(q.t) == 1 else Poly.of(atom('invp', q))
_REBUILD = {'invp': lambda q: recip(q)}
def rebuild(A, sub):
    args = [x.subst(sub) if hasattr(x, 'subst') else x for x in A.args]
    if A.kind == 'exp': return exp(*args)
    if A.kind in _REBUILD: return _REBUILD[A.kind](*args)
    return Poly.of(atom(A.kind, *args))

def polydiv(X, R):
    """X = R*Q + rem by long division on R's leading monomial (graded by atom of highest id in R)."""
    if R.is_const():
        c = R.cval()
        return X * (Fraction(1) / c), ZERO
    lead = max(R.t, key=lambda m: (sum(e for _, e in m), m))
    lc = R.t[lead]
    Q = ZERO; rem = X; stay = ZERO
    for _ in range(200):
        hit = None
        for m, c in rem.t.items():
            d = dict(m); ok = True
            for a, e in lead:
                v = d.get(a, 0) - e
                if v < 0: ok = False; break
                if v: d[a] = v
                else: d.pop(a, None)
            if ok: hit = (tuple(sorted(d.items())), c); break
        if hit is None: return Q, rem
        q = Poly({hit[0]: _n(Fraction(hit[1]) / lc)})
        Q = Q + q; rem = rem - q * R
    raise ToolLimit('polydiv')
