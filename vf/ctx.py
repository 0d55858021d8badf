"""Assumption contexts and integer entailment (z3 linear arithmetic over monomials, with products of facts)."""
import z3, time
from math import gcd as gcd_
from fractions import Fraction
from .poly import *
from .poly import _n

STATS = {'queries': 0, 'z3': 0, 'time': 0.0, 'sampled': 0, 'memo': 0}
from . import sample
NENV = 10

class Split(Exception):
    """the current proof needs a case split on cond"""
    def __init__(self, cond): self.cond = cond
    def __str__(self): return f'split on {self.cond}'
class NeedCase(Exception):
    """residue of a size symbol is needed"""
    def __init__(self, sym, m): self.sym = sym; self.m = m
    def __str__(self): return f'need residue of {ATOMS[self.sym]} mod {self.m}'

# conditions: True/False | ('ge',p) p>=0 | ('eq',p) | ('ne',p) | ('and',[..]) | ('or',[..]) | ('op', key, pol)
def ge(a, b=0): return mk('ge', P(a) - P(b))
def gt(a, b=0): return mk('ge', P(a) - P(b) - 1)
def le(a, b): return ge(b, a)
def lt(a, b): return gt(b, a)
def eq(a, b=0): return mk('eq', P(a) - P(b))
def ne(a, b=0): return mk('ne', P(a) - P(b))
def mk(k, p):
    if p.is_const():
        c = p.cval()
        return {'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[k]
    return (k, p)
def neg(c):
    if c is True: return False
    if c is False: return True
    k = c[0]
    if k == 'ge': return mk('ge', -c[1] - 1)
    if k == 'eq': return ('ne', c[1])
    if k == 'ne': return ('eq', c[1])
    if k == 'and': return disj([neg(x) for x in c[1]])
    if k == 'or': return conj([neg(x) for x in c[1]])
    if k == 'op': return ('op', c[1], not c[2])
    raise ToolLimit('neg')
def conj(cs):
    r = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        if c[0] == 'and': r += c[1]
        else: r.append(c)
    return True if not r else r[0] if len(r) == 1 else ('and', r)
def disj(cs):
    r = []
    for c in cs:
        if c is True: return True
        if c is False: continue
        if c[0] == 'or': r += c[1]
        else: r.append(c)
    return False if not r else r[0] if len(r) == 1 else ('or', r)
def csubst(c, sub):
    if c is True or c is False: return c
    if c[0] in ('ge', 'eq', 'ne'): return mk(c[0], c[1].subst(sub))
    if c[0] == 'and': return conj([csubst(x, sub) for x in c[1]])
    if c[0] == 'or': return disj([csubst(x, sub) for x in c[1]])
    return c
def cfree(c):
    if c is True or c is False: return frozenset()
    if c[0] in ('ge', 'eq', 'ne'): return c[1].free
    if c[0] in ('and', 'or'):
        f = frozenset()
        for x in c[1]: f |= cfree(x)
        return f
    return frozenset()

ATOMFACTS = {}    # atom id -> list of conditions that define the atom (global truths)
def define(p, *facts):
    """p a single-atom Poly; facts: conditions true of it"""
    ATOMFACTS.setdefault(sid(p), list(facts))

_ZM = {}
_ZL = {}
_ZC = {}
def zmono(m):
    v = _ZM.get(m)
    if v is None: v = _ZM[m] = z3.Int('m%d' % len(_ZM))
    return v
_I0 = z3.IntVal(0)
def zlin(p):
    v = _ZL.get(p)
    if v is None:
        d = p.denom()
        ts = []
        for m, c in p.t.items():
            ci = int(c * d)
            ts.append(z3.IntVal(ci) if not m else zmono(m) if ci == 1 else zmono(m) * z3.IntVal(ci))
        v = _ZL[p] = (z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else _I0)
    return v
def zcmp(k, p):
    v = _ZC.get((k, p))
    if v is None:
        e = zlin(p)
        v = _ZC[(k, p)] = (e >= _I0) if k == 'ge' else (e == _I0) if k == 'eq' else (e != _I0)
    return v

MEMO = {}
def ckey(c): return (c[0], c[1]) if c[0] in ('ge', 'eq', 'ne') else repr(c)
class Ctx:
    def __init__(self):
        self.f = []          # conditions
        self.res = {}        # sym id -> (m, r)
        self._cache = {}
        self.dead = False
        self._env = []; self._nf = 0; self._tries = 0     # concrete models of the first _nf facts
    def copy(self):
        c = Ctx(); c.f = list(self.f); c.res = dict(self.res); c.dead = self.dead; c._cache = {}
        c._env = self._env; c._nf = self._nf; c._tries = 0
        return c
    def syms(self):
        f = self._cache.get('syms')
        if f is None:
            f = set()
            for c in self.f: f |= sample.cfree(c)
            self._cache['syms'] = f
        return f
    def key(self):
        k = self._cache.get('key')
        if k is None: k = self._cache['key'] = frozenset(map(ckey, self.f)) | frozenset((a,) + v for a, v in self.res.items())
        return k
    def _good(self, env, facts):
        try: return all(sample.holds(c, env) for c in facts)
        except (sample.NoEval, KeyError, OverflowError): return False
    def envs(self, more=()):
        """concrete assignments satisfying every fact (possibly none)"""
        if self.dead: return []
        if self._nf != len(self.f) or (not self._env and self._tries < 2):
            new = self.f[self._nf:]
            need = set()
            for c in new: need |= sample.cfree(c)
            keep = []
            for e in self._env:
                miss = need - e.keys()
                if not miss:
                    if self._good(e, new): keep.append(e)
                    continue
                for _ in range(2):
                    x = sample.extend(e, miss, self.f, self.res)
                    if x is not None and self._good(x, new): keep.append(x); break
            if len(keep) < NENV // 2:
                allsy = self.syms() | set(self.res)
                # variations of what survived, then fresh starts
                for e in list(keep):
                    if len(keep) >= NENV: break
                    for _ in range(3):
                        drop = sample.RNG.sample(sorted(e), max(1, len(e) // 2))
                        b = {k: v for k, v in e.items() if k not in drop}
                        x = sample.extend(b, allsy - b.keys(), self.f, self.res)
                        if x is not None and self._good(x, self.f): keep.append(x)
                tries = 8 if not keep else 4
                for _ in range(tries):
                    if len(keep) >= NENV // 2: break
                    x = sample.extend({}, allsy, self.f, self.res)
                    if x is not None and self._good(x, self.f): keep.append(x)
            self._env = keep; self._nf = len(self.f); self._tries += 1
        return self._env
    def refuted(self, goal):
        """some concrete assignment satisfies the facts and violates goal"""
        need = sample.cfree(goal)
        for e in self.envs():
            miss = need - e.keys()
            if miss:
                e = sample.extend(e, miss, self.f, self.res)
                if e is None: continue
            try:
                if not sample.holds(goal, e): return e
            except (sample.NoEval, KeyError, OverflowError): return None
        return None
    def add(self, *conds):
        for c in conds:
            if c is True: continue
            if c is False: self.dead = True; continue
            if c[0] == 'and': self.add(*c[1]); continue
            if c[0] == 'ge' and self.res: c = self.tighten(c)
            if c[0] == 'ne' and c not in self.f:
                # a disequality at the edge of a range is a strict bound
                if self.prove(('ge', c[1])): c = self.tighten(('ge', c[1] * c[1].denom() - 1))
                elif self.prove(('ge', -c[1])): c = self.tighten(('ge', -c[1] * c[1].denom() - 1))
            if c not in self.f: self.f.append(c)
        self._cache = {}
        return self
    def tighten(self, c):
        """x >= b with x = r mod m  ->  x >= the next number of that residue (same for upper bounds)"""
        p = c[1]
        ms = [m for m in p.t if m]
        if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1 or ms[0][0][0] not in self.res: return c
        m, r = self.res[ms[0][0][0]]
        k = Fraction(p.t[ms[0]]); b = -Fraction(p.cval()) / k
        x = Poly({ms[0]: 1})
        if k > 0:
            v = -((-b.numerator) // b.denominator)
            v += (r - v) % m
            return ('ge', x - v)
        v = b.numerator // b.denominator
        v -= (v - r) % m
        return ('ge', C(v) - x)
    def plus(self, *conds): return self.copy().add(*conds)
    # ---- residues
    def residue(self, p, m):
        """p mod m if known from residues of its symbols (polynomials with integer coefficients), else None"""
        d = p.denom()
        M = m * d
        if any(ATOMS[a].kind == 'exp' for mono in p.t for a, _ in mono) and M > 1:
            return self._crt(p, m, d, M)
        tot = 0
        for mono, c in p.t.items():
            v = c * d
            if v % M == 0 and all(e > 0 for _, e in mono): continue
            for a, e in mono:
                if e < 0: return None
                r = self.atom_res(a, M)
                if r is None: return None
                v = v * r ** e
            tot += v
        tot %= M
        if tot % d: return None
        return (tot // d) % m
    def _crt(self, p, m, d, M):
        """residues modulo the prime powers of M, put together"""
        x, mod_ = 0, 1
        k = M; q = 2
        while k > 1:
            pp = 1
            while k % q == 0: pp *= q; k //= q
            q += 1
            if pp == 1: continue
            tot = 0
            for mono, c in p.t.items():
                v = int(c * d)
                if any(e < 0 for _, e in mono): return None
                # a power b^E with E >= 0 contributes at least its provable multiples
                f = v % pp
                for a, e in mono:
                    if f == 0: 
                        if not self.mono_integral(mono): return None
                        break
                    r = self.atom_res(a, pp // gcd_(f, pp))
                    if r is None: return None
                    f = f * r ** e % pp
                tot += f
            r = tot % pp
            while x % pp != r: x += mod_
            mod_ *= pp
        tot = x % M
        if tot % d: return None
        return (tot // d) % m
    def atom_res(self, a, M):
        if M == 1: return 0
        A = ATOMS[a]
        if a in self.res:
            m, r = self.res[a]
            if m % M == 0: return r % M
        if A.kind == 'exp':
            b, E = A.args
            if b % M == 1: return 1 if self.ge0(E) else None
            k = 1; v = b % M
            while v and k < 12: v = v * b % M; k += 1
            if v == 0 and self.ge0(E - k): return 0
            for c in range(k):
                if self.prove(eq(E, c)): return b ** c % M
        return None
    def need_res(self, p, m):
        """p mod m; raises NeedCase on the first symbol whose residue is missing"""
        r = self.residue(p, m)
        if r is not None: return r
        d = p.denom()
        for mono, c in p.t.items():
            if (c * d) % (m * d) == 0: continue
            for a, e in mono:
                if self.atom_res(a, m * d) is None:
                    A = ATOMS[a]
                    if A.kind == 'sym' and e > 0: raise NeedCase(a, m * d)
                    if A.kind == 'exp' and self.ge0(A.args[1]) and (m * d) % A.args[0] == 0 or A.kind == 'exp' and A.args[0] % (m * d) == 0:
                        if self.decide(ge(A.args[1], 1)) is None: raise Split(ge(A.args[1], 1))
        raise ToolLimit(f'residue of {p} mod {m}')
    def integral(self, p):
        """p is certainly integer-valued"""
        d = p.denom()
        if d == 1:
            if all(e > 0 for m in p.t for _, e in m): return True
            return all(self.mono_integral(m) for m in p.t)
        ip = {m: c for m, c in p.t.items() if isinstance(c, Fraction)}
        ii = {m: c for m, c in p.t.items() if not isinstance(c, Fraction)}
        if ii and not self.integral(Poly(ii)): return False
        q = Poly(ip)
        try: return self.residue(q * d, d) == 0
        except ToolLimit: return False
    def mono_integral(self, m):
        for a, e in m:
            if e < 0: return False
            A = ATOMS[a]
            if A.kind == 'exp' and not self.ge0(A.args[1]): return False
        return True
    # ---- entailment
    def _solver(self, goalpolys, extra, depth):
        conds = list(self.f) + list(extra)
        seen = set()
        todo = set()
        def atoms_of(c):
            if c is True or c is False or c[0] == 'op': return set()
            if c[0] in ('and', 'or'):
                s = set()
                for x in c[1]: s |= atoms_of(x)
                return s
            return c[1].atoms()
        for c in conds: todo |= atoms_of(c)
        for p in goalpolys: todo |= p.atoms()
        while todo:
            a = todo.pop()
            if a in seen: continue
            seen.add(a)
            A = ATOMS[a]
            for arg in A.args:
                if isinstance(arg, Poly): todo |= arg.atoms()
            for c in ATOMFACTS.get(a, ()):
                if c not in conds: conds.append(c); todo |= atoms_of(c)
            if A.kind == 'exp':
                if self._expnonneg(A): conds += [('ge', Poly.of(A) - 1), ('ge', Poly.of(A) - 1 - A.args[1] * (A.args[0] - 1))]
                else: conds.append(('ge', Poly.of(A) * 1))
                if self._expzero(A): conds.append(eq(Poly.of(A), 1))
        pw = [ATOMS[a] for a in sorted(seen) if ATOMS[a].kind == 'powmod' and is_sym(ATOMS[a].args[0]) and ATOMS[sid(ATOMS[a].args[0])].args[0] in ('g', 'ginv')]
        if pw and len(pw) <= 5:
            # powers of a generator are injective in their exponent below p-1
            pw = [A for A in pw if self._lin().ge0(A.args[1]) and self._lin().ge0(A.args[2] - 2 - A.args[1])]
            one = [(A.args[0], ZERO, A.args[2], ONE) for A in pw]
            ps = [(A.args[0], A.args[1], A.args[2], Poly.of(A)) for A in pw]
            for i, A in enumerate(ps):
                for B in ps[:i] + [one[i]]:
                    if A[0] != B[0] or A[2] != B[2]: continue
                    conds += [disj([eq(A[1], B[1]), ne(A[3], B[3])]), disj([ne(A[1], B[1]), eq(A[3], B[3])])]
        ex_ = [ATOMS[a] for a in sorted(seen) if ATOMS[a].kind == 'exp']
        if 1 < len(ex_) <= 6:
            for A in ex_:
                for B in ex_:
                    if A is B or A.args[0] != B.args[0]: continue
                    D = A.args[1] - B.args[1]
                    if self._expge(A, B, D):
                        # b^(E+D) >= b^E (1 + (b-1) D)   (Bernoulli)
                        conds.append(ge(Poly.of(A) - Poly.of(B) - Poly.of(B) * D * (A.args[0] - 1)))
        return conds, seen
    def _lin(self):
        """the facts without powers"""
        if 'lin' not in self._cache:
            lin = Ctx(); lin.res = self.res
            lin.f = [c for c in self.f if c[0] in ('ge', 'eq') and all(ATOMS[a].kind == 'sym' for m in c[1].t for a, _ in m)]
            self._cache['lin'] = lin
        return self._cache['lin']
    def _expzero(self, A):
        k = ('expzero', A.id)
        if k not in self._cache:
            self._cache[k] = False
            self._cache[k] = self._lin().prove(eq(A.args[1]))
        return self._cache[k]
    def _expge(self, A, B, D):
        k = ('expge', A.id, B.id)
        if k not in self._cache:
            self._cache[k] = False
            # exponents are compared by the facts that are linear in them, without powers
            self._cache[k] = self._lin().ge0(D) and self._expnonneg(B)
        return self._cache[k]
    def _expnonneg(self, A):
        k = ('expnn', A.id)
        if k not in self._cache:
            self._cache[k] = False
            self._cache[k] = self._lin().ge0(A.args[1])
        return self._cache[k]
    def prove(self, goal, depth=2):
        """True if the facts entail goal"""
        if goal is True: return True
        if goal is False: return self.infeasible()
        key = repr(goal)
        if key in self._cache: return self._cache[key]
        STATS['queries'] += 1
        if goal not in self.f and self.refuted(goal) is not None:
            STATS['sampled'] += 1
            self._cache[key] = False
            return False
        mk_ = (self.key(), key)
        r = MEMO.get(mk_)
        if r is None: r = MEMO[mk_] = self._prove(goal, depth)
        else: STATS['memo'] += 1
        self._cache[key] = r
        return r
    def ge0(self, p, quick=False):
        p = P(p)
        if p.is_const(): return p.cval() >= 0
        return self.prove(('ge', p))
    def infeasible(self):
        if self.dead: return True
        if 'inf' not in self._cache:
            if self.envs(): self._cache['inf'] = False; return False
            mk_ = (self.key(), None)
            r = MEMO.get(mk_)
            if r is None: r = MEMO[mk_] = self._prove(None, 2)
            else: STATS['memo'] += 1
            self._cache['inf'] = r
        return self._cache['inf']
    def _prove(self, goal, depth):
        if goal is not None:
            if goal[0] == 'and': return all(self.prove(g, depth) for g in goal[1])
            if goal in self.f: return True
            if goal[0] == 'op' : return False
        t0 = time.time()
        extra = [] if goal is None else [neg(goal)]
        if extra and extra[0][0] == 'and': extra = extra[0][1]
        if self.res: extra = [self.tighten(e) if e[0] == 'ge' else e for e in extra]
        gp = []
        for e in extra:
            if e[0] in ('ge', 'eq', 'ne'): gp.append(e[1])
        conds, atoms = self._solver(gp, extra, depth)
        mv = set()
        def lin(p):
            mv.update(p.t)
            return zlin(p)
        def enc(c):
            if c is True: return z3.BoolVal(True)
            if c is False: return z3.BoolVal(False)
            if c[0] in ('ge', 'eq', 'ne'):
                mv.update(c[1].t)
                return zcmp(c[0], c[1])
            if c[0] == 'and': return z3.And([enc(x) for x in c[1]])
            if c[0] == 'or': return z3.Or([enc(x) for x in c[1]])
            return z3.BoolVal(True)
        s = z3.Solver()
        s.set('timeout', 30000); s.set('rlimit', 300000)      # the resource limit decides, so the outcome does not depend on the load
        for c in conds: s.add(enc(c))
        for a in atoms:
            if a in self.res:
                m, r = self.res[a]
                s.add(zmono(((a, 1),)) == m * z3.Int(f'q{a}') + r)
        STATS['z3'] += 1
        r = s.check()
        if r != z3.unsat and depth >= 2:
            # products of nonnegative facts (negated goal included)
            ges = []
            for c in conds:
                if c[0] == 'ge': ges.append(c[1])
                elif c[0] == 'eq': ges += [c[1], -c[1]]
            hi = {m for m in mv if sum(e for _, e in m) >= 2}
            if hi:
                ats = set()
                for m in hi:
                    for a, _ in m: ats.add(a)
                rel = [p for p in ges if p.atoms() and p.atoms() <= ats or (p.atoms() & ats and len(p.t) <= 4)]
                rel = list(dict.fromkeys(rel))
                cnt = 0
                added = []
                for i in range(len(rel)):
                    for j in range(i, len(rel)):
                        q = rel[i] * rel[j]
                        hm = [m for m in q.t if sum(e for _, e in m) >= 2]
                        if not hm: continue
                        if not any(m in hi for m in hm): continue
                        added.append(q); cnt += 1
                if cnt <= 900:
                    for q in added: s.add(zcmp('ge', q))
                    # equalities times atoms
                    for c in conds:
                        if c[0] == 'eq':
                            for a in ats:
                                q = c[1] * Poly({((a, 1),): 1})
                                if any(m in hi for m in q.t): s.add(zcmp('eq', q))
                    STATS['z3'] += 1
                    r = s.check()
        STATS['time'] += time.time() - t0
        return r == z3.unsat
    def decide(self, c):
        """True / False / None"""
        if c is True or c is False: return c
        if c[0] == 'op':
            if c in self.f: return True
            if neg(c) in self.f: return False
            return None
        if self.prove(c): return True
        if self.prove(neg(c)): return False
        return None
    def split(self, c):
        """decide or raise Split"""
        r = self.decide(c)
        if r is None:
            raise Split(c)
        return r

def forall_cases(ctx, fn, limit=60):
    """run fn(ctx) under case splits until no Split is raised; results of all leaf cases"""
    out = []
    todo = [ctx]
    n = 0
    while todo:
        c = todo.pop()
        if c.infeasible(): continue
        n += 1
        if n > limit: raise ToolLimit('too many case splits')
        try:
            out.append((c, fn(c)))
        except Split as s:
            todo.append(c.plus(s.cond)); todo.append(c.plus(neg(s.cond)))
    return out

# ---------------------------------------------------------------- derived integer operations
def divc(ctx, p, c):
    """floor(p / c) for a positive constant c"""
    if c == 1: return p
    if p.is_const(): return C(p.cval() // c)
    r = ctx.need_res(p, c)
    return (p - r) * Fraction(1, c)

def div(ctx, p, q):
    """floor(p / q), p >= 0, q >= 1"""
    p, q = P(p), P(q)
    if q.is_const(): 
        try: return divc(ctx, p, q.cval())
        except ToolLimit: pass
    elif p.is_const() and p.cval() == 0: return ZERO
    else:
        if len(q.t) == 1:
            try:
                d = p * q.inv()
                if all(e > 0 or ATOMS[a].kind == 'exp' for m in d.t for a, e in m) and ctx.integral(d): return d
            except ToolLimit: pass
        Q, R = polydiv(p, q)
        if ctx.integral(Q) and all(e > 0 for m in Q.t for _, e in m):
            for t in (0, -1, 1):
                if ctx.prove(ge(R + q * (-t))) and ctx.prove(lt(R + q * (-t), q)): return Q + t
        # the same with a length that a known equation expresses through others
        for c in ctx.f:
            if c is True or c[0] != 'eq': continue
            for m, k in c[1].t.items():
                if len(m) != 1 or m[0][1] != 1 or abs(k) != 1 or ATOMS[m[0][0]].kind != 'sym': continue
                if ((m[0][0], 1),) not in p.t or sum(any(a == m[0][0] for a, _ in x) for x in c[1].t) != 1: continue
                p2 = p - c[1] * (p.t[m] * k)
                Q, R = polydiv(p2, q)
                if not Q.is_const() and len(p2.t) > len(p.t) and ctx.integral(Q) and all(e > 0 for x in Q.t for _, e in x) and ctx.prove(ge(R)) and ctx.prove(lt(R, q)): return Q
    a = Poly.of(atom('div', p, q))
    define(a, ge(a), ge(p - q * a), ge(q * a + q - 1 - p))
    return a
def mod(ctx, p, q):
    p, q = P(p), P(q)
    return p - q * div(ctx, p, q)
import vf.poly as _poly
_poly._REBUILD['div'] = lambda p, q: _rediv(p, q)
def _rediv(p, q):
    if p.is_const() and q.is_const(): return C(p.cval() // q.cval())
    a = Poly.of(atom('div', p, q))
    define(a, ge(a), ge(p - q * a), ge(q * a + q - 1 - p))
    return a
rediv = _rediv
def imax(ctx, a, b):
    d = ctx.decide(ge(a, b))
    if d is True: return a
    if d is False or ctx.decide(ge(b, a)) is True: return b
    x = Poly.of(atom('max', a, b))
    define(x, ge(x, a), ge(x, b), disj([eq(x, a), eq(x, b)]))
    return x
def imin(ctx, a, b): 
    d = ctx.decide(ge(a, b))
    if d is True: return b
    if d is False or ctx.decide(ge(b, a)) is True: return a
    x = Poly.of(atom('min', a, b))
    define(x, le(x, a), le(x, b), disj([eq(x, a), eq(x, b)]))
    return x
def _remax(a, b):
    d = a - b
    if d.is_const(): return a if d.cval() >= 0 else b
    x = Poly.of(atom('max', a, b)); define(x, ge(x, a), ge(x, b), disj([eq(x, a), eq(x, b)])); return x
def _remin(a, b):
    d = a - b
    if d.is_const(): return b if d.cval() >= 0 else a
    x = Poly.of(atom('min', a, b)); define(x, le(x, a), le(x, b), disj([eq(x, a), eq(x, b)])); return x
_poly._REBUILD['max'] = _remax
_poly._REBUILD['min'] = _remin
