"""Contracts of the number-theoretic functions (math_utils) behind the prime-length transform, for every prime below 2^32.

A Floyd-Hoare verifier for integer functions over the extracted MIR. Loops: candidate invariants (instances of a few predicate templates over the
live variables) are filtered by Houdini until inductive; the postcondition is then proved from the survivors. Predicates are uninterpreted; what z3
knows about them are ground instances of the lemmas proved in lemmas/NumberTheory.lean (names below).

  modular_exponent(b, e, m)     requires 2 <= m < 2^32, b < m            ensures result = b^e mod m
  distinct_prime_factors(n)     requires 1 <= n < 2^32                   ensures every prime factor of n is listed; every entry f has f > 1 and f | n
  primitive_root(p)             requires p prime, p < 2^32               ensures Some(r), 1 <= r < p, r^((p-1)/f) mod p != 1 for every prime factor f of p-1
                                                                         (so r is a generator: generator_test)
No overflow, no division by zero, no other panic, every loop ends."""
import itertools, os, re, subprocess, time
import z3
from . import models
from .poly import ToolLimit

I, B = z3.IntSort(), z3.BoolSort()
V = z3.DeclareSort('Vec')
F = z3.Function
REM, QUO, MUL = F('rem', I, I, I), F('quo', I, I, I), F('mul', I, I, I)
ROUGH, LIM, PRIME = F('Rough', I, I, B), F('Lim', I, I, B), F('Prime', I, B)
MP, POW = F('MP', I, I, I, B), F('POW', I, I, I, I)
ISQ, ODD = F('isqrt32', I, I), F('oddpart', I, I)
MAPQ = F('Quotients', V, V, B)      # the first is (p - 1) / f over the entries f of (a prefix of) the second
LEN, AT, IN, ALL = F('len', V, I), F('at', V, I, I), F('in', V, B), F('all', V, B)
Q, J, G0 = z3.Int('q'), z3.Int('j'), z3.Int('g0')      # an arbitrary prime, an arbitrary index, some generator
U64 = 1 << 64

class NoProof(ToolLimit): pass

class G:
    """one function under verification"""
    def __init__(s, prog, role, args): s.prog, s.role, s.args = prog, role, args; s.N0 = None; s.fresh = 0; s.maps = {}; s.ob = []; s.bad = []; s.queries = 0; s.solver = 0.0; s.quiet = 0; s.called = set(); s.inv = {}; s.tz = {}
    def new(s, nm, sort=I):
        s.fresh += 1
        return z3.Const(f'{nm}!{s.fresh}', sort)

def ic(t): return t.as_long() if z3.is_int_value(t) else None
def rem(a, b):
    x, y = ic(a), ic(b)
    if x is not None and y: return z3.IntVal(x % y)
    return REM(a, b)
def quo(a, b):
    x, y = ic(a), ic(b)
    if x is not None and y: return z3.IntVal(x // y)
    return QUO(a, b)
def mul(a, b):
    if ic(a) is not None or ic(b) is not None: return a * b
    if str(a) > str(b): a, b = b, a
    return MUL(a, b)

def apps(ts):
    """{decl name: set of applications}"""
    seen = set(); out = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.setdefault(t.decl().name(), {})[t.get_id()] = t
            st += t.children()
    return {k: list(v.values()) for k, v in out.items()}

def axioms(g, ts):
    """ground instances of the lemmas for the terms in ts (two rounds)"""
    ax = []; done = set()
    def add(*fs):
        for f in fs:
            if f.get_id() not in done: done.add(f.get_id()); ax.append(f)
    Im, An, Or, Not = z3.Implies, z3.And, z3.Or, z3.Not
    for rnd in range(2):
        A = apps(list(ts) + ax)
        for t in A.get('rem', []):
            a, b = t.children()
            add(Im(An(b > 0, a >= 0), An(t >= 0, t < b, t <= a)))
            add(Im(An(a >= 0, a < b), t == a))
            if ic(b): add(a == b * QUO(a, b) + t)
        for t in A.get('quo', []):
            a, b = t.children()
            add(Im(An(b > 0, a >= 0), An(t >= 0, t <= a)), Im(An(b > 1, a > 0), t < a), Im(An(a >= b, b > 0), t >= 1), Im(An(a > 0, b > 0, REM(a, b) == 0), t >= 1))
            if ic(b): add(a == b * t + REM(a, b))
        for t in A.get('mul', []):
            a, b = t.children()
            add(Im(An(a >= 0, b >= 0), t >= 0), Im(An(a >= 0, b >= 0, a < 1 << 32, b < 1 << 32), t < U64), Im(An(a >= 1, b >= 1), An(t >= a, t >= b)))
            if a.eq(b):
                add(Im(a >= 1 << 16, t >= 1 << 32))
                if g.role == 'factors' and not rnd:
                    for n in {x.children()[1].get_id(): x.children()[1] for x in A.get('Rough', []) + A.get('Lim', [])}.values(): add(Im(An(t > n, a >= 0, n >= 0), LIM(a, n)))      # definition
        for t in A.get('isqrt32', []):
            n, = t.children()
            add(Im(An(n >= 0, n < 1 << 32), An(t >= 0, t <= 1 << 16, LIM(t + 1, n))))      # sqrt32 (exhaustive)
        if g.role == 'factors':
            ns = {t.children()[0].get_id(): t.children()[0] for t in A.get('rem', [])}
            for t in A.get('Rough', []) + A.get('Lim', []): ns.setdefault(t.children()[1].get_id(), t.children()[1])
            for t in A.get('quo', []): ns.setdefault(t.get_id(), t)
            N0 = g.N0
            ds = {}
            for t in A.get('rem', []) + A.get('quo', []):
                a, b = t.children()
                if b.get_id() != Q.get_id() and not a.eq(N0): ds.setdefault(a.get_id(), {})[b.get_id()] = b
            for n in list(ns.values()):
                if rnd and z3.is_app(n) and n.decl().name() == 'quo' and z3.is_app(n.children()[0]) and n.children()[0].decl().name() == 'quo': continue
                add(ROUGH(2, n))                                                        # rough_two
                add(Im(REM(n, z3.IntVal(2)) == 1, ROUGH(3, n)))                         # rough_odd
                add(Im(n == 1, REM(n, Q) != 0))                                         # factor_one
                add(Im(An(PRIME(n), REM(n, Q) == 0), Q == n))                           # factor_prime
                es = ds.get(n.get_id(), {}).values()
                for e in es:
                    add(Im(An(REM(N0, n) == 0, REM(n, e) == 0, n > 0, e > 0), An(REM(N0, e) == 0, REM(N0, quo(n, e)) == 0)))      # dvd_trans'
                    add(Im(An(ROUGH(e, n), e >= 2, REM(n, e) == 0, REM(n, Q) == 0, n >= 1), Or(Q == e, REM(quo(n, e), Q) == 0)))   # factor_split
                    # an odd number divided by a divisor stays odd
                    add(Im(An(REM(n, z3.IntVal(2)) == 1, REM(n, e) == 0, e > 0), REM(quo(n, e), z3.IntVal(2)) == 1))            # odd_quo
                for t in A.get('Rough', []):
                    d, m = t.children()
                    if not m.eq(n): continue
                    add(Im(An(t, REM(n, z3.IntVal(2)) == 1, REM(d, z3.IntVal(2)) == 1, REM(n, d) != 0, d > 0), ROUGH(d + 2, n)))      # rough_step
                    add(Im(An(t, REM(n, d) != 0, d > 0), ROUGH(d + 1, n)))                                                   # rough_next
                    for e in es: add(Im(An(t, REM(n, e) == 0, e > 0), ROUGH(d, quo(n, e))))                                 # rough_quo
                    for l in A.get('Lim', []):
                        if l.children()[1].eq(n): add(Im(An(t, l, l.children()[0] <= d, n > 1), PRIME(n)))             # rough_prime
            ls = A.get('Lim', [])
            for t in ls:
                for n in list(ns.values()):
                    l, m = t.children()
                    if not m.eq(n): add(Im(An(t, n <= m), LIM(l, n)))                   # monotone
            rs = A.get('Rough', [])
            for t in rs:
                for u in rs:
                    if t.children()[1].eq(u.children()[1]) and not t.eq(u): add(Im(An(t, u.children()[0] <= t.children()[0]), u))      # rough_le
        if g.role == 'power':
            b0, e0, m = g.args
            add(MP(z3.IntVal(1), b0, e0))                                               # mp_start
            two = z3.IntVal(2)
            for t in A.get('MP', []):
                r, b, e = t.children()
                if rnd: continue
                add(Im(An(t, REM(e, two) == 0), MP(r, REM(mul(b, b), m), QUO(e, two))))                     # mp_even
                add(Im(An(t, REM(e, two) == 1), MP(REM(mul(r, b), m), REM(mul(b, b), m), QUO(e, two))))      # mp_odd
                add(Im(An(t, e == 0, r < m, r >= 0), r == POW(b0, e0, m)))                                # mp_end
        if g.role == 'root':
            p = g.args[0]
            for t in A.get('POW', []):
                r, e, m = t.children()
                add(Im(An(r == G0, e >= 1, e < p - 1, m == p), t != 1))                # generator_exists
            for t in A.get('Quotients', []):
                w, v = t.children()
                add(Im(LEN(w) == 0, t))
                for i in [x.children()[1] for x in A.get('at', []) if x.children()[0].eq(w)] + [J]:
                    if rnd == 0 or i.eq(J): add(Im(An(t, i >= 0, i < LEN(w)), AT(w, i) == QUO(p - 1, AT(v, i))))
            for t in A.get('at', []):
                v, i = t.children()
                add(Im(An(ALL(v), i >= 0, i < LEN(v)), An(t > 1, t <= p - 1, REM(p - 1, t) == 0)))
        for t in A.get('len', []): add(t >= 0)
    return ax

def prove(g, facts, goal):
    goal = z3.simplify(goal) if z3.is_bool(goal) else goal
    if z3.is_true(goal): return True
    key = None
    s = z3.Solver(); s.set('timeout', 60000); s.set('rlimit', 1000000)
    ts = list(facts) + [z3.Not(goal)]
    s.add(*ts); s.add(*axioms(g, ts))
    t0 = time.time()
    r = s.check()
    g.queries += 1; g.solver += time.time() - t0
    return r == z3.unsat
def prove_many(g, facts, goals):
    """which of the goals follow (one set of lemma instances for all of them)"""
    if not goals: return []
    s = z3.Solver(); s.set('timeout', 60000); s.set('rlimit', 1000000)
    ts = list(facts) + list(goals)
    s.add(*facts); s.add(*axioms(g, ts))
    t0 = time.time(); g.queries += 1
    s.push(); s.add(z3.Not(z3.And(*goals))); r = s.check(); s.pop()
    if r == z3.unsat: out = [True] * len(goals)
    else:
        out = []
        for x in goals:
            s.push(); s.add(z3.Not(x)); out.append(s.check() == z3.unsat); s.pop(); g.queries += 1
    g.solver += time.time() - t0
    return out
def infeasible(g, facts): return prove(g, facts, z3.BoolVal(False))

class St:
    def __init__(s, loc=None, pc=None): s.loc = loc or {}; s.pc = pc or []
    def copy(s): return St(dict(s.loc), list(s.pc))

class Ver:
    def __init__(s, g): s.g = g; s.fid = 0
    # ---- values and places
    def get(s, st, fid, pl):
        v = st.loc.get((fid, pl[0]))
        return s.proj(st, fid, v, pl[1])
    def proj(s, st, fid, v, pr):
        for x in pr:
            if v is None: raise NoProof('use of an unset local')
            if x == '*':
                if v[0] == 'rv': v = v[1]
                elif v[0] == 'r': v = s.proj(st, v[1], st.loc.get((v[1], v[2])), v[3])
                elif v[0] in ('vec', 'sl'): pass
                else: raise NoProof('deref')
            elif x[0] == 'f': v = v[2][x[1]] if v[0] == 'e' else v[1][x[1]]
            elif x[0] == 'd': pass
            elif x[0] == 'i':
                if v[0] != 'vec': raise NoProof('index')
                i = st.loc[(fid, x[1])]
                v = s.at(st, v[1], i)
            else: raise NoProof(f'projection {x}')
        return v
    def put(s, st, fid, pl, v):
        l, pr = pl
        if not pr: st.loc[(fid, l)] = v; return
        cur = st.loc.get((fid, l))
        if pr[0] == '*':
            if cur[0] != 'r': raise NoProof('store through a reference')
            s.put(st, cur[1], [cur[2], list(cur[3]) + list(pr[1:])], v); return
        st.loc[(fid, l)] = s.upd(st, fid, cur, pr, v)
    def upd(s, st, fid, cur, pr, v):
        if not pr: return v
        x = pr[0]
        if x == '*': raise NoProof('nested store')
        if x[0] == 'd': return s.upd(st, fid, cur, pr[1:], v)
        if x[0] == 'f':
            if cur[0] == 't':
                fs = list(cur[1]); fs[x[1]] = s.upd(st, fid, fs[x[1]], pr[1:], v); return ('t', fs)
            fs = list(cur[2]); fs[x[1]] = s.upd(st, fid, fs[x[1]], pr[1:], v); return ('e', cur[1], fs)
        raise NoProof('store')
    def const(s, k):
        if k['c'] == 'zst':
            t = s.g.prog.tys[k['ty']]
            return ('t', [])
        if k['c'] == 'usize': return z3.IntVal(k['v'])
        if k['c'] == 'alloc' and not k['prov']:
            t = s.g.prog.tys[k['ty']]
            b = bytes(x or 0 for x in k['bytes'])
            if t['k'] == 'bool': return z3.BoolVal(b[0] != 0)
            if t['k'] in ('uint', 'int'): return z3.IntVal(int.from_bytes(b, 'little', signed=t['k'] == 'int'))
        raise NoProof(f'constant {k.get("c")}')
    def op(s, st, fid, o):
        if o[0] in ('cp', 'mv'): return s.get(st, fid, o[1])
        if o[0] == 'k': return s.const(o[1])
        raise NoProof('operand')
    def at(s, st, v, i, check=False):
        """element i; a mapped vector's elements are computed by the closure (whose obligations were discharged when the vector was collected)"""
        m = s.g.maps.get(v.get_id())
        if m is None: return AT(v, i)
        src, clo = m
        e = s.at(st, src, i)
        # the closure's value at element i: one path, no side effects
        s.g.quiet += not check
        try: rs = s.callfn(st.copy(), clo[0], [('rv', clo[1]), ('rv', e)])
        finally: s.g.quiet -= not check
        rs = [(a, b) for a, b in rs if not infeasible(s.g, a.pc)]
        if len(rs) != 1: raise NoProof('mapping with several outcomes')
        return rs[0][1]
    def ob(s, st, what, cond, span):
        ok = prove(s.g, st.pc, cond)
        if not s.g.quiet: (s.g.ob if ok else s.g.bad).append(f'{what} at {span}')
        st.pc.append(cond)
    # ---- arithmetic
    def width(s, t):
        t = s.g.prog.tys[t]
        if t['k'] == 'uint': return 0, 1 << t['w']
        if t['k'] == 'int': return -(1 << (t['w'] - 1)), 1 << (t['w'] - 1)
        return None
    def bin(s, st, o, a, b, ty, span):
        cmpo = {'Eq': lambda: a == b, 'Ne': lambda: a != b, 'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}
        if o in cmpo: return cmpo[o]()
        if o.startswith('Add'): return a + b
        if o.startswith('Sub'): return a - b
        if o.startswith('Mul'): return mul(a, b)
        if o == 'Rem': return rem(a, b)
        if o == 'Div': return quo(a, b)
        if z3.is_bool(a) and z3.is_bool(b):
            if o == 'BitAnd': return z3.And(a, b)
            if o == 'BitOr': return z3.Or(a, b)
        if o == 'BitAnd' and ic(b) == 1: return rem(a, z3.IntVal(2))
        if o == 'BitAnd' and ic(a) == 1: return rem(b, z3.IntVal(2))
        if o.startswith('Shr') and ic(b) is not None and 0 <= ic(b) < 64: return quo(a, z3.IntVal(1 << ic(b)))
        if o.startswith('Shr') and b.get_id() in s.g.tz and a.eq(s.g.tz[b.get_id()][1]):
            n, q, two = a, ODD(a), z3.IntVal(2)      # odd_part
            st.pc += [z3.Implies(n > 0, z3.And(q >= 1, q <= n, rem(q, two) == 1, z3.Implies(REM(s.g.N0, n) == 0, REM(s.g.N0, q) == 0), z3.Implies(REM(n, Q) == 0, z3.Or(Q == 2, REM(q, Q) == 0)), z3.Implies(REM(n, two) == 1, q == n))), z3.Implies(n == 0, q == 0)]
            return q
        if o.startswith('Shl') and ic(b) is not None and 0 <= ic(b) < 64: return a * (1 << ic(b))
        raise NoProof(f'operator {o}')
    def rvalue(s, st, fid, rv, span):
        k = rv[0]
        if k == 'use': return s.op(st, fid, rv[1])
        if k == 'bin':
            a, b = s.op(st, fid, rv[2]), s.op(st, fid, rv[3])
            v = s.bin(st, rv[1], a, b, rv[4], span)
            if rv[1] in ('Add', 'Sub', 'Mul', 'Shl'):
                w = s.width(rv[4])
                if w: s.ob(st, 'no wrap-around', z3.And(v >= w[0], v < w[1]), span)
            return v
        if k == 'cbin':
            a, b = s.op(st, fid, rv[2]), s.op(st, fid, rv[3])
            v = s.bin(st, rv[1], a, b, rv[4], span)
            lo, hi = s.width(rv[4])
            return ('t', [v, z3.Or(v < lo, v >= hi)])
        if k == 'un':
            v = s.op(st, fid, rv[2])
            if rv[1] == 'Not' and z3.is_bool(v): return z3.Not(v)
            raise NoProof('unary')
        if k == 'cast':
            v = s.op(st, fid, rv[2])
            t, f = s.g.prog.tys[rv[3]], s.g.prog.tys[rv[4]] if rv[4] is not None else None
            if rv[1].startswith('IntToInt'):
                lo, hi = s.width(rv[3])
                if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
                if prove(s.g, st.pc, z3.And(v >= lo, v < hi)): return v
                return rem(v, z3.IntVal(hi - lo)) if lo == 0 else s.fail('signed cast')
            if rv[1].startswith('IntToFloat'): return ('fl', t['s'], v)
            if rv[1].startswith('FloatToInt'):
                if v[0] == 'sqrt' and v[1] in ('f32', 'f64'): return ISQ(v[2])
                raise NoProof('float to int')
            raise NoProof(f'cast {rv[1]}')
        if k in ('ref', 'addr'):
            l, pr = rv[2]
            # through a dereference: the reference itself
            if '*' in pr:
                i = len(pr) - 1 - pr[::-1].index('*')
                base = s.get(st, fid, [l, pr[:i]])
                rest = pr[i + 1:]
                if base[0] == 'r': return ('r', base[1], base[2], tuple(base[3]) + tuple(map(tuple_, rest)))
                if base[0] == 'rv': return base if not rest else ('rv', s.proj(st, fid, base[1], rest))
                if base[0] in ('vec',): return base
                raise NoProof('reborrow')
            if rv[0] == 'ref' and rv[1] != 'mut': return ('rv', s.get(st, fid, rv[2]))      # shared: the referent cannot change while it lives
            return ('r', fid, l, tuple(map(tuple_, pr)))
        if k == 'discr':
            v = s.get(st, fid, rv[1])
            if v[0] != 'e': raise NoProof('discriminant')
            return z3.IntVal(v[1])
        if k == 'agg':
            fs = [s.op(st, fid, o) for o in rv[2]]
            kind = rv[1]
            if kind[0] in ('tuple',): return ('t', fs)
            if kind[0] == 'closure': return ('clo', fs, kind[1])
            if kind[0] == 'adt':
                t = s.g.prog.tys[kind[1]]
                return ('e', kind[2], fs) if t.get('adtkind') == 'Enum' else ('t', fs)
            raise NoProof(f'aggregate {kind[0]}')
        if k == 'len':
            v = s.get(st, fid, rv[1])
            if v[0] == 'vec': return LEN(v[1])
        raise NoProof(f'rvalue {k}')
    def fail(s, m): raise NoProof(m)
    # ---- control
    def callfn(s, st, fn, args):
        f = s.g.prog.fns[fn]
        if not f.get('blocks'): raise NoProof(f'no body: {f["inst"]}')
        s.g.called.add(f['inst'])
        s.fid += 1
        if s.fid > 5000: raise NoProof('too many calls')
        fid = s.fid
        for i, a in enumerate(args): st.loc[(fid, i + 1)] = a
        out = []
        for r in s.walk(st, fid, fn, 0, None):
            if r[0] != 'ret': raise NoProof('left the function')
            x = r[1]; v = x.loc.get((fid, 0))
            x.loc = {k: w for k, w in x.loc.items() if k[0] != fid}
            out.append((x, v))
        return out
    def walk(s, st, fid, fn, bb, loop, start=True):
        """outcomes: ('ret', st) | ('back', st) | ('exit', st, bb)"""
        todo = [(st, bb, start)]; out = []
        f = s.g.prog.fns[fn]
        loops = s.g.prog.loops(fn)
        n = 0
        while todo:
            st, bb, first = todo.pop()
            n += 1
            if n > 400: raise NoProof('too many paths')
            if loop is not None and not first:
                if bb == loop[0]: out.append(('back', st)); continue
                if bb not in loop[1]: out.append(('exit', st, bb)); continue
            if bb in loops and not (loop is not None and first and bb == loop[0]):
                for r in s.loop(st, fid, fn, bb, loops[bb]):
                    if r[0] == 'ret': out.append(r)
                    else: todo.append((r[1], r[2], False))
                continue
            blk = f['blocks'][bb]
            for x in blk['s']:
                if x[0] == '=': s.put(st, fid, x[1], s.rvalue(st, fid, x[2], x[3]))
                elif x[0] in ('setd', 'cno'): raise NoProof(x[0])
            t = blk['t']
            k = t[0]
            if k == 'goto': todo.append((st, t[1], False))
            elif k == 'drop': todo.append((st, t[2], False))
            elif k == 'ret': out.append(('ret', st))
            elif k in ('unreach', 'resume'): pass
            elif k == 'assert':
                c = s.op(st, fid, t[1])
                if not t[2]: c = z3.Not(c)
                s.ob(st, t[3], c, t[6]); todo.append((st, t[5], False))
            elif k == 'switch':
                v = s.op(st, fid, t[1])
                cs = []
                for c, b in t[2]:
                    e = (z3.Not(v) if c == 0 else v) if z3.is_bool(v) else v == c
                    cs.append((e, b))
                oth = z3.Not(z3.Or(*[e for e, _ in cs])) if cs else z3.BoolVal(True)
                for e, b in cs + [(oth, t[3])]:
                    e = z3.simplify(e)
                    if z3.is_false(e): continue
                    y = st.copy()
                    if not z3.is_true(e):
                        y.pc.append(e)
                        if infeasible(s.g, y.pc): continue
                    todo.append((y, b, False))
            elif k == 'call':
                for y, v in s.call(st, fid, t):
                    if t[4] is None: continue
                    s.put(y, fid, t[3], v); todo.append((y, t[4], False))
            else: raise NoProof(f'terminator {k}')
        return out
    # ---- loops
    def loop(s, st, fid, fn, header, body):
        g = s.g
        f = g.prog.fns[fn]
        mod = set(); roots = set()      # locals assigned (or borrowed mutably) in the body; locals it stores through
        def place(pl): (roots if '*' in pl[1] else mod).add(pl[0])
        def uses(o):
            if isinstance(o, list):
                if len(o) == 2 and o[0] in ('cp', 'mv') and isinstance(o[1], list): roots.add(o[1][0])
                else:
                    for x in o: uses(x)
        for b in body:
            blk = f['blocks'][b]
            for x in blk['s']:
                if x[0] == '=':
                    place(x[1]); uses(x[2])
                    if x[2][0] in ('ref', 'addr'):
                        if x[2][1] == 'mut' or x[2][0] == 'addr': place(x[2][2])
                        roots.add(x[2][2][0])
            uses(blk['t'][1:3])
            if blk['t'][0] == 'call': place(blk['t'][3])
        # what the mutable references it can reach point to
        mk = {(fid, l) for l in mod}; todo = [(fid, l) for l in roots | mod]; seen = set()
        def refs(v):
            if isinstance(v, (tuple, list)):
                if len(v) == 4 and v[0] == 'r': return [(v[1], v[2])]
                return [r for x in v for r in refs(x)]
            return []
        while todo:
            k = todo.pop()
            if k in seen: continue
            seen.add(k)
            for r in refs(st.loc.get(k)): mk.add(r); todo.append(r)
        live = g.prog.live(fn)[0][header]
        h = st.copy()
        ints, vecs, its = [], [], []
        cands = []
        def havoc(v, nm, path, clo=False):
            if z3.is_expr(v):
                if z3.is_bool(v): return g.new(nm, B)
                x = g.new(nm); h.pc.append(x >= 0); h.pc.append(x < U64)
                cands.append(('const', lambda get, p=path, v0=v: get(p) == v0))
                ints.append(path); return x
            if v[0] == 't': return ('t', [havoc(w, nm, path + (('f', i),)) for i, w in enumerate(v[1])])
            if v[0] == 'vec': vecs.append(path); return ('vec', g.new(nm, V))
            if v[0] == 'it':
                its.append(path); x = g.new(nm + '.i'); h.pc.append(x >= 0)
                return ('it', v[1], x)
            if v[0] == 'clo' and all(isinstance(w, tuple) and w[0] in ('r', 'rv') for w in v[1]): return v      # its captures are references: what they reach is havocked
            return None
        for key in sorted(mk):
            fi, l = key
            if key not in st.loc: continue
            if (fi == fid and l not in live) or st.loc[key] is None: h.loc.pop(key); continue
            nv = havoc(st.loc[key], f'l{fi}.{l}' if fi != fid else f'l{l}', key)
            if nv is None: h.loc.pop(key)      # assigned again before it is used, or the proof fails
            else: h.loc[key] = nv
        # the other integers in scope
        for k in [k for k in h.loc if k[0] == fid and k[1] not in live and k not in seen]: h.loc.pop(k)
        have = set()
        def others(v):
            if z3.is_expr(v):
                if z3.is_int(v) and ic(v) is None and v.get_id() not in have: have.add(v.get_id()); ints.append(('K', v))
            elif isinstance(v, (tuple, list)):
                if len(v) == 4 and v[0] == 'r': return
                for x in v: others(x)
        for k, v in h.loc.items():
            if k in mk: continue
            if z3.is_expr(v) and z3.is_int(v) and ic(v) is None:
                if v.get_id() not in have: have.add(v.get_id()); ints.append(k)
        for k, v in h.loc.items():
            if k not in mk and isinstance(v, tuple) and v[0] in ('rv', 'clo'): others(v)
        def getter(x):
            def get(p):
                if p[0] == 'K': return p[1]
                v = x.loc.get(p[:2])
                if v is None: raise KeyError
                for _, i in p[2:]: v = v[1][i]
                return v
            return get
        cands += s.candidates(h, fid, ints, vecs, its)
        def holds(x, cs):
            ts = [inst(x, c) for c in cs]
            ok = dict(zip([i for i, t in enumerate(ts) if t is not None], prove_many(g, x.pc, [t for t in ts if t is not None])))
            return [ok.get(i, False) for i in range(len(cs))]
        def inst(x, c):
            try: return c[1](getter(x))
            except (KeyError, TypeError, IndexError): return None
        seen = set(); cs = []
        for c in cands:
            t = inst(h, c)
            if t is None or t.sexpr() in seen: continue
            seen.add(t.sexpr()); cs.append(c)
        cs = [c for c, ok in zip(cs, holds(st, cs)) if ok]
        g.quiet += 1
        try:
            for rnd in range(30):
                a = h.copy(); a.pc += [inst(h, c) for c in cs]
                outs = s.walk(a, fid, fn, header, (header, body))
                backs = [r[1] for r in outs if r[0] == 'back']
                n = len(cs)
                for b in backs: cs = [c for c, ok in zip(cs, holds(b, cs)) if ok]
                if len(cs) == n: break
            else: raise NoProof('no invariant')
        finally: g.quiet -= 1
        a = h.copy(); a.pc += [inst(h, c) for c in cs]
        if not g.quiet:
            g.inv[f'{f["inst"]}@bb{header}'] = [str(inst(h, c))[:120] for c in cs]
            g.ob += [f'loop invariant {c[0]} at {f["inst"]} bb{header}' for c in cs]
        outs = s.walk(a, fid, fn, header, (header, body))
        if not g.quiet:
            # termination: some integer strictly decreases (they are never negative) or strictly increases (they never wrap) in every iteration
            hg = getter(h); backs = [r[1] for r in outs if r[0] == 'back']
            num = lambda get, p: get(p)[2] if p in its else get(p)
            def mono(p, sg):
                try: return all(prove(g, b.pc, sg * (num(getter(b), p) - num(hg, p)) > 0) for b in backs)
                except (KeyError, TypeError, IndexError): return False
            m = next((p for p in its + [i for i in ints if i[0] != 'K' and i[:2] in mk] for sg in (1, -1) if mono(p, sg)), None) if backs else True
            (g.bad if m is None else g.ob).append(f'termination of the loop at {f["inst"]} bb{header}')
        return [r for r in outs if r[0] != 'back']
    def candidates(s, h, fid, ints, vecs, its):
        g = s.g; C = []
        def c(nm, fn_): C.append((nm, fn_))
        for x in ints:
            for k in (1, 2, 3): c(f'>={k}', lambda get, x=x, k=k: get(x) >= k)
        if g.role == 'power':
            m = g.args[2]
            for x in ints: c('<m', lambda get, x=x: get(x) < m)
            for x, y, z in itertools.permutations(ints, 3): c('MP', lambda get, x=x, y=y, z=z: MP(get(x), get(y), get(z)))
        if g.role == 'factors':
            N = g.N0
            for x in ints:
                c('<=N', lambda get, x=x: get(x) <= N)
                c('<=2^32', lambda get, x=x: get(x) <= (1 << 32))
                c('<2^32', lambda get, x=x: get(x) < (1 << 32))
                c('divides', lambda get, x=x: z3.And(get(x) >= 1, REM(N, get(x)) == 0))
                c('odd', lambda get, x=x: REM(get(x), z3.IntVal(2)) == 1)
                c('even', lambda get, x=x: REM(get(x), z3.IntVal(2)) == 0)
                for y in ints:
                    if y != x: c('multiple', lambda get, x=x, y=y: REM(get(x), get(y)) == 0)
                for v in vecs + [None]:
                    inn = (lambda get, v=v: IN(get(v)[1])) if v is not None else (lambda get: IN(s.somevec(h, fid)))
                    c('factors', lambda get, x=x, inn=inn: z3.Implies(REM(N, Q) == 0, z3.Or(REM(get(x), Q) == 0, inn(get))))
                    c('factors', lambda get, x=x, inn=inn: z3.Implies(REM(N, Q) == 0, z3.Or(REM(get(x), Q) == 0, inn(get), Q == 2)))
                    for y in ints:
                        if y != x: c('factors', lambda get, x=x, y=y, inn=inn: z3.Implies(REM(N, Q) == 0, z3.Or(REM(get(x), Q) == 0, inn(get), Q == get(y))))
            for v in vecs: c('all', lambda get, v=v: ALL(get(v)[1]))
            for x, y in itertools.permutations(ints, 2):
                c('rough', lambda get, x=x, y=y: ROUGH(get(x), get(y)))
                c('limit', lambda get, x=x, y=y: LIM(get(x), get(y)))
        if g.role == 'root':
            p = g.args[0]
            for v in vecs:
                if hasattr(g, 'fs'): c('quotients', lambda get, v=v: MAPQ(get(v)[1], g.fs))
            for x in ints:
                c('<=g0', lambda get, x=x: get(x) <= G0)
                c('<=p', lambda get, x=x: get(x) <= p)
                c('<g0', lambda get, x=x: get(x) < G0)
            for t in its:
                def vec(get, t=t): return get(t)[1]
                c('index', lambda get, t=t: get(t)[2] <= LEN(s.base(vec(get, t))))
                for v in vecs: c('as long', lambda get, t=t, v=v: LEN(get(v)[1]) == get(t)[2])
                for x in ints:
                    c('tested', lambda get, t=t, x=x: z3.Implies(z3.And(J >= 0, J < get(t)[2]), POW(get(x), QUO(p - 1, s.at(h, get(t)[1], J)), p) != 1))
                    c('tested', lambda get, t=t, x=x: z3.Implies(z3.And(J >= 0, J < get(t)[2]), POW(get(x), s.at(h, get(t)[1], J), p) != 1))
        return C
    def base(s, v):
        m = s.g.maps.get(v.get_id())
        return s.base(m[0]) if m else v
    def somevec(s, h, fid):
        for (fi, l), v in sorted(h.loc.items(), key=lambda k: (-k[0][0], k[0][1])):
            if isinstance(v, tuple) and v[0] == 'vec': return v[1]
        raise KeyError
    def closure(s, clo):
        prog = s.g.prog
        name = prog.tys[clo[2]]['name'] if isinstance(clo[2], int) else clo[2]
        ci = [i for i, f in enumerate(prog.fns) if f['inst'] == name or f['def'] == name]
        if len(ci) != 1: raise NoProof('closure body')
        return ci[0]
    # ---- calls
    def deref(s, st, v):
        for _ in range(4):
            if isinstance(v, tuple) and v[0] == 'rv': v = v[1]
            elif isinstance(v, tuple) and v[0] == 'r': v = s.proj(st, v[1], st.loc.get((v[1], v[2])), v[3])
            else: return v
        return v
    def call(s, st, fid, t):
        g = s.g
        if t[1][0] != 'k' or t[1][1].get('c') != 'fn': raise NoProof('indirect call')
        fn = t[1][1]['fn']
        av = [s.op(st, fid, o) for o in t[2]]
        span = t[5]
        d = t[1][1]['def']
        inst = g.prog.fns[fn]['inst'] if fn is not None else d
        e = inst.rsplit('::', 1)[-1]
        dv = [s.deref(st, a) for a in av]
        isint = [z3.is_expr(a) and z3.is_int(a) for a in dv]
        if inst.startswith('rustdht::math_utils::'):
            base = inst.split('::')[2].split('::')[0]
            if base == 'modular_exponent' and g.role != 'power':
                b, ex, m = dv
                s.ob(st, 'precondition of modular_exponent', z3.And(m >= 2, m < 1 << 32, b >= 0, b < m, ex >= 0), span)
                v = POW(b, ex, m); st.pc += [v >= 0, v < m]
                return [(st, v)]
            if base == 'distinct_prime_factors' and g.role != 'factors':
                n, = dv
                s.ob(st, 'precondition of distinct_prime_factors', z3.And(n >= 1, n < 1 << 32), span)
                v = g.new('fs', V)
                if g.role == 'root':
                    if not n.eq(g.args[0] - 1) and not prove(g, st.pc, n == g.args[0] - 1): raise NoProof('factors of another number')
                    st.pc += [ALL(v)]; g.fs = v
                return [(st, ('vec', v))]
        if inst == 'vf::call':
            clo, args = dv[0], dv[1]
            if not (isinstance(clo, tuple) and clo[0] == 'clo'): raise NoProof('call of a value')
            k = s.closure(clo)
            return s.callfn(st, k, [('rv', ('t', clo[1])) if g.prog.tys[g.prog.fns[k]['locals'][1]]['k'] == 'ref' else ('t', clo[1])] + list(args[1]))
        m = re.search(r'Iterator(>| for .*>)::(all|any|find|position)::<', inst)
        if m: return s.callfn(st, models.helper(g, 'vfh_' + m.group(2)), av)
        if g.prog.fns[fn]['krate'] == 'rustdht' and g.prog.fns[fn].get('blocks'): return s.callfn(st, fn, av)
        if len(dv) == 0:
            if e == 'one': return [(st, z3.IntVal(1))]
            if e == 'zero': return [(st, z3.IntVal(0))]
            if e == 'new' and 'Vec' in inst:
                v = g.new('vec', V); st.pc += [LEN(v) == 0, z3.Not(IN(v)), ALL(v)]
                return [(st, ('vec', v))]
        if e in ('with_capacity',) and 'Vec' in inst:
            v = g.new('vec', V); st.pc += [LEN(v) == 0, z3.Not(IN(v)), ALL(v)]
            return [(st, ('vec', v))]
        cm = {'gt': 'Gt', 'ge': 'Ge', 'lt': 'Lt', 'le': 'Le', 'eq': 'Eq', 'ne': 'Ne'}
        if e in cm and len(dv) == 2 and all(isint): return [(st, s.bin(st, cm[e], dv[0], dv[1], None, span))]
        ar = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'shr': 'Shr', 'shl': 'Shl'}
        if e in ar and len(dv) == 2 and all(isint) and ('as std::ops::' in inst or 'as core::ops' in inst):
            if e in ('div', 'rem'): s.ob(st, 'division by zero', dv[1] != 0, span)
            v = s.bin(st, ar[e], dv[0], dv[1], None, span)
            if e in ('add', 'sub', 'mul', 'shl'): s.ob(st, 'no overflow', z3.And(v >= 0, v < U64), span)
            return [(st, v)]
        if e == 'is_zero' and isint[0]: return [(st, dv[0] == 0)]
        if e == 'is_one' and isint[0]: return [(st, dv[0] == 1)]
        if e == 'clone' and isint[0]: return [(st, dv[0])]
        if e in ('to_usize', 'to_u64') and isint[0]: return [(st, ('e', 1, [dv[0]]))]
        if e in ('unwrap', 'expect') and isinstance(dv[0], tuple) and dv[0][0] == 'e' and dv[0][1] == 1 and 'Option' in inst: return [(st, dv[0][2][0])]
        if e == 'trailing_zeros' and isint[0] and g.role == 'factors':
            x = g.new('tz'); st.pc += [x >= 0, x <= 64, z3.Implies(dv[0] > 0, x < 64)]; g.tz[x.get_id()] = (x, dv[0])
            return [(st, x)]
        if e == 'sqrt' and isinstance(dv[0], tuple) and dv[0][0] == 'fl' and dv[0][1] in ('f32', 'f64'): return [(st, ('sqrt', dv[0][1], dv[0][2]))]
        if e == 'push' and 'Vec' in inst and isinstance(dv[0], tuple) and dv[0][0] == 'vec' and isint[1] and av[0][0] == 'r':
            v = dv[0][1]; w = g.new('vec', V); x = dv[1]
            if g.maps.get(v.get_id()): raise NoProof('push on a mapped vector')
            st.pc += [LEN(w) == LEN(v) + 1, AT(w, LEN(v)) == x]
            if g.N0 is not None: st.pc += [IN(w) == z3.Or(IN(v), x == Q), ALL(w) == z3.And(ALL(v), x > 1, REM(g.N0, x) == 0)]
            elif hasattr(g, 'fs'): st.pc += [z3.Implies(z3.And(MAPQ(v, g.fs), x == QUO(g.args[0] - 1, AT(g.fs, LEN(v)))), MAPQ(w, g.fs))]
            s.put(st, av[0][1], [av[0][2], list(av[0][3])], ('vec', w))
            return [(st, ('t', []))]
        x0 = dv[0] if dv else None
        if isinstance(x0, tuple):
            if e in ('deref', 'as_slice', 'borrow', 'as_ref') and x0[0] == 'vec': return [(st, x0)]
            if e == 'iter' and x0[0] == 'vec': return [(st, ('it', x0[1], z3.IntVal(0)))]
            if e == 'into_iter':
                if x0[0] == 'vec' and (inst.startswith('<&') or ' for &' in inst): return [(st, ('it', x0[1], z3.IntVal(0)))]
                if x0[0] in ('it', 't', 'map'): return [(st, x0)]
            if e == 'is_empty' and x0[0] == 'vec': return [(st, LEN(s.base(x0[1])) == 0)]
            if e == 'len' and x0[0] == 'vec': return [(st, LEN(s.base(x0[1])))]
            if '::map::<' in inst and x0[0] == 'it' and isinstance(av[1], tuple) and av[1][0] == 'clo': return [(st, ('map', x0, av[1]))]
            if 'collect::<std::vec::Vec<u64>>' in inst and x0[0] == 'map':
                it, clo = x0[1], x0[2]
                if ic(it[2]) != 0: raise NoProof('collect from the middle')
                w = g.new('es', V); g.maps[w.get_id()] = (it[1], (s.closure(clo), ('t', clo[1]))); g.keep = getattr(g, 'keep', []) + [w]
                # the closure must not panic on any element
                k = g.new('k')
                y = st.copy(); y.pc += [k >= 0, k < LEN(s.base(it[1]))]
                s.at(y, w, k, True)
                return [(st, ('vec', w))]
            if e == 'next' and x0[0] == 't' and 'Range<' in inst and av[0][0] == 'r':
                lo, hi = x0[1]
                a, b = st.copy(), st
                res = []
                a.pc.append(lo < hi)
                if not infeasible(g, a.pc):
                    s.put(a, av[0][1], [av[0][2], list(av[0][3])], ('t', [lo + 1, hi])); res.append((a, ('e', 1, [lo])))
                b.pc.append(z3.Not(lo < hi))
                if not infeasible(g, b.pc): res.append((b, ('e', 0, [])))
                return res
            if e == 'next' and x0[0] == 'it' and av[0][0] == 'r':
                v, i = x0[1], x0[2]
                n = LEN(s.base(v))
                a, b = st.copy(), st
                res = []
                a.pc.append(i < n)
                if not infeasible(g, a.pc):
                    s.put(a, av[0][1], [av[0][2], list(av[0][3])], ('it', v, i + 1)); res.append((a, ('e', 1, [('rv', s.at(a, v, i))])))
                b.pc.append(z3.Not(i < n))
                if not infeasible(g, b.pc): res.append((b, ('e', 0, [])))
                return res
        raise NoProof(f'call of {inst}')

def tuple_(x): return tuple(tuple_(y) for y in x) if isinstance(x, list) else x

def sqrt32():
    """for n < 2^32: (floor(sqrt_f32(f32(n))) + 1)^2 > n.  Rounding to f32, sqrt and truncation are monotone, so it is enough at the squares."""
    import numpy as np
    k = np.arange(0, 1 << 16, dtype=np.uint64)
    r = np.sqrt((k * k).astype(np.float32)).astype(np.uint64)
    top = int(np.sqrt(np.float32((1 << 32) - 1)))
    return bool((r >= k).all()) and top <= 1 << 16

LEMMAS = ('rough_odd', 'rough_step', 'rough_next', 'rough_quo', 'rough_le', 'rough_prime', 'rough_two', 'factor_split', 'factor_prime', 'factor_one', "dvd_trans'", 'odd_quo', 'odd_part',
    'mp_start', 'mp_even', 'mp_odd', 'mp_end', 'generator_test', 'generator_exists', 'powers_inj', 'powers_periodic', 'powers_cover', 'inverse_generator', 'orthogonality')
def lean(path):
    """checks the lemma file -> (number of theorems, error)"""
    src = open(path).read()
    miss = [l for l in LEMMAS if f'theorem {l} ' not in src]
    if miss or 'sorry' in src or 'axiom' in src: return 0, f'lemma file incomplete: {miss}'
    p = subprocess.run(['lean', path], capture_output=True, text=True, timeout=280)
    if p.returncode or 'error' in p.stdout: return 0, (p.stdout + p.stderr)[-500:]
    return src.count('\ntheorem '), None

FNS = {'power': 'rustdht::math_utils::modular_exponent', 'factors': 'rustdht::math_utils::distinct_prime_factors', 'root': 'rustdht::math_utils::primitive_root'}
def verify(prog, role):
    """-> G (ob: discharged, bad: failed)"""
    ix = [i for i, f in enumerate(prog.fns) if f['inst'].split('::<')[0] == FNS[role] and f.get('blocks')]
    if len(ix) != 1: raise NoProof(f'{FNS[role]} not found')
    fn = ix[0]
    f = prog.fns[fn]
    if role == 'power':
        b, e, m = z3.Ints('b0 e0 m')
        g = G(prog, role, (b, e, m))
        pre = [m >= 2, m < 1 << 32, b >= 0, b < m, e >= 0, e < U64]; args = [b, e, m]
    elif role == 'factors':
        n = z3.Int('N0'); g = G(prog, role, (n,)); g.N0 = n
        pre = [n >= 1, n < 1 << 32, Q >= 2, REM(n, n) == 0]; args = [n]      # Q prime (used through the lemmas), n | n
    else:
        p = z3.Int('p'); g = G(prog, role, (p,))
        pre = [p >= 2, p < 1 << 32, G0 >= 1, G0 < p, J >= 0]; args = [p]
    if f['argc'] != len(args): raise NoProof('signature')
    g.N0 = g.N0 if role == 'factors' else None
    v = Ver(g)
    outs = v.callfn(St({}, pre), fn, args)
    n = 0
    for st, r in outs:
        if infeasible(g, st.pc): continue
        n += 1
        st = st.copy()
        if role == 'power': v.ob(st, 'post: result = b^e mod m', r == POW(b, e, m), f['span'])
        elif role == 'factors':
            v.ob(st, 'post: every prime factor is listed', z3.Implies(REM(args[0], Q) == 0, IN(r[1])), f['span'])
            v.ob(st, 'post: entries are divisors above 1', ALL(r[1]), f['span'])
        else:
            if r[0] != 'e' or r[1] != 1: g.bad.append(f'post: returns None at {f["span"]}'); continue
            x = r[2][0]
            v.ob(st, 'post: in range', z3.And(x >= 1, x < p), f['span'])
            if not hasattr(g, 'fs'): raise NoProof('factors of p-1 not used')
            v.ob(st, 'post: passes every test', z3.Implies(z3.And(J >= 0, J < LEN(g.fs)), POW(x, quo(p - 1, AT(g.fs, J)), p) != 1), f['span'])
    g.returns = n
    return g
