"""Ghost state, lemmas and contracts for the power-of-two transform (Radix4).

tau(b, r, .) is the permutation of 0 .. b*4^r - 1 in which the data is laid out before the layers:
  tau(b, 0, j) = j,   tau(b, r+1, p*Q + v) = 4*tau(b, r, v) + p  for p = 0, 1, 2,   tau(b, r+1, 3*Q + v) = 4*(Q - 1 - tau(b, r, v)) + 3,   Q = b*4^r
"""
from .poly import *
from .poly import _n
from .ctx import *
from .heap import *
from .exec import *
from . import models, reals, prove, heap
import vf.poly as _poly
import z3

def TAU(b, r, j):
    b, r, j = P(b), P(r), P(j)
    if not r.t: return j
    if len(j.t) == 1:
        (m, c), = j.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            A = ATOMS[m[0][0]]
            if A.kind == 'tauinv' and A.args[0] == b and A.args[1] == r: return A.args[2]
    a = Poly.of(atom('tau', b, r, j))
    define(a, ge(a), lt(a, b * exp(4, r)))
    return a
def TAUINV(b, r, x):
    b, r, x = P(b), P(r), P(x)
    if not r.t: return x
    a = Poly.of(atom('tauinv', b, r, x))
    define(a, ge(a), lt(a, b * exp(4, r)))
    return a
_poly._REBUILD['tau'] = TAU
_poly._REBUILD['tauinv'] = TAUINV

def tau_rule(ctx, D, live):
    """tau(b, r, u) = x has exactly the solution u = tauinv(b, r, x) when 0 <= x < b*4^r (tau is a bijection: lemma jobs)"""
    if len(live) != 1: return None
    u = live[0]
    for m, c in D.t.items():
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1: continue
        A = ATOMS[m[0][0]]
        if A.kind != 'tau' or u not in A.free: continue
        b, r, j = A.args
        if j != Poly.of(ATOMS[u]) or u in b.free or u in r.free: continue
        x = (Poly({m: c}) - D) * c
        if u in x.free: return None
        if ctx.prove(ge(x)) and ctx.prove(lt(x, b * exp(4, r))): return {u: TAUINV(b, r, x)}
    return None
heap.SOLVERS.append(tau_rule)

def log4(ctx, size, base):
    """r with size = base * 4^r, or None"""
    if base.is_const():
        if base.cval() < 1: return None
        q = size * Fraction(1, base.cval())
    else:
        try: q = size * base.inv()
        except ToolLimit: return None
    if len(q.t) != 1: return None
    (m, c), = q.t.items()
    c = Fraction(c); r = ZERO
    k = c
    while k > 1: k /= 4; r = r + 1
    while k < 1: k *= 4; r = r - 1
    if k != 1: return None
    for a, e in m:
        A = ATOMS[a]
        if A.kind != 'exp' or A.args[0] != 4 or e != 1: return None
        r = r + A.args[1]
    return r

def prep_name(f):
    d = f['def']
    if d.endswith('::prepare_radix4'): return 'fwd'
    if d.endswith('::prepare_radix4_reversed'): return 'rev'
    return None
class PrepContract:
    """prepare_radix4(size, base_len, input, output, stride) for size = base_len*4^r:
         requires input.len > stride*(size-1), output.len >= size, base_len >= 1, stride >= 1
         ensures  output[j] = input[stride*tau_r(j)]  (reversed: input[stride*(size-1-tau_r(j))]) for j < size; nothing else changes"""
    def __init__(s, below=None): s.below = below; s.used = set()
    def contract(s, ex, st, fn, av):
        f = ex.prog.fns[fn]
        nm = prep_name(f)
        if nm is None or len(av) != 5: return None
        size, base, i, o, stride = av
        if not (isinstance(size, Poly) and isinstance(base, Poly) and isinstance(stride, Poly) and isinstance(i, SR) and isinstance(o, SR)): return None
        if s.below is None and not st.frames: return None
        c = st.ctx
        r = log4(c, size, base)
        if r is None or not c.ge0(r): return None
        if s.below is not None and not c.ge0(s.below - 1 - r): return None      # termination: strictly smaller depth
        if i.base[0] != 'r' or o.base[0] != 'r' or i.base == o.base: return None
        def run(ex, st, a, f):
            ok = True
            for what, cond in (('input long enough', ge(i.len, stride * (size - 1) + 1)), ('output long enough', ge(o.len, size)), ('base >= 1', ge(base, 1)), ('stride >= 1', ge(stride, 1))):
                good = st.ctx.prove(cond)
                if not good: raise ToolLimit(f'precondition of {f["inst"]} not provable: {what}: {cond}')
                if not ex.quiet: ex.obs.append(Oblig('pre', ex.span, '', what, True, None))
            j = fresh('j')
            t = TAU(base, r, j)
            if nm == 'rev': t = size - 1 - t
            v = models.rd0(st.mem[i.base[1]], i.off + stride * t)
            reg = o.base[1]
            st.mem[reg] = Bulk(st.mem[reg], [Entry([(sid(j), ZERO, size, False)], (), o.off + j, (), v)], 'prepare')
            s.used.add(f['inst'])
            return [(st, UNIT)]
        return run

def lemmas():
    """tau_{r+1} is a bijection of 0 .. 4Q-1 if tau_r is one of 0 .. Q-1 (range and injectivity suffice on a finite set); [(what, holds)]"""
    Q, a, b, u, v = z3.Ints('Q a b u v')
    def step(p, t): return z3.If(p < 3, 4 * t + p, 4 * (Q - 1 - t) + 3)
    pre = [Q >= 1, a >= 0, a < 4, b >= 0, b < 4, u >= 0, u < Q, v >= 0, v < Q]
    out = []
    def chk(what, *hyp):
        s = z3.Solver(); s.set('timeout', 20000); s.add(*pre); s.add(*hyp)
        out.append((what, s.check() == z3.unsat))
    chk('tau stays in range', z3.Not(z3.And(step(a, u) >= 0, step(a, u) < 4 * Q)))
    chk('tau is injective', step(a, u) == step(b, v), z3.Not(z3.And(a == b, u == v)))
    # 4^E (1 + 3D) <= 4^(E+D): induction on D, with x = 4^E and y = 4^(E+D)
    x, y, D = z3.Ints('x y D')
    s = z3.Solver(); s.set('timeout', 20000)
    w = z3.Int('w')      # w = x*D
    s.add(x >= 1, D >= 0, w >= 0, y >= x + 3 * w, z3.Not(4 * y >= x + 3 * (w + x)))
    out.append(('power bound (step)', s.check() == z3.unsat))
    return out

class Layers:
    """invariant of the layer loop of Radix4: with Q = b*4^t, before layer t
         data[i*Q + k] = sum_{u<Q} cas(k*tau_t(u)/Q) * P[i*Q + u]     for i < n/Q, k < Q
       where P is the data before the base transforms"""
    def __init__(s, R, n, part): s.R, s.n, s.part = R, n, part; s.done = []
    def applies(s, ex, s0, tm, regs):
        from .loops import Geo
        f = ex.prog.fns[s0.top.fn]
        if 'Radix4' not in f['inst']: return None
        g = [t for t in tm.values() if isinstance(t, Geo) and t.r == 4]
        if len(g) != 1: return None
        rs = [r for r in regs if isinstance(s0.mem[r], Bulk) and s0.mem[r].label == 'inner']
        if len(rs) != 1 or len(regs) != 1: return None
        reg = rs[0]
        nd = s0.mem[reg]
        b = len(nd.entries)
        off = None
        # base case: the data consists of transforms of blocks of b elements of P (tau_0 is the identity)
        for tt, e in enumerate(nd.entries):
            if len(e.params) != 1 or e.guards or e.path != (): return None
            c, lo, hi, o = e.params[0]
            cp = Poly.of(ATOMS[c])
            o_ = e.idx - cp * b - tt
            if off is None: off = o_
            if o_ != off or c in off.free or lo.t or not s0.ctx.prove(eq(hi * b, s.n)): return None
            want = ZERO
            for m in range(b): want = want + reals.mul(models.cas(C(Fraction(m * tt, b))), models.rd0(nd.prev, off + cp * b + m))
            if want != e.val: return None
        s.reg, s.b, s.off, s.P = reg, b, off, nd.prev
        s.R.good('layer invariant: base case', b)
        return reg
    def content(s, t, over):
        t = P(t)
        Q = exp(4, t) * s.b
        rows = s.n * Q.inv()
        k, u, i = fresh('k'), fresh('u'), fresh('i')
        ii = ZERO if rows == ONE else i
        src = over
        body = reals.mul(models.cas(k * TAU(C(s.b), t, u) * Q.inv()), models.rd0(src, s.off + ii * Q + u))
        ps = ([] if rows == ONE else [(sid(i), ZERO, rows, False)]) + [(sid(k), ZERO, Q, False)]
        return Bulk(over, [Entry(ps, (), s.off + ii * Q + k, (), models.SUM(u, ZERO, Q, body))], 'layer')
    def start(s, t): return s.content(t, Base('P'))
    def finish(s, N): return s.content(N, s.P)
    def step(s, backs, t, reg):
        """the body re-establishes the invariant for t+1"""
        R = s.R
        Q = exp(4, t) * s.b
        rows = s.n * (Q * 4).inv()
        i, a, v = sym('li'), sym('ka'), sym('xv')
        for b in backs:
            node = b.mem[reg]
            base = b.ctx.plus(ge(i), lt(i, rows))
            for bq in range(4):
                if bq % s.part[1] != s.part[0]: continue
                c = base.plus(ge(a), lt(a, Q))
                k = a + Q * bq
                xs = []
                for p in range(4):
                    tv = TAU(C(s.b), t, v)
                    idx = tv * 4 + p if p < 3 else (Q - 1 - tv) * 4 + 3
                    xs.append((s.off + i * Q * 4 + Q * p + v, [ge(v), lt(v, Q)], models.cas(k * idx * (Q * 4).inv())))
                before = prove.STAT['cases']
                f = prove.goal(c, node, s.off + i * Q * 4 + k, 'P', xs, s.n)
                if f:
                    z = f[0]
                    what = f'coefficient of {z[2][1]} off by {z[2][2]}' if z[0] == 'value' else f'depends on {z[2].name}[{z[2].idx}]'
                    raise LayerFail(f'layer invariant not preserved at position {k} of a row: {what}', [z[1] for z in f])
                R.good('layer invariant: step', prove.STAT['cases'] - before)
            # frame: nothing outside the chunk changes
            z = sym('fz')
            if not (s.off.t == {} ):
                c = base.plus(ge(z), lt(z, s.off))
                if not c.infeasible() and prove_same(c, node, z) is not True: raise ToolLimit('layer frame')
            L = sym('fl')
            c = base.plus(ge(z, s.off + s.n))
            if prove_same(c, node, z) is not True: raise ToolLimit('layer frame')
            R.good('layer invariant: frame')
class LayerFail(ToolLimit):
    def __init__(s, msg, ctxs): ToolLimit.__init__(s, msg); s.ctxs = ctxs
def prove_same(ctx, node, z):
    for c, v in forall_cases(ctx, lambda c: lookup(c, node, z, ())):
        if v != cell('P', z): return False
    return True
