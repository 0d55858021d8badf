"""Sums that survive coefficient extraction: cyclic convolutions through the inner transform (prime lengths).

A value  sum_{t<m} sum_{l<m} F(t, l)  with F a combination of  c(l) * e(t*U/m + V),  U an integer polynomial that contains l with
coefficient +-1, equals the combination of  m * c(l0) * e(V)  with l0 = the solution of U = 0 modulo m   (orthogonality of the characters
of Z/m; all occurrences of l are m-periodic).  The powers of the generator are injective in their exponent below p-1."""
from .poly import *
from .poly import _n
from .ctx import *
from . import heap, trig, reals
from .heap import rd

def powmod_rule(ctx, D, live):
    """g^E(u) = g^F (mod p), both exponents in [0, p-1), g a generator: E(u) = F"""
    if len(D.t) != 2: return None
    (m1, c1), (m2, c2) = D.t.items()
    if c1 + c2 != 0 or abs(c1) != 1: return None
    def pw(m):
        if not m: return 'one'
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == 'powmod': return ATOMS[m[0][0]].args
        return None
    a, b = pw(m1), pw(m2)
    if a is None or b is None or a == b == 'one': return None
    if a == 'one': a = (b[0], ZERO, b[2])
    if b == 'one': b = (a[0], ZERO, a[2])
    if a[0] != b[0] or a[2] != b[2] or not is_sym(a[0]) or ATOMS[sid(a[0])].args[0] not in ('g', 'ginv'): return None
    M = a[2]
    for E in (a[1], b[1]):
        if not (ctx.prove(ge(E)) and ctx.prove(lt(E, M - 1))): return None
    s = heap.solve(ctx, a[1] - b[1], live)
    return 'none' if s is None else s
heap.SOLVERS.append(powmod_rule)

def tabsum(A, istable):
    """a sum over precomputed values only"""
    def ok(p):
        for m in p.t:
            for a, _ in m:
                X = ATOMS[a]
                if X.kind in ('cell', 'junk'): return False
                if X.kind == 'rd' and not istable(X.args[0]): return False
                if X.kind in ('sum', 'tsum') and not ok(X.args[3]): return False
        return True
    return ok(A.args[3])

def psub(ctx):
    """the context over m = p - 1 instead of p"""
    p, m = sym('p'), sym('m')
    sub = {sid(p): m + 1}
    c = Ctx()
    for f in ctx.f:
        if f is True or f is False or f[0] == 'op': continue
        c.f.append(csubst(f, sub))
    c.dead = ctx.dead
    for a, (q, r) in ctx.res.items():
        if a == sid(p): c.res[sid(m)] = (q, (r - 1) % q)
        else: c.res[a] = (q, r)
    return c, sub

def convsum(ctx, items):
    """items: [(t, lo, hi, conds, coef)]: sum over t in [lo, hi) with conds of coef  ->  T (over m)"""
    from .prove import resolve_tables
    T0, L0 = sym('T0'), sym('L0')
    lo, hi = items[0][1], items[0][2]
    pieces = {}
    for t, l, h, conds, coef in items:
        if l != lo or h != hi: raise ToolLimit('sums over different ranges')
        sb = {t: T0}
        cs = tuple(csubst(c, sb) for c in conds)
        k = repr(cs)
        if k not in pieces: pieces[k] = [cs, ZERO]
        pieces[k][1] = pieces[k][1] + coef.subst(sb)
    rng = ctx.plus(ge(T0, lo), lt(T0, hi))
    ps = list(pieces.values())
    if len(ps) > 1 and not rng.prove(disj([conj(list(cs)) for cs, _ in ps])): raise ToolLimit(f'pieces of a sum do not cover its range: {[cs for cs, _ in ps]} {ctx.f}')
    for i in range(len(ps)):
        for j in range(i):
            if not rng.plus(*ps[i][0], *ps[j][0]).infeasible(): raise ToolLimit('pieces of a sum overlap')
    # table sums become a second summation index
    out = []
    for cs, coef in ps:
        r = ZERO
        for mn, c in coef.t.items():
            ts = [a for a, e in mn if ATOMS[a].kind == 'tsum']
            if len(ts) != 1 or (ts[0], 1) not in mn: raise ToolLimit('product of table sums')
            l, a, b, body = ATOMS[ts[0]].args
            if a != lo or b != hi: raise ToolLimit('table sum over a different range')
            cl = rng.plus(*cs, ge(L0, a), lt(L0, b))
            body = body.subst({l: L0})
            for _ in range(20):
                rds = [x for m in body.t for x, _ in m if ATOMS[x].kind == 'rd']
                if not rds: break
                X = ATOMS[rds[0]]
                body = heap.replace_atom(body, rds[0], heap.lookup(cl, *X.args))
            r = r + reals.mul(Poly({tuple(x for x in mn if x[0] != ts[0]): c}), body)
        out.append((rng.plus(*cs, ge(L0, lo), lt(L0, hi)), cs, r))
    # one formula for every piece
    def eqs(cs): return any(c is not True and c[0] == 'eq' for c in cs)
    out.sort(key=lambda x: (eqs(x[1]), len(x[1])))
    ref = out[0][2]
    for c, cs, r in out[1:]:
        c2, sub = psub(c)
        d = (r - ref).subst(sub)
        if not trig.normal(c2, d, trig.eqsubst(c2)).zero() and not trig.normal(c2, d, trig.eqsubst(c2, True)).zero():
            raise ToolLimit(f'no uniform formula for a sum: piece {cs}: {d}')
    c2, sub = psub(rng.plus(ge(L0, lo), lt(L0, hi)))
    m = sym('m')
    if (hi - lo).subst(sub) != m or lo.t: raise ToolLimit('sum range is not m')
    nf = trig.normal(c2, ref.subst(sub), None)
    res = trig.T()
    t0, l0, mi = sid(T0), sid(L0), sid(m)
    for (mono, turn), cst in nf.d.items():
        if any(t0 in ATOMS[a].free or l0 in ATOMS[a].free for a, _ in mono): raise ToolLimit('summation index outside the angle')
        cf = turn.coeff(t0)
        if cf is None: raise ToolLimit('angle not linear in the summation index')
        U = cf[0] * m; V = cf[1]
        if not c2.integral(U) or any(e < 0 for mm in U.t for _, e in mm): raise ToolLimit(f'frequency {U}/m')
        cu = U.coeff(l0)
        if cu is None or not cu[0].is_const() or abs(cu[0].cval()) != 1: raise ToolLimit(f'frequency {U}')
        l = -cu[1] * cu[0].cval()
        # l must enter V only through powers of the generator (m-periodic)
        for mm in V.t:
            for a, e in mm:
                A = ATOMS[a]
                if l0 in A.free and A.kind not in ('gpow', 'powmod'): raise ToolLimit('not periodic in the second index')
        V2, k = trig.turnnorm(c2, V.subst({l0: l}))
        mm, f = mmul(mono, ((mi, 1),))
        res.add(mm, V2, {(q + k) % 1: v * f for q, v in cst.items()})
    return res, c2, sub
