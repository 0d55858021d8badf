"""Loops: complete unrolling when the trip count is decided, otherwise an inferred inductive summary that is checked
(base case, inductive step for an arbitrary iteration, exit only at iteration N) before it is used."""
import os
from .poly import *
from .ctx import *
from .heap import *
from .exec import *
from . import models

DEBUG = bool(os.environ.get('VF_DEBUG'))
UNROLL = 20
REAL = {'rd', 'cell', 'junk', 'sum', 'cos', 'sin', 'sqrt', 'r32', 'acc', 'pi', 'special'}
LOOPS = {}            # (fn inst, header) -> how it was handled

def is_real(p):
    return any(ATOMS[a].kind in REAL for m in p.t for a, _ in m)

def one_iter(ex, st, uid, header, body):
    s = st.copy()
    s.inloop = s.inloop + ((uid, header),)
    def stop(t):
        f = t.top
        return f.uid == uid and (f.bb == header or f.bb not in body)
    backs, exits, other = [], [], []
    for o in ex.run([s], stop):
        if o.tag == 'stop':
            (backs if o.st.top.bb == header else exits).append(o.st)
        else: other.append(o)
    for x in backs + exits: x.inloop = tuple(y for y in x.inloop if y != (uid, header))
    return backs, exits, other

def handle(ex, st, header, body):
    uid = st.top.uid
    key = (ex.prog.fns[st.top.fn]['inst'], header)
    ex.depth += 1
    if ex.depth > 12: raise ToolLimit('loop nesting')
    try:
        mark = len(ex.obs)
        r, first = unroll(ex, st, uid, header, body)
        if r is not None:
            LOOPS.setdefault(key, 'unrolled')
            return r
        del ex.obs[mark:]
        err = None
        try:
            r = summarise(ex, st, uid, header, body, first)
            LOOPS[key] = 'invariant'
            return r
        except ToolLimit as e:
            err = e
            if DEBUG: print('   ' * ex.depth, 'summary failed', key, e)
        del ex.obs[mark:]
        # peel one iteration
        backs, exits, other = one_iter(ex, st, uid, header, body)
        res = other + [Outcome('go', s) for s in exits]
        for b in backs:
            try: res += summarise(ex, b, uid, header, body)
            except ToolLimit as e2: raise ToolLimit(f'{err}; after peeling: {e2}')
        LOOPS[key] = 'invariant (first iteration peeled)'
        return res
    finally: ex.depth -= 1

def unroll(ex, st, uid, header, body):
    cur = [st]
    res = []
    lim = ex.hints.get('unroll', UNROLL)
    n = 0
    first = None
    mark = len(ex.obs)
    while cur:
        n += 1
        if n > lim: return None, first
        nxt = []
        for s in cur:
            backs, exits, other = one_iter(ex, s, uid, header, body)
            if first is None: first = (backs, exits, other, ex.obs[mark:])
            if backs and exits: return None, first
            if len(backs) > 1 and len(cur) * len(backs) > 8: return None, first
            res += other + [Outcome('go', e) for e in exits]
            nxt += backs
        cur = nxt
    return res, first

# ---------------------------------------------------------------- loop-carried state
def slots(ex, st, header):
    """{(frame index, local): value}"""
    out = {}
    for fi, f in enumerate(st.frames[:-1]):
        for l, v in f.loc.items(): out[(fi, l)] = v
    f = st.top
    live = ex.prog.live(f.fn)[0][header]
    for l in live:
        if l in f.loc: out[(len(st.frames) - 1, l)] = f.loc[l]
    return out
def getslot(st, k): return st.frames[k[0]].loc.get(k[1], UNDEF)
def setslot(st, k, v): st.frames[k[0]].loc[k[1]] = v

def samebool(a, b): return a is b or a == b

class Lin:
    def __init__(s, x0, d): s.x0, s.d = x0, d
    def at(s, i): return s.x0 + s.d * i
    def facts(s, i): return []
    def check(s, ctx, v, i): 
        w = s.at(i + 1)
        return v == w or ctx.prove(eq(v, w))
    def __repr__(s): return f'{s.x0} + i*({s.d})'
class Geo:
    def __init__(s, x0, r): s.x0, s.r = x0, r
    def at(s, i): return s.x0 * exp(s.r, i)
    def facts(s, i): return []
    def check(s, ctx, v, i):
        w = s.at(i + 1)
        return v == w or ctx.prove(eq(v, w))
    def __repr__(s): return f'{s.x0} * {s.r}^i'
class GeoDown:
    """x_i = r^(E-i) for i <= E, then 0 (integer division by r)"""
    def __init__(s, k, r, E): s.k, s.r, s.E = k, r, E
    def at(s, i):
        i = P(i)
        if i == s.E + 1: return ZERO
        return exp(s.r, s.E - i) * s.k
    def facts(s, i): return [ge(s.E - i)]
    def trip(s): return s.E + 1
    def check(s, ctx, v, i):
        if ctx.prove(ge(s.E - i, 1)): return v == s.at(i + 1) or ctx.prove(eq(v, exp(s.r, s.E - i - 1) * s.k))
        if ctx.prove(eq(s.E, i)): return v == ZERO or ctx.prove(eq(v, 0))
        return False
    def __repr__(s): return f'floor({s.k} * {s.r}^({s.E} - i))'
class GeoSum:
    """x_i = x0 + beta*i + alpha*(r^i - 1)/(r - 1)"""
    def __init__(s, x0, beta, alpha, r): s.x0, s.beta, s.alpha, s.r = x0, beta, alpha, r
    def at(s, i): return s.x0 + s.beta * i + s.alpha * (exp(s.r, i) - 1) * Fraction(1, s.r - 1)
    def facts(s, i): return []
    def check(s, ctx, v, i):
        w = s.at(i + 1)
        return v == w or ctx.prove(eq(v, w))
    def __repr__(s): return f'{s.x0} + i*({s.beta}) + ({s.alpha})*({s.r}^i - 1)/{s.r - 1}'
class ModWrap:
    """x_i = (x0 + d*i) mod M"""
    def __init__(s, x0, d, M): s.x0, s.d, s.M = x0, d, M
    def at(s, i):
        p = s.x0 + s.d * i
        return p - s.M * rawdiv(p, s.M)
    def facts(s, i): return []
    def check(s, ctx, v, i):
        p = s.x0 + s.d * (i + 1)
        q, r = polydiv(v - p, s.M)
        if r.t or not ctx.integral(q): return False
        return ctx.prove(ge(v)) and ctx.prove(lt(v, s.M))
    def __repr__(s): return f'({s.x0} + i*({s.d})) mod ({s.M})'
def powmod(g, i, M):
    i = P(i)
    if not i.t: return ONE
    a = Poly.of(atom('powmod', g, i, M))
    # powers of a unit modulo a prime are units (g and its inverse come from the primitive-root contract)
    unit = is_sym(g) and ATOMS[sid(g)].args[0] in ('g', 'ginv')
    define(a, ge(a, 1 if unit else 0), lt(a, M))
    return a
import vf.poly as _poly
_poly._REBUILD['powmod'] = powmod
class PowMod:
    """x_i = x0 * g^i mod M, as an atom with its range"""
    def __init__(s, x0, g, M): s.x0, s.g, s.M = x0, g, M
    def at(s, i):
        if s.x0 != ONE: raise ToolLimit('powmod start')
        return powmod(s.g, i, s.M)
    def facts(s, i): return []
    def check(s, ctx, v, i):
        # v must be (g * x_i) mod M
        x = s.at(i)
        w = s.g * x
        q, r = polydiv(v - w, s.M)
        if r.t or not ctx.integral(q): return False
        return ctx.prove(ge(v)) and ctx.prove(lt(v, s.M))
    def __repr__(s): return f'{s.x0} * {s.g}^i mod {s.M}'
class Acc:
    def __init__(s, x0, sym_, body): s.x0, s.sym, s.body = x0, sym_, body
    def at(s, i):
        i = P(i)
        if not i.t or s.body is None: return s.x0
        j = fresh('j')
        return s.x0 + models.SUM(j, ZERO, i, s.body.subst({sid(s.sym): j}))
    def facts(s, i): return []
    def __repr__(s): return f'{s.x0} + sum {s.body}'
def rawdiv(p, q):
    if p.is_const() and q.is_const(): return C(p.cval() // q.cval())
    if not p.t: return ZERO
    a = Poly.of(atom('div', p, q))
    define(a, ge(a), ge(p - q * a), ge(q * a + q - 1 - p))
    return a

def newfacts(c1, c0): return [c for c in c1.f if c not in c0.f]

def summarise(ex, s0, uid, header, body, first=None):
    mark = len(ex.obs)
    if first is None:
        first = one_iter(ex, s0, uid, header, body) + (ex.obs[mark:],)
        del ex.obs[mark:]
    # the first iteration from the initial state (its backs are only read, its exits are the zero-trip exits)
    b0, e0, o0, obs0 = first
    backs = b0
    if not backs:
        ex.obs += obs0
        return o0 + [Outcome('go', e) for e in e0]
    base_slots = slots(ex, s0, header)
    tm = {}
    regs = set()
    accs = {}
    def scan(bk, cur_slots, curmem):
        for k, v in cur_slots.items():
            w = getslot(bk, k)
            if v is w: continue
            if shape(v) != shape(w): raise ToolLimit(f'loop-carried value changes shape: {shape(v)} -> {shape(w)} in _{k[1]}')
            for (p, a), (_, b) in zip(leaves(v), leaves(w)):
                if isinstance(a, Poly):
                    if a != b: yield k, p, a, b
                elif isinstance(a, (Opaque, DynD, FnV)): pass
                elif not samebool(a, b): raise ToolLimit(f'loop-carried flag changes')
    for b in backs:
        for k, p, a, c in scan(b, base_slots, None):
            if (k, p) not in tm:
                if is_real(a) or is_real(c): tm[(k, p)] = Acc(leafat(base_slots[k], p), None, None)
                else:
                    g = geodown(a, ())
                    if g is not None and c * g.r == a: tm[(k, p)] = g
                    else: tm[(k, p)] = Lin(a, c - a)
            elif isinstance(tm[(k, p)], Lin) and (g := geodown(a, ())) is not None and c * g.r == a: tm[(k, p)] = g
        for r, n in s0.mem.items():
            if b.mem[r] is not n: regs.add(r)
    i = fresh('i')
    ii = sid(i)
    def build(bound, ctxfacts, Ls):
        s = s0.copy()
        for (k, p), t in tm.items():
            if isinstance(t, Acc):
                a = Poly.of(atom('acc', id(t), i)); 
                setslot(s, k, setleaf(getslot(s, k), p, a))
            else: setslot(s, k, setleaf(getslot(s, k), p, t.at(i)))
        for r in regs: s.mem[r] = Loop.make(Ls[r], i, {})
        s.ctx.add(ge(i), *ctxfacts)
        for t in tm.values(): s.ctx.add(*t.facts(i))
        s.active = s.active + (ii,)
        return s
    def mkL():
        Ls = {}
        for r in regs:
            L = LoopInfo(ii, frozenset(s0.active)); L.pre = s0.mem[r]; Ls[r] = L
        return Ls
    ths = None
    for rnd in range(8):
        Ls = mkL()
        sg = build(None, [], Ls)
        ex.quiet += 1
        try: backs, exits, other = one_iter(ex, sg, uid, header, body)
        finally: ex.quiet -= 1
        bad = False; stuck = None
        gs = slots(ex, sg, header)
        diffs = {}
        for b in backs:
            for r, n in s0.mem.items():
                if r not in regs and b.mem[r] is not n: regs.add(r); bad = True
            for k, v in gs.items():
                w = getslot(b, k)
                if v is w and not any(kk == k for kk, _ in tm): continue
                if shape(v) != shape(w): raise ToolLimit(f'loop-carried value changes shape in _{k[1]}: {shape(v)} -> {shape(w)}')
                for (p, a), (_, c) in zip(leaves(v), leaves(w)):
                    if isinstance(a, Poly): diffs.setdefault((k, p), []).append((b, a, c))
                    elif isinstance(a, (Opaque, DynD, FnV)): pass
                    elif not samebool(a, c): raise ToolLimit('loop-carried flag changes')
        for kp, ds in diffs.items():
            t = tm.get(kp)
            if t is None:
                if all(a == c for _, a, c in ds): continue
                bad = True
                a, c = ds[0][1], ds[0][2]
                x0 = leafat(base_slots[kp[0]], kp[1])
                tm[kp] = Acc(x0, None, None) if is_real(c) or is_real(a) else Lin(x0, c - a)
                continue
            if isinstance(t, Acc):
                bodies = {c - a for _, a, c in ds}
                if len(bodies) > 1: raise ToolLimit('accumulator with several paths')
                bd, = bodies
                if any(ATOMS[x].kind == 'acc' and ATOMS[x].args[0] == id(t) for x in bd.atoms()): raise ToolLimit('non-additive float recurrence')
                t.body = bd; t.sym = i
                continue
            if all(t.check(b.ctx, c, i) for b, a, c in ds): continue
            if all(b.ctx.infeasible() or t.check(b.ctx, c, i) for b, a, c in ds): continue
            try: tm[kp] = refine(t, ds, i, rnd, leafat(base_slots[kp[0]], kp[1]))
            except ToolLimit as e: stuck = e; continue
            bad = True
            if DEBUG: print('   ' * ex.depth, 'refine', kp, t, '->', tm[kp])
        if bad: continue
        if stuck is not None: raise stuck
        break
    else: raise ToolLimit('no loop invariant found')
    anno = ex.anno
    areg = anno.applies(ex, s0, tm, regs) if anno is not None and not ex.quiet else None
    # accumulators that feed other values are replaced by their sums
    # thresholds
    th = []
    for t in tm.values():
        if isinstance(t, GeoDown) and (ONE, -t.trip()) not in th: th.append((ONE, -t.trip()))
    for e in exits:
        if e.ctx.infeasible(): continue
        nf = newfacts(e.ctx, sg.ctx)
        got = False
        for c in nf:
            if c is True or c is False or c[0] not in ('ge', 'eq'): continue
            if ii not in c[1].free: continue
            cf = c[1].coeff(ii)
            if cf is None: continue
            A, B = cf
            if not A.t or ii in A.free: continue
            sg_ = possign(sg.ctx, A)
            if sg_ is None: continue
            if c[0] == 'eq' and sg_ < 0: A, B = -A, -B; sg_ = 1
            if sg_ > 0:
                if (A, B) not in th: th.append((A, B))
                got = True
        if not got:
            for c in nf:
                if c is not True and c is not False and c[0] == 'ge' and ii in c[1].free:
                    x = expthreshold(sg.ctx, c[1], ii)
                    if x is not None:
                        if (ONE, -x) not in th: th.append((ONE, -x))
                        got = True
        if not got: raise ToolLimit(f'exit condition of loop not understood: {nf}')
    if not th: raise ToolLimit('loop without a visible exit condition')
    # zero-trip exits
    del ex.obs[mark:]
    ex.obs += obs0
    res = list(o0) + [Outcome('go', e) for e in e0]
    pos = [ge(-B - 1) for A, B in th]
    for b in b0:
        for c in pos:
            if not b.ctx.prove(c): raise ToolLimit(f'first iteration does not imply {c}')
    base = s0.ctx.plus(*pos)
    if base.infeasible(): return res
    Ns = []
    for A, B in th:
        N = div(base, -B + A - 1, A)
        if N not in Ns: Ns.append(N)
    cases = []
    for j, N in enumerate(Ns):
        c = base.copy()
        ok = True
        for k, M in enumerate(Ns):
            if k == j: continue
            cond = le(N, M) if k > j else lt(N, M)
            d = c.decide(cond)
            if d is False: ok = False; break
            if d is None: c.add(cond)
        if ok and not c.infeasible(): cases.append((c, N))
    for cctx, N in cases:
        s1 = s0.copy(); s1.ctx = cctx.copy()
        Ls = mkL()
        saved = s0
        sgc = s1.copy()
        ac = {}
        for (k, p), t in tm.items():
            if isinstance(t, Acc):
                v = t.at(i); ac[(k, p)] = v
                setslot(sgc, k, setleaf(getslot(sgc, k), p, v))
            else: setslot(sgc, k, setleaf(getslot(sgc, k), p, t.at(i)))
        for r in regs: sgc.mem[r] = Loop.make(Ls[r], i, {}) if r is not areg else anno.start(i)
        sgc.ctx.add(ge(i), lt(i, N))
        sgc.active = sgc.active + (ii,)
        if sgc.ctx.infeasible(): raise ToolLimit('vacuous loop')
        backs, exits, other = one_iter(ex, sgc, uid, header, body)
        exits = [e for e in exits if not e.ctx.infeasible()]
        if exits: raise ToolLimit(f'loop may exit before iteration {N}: {newfacts(exits[0].ctx, sgc.ctx)}')
        res += other
        backs = [b for b in backs if not b.ctx.infeasible()]
        for b in backs:
            for (k, p), t in tm.items():
                v = leafat(getslot(b, k), p)
                if isinstance(t, Acc):
                    if v - ac[(k, p)] != t.body: raise ToolLimit('accumulator step')
                elif not t.check(b.ctx, v, i): raise ToolLimit(f'induction step of {t}: {v}')
            for k, v in slots(ex, sgc, header).items():
                w = getslot(b, k)
                if v is w: continue
                if shape(v) != shape(w): raise ToolLimit('shape')
                for (p, a), (_, c) in zip(leaves(v), leaves(w)):
                    if (k, p) in tm or isinstance(a, (Opaque, DynD, FnV)): continue
                    if isinstance(a, Poly):
                        if a != c: raise ToolLimit('changed value outside the invariant')
                    elif not samebool(a, c): raise ToolLimit('changed flag')
            for r, n in sgc.mem.items():
                if r not in regs and b.mem[r] is not n: raise ToolLimit('changed region outside the invariant')
        if areg is not None: anno.step(backs, i, areg)
        for r in regs:
            if r is areg: continue
            es = []
            for b in backs:
                ents = flatten(b.mem[r], sgc.mem[r])
                if ents is None: raise ToolLimit('loop memory chain')
                g = tuple(newfacts(b.ctx, sgc.ctx)) if len(backs) > 1 else ()
                for e in ents:
                    es.append(Entry([(ii, ZERO, N, True)] + list(e.params), tuple(e.guards) + g, e.idx, e.path, e.val))
            Ls[r].entries = es
            Ls[r].mono = monotone(sgc.ctx, es, i, N, [t for t in tm.values() if isinstance(t, GeoSum)])
        sN = s1
        for (k, p), t in tm.items(): setslot(sN, k, setleaf(getslot(sN, k), p, t.at(N)))
        for r in regs: sN.mem[r] = Loop.make(Ls[r], N, {}) if r is not areg else anno.finish(N)
        sN.ctx.add(ge(N, 1))
        bN, eN, oN = one_iter(ex, sN, uid, header, body)
        bN = [b for b in bN if not b.ctx.infeasible()]
        if bN: raise ToolLimit(f'loop may continue after iteration {N}')
        res += oN + [Outcome('go', e) for e in eN]
    if DEBUG: print('   ' * ex.depth, 'summary', ex.prog.fns[s0.top.fn]['inst'], header, {k: v for k, v in tm.items()}, 'N', Ns)
    return res

def leafat(v, path):
    for p, x in leaves(v):
        if p == path: return x
    raise ToolLimit('leaf')

def refine(t, ds, i, rnd, x0):
    """pick another template from the observed steps"""
    steps = []
    for b, a, c in ds:
        if (c - a, ) not in steps: steps.append((c - a,))
    steps = [s[0] for s in steps]
    ii = sid(i)
    if isinstance(t, Lin):
        # multiplication by a constant
        rat = set()
        for b, a, c in ds:
            try: q, r = polydiv(c, a)
            except ToolLimit: q, r = None, ONE
            rat.add(q if (q is not None and not r.t) else None)
        if len(rat) == 1:
            q = rat.pop()
            if q is not None and q.is_const() and isinstance(q.cval(), int) and q.cval() >= 2: return Geo(x0, q.cval())
        # integer division by a constant: a single power that goes down to 0
        g = geodown(x0, ds)
        if g is not None: return g
        # step beta + alpha * r^i
        if len(steps) == 1:
            ex_ = [x for x in steps[0].atoms() if ATOMS[x].kind == 'exp' and ii in ATOMS[x].free]
            if len(ex_) == 1 and ATOMS[ex_[0]].args[1] == i:
                cf = steps[0].coeff(ex_[0])
                al = ZERO; be = ZERO; ok = True
                for m, c in steps[0].t.items():
                    if (ex_[0], 1) in m: al = al + Poly({tuple(x for x in m if x[0] != ex_[0]): c})
                    else: be = be + Poly({m: c})
                if ii not in al.free and ii not in be.free: return GeoSum(x0, be, al, ATOMS[ex_[0]].args[0])
        # wrap-around: steps d and d - M
        if len(steps) == 2:
            s1, s2 = steps
            for d, e in ((s1, s2), (s2, s1)):
                M = d - e
                if ii not in M.free and ii not in d.free and any(b.ctx.prove(ge(M, 1)) for b, _, _ in ds): return ModWrap(x0, d, M)
        # c = g*x mod p : c = g*a - p*div(g*a, p)
        for b, a, c in ds:
            dv = [x for x in c.atoms() if ATOMS[x].kind == 'div']
            if len(dv) == 1:
                num, M = ATOMS[dv[0]].args
                if num == c + M * Poly.of(ATOMS[dv[0]]):
                    # step x -> num(x) mod M
                    d = num - a
                    if ii not in d.free and ii not in M.free: return ModWrap(x0, d, M)
                    try: q, r = polydiv(num, a)
                    except ToolLimit: continue
                    if not r.t and ii not in q.free: return PowMod(x0, q, M)
        if len(steps) == 1 and ii not in steps[0].free and steps[0] != t.d and rnd < 5: return Lin(x0, steps[0])
    raise ToolLimit(f'no template: {t}, steps {steps}')

def geodown(x0, ds):
    """x0 = b^E (times a power of b) and one branch divides by b"""
    if len(x0.t) != 1: return None
    (m, c), = x0.t.items()
    if len(m) != 1 or m[0][1] != 1 or ATOMS[m[0][0]].kind != 'exp': return None
    b, E = ATOMS[m[0][0]].args
    k = 0; c = Fraction(c)
    while c >= b: c /= b; k += 1
    if c != 1: return None
    return GeoDown(ONE, b, E + k)
def expthreshold(ctx, p, ii):
    """p(i) >= 0 with i in an exponent: a*b^(i+u) - c >= 0 where c = a*b^v"""
    ex_ = [x for x in p.atoms() if ATOMS[x].kind == 'exp' and ii in ATOMS[x].free]
    if len(ex_) != 1: return None
    b, E = ATOMS[ex_[0]].args
    I = Poly.of(ATOMS[ii])
    if E - I != ZERO and ii in (E - I).free: return None
    # p = q*(c1*b^E - c2*b^F) - 1 with c1/c2 a power of b:  p >= 0  <=>  E + log > F
    rest = p + 1
    pos = {m: c for m, c in rest.t.items() if c > 0}; ng = {m: -c for m, c in rest.t.items() if c < 0}
    if len(pos) != 1 or len(ng) != 1: return None
    try: q = Poly(pos) * Poly(ng).inv()
    except ToolLimit: return None
    if len(q.t) != 1: return None
    (m, c), = q.t.items()
    if len(m) != 1 or ATOMS[m[0][0]].kind != 'exp' or ATOMS[m[0][0]].args[0] != b or m[0][1] != 1: return None
    F = ATOMS[m[0][0]].args[1]; c = Fraction(c)
    while c >= b: c /= b; F = F + 1
    while c < 1: c *= b; F = F - 1
    if c != 1 or F.coeff(ii) is None or F.coeff(ii)[0] != ONE: return None
    # ratio b^F >= 1 + tiny  <=>  F >= 1
    return 1 - F.coeff(ii)[1]

def monotone(ctx, es, i, N, ts):
    """a geometric-sum slot lo(i) such that iteration i only writes cells lo(i) <= idx < lo(i+1): every cell has at most one writing iteration"""
    for t in ts:
        lo, hi = t.at(i), t.at(i + 1)
        if not ctx.prove(ge(hi, lo)): continue
        ok = True
        for e in es:
            c = ctx.plus(*e.ranges()[2:], *e.guards)
            if not (c.prove(ge(e.idx, lo)) and c.prove(lt(e.idx, hi))): ok = False; break
        if ok: return (lo, sid(i))
    return None
