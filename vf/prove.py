"""Functional obligations: the output cell k of a transform equals sum_x cas(k*x/n) * in[x], for every k and every x."""
from fractions import Fraction
from .poly import *
from .ctx import *
from .heap import *
from . import reals, trig, models, conv

class Dirty(Exception):
    """the result depends on scratch / previous output / uninitialised contents"""
    def __init__(s, atom, ctx): s.atom, s.ctx = atom, ctx
class Refuted(Exception):
    def __init__(s, what, ctx, diff): s.what, s.ctx, s.diff = what, ctx, diff

def resolve_tables(ctx, val):
    """replace reads of precomputed tables inside coefficients by their values"""
    for _ in range(200):
        todo = None
        for m in val.t:
            ds = [a for a, e in m if ATOMS[a].kind in ('cell', 'rd', 'sum', 'junk')]
            if len(ds) > 1:
                ts = [a for a in ds if ATOMS[a].kind == 'sum' and conv.tabsum(ATOMS[a], istable)]
                if ts:
                    A = ATOMS[ts[0]]
                    val = replace_atom(val, ts[0], Poly.of(atom('tsum', *A.args))); todo = -1; break
            if len(ds) > 1 or any(e != 1 for a, e in m if a in ds):
                rds = [a for a in ds if ATOMS[a].kind == 'rd']
                if not rds: raise ToolLimit(f'non-linear data term {Poly({m: 1})} {ctx.res} {ctx.f}')
                # tables first: they are the reads of component paths or of nodes without data
                rds.sort(key=lambda a: (ATOMS[a].args[2] == (), istable(ATOMS[a].args[0]) is False))
                todo = rds[0]; break
        if todo is None: return val
        if todo == -1: continue
        A = ATOMS[todo]
        val = replace_atom(val, todo, lookup(ctx, A.args[0], A.args[1], A.args[2]))
    raise ToolLimit('coefficient too deep')
def istable(node):
    n = node
    for _ in range(1000):
        if isinstance(n, Base): return n.name == 'uninit'
        if isinstance(n, Fill): return True
        n = n.prev if isinstance(n, Bulk) else n.pre()
    return False
def linear(ctx, val):
    """{data atom id: coefficient}, constant part under None"""
    val = resolve_tables(ctx, val)
    r = {}
    for m, c in val.t.items():
        d = None; rest = []
        for a, e in m:
            if ATOMS[a].kind in ('cell', 'rd', 'sum', 'junk'):
                if d is not None or e != 1: raise ToolLimit('non-linear data term')
                d = a
            else: rest.append((a, e))
        r.setdefault(d, {})[tuple(rest)] = c
    return {a: Poly(t) for a, t in r.items()}

class Term:
    __slots__ = ('params', 'ctx', 'conds', 'coef', 'name', 'idx')
    def __init__(s, params, conds, coef, name, idx): s.params, s.conds, s.coef, s.name, s.idx = params, conds, coef, name, idx

MEMO = {}
def terms(ctx, val, params=(), conds=(), coef=ONE, depth=0):
    """all contributions of input cells to val: [Term]; splits on conditions free of bound parameters are raised"""
    out = []
    if depth > 60: raise ToolLimit('expansion too deep')
    for a, c in linear(ctx, val).items():
        k = reals.mul(coef, c)
        if a is None:
            out.append(Term(params, conds, k, None, ZERO)); continue
        A = ATOMS[a]
        if A.kind == 'cell': out.append(Term(params, conds, k, A.args[0], A.args[1]))
        elif A.kind == 'junk': out.append(Term(params, conds, k, 'junk', A.args[1]))
        elif A.kind == 'rd':
            out += terms(ctx, lookup(ctx, A.args[0], A.args[1], A.args[2]), params, conds, k, depth + 1)
        else:
            m, lo, hi, body = A.args
            if hi.is_const() and lo.is_const() and hi.cval() <= lo.cval(): continue
            p = unused(set(ctx.syms() | val.free | {q[0] for q in params}), 's')
            body = body.subst({m: p})
            c2 = ctx.plus(ge(p, lo), lt(p, hi))
            ps = params + ((sid(p), lo, hi),)
            bound = {q[0] for q in ps}
            todo = [(c2, conds)]
            n = 0
            while todo:
                cc, cd = todo.pop()
                if cc.infeasible(): continue
                n += 1
                if n > 40: raise ToolLimit('too many pieces in a sum')
                try: out += terms(cc, body, ps, cd, k, depth + 1)
                except Split as s:
                    if not (cfree(s.cond) & bound): raise
                    if not (cfree(s.cond) & {sid(p)}) and len(ps) > 1: raise
                    todo.append((cc.plus(s.cond), cd + (s.cond,)))
                    todo.append((cc.plus(neg(s.cond)), cd + (neg(s.cond),)))
    return out

def coefficient(ctx, ts, name, X):
    """coefficient of cell name[X] in a list of Terms: (polynomial, remaining sums)"""
    r = ZERO; left = []
    for t in ts:
        if t.name != name: continue
        D = t.idx - X
        if not t.params:
            conds = [eq(D)] + list(t.conds); s = {}
        else:
            c2 = ctx
            for p, lo, hi in t.params:
                x = Poly.of(ATOMS[p]); c2 = c2.plus(ge(x, lo), lt(x, hi))
            c2 = c2.plus(*t.conds)
            if c2.infeasible(): continue
            if D.t and not D.is_const() and c2.prove(ne(D)): continue
            try: s = solve2(c2, D, [p[0] for p in t.params])
            except Split as e:
                if cfree(e.cond) & {p[0] for p in t.params}: raise ToolLimit('split on a bound index')
                raise
            if s is None: continue
            s = dict(s)
            und = [p for p in t.params if p[0] not in s]
            if und:
                es = trig.eqsubst(c2, True, {p[0] for p in t.params})
                und2 = [p for p in und if p[0] not in es]
                if (len(und) == 1 or len(und2) == 1) and any(ATOMS[a].kind == 'tsum' for a in t.coef.atoms()):
                    # a sum over table values remains
                    q = und[0] if len(und) == 1 else und2[0]
                    for p in und:
                        if p is not q and p[0] in es: s[p[0]] = es[p[0]]
                    for _ in range(4): s = {k: v.subst(s) for k, v in s.items()}
                    conds = [eq(D.subst(s))]
                    for p, lo, hi in t.params:
                        if p != q[0]: conds += [ge(s[p], lo.subst(s)), lt(s[p], hi.subst(s))]
                    ok = True; un = None
                    for c in conds:
                        d = ctx.decide(c)
                        if d is False: ok = False; break
                        if d is None and un is None: un = c
                    if not ok: continue
                    if un is not None: raise Split(un)
                    left.append((q[0], q[1].subst(s), q[2].subst(s), tuple(csubst(c, s) for c in t.conds), t.coef.subst(s)))
                    continue
                for p in und:
                    if p[0] not in es: raise ToolLimit(f'free summation index {ATOMS[p[0]]} of {t.name}[{t.idx}] * {t.coef}, {c2.f[-6:]} {c2.res}')
                    s[p[0]] = es[p[0]]
            for _ in range(4): s = {k: v.subst(s) for k, v in s.items()}
            conds = [eq(D.subst(s))]
            for p, lo, hi in t.params: conds += [ge(s[p], lo.subst(s)), lt(s[p], hi.subst(s))]
            conds += [csubst(c, s) for c in t.conds]
        ok = True; und = None
        for c in conds:
            d = ctx.decide(c)
            if d is False: ok = False; break
            if d is None and und is None: und = c
        if not ok: continue
        if und is not None: raise Split(und)
        r = r + t.coef.subst(s)
    return r, left

STAT = {'goals': 0, 'cases': 0, 'leaf': 0}
def goal(ctx, node, kidx, name, X, n, bad=('scr', 'out', 'junk', 'uninit'), limit=80, off=ZERO, want=None, own=None, path=None):
    """out[kidx] has coefficient cas(k*X/n) for name[X]; X a list of (Poly, conds). Collects failures."""
    fails = []
    todo = [(ctx, 0)]
    cnt = 0
    sel, depth = path or (0, 0)      # with a path, only the selected branches of the first `depth` splits
    while todo:
        c, lev = todo.pop()
        if c.infeasible(): continue
        cnt += 1
        if cnt > limit: raise ToolLimit('too many cases')
        try:
            v = lookup(c, node, off + kidx, ())
            ts = terms(c, v)
        except Split as s:
            if lev < depth:
                todo.append((c.plus(s.cond if sel >> lev & 1 else neg(s.cond)), lev + 1)); continue
            todo.append((c.plus(s.cond), lev)); todo.append((c.plus(neg(s.cond)), lev)); continue
        if lev < depth and sel >> lev: continue      # fewer splits than the depth: one part does it
        STAT['leaf'] += 1
        sub = trig.eqsubst(c)
        for t in ts:
            if t.name != name:
                z = trig.normal(c, t.coef, sub)
                if t.name is None and not z.zero(): fails.append(('const', c, t))
                elif t.name is not None and not z.zero():
                    # several dirty terms may cancel: only a single occurrence is conclusive
                    fails.append(('dirty', c, t))
        for x, xc, *ow in X:
            STAT['goals'] += 1
            sub_todo = [c.plus(*xc)]
            m = 0
            while sub_todo:
                d = sub_todo.pop()
                if d.infeasible(): continue
                m += 1
                if m > limit: raise ToolLimit('too many input cases')
                try: got, left = coefficient(d, ts, name, off + x)
                except Split as s:
                    sub_todo.append(d.plus(s.cond)); sub_todo.append(d.plus(neg(s.cond))); continue
                exp_ = ow[0] if ow else models.cas(kidx * x * n.inv()) if want is None else want
                sub2 = trig.eqsubst(d)
                diff = got - exp_
                STAT['cases'] += 1
                if left:
                    z, d2, sub3 = conv.convsum(d, left)
                    for k, cs in trig.normal(d2, diff.subst(sub3), None).d.items(): z.add(k[0], k[1], cs)
                    if z.zero(): continue
                    raise ToolLimit(f'convolution: remainder {z.nonzero()}')
                if trig.normal(d, diff, sub2).zero(): continue
                if trig.normal(d, diff, trig.eqsubst(d, True)).zero(): continue
                fails.append(('value', d, (kidx, x, diff)))
    return fails
