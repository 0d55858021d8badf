"""Memory: regions hold immutable content nodes; reads are lazy atoms rd(node, index, path), resolved by `lookup`."""
from .poly import *
from .poly import _n
from .ctx import *
import vf.poly as _poly

_NODES = {}
_nid = [0]
def subkey(sub): return tuple(sorted(((k, v) for k, v in sub.items()), key=lambda x: x[0]))

def unused(used, base):
    """a symbol outside `used`; the same request gives the same name, so that queries repeat"""
    if used is None: return fresh(base)
    k = 0
    while True:
        x = sym(f"{base}`{k}")
        i = sid(x)
        if i not in used: used.add(i); return x
        k += 1
class Entry:
    """for all params in range with guards: cell[idx].path := val"""
    __slots__ = ('params', 'guards', 'idx', 'path', 'val')
    def __init__(s, params, guards, idx, path, val):
        s.params, s.guards, s.idx, s.path, s.val = tuple(params), tuple(guards), idx, path, val
    def subst(s, sub):
        return Entry([(p, lo.subst(sub), hi.subst(sub), o) for p, lo, hi, o in s.params], [csubst(g, sub) for g in s.guards], s.idx.subst(sub), s.path, s.val.subst(sub))
    def rename(s, used=None):
        """copies of the bound parameters under names that are not in use"""
        sub = {}
        ps = []
        for p, lo, hi, o in s.params:
            n = unused(used, ATOMS[p].args[0].split("'")[0])
            ps.append((sid(n), lo.subst(sub), hi.subst(sub), o))
            sub[p] = n
        return Entry(ps, [csubst(g, sub) for g in s.guards], s.idx.subst(sub), s.path, s.val.subst(sub))
    def ranges(s):
        r = []
        for p, lo, hi, o in s.params:
            x = Poly.of(ATOMS[p]); r += [ge(x, lo), lt(x, hi)]
        return r
    def free(s):
        f = s.idx.free | s.val.free
        for g in s.guards: f |= cfree(g)
        for p, lo, hi, o in s.params: f |= lo.free | hi.free
        return f - {p[0] for p in s.params}
    def key(s): return (s.params, repr(s.guards), s.idx, s.path, s.val)
    def __repr__(s): return f"[{', '.join(f'{lo}<={ATOMS[p]}<{hi}' for p, lo, hi, o in s.params)}{' | ' + str(list(s.guards)) if s.guards else ''}: [{s.idx}]{s.path} := {s.val}]"

class Node:
    kind = ''
    free = frozenset()
    def subst(self, sub): return self
    def __repr__(self): return f'{self.kind}#{self.id}'
    def _new(self):
        _nid[0] += 1; self.id = _nid[0]; self._sub = {}

class Base(Node):
    """unknown initial content: cells are symbolic inputs"""
    kind = 'base'
    def __init__(s, name): s._new(); s.name = name
    def __repr__(s): return s.name
class Fill(Node):
    kind = 'fill'
    def __init__(s, vals): s._new(); s.vals = vals; s.free = frozenset().union(*[v.free for v in vals.values()]) if vals else frozenset()
class Bulk(Node):
    kind = 'bulk'
    def __init__(s, prev, entries, label=''):
        s._new(); s.prev = prev; s.entries = tuple(entries); s.label = label
        f = prev.free
        for e in entries: f |= e.free()
        s.free = f
    def subst(s, sub):
        if s.free.isdisjoint(sub): return s
        k = subkey(sub)
        r = s._sub.get(k)
        if r is None:
            r = s._sub[k] = Bulk(s.prev.subst(sub), [e.subst(sub) for e in s.entries], s.label)
        return r
class LoopInfo:
    """ordered iterations j = 0, 1, ...; entries have the loop parameter `p` first"""
    def __init__(s, p, free):
        s.p = p            # sym id
        s.entries = None; s.pre = None; s.free = free; s.disjoint = None; s.facts = (); s.mono = None
class Loop(Node):
    """content after iterations 0..bound-1 of L, on top of L.pre (all under substitution env)"""
    kind = 'loop'
    def __init__(s, L, bound, env):
        s._new(); s.L = L; s.bound = bound; s.env = env
        f = set(bound.free)
        for x in L.free:
            if x in env: f |= env[x].free
            else: f.add(x)
        s.free = frozenset(f)
    @staticmethod
    def make(L, bound, env):
        k = ('loop', id(L), bound, subkey(env))
        n = _NODES.get(k)
        if n is None: n = _NODES[k] = Loop(L, bound, env)
        return n
    def subst(s, sub):
        if s.free.isdisjoint(sub): return s
        env = {k: v.subst(sub) for k, v in s.env.items()}
        for x in s.L.free:
            if x not in env and x in sub: env[x] = sub[x]
        return Loop.make(s.L, s.bound.subst(sub), env)
    def pre(s): return s.L.pre.subst(s.env) if s.env else s.L.pre
    def ents(s):
        es = s.L.entries
        if es is None: raise ToolLimit('memory of an unfinished loop')
        return [e.subst(s.env) for e in es] if s.env else es

def rd(node, idx, path=()):
    return Poly.of(atom('rd', node, P(idx), path))
def cell(name, idx, path=()):
    return Poly.of(atom('cell', name, P(idx), path))

def flatten(node, stop):
    """entries written between `stop` and `node`, in order; None if the chain does not reach stop"""
    out = []
    n = node
    while n is not stop:
        if isinstance(n, Bulk):
            out.append(list(n.entries)); n = n.prev
        elif isinstance(n, Loop):
            es = []
            for e in n.ents():
                p, lo, hi, o = e.params[0]
                es.append(Entry([(p, lo, n.bound, o)] + list(e.params[1:]), e.guards, e.idx, e.path, e.val))
            out.append(es); n = n.pre()
        else: return None
    out.reverse()
    return [e for es in out for e in es]

# ------------------------------------------------------------------ solving  idx(params) = e
def _bound(ctx, R, A):
    """some shift t with -A < R + t*A < A provable -> list of candidate (t)"""
    for t in (0, 1, -1, 2, -2):
        if ctx.prove(lt(R + A * t, A)) and ctx.prove(gt(R + A * t, -A)): return t
    return None

def possign(ctx, A):
    if A.is_const(): return 1 if A.cval() > 0 else -1
    if ctx.prove(ge(A, 1)): return 1
    if ctx.prove(ge(-A, 1)): return -1
    return None

SOLVERS = []      # extra rules: fn(ctx, D, unknowns) -> None or ('sub', dict) or 'none'

def solve(ctx, D, unk):
    """solutions of D(unk) = 0. ctx contains the ranges of the unknowns.
    -> None (no solution) or dict {param: Poly} (params missing from it are unconstrained)"""
    if not D.t: return {}
    live = [u for u in unk if u in D.free]
    if not live:
        r = ctx.decide(eq(D))
        if r is None: raise Split(eq(D))
        return {} if r else None
    for rule in SOLVERS:
        r = rule(ctx, D, live)
        if r is not None: return None if r == 'none' else r
    cand = []
    for u in live:
        cf = D.coeff(u)
        if cf is None or not cf[0].t: continue
        if any(v in cf[0].free for v in unk): continue
        cand.append((u, cf[0], cf[1]))
    if not cand: raise ToolLimit(f'cannot solve {D} = 0 for {[ATOMS[u] for u in live]}')
    if len(live) == 1:
        u, A, B = cand[0]
        if A.is_const() and abs(A.cval()) == 1:
            x = -B * A.cval()
            for h in sorted(B.free):
                # D = Q*h + (A*u + R) with |A*u + R| < h: both parts vanish
                if ATOMS[h].kind != 'sym': continue
                H = Poly.of(ATOMS[h])
                cf = B.coeff(h)
                if cf is None or not cf[0].t or cf[0].is_const(): continue
                Q, R = cf
                t = A * Poly.of(ATOMS[u]) + R
                if not ctx.integral(Q) or h in Q.free: continue
                sh = _bound(ctx, t, H)
                if sh is not None:
                    # D = (Q - sh)*h + (t + sh*h)
                    d = ctx.decide(eq(Q, sh))
                    if d is None: raise Split(eq(Q, sh))
                    if d is False: return None
                    return {u: -(R + H * sh) * A.cval()}
            return {u: x}
        if len(A.t) == 1:
            try:
                x = -B * A.inv()
                if all(e > 0 or ATOMS[a].kind == 'exp' for m in x.t for a, e in m) and ctx.integral(x): return {u: x}
            except ToolLimit: pass
    best = None
    for u, A, B in cand:
        sg = possign(ctx, A)
        if sg is None: continue
        if sg < 0: A, B = -A, -B
        if A.is_const():
            a = A.cval()
            Q = Poly({m: _n((c - (c % a)) / Fraction(a)) if (c - c % a) else 0 for m, c in B.t.items() if (c - c % a)})
            R = B - Q * a
            if not ctx.integral(Q): continue
            # prefer symmetric remainders
        else:
            Q, R = polydiv(B, A)
            # fractional multiples of A go to the remainder
            fr = Poly({m: c for m, c in Q.t.items() if isinstance(c, Fraction)})
            if fr.t and not ctx.integral(Q): Q = Q - fr; R = R + fr * A
            if not ctx.integral(Q): continue
        if any(v in Q.free for v in live if v != u) : 
            pass
        if not R.t:
            if any(v in Q.free for v in live if v != u): continue
            return {u: -Q}
        if u in R.free: continue
        t = _bound(ctx, R, A)
        if t is None: continue
        # A*(u + Q - t) + (R + tA) = 0, |R + tA| < A  =>  R + tA = 0 and u = t - Q
        R2 = R + A * t
        rest = [v for v in live if v != u]
        s = solve(ctx, R2, rest)
        if s is None: return None
        s = dict(s)
        x = (C(t) - Q).subst(s)
        s[u] = x
        return s
    if ctx.prove(ne(D)): return None
    raise ToolLimit(f'cannot solve {D} = 0 for {[str(ATOMS[u]) for u in live]} {ctx.f} {ctx.res}')

def solve2(ctx, D, unk):
    try: return solve(ctx, D, unk)
    except ToolLimit:
        from . import trig
        es = trig.eqsubst(ctx, True, set(unk))
        es = {k: v for k, v in es.items()}
        if not es: raise
        D2 = D.subst(es)
        if D2 == D: raise
        s = solve(ctx, D2, [u for u in unk if u not in es])
        if s is None: return None
        s = dict(s)
        for u in unk:
            if u in es: s[u] = es[u].subst(s)
        return s
import itertools
LSTAT = {'lookups': 0}
def match(ctx, ent, e):
    """does ent write index e? -> None or (substituted entry value, {param: sol}, entry) ; may raise Split"""
    ent = ent.rename(set(ctx.syms() | e.free | ent.free()))
    D = ent.idx - e
    unk = [p[0] for p in ent.params]
    c2 = ctx.plus(*ent.ranges(), *ent.guards) if (ent.params or ent.guards) else ctx
    if not unk:
        conds = [eq(D)] + list(ent.guards)
        return _finish(ctx, ent, {}, conds)
    if D.is_const() is False and c2.prove(ne(D)): return None
    if c2.infeasible(): return None
    s = solve2(c2, D, unk)
    if s is None: return None
    s = dict(s)
    # unconstrained ordered parameters: the last iteration wins
    for p, lo, hi, o in reversed(ent.params):
        if p not in s:
            if not o: raise ToolLimit('unconstrained parameter')
            if any(p in cfree(g) for g in ent.guards): raise ToolLimit('guard on unconstrained parameter')
            s[p] = (hi - 1)
    for _ in range(4):
        s = {k: v.subst(s) for k, v in s.items()}
    conds = [eq(D.subst(s))]
    for p, lo, hi, o in ent.params:
        conds += [ge(s[p], lo.subst(s)), lt(s[p], hi.subst(s))]
    conds += [csubst(g, s) for g in ent.guards]
    return _finish(ctx, ent, s, conds)
def _finish(ctx, ent, s, conds):
    und = None
    for c in conds:
        r = ctx.decide(c)
        if r is False: return None
        if r is None and und is None: und = c
    if und is not None: raise Split(und)
    return ent.val.subst(s), s, ent

def whichiter(ctx, lo, iv, bound, e):
    """the iteration J with lo(J) <= e < lo(J+1), guessed from the powers in e"""
    for a in sorted(e.atoms()):
        A = ATOMS[a]
        if A.kind != 'exp': continue
        for s in (0, -1, 1):
            J = A.args[1] + s
            if not (ctx.ge0(J) and ctx.prove(lt(J, bound))): continue
            if ctx.prove(ge(e, lo.subst({iv: J}))) and ctx.prove(lt(e, lo.subst({iv: J + 1}))): return J
    if ctx.prove(gt(bound)) and ctx.prove(ge(e, lo.subst({iv: ZERO}))) and ctx.prove(lt(e, lo.subst({iv: ONE}))): return ZERO
    return None
def lookup(ctx, node, e, path):
    """content of cell e of node, one layer resolved"""
    LSTAT['lookups'] += 1
    while True:
        if isinstance(node, Base): return cell(node.name, e, path)
        if isinstance(node, Fill): 
            return node.vals[path]
        if isinstance(node, Bulk):
            hit = None
            for ent in reversed(node.entries):
                if ent.path != path: continue
                hit = match(ctx, ent, e)
                if hit: break
            if hit: return hit[0]
            node = node.prev; continue
        if isinstance(node, Loop):
            L = node.L
            es = []
            for x in node.ents():
                p, lo, hi, o = x.params[0]
                es.append(Entry([(p, ZERO, node.bound, True)] + list(x.params[1:]), x.guards, x.idx, x.path, x.val))
            hits = []
            if L.mono is not None:
                lo, iv = L.mono
                lo = lo.subst({k: v for k, v in node.env.items() if k != iv})
                J = whichiter(ctx, lo, iv, node.bound, e)
                if J is not None:
                    # only iteration J can write cell e
                    es = [Entry(x.params[1:], x.guards, x.idx, x.path, x.val).subst({x.params[0][0]: J}) for x in es]
                    hit = None
                    for ent in reversed(es):
                        if ent.path != path: continue
                        hit = match(ctx, ent, e)
                        if hit: break
                    if hit: return hit[0]
                    node = node.pre(); continue
            for pos in range(len(es) - 1, -1, -1):
                if es[pos].path != path: continue
                h = match(ctx, es[pos], e)
                if h:
                    hits.append((h[1][h[2].params[0][0]], pos, h[0]))
                    if L.disjoint: break
            if not hits:
                node = node.pre(); continue
            best = hits[0]
            for h in hits[1:]:
                if h[0] == best[0]:
                    if h[1] > best[1]: best = h
                    continue
                if ctx.split(gt(h[0], best[0])): best = h
                elif ctx.split(eq(h[0], best[0])) and h[1] > best[1]: best = h
            return best[2]
        raise ToolLimit(f'lookup in {node}')

def expand(ctx, val, depth=0):
    """resolve all reads outside of sums; result over cell / junk / trig / sum atoms"""
    for _ in range(400):
        todo = None
        for m in val.t:
            for a, ex in m:
                if ATOMS[a].kind == 'rd': todo = a; break
            if todo is not None: break
        if todo is None: return val
        A = ATOMS[todo]
        v = lookup(ctx, A.args[0], A.args[1], A.args[2])
        val = replace_atom(val, todo, v)
    raise ToolLimit('read chain too long')

def replace_atom(val, aid, v):
    r = ZERO; plain = {}
    for m, c in val.t.items():
        e = 0
        for a, k in m:
            if a == aid: e = k
        if not e: plain[m] = c; continue
        if e < 0: raise ToolLimit('reciprocal of a read')
        p = Poly({tuple(x for x in m if x[0] != aid): c})
        for _ in range(e): p = p * v
        r = r + p
    return r + Poly(plain)
