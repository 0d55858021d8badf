"""The transforms under contract: how each is constructed symbolically and which entry points it has."""
import json
from .poly import *
from .ctx import *
from .heap import *
from .exec import *
from . import models, loops

FIXED = {f'Butterfly{n}': n for n in (1, 2, 3, 4, 5, 6, 8, 9, 16)}
STEP = {f'MixedRadix{n}xn': n for n in (2, 3, 4, 5, 6)}
KINDS = list(FIXED) + ['DhtNaive', 'MixedRadix'] + list(STEP) + ['Radix4', 'SplitRadix', 'RadersAlgorithm']

class KExec(Exec):
    """hooks for number-theoretic library calls"""
    def special(self, st, kind, x):
        if kind == 'pow2':
            return [(s, r) for s, r in self.fork_op(st, ('pow2', x))]
        if kind == 'prime':
            res = []
            for s, r in self.fork_op(st, ('prime', x)):
                if r:
                    s.ctx.add(ge(x, 2))
                    if s.ctx.residue(x, 2) == 0: s.ctx.add(eq(x, 2))      # the only even prime
                res.append((s, r))
            return res
        if kind == 'root':
            # contract of math_utils::primitive_root: for a prime p a generator of the multiplicative group (see C07)
            if x in (C(2), C(3)): return [(st, models.some(x - 1))]      # the only generators
            g = Poly.of(atom('sym', 'g'))
            st.ctx.add(ge(g, 1), lt(g, x))
            return [(st, models.some(g))]
        if kind == 'egcd':
            a, b = x
            # contract of num_integer::extended_gcd for coprime a, b >= 1: x*a + y*b = 1, |x| <= b, x != 0 unless b = 1
            res = []
            u = Poly.of(atom('sym', 'ginv'))
            if a == ONE: u = ONE
            elif a.is_const() and b.is_const(): u = C(pow(int(a.cval()), -1, int(b.cval())))
            st.ctx.add(ge(u, 1), lt(u, b))
            for neg_ in (False, True):
                s = st.copy()
                y = fresh('egy')
                v = u - b if neg_ else u
                s.ctx.add(('op', ('egcdneg', a, b), neg_))
                res.append((s, Agg('num_integer::ExtendedGcd', (ONE, v, y))))
            return res
        raise ToolLimit(f'{kind}({x})')
    def fork_op(self, st, key):
        c = ('op', key, True)
        r = st.ctx.decide(c)
        if r is not None: return [(st, r)]
        a = st.copy(); a.ctx.add(c); st.ctx.add(neg(c))
        return [(a, True), (st, False)]
    def dyn_of(self, st, v):
        k = v.tag.rsplit('::', 1)[-1]
        if k in FIXED: return DynD(k, FIXED[k], 0, 0)
        raise ToolLimit(f'dyn of {k}')

class Built:
    """a constructed transform: executor, state whose globals hold the struct, its length"""

def inner(name, n, ctx):
    i, o = sym(f'{name}.iscr'), sym(f'{name}.oscr')
    ctx.add(ge(i), ge(o))
    return DynD(name, n, i, o)

def ctor_args(K, ctx, sizes):
    """sizes: dict of symbol name -> Poly (defaults: fresh symbols with lower bound 1)"""
    def size(nm, lo=1):
        p = sizes.get(nm)
        if p is None:
            p = sym(nm); ctx.add(ge(p, lo))
        return P(p)
    if K in FIXED: return [], C(FIXED[K])
    if K in ('DhtNaive', 'Radix4'):
        n = size('n')
        return [n], n
    if K == 'MixedRadix':
        w, h = size('w'), size('h')
        ctx.add(ge(w, 1), ge(h, 1), ge(w * h, 1))      # inner transforms are non-empty; the product fact is entailed
        return [inner('W', w, ctx), inner('H', h, ctx)], w * h
    if K in STEP:
        h = size('h')
        return [inner('H', h, ctx)], h * STEP[K]
    if K == 'SplitRadix':
        q = size('q')
        h = sizes.get('half', q * 2)
        if 'half' not in sizes: pass
        return [inner('Q', q, ctx), inner('H', h, ctx)], q * 4
    if K == 'RadersAlgorithm':
        p = size('p', 2)
        return [inner('I', p - 1, ctx)], p
    raise KeyError(K)

def construct(prog, K, sizes=None, ctx=None, ex=None, hints=None):
    """-> (ex, outcomes, args, n)"""
    ex = ex or KExec(prog)
    if hints: ex.hints.update(hints)
    st = State()
    if ctx is not None: st.ctx = ctx.copy()
    args, n = ctor_args(K, st.ctx, sizes or {})
    if K == 'SplitRadix':
        # constructor takes (half, quarter)
        import re
        args = order_split(prog, args)
    outs = ex.call_root(st, prog.root('new_' + K), args)
    return ex, outs, args, n

def order_split(prog, args):
    f = prog.fns[prog.root('new_SplitRadix')]
    q, h = args
    return [q, h]

def setself(st, v):
    st.globals['self'] = v
    return PRef(('loc', 'g', 'self', ()))

def query(ex, prog, K, st, what):
    """len_/iscr_/oscr_ of the constructed transform"""
    s = st.copy()
    s.ret = None; s.frames = []
    outs = ex.call_root(s, prog.root(f'{what}_{K}'), [PRef(('loc', 'g', 'self', ()))])
    outs = [o for o in outs if not o.st.ctx.infeasible()]
    return outs

def buffers(ex, st, **lens):
    r = {}
    for nm, L in lens.items():
        reg = Region(nm, ((),))
        st.mem[reg] = Base(nm)
        r[nm] = SR(('r', reg), 0, L)
    return r
def call_entry(ex, prog, K, st, entry, bufs):
    s = st.copy(); s.frames = []; s.ret = None
    a = [PRef(('loc', 'g', 'self', ()))] + bufs
    return ex.call_root(s, prog.root(f'{entry}_{K}'), a)

def residue_cases(fn, ctx0=None, limit=64):
    """fn(ctx) under every residue case it asks for -> [(ctx, result)]"""
    out = []
    todo = [ctx0.copy() if ctx0 else Ctx()]
    while todo:
        c = todo.pop()
        if len(out) + len(todo) > limit: raise ToolLimit('too many residue cases')
        try: out.append((c, fn(c)))
        except NeedCase as e:
            m0, r0 = c.res.get(e.sym, (1, 0))
            from math import lcm
            M = lcm(m0, e.m)
            if M == m0 or M > 48: raise ToolLimit(f'residue {ATOMS[e.sym]} mod {e.m}')
            for r in range(M):
                if r % m0 == r0:
                    d = c.copy(); d.res[e.sym] = (M, r); todo.append(d)
    return out
