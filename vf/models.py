"""Contracts assumed for library functions (std, num-traits, transpose, strength_reduce, primal-check) and for the inner `dyn Dht`."""
import re
from fractions import Fraction
from .poly import *
from .ctx import *
from .heap import *
from . import reals
from .exec import *

OPT = 'std::option::Option'
def none(): return Agg(OPT, (), 0)
def some(v): return Agg(OPT, (v,), 1)
def panic(st, msg): return Outcome('panic', st, msg)

def sl(ex, st, v):
    """slice denoted by a reference-like value"""
    for _ in range(6):
        if isinstance(v, SR): return v
        if isinstance(v, VecV): return SR(('r', v.reg), 0, v.len)
        if isinstance(v, PRef):
            if v.loc[0] == 'sl': return v.loc[1]
            w = ex.read(st, v.loc)
            if isinstance(w, Agg) and w.tag in ('array', 'partial', 'elem'):
                if v.loc[0] == 'loc': return SR(('l',) + v.loc[1:4], 0, len(w.f))
                if v.loc[0] == 'val':
                    st.globals[f'const{id(v)}'] = w; ex.keep.append(v)
                    return SR(('l', 'g', f'const{id(v)}', ()), 0, len(w.f))
            v = w; continue
        break
    raise ToolLimit(f'slice of {v}')
def sub(s, a, n): return SR(s.base, s.off + a, n)
def elref(ex, st, s, i):
    return PRef(ex.elem_loc(st, s, P(i)))

# ---------------------------------------------------------------- iterators
ITER = ('it:',)
def is_iter(v): return isinstance(v, Agg) and (str(v.tag).startswith('it:') or str(v.tag).endswith('ops::Range') or str(v.tag).endswith('::RangeInclusive'))
def to_iter(ex, st, v):
    if is_iter(v):
        if str(v.tag).endswith('RangeInclusive') and v.f[2] is False: return Agg('std::ops::Range', (v.f[0], v.f[1] + 1))
        return v
    if isinstance(v, PRef):
        w = ex.read(st, v.loc)
        if is_iter(w): return Agg('it:ref', (v,))
    if isinstance(v, VecV): return Agg('it:copied', (Agg('it:slice', (sl(ex, st, v),)),))
    if isinstance(v, Agg) and v.tag in ('array',): return Agg('it:vals', v.f)
    return Agg('it:slice', (sl(ex, st, v),))

def inext(ex, st, it):
    """-> [(state, iterator', value or None)] or Outcome in list"""
    t = it.tag
    if t.endswith('ops::Range'):
        a, b = it.f
        return [(s, Agg(t, (a + 1, b)) if r else it, a if r else None) for s, r in ex.fork(st, lt(a, b))]
    if t.endswith('RangeInclusive'):
        a, b, done = it.f
        if done is True: return [(st, it, None)]
        res = []
        for s, r in ex.fork(st, lt(a, b)):
            if r: res.append((s, Agg(t, (a + 1, b, False)), a)); continue
            for s2, r2 in ex.fork(s, eq(a, b)):
                if r2: res.append((s2, Agg(t, (a, b, True)), a))
                else: res.append((s2, it, None))
        return res
    if t == 'it:vals':
        if not it.f: return [(st, it, None)]
        return [(st, Agg(t, it.f[1:]), it.f[0])]
    if t == 'it:slice':
        s0 = it.f[0]
        return [(s, Agg(t, (sub(s0, 1, s0.len - 1),)), elref(ex, s, s0, 0)) if r else (s, it, None) for s, r in ex.fork(st, ge(s0.len, 1))]
    if t == 'it:chunks':
        s0, cs = it.f
        return [(s, Agg(t, (sub(s0, cs, s0.len - cs), cs)), sub(s0, 0, cs)) if r else (s, it, None) for s, r in ex.fork(st, ge(s0.len, cs))]
    if t == 'it:chunksany':
        s0, cs = it.f
        res = []
        for s, r in ex.fork(st, ge(s0.len, cs)):
            if r: res.append((s, Agg(t, (sub(s0, cs, s0.len - cs), cs)), sub(s0, 0, cs))); continue
            for s2, r2 in ex.fork(s, ge(s0.len, 1)):
                if r2: res.append((s2, Agg(t, (sub(s0, s0.len, 0), cs)), s0))
                else: res.append((s2, it, None))
        return res
    if t == 'it:windows':
        s0, cs = it.f
        return [(s, Agg(t, (sub(s0, 1, s0.len - 1), cs)), sub(s0, 0, cs)) if r else (s, it, None) for s, r in ex.fork(st, ge(s0.len, cs))]
    if t == 'it:ref':
        p = it.f[0]
        inner = ex.read(st, p.loc)
        res = []
        for s, i2, v in inext(ex, st, inner):
            ex.write(s, p.loc, i2); res.append((s, it, v))
        return res
    if t == 'it:zip':
        a, b = it.f
        res = []
        for s, a2, v in inext(ex, st, a):
            if v is None: res.append((s, Agg(t, (a2, b)), None)); continue
            for s2, b2, w in inext(ex, s, b):
                res.append((s2, Agg(t, (a2, b2)), None if w is None else Agg('tuple', (v, w))))
        return res
    if t == 'it:enum':
        a, n = it.f
        return [(s, Agg(t, (a2, n if v is None else n + 1)), None if v is None else Agg('tuple', (n, v))) for s, a2, v in inext(ex, st, a)]
    if t == 'it:rev':
        return [(s, Agg(t, (a2,)), v) for s, a2, v in iback(ex, st, it.f[0])]
    if t == 'it:copied':
        return [(s, Agg(t, (a2,)), None if v is None else ex.read(s, v.loc)) for s, a2, v in inext(ex, st, it.f[0])]
    if t == 'it:take':
        a, n = it.f
        res = []
        for s, r in ex.fork(st, ge(n, 1)):
            if not r: res.append((s, it, None)); continue
            for s2, a2, v in inext(ex, s, a): res.append((s2, Agg(t, (a2, n - 1)), v))
        return res
    if t == 'it:stepby':
        a, n, first = it.f
        if first is True:
            return [(s, Agg(t, (a2, n, False)), v) for s, a2, v in inext(ex, st, a)]
        a2 = advance(ex, st, a, n - 1)
        return [(s, Agg(t, (a3, n, False)), v) for s, a3, v in inext(ex, st, a2)]
    if t == 'it:rstep':
        a, b, n = it.f
        return [(s, Agg(t, (a + n, b, n)) if r else it, a if r else None) for s, r in ex.fork(st, lt(a, b))]
    if t == 'it:sstep':
        s0, n = it.f
        return [(s, Agg(t, (sub(s0, n, s0.len - n), n)), elref(ex, s, s0, 0)) if r else (s, it, None) for s, r in ex.fork(st, ge(s0.len, 1))]
    if t == 'it:map':
        a, clo = it.f
        res = []
        for s, a2, v in inext(ex, st, a):
            if v is None: res.append((s, Agg(t, (a2, clo)), None)); continue
            for s2, w in call_closure(ex, s, clo, (v,)): res.append((s2, Agg(t, (a2, clo)), w))
        return res
    if t == 'it:chain':
        a, b = it.f
        res = []
        for s, a2, v in inext(ex, st, a):
            if v is not None: res.append((s, Agg(t, (a2, b)), v)); continue
            for s2, b2, w in inext(ex, s, b): res.append((s2, Agg(t, (a2, b2)), w))
        return res
    raise ToolLimit(f'iterator {t}')
def iback(ex, st, it):
    t = it.tag
    if t.endswith('ops::Range'):
        a, b = it.f
        return [(s, Agg(t, (a, b - 1)) if r else it, b - 1 if r else None) for s, r in ex.fork(st, lt(a, b))]
    if t.endswith('RangeInclusive'):
        a, b, done = it.f
        if done is not True:
            return iback(ex, st, Agg('std::ops::Range', (a, b + 1)))
    if t == 'it:slice':
        s0 = it.f[0]
        return [(s, Agg(t, (sub(s0, 0, s0.len - 1),)), elref(ex, s, s0, s0.len - 1)) if r else (s, it, None) for s, r in ex.fork(st, ge(s0.len, 1))]
    if t == 'it:chunks':
        s0, cs = it.f
        n = s0.len - mod(st.ctx, s0.len, cs)
        return [(s, Agg(t, (sub(s0, 0, n - cs), cs)), sub(s0, n - cs, cs)) if r else (s, it, None) for s, r in ex.fork(st, ge(n, cs))]
    if t == 'it:rev': return [(s, Agg(t, (a2,)), v) for s, a2, v in inext(ex, st, it.f[0])]
    if t == 'it:copied':
        return [(s, Agg(t, (a2,)), None if v is None else ex.read(s, v.loc)) for s, a2, v in iback(ex, st, it.f[0])]
    if t == 'it:map':
        a, clo = it.f
        res = []
        for s, a2, v in iback(ex, st, a):
            if v is None: res.append((s, Agg(t, (a2, clo)), None)); continue
            for s2, w in call_closure(ex, s, clo, (v,)): res.append((s2, Agg(t, (a2, clo)), w))
        return res
    if t == 'it:zip':
        a, b = it.f
        la, lb = ilen(ex, st, a), ilen(ex, st, b)
        if not (la == lb or st.ctx.prove(eq(la, lb))): raise ToolLimit('reversed zip of different lengths')
        res = []
        for s, a2, v in iback(ex, st, a):
            for s2, b2, w in iback(ex, s, b):
                if (v is None) != (w is None): continue
                res.append((s2, Agg(t, (a2, b2)), None if w is None else Agg('tuple', (v, w))))
        return res
    if t == 'it:enum':
        a, n = it.f
        l = ilen(ex, st, a)
        return [(s, Agg(t, (a2, n)), None if v is None else Agg('tuple', (n + l - 1, v))) for s, a2, v in iback(ex, st, a)]
    raise ToolLimit(f'reversed iterator {t}')
def ilen(ex, st, it):
    t = it.tag
    if t.endswith('ops::Range'): return imax(st.ctx, it.f[1] - it.f[0], ZERO)
    if t == 'it:slice': return it.f[0].len
    if t == 'it:chunks': return div(st.ctx, it.f[0].len, it.f[1])
    if t in ('it:rev', 'it:copied', 'it:map', 'it:enum'): return ilen(ex, st, it.f[0])
    if t == 'it:zip': return imin(st.ctx, ilen(ex, st, it.f[0]), ilen(ex, st, it.f[1]))
    if t == 'it:take': return imin(st.ctx, ilen(ex, st, it.f[0]), it.f[1])
    raise ToolLimit(f'length of {t}')
def advance(ex, st, it, n):
    """skip n elements (saturating)"""
    t = it.tag
    n = P(n)
    if not n.t: return it
    if t.endswith('ops::Range'):
        a, b = it.f
        return Agg(t, (imin(st.ctx, a + n, imax(st.ctx, a, b)), b))
    if t == 'it:slice':
        s = it.f[0]; m = imin(st.ctx, n, s.len)
        return Agg(t, (sub(s, m, s.len - m),))
    if t == 'it:chunks':
        s, cs = it.f; m = imin(st.ctx, n * cs, s.len)
        return Agg(t, (sub(s, m, s.len - m), cs))
    if t == 'it:zip': return Agg(t, (advance(ex, st, it.f[0], n), advance(ex, st, it.f[1], n)))
    if t == 'it:take':
        m = imin(st.ctx, n, it.f[1])
        return Agg(t, (advance(ex, st, it.f[0], m), it.f[1] - m))
    if t == 'it:enum': return Agg(t, (advance(ex, st, it.f[0], n), it.f[1] + n))
    if t in ('it:copied',): return Agg(t, (advance(ex, st, it.f[0], n),))
    if t == 'it:rev':
        b = it.f[0]
        if b.tag.endswith('ops::Range'): return Agg(t, (Agg(b.tag, (b.f[0], imax(st.ctx, b.f[1] - n, imin(st.ctx, b.f[0], b.f[1])))),))
        if b.tag == 'it:slice':
            s = b.f[0]; m = imin(st.ctx, n, s.len)
            return Agg(t, (Agg(b.tag, (sub(s, 0, s.len - m),)),))
    raise ToolLimit(f'skip on {t}')

def call_closure(ex, st, clo, args):
    """run a closure synchronously -> [(state, value)]; panics are raised as ToolLimit"""
    fn = ex.closure_fn(clo)
    f = ex.prog.fns[fn]
    outs = ex.sync(st, fn, clo, args)
    res = []
    for o in outs:
        if o.tag == 'sret': res.append((o.st, o.msg))
        else: raise ToolLimit('panic inside a closure')
    return res

# ---------------------------------------------------------------- table of models
TABLE = []
def model(rx):
    def d(fn): TABLE.append((re.compile(rx), fn)); return fn
    return d
_cache = {}
def find(ex, inst, f):
    m = _cache.get(inst, 0)
    if m == 0:
        m = None
        for rx, fn in TABLE:
            if rx.search(inst): m = fn; break
        _cache[inst] = m
    if inst in ex.cuts: return ex.cuts[inst]
    return m

def P1(fn):
    """model of a pure one-result function"""
    def g(ex, st, a, f): return [(st, fn(ex, st, *a))]
    return g

# -- iterators
@model(r'as std::iter::IntoIterator>::into_iter$|::iter::<impl std::iter::IntoIterator for .*>::into_iter$|IntoIterator for .*into_iter$')
def _(ex, st, a, f): return [(st, to_iter(ex, st, a[0]))]
@model(r'Iterator>::next$|Iterator for std::ops::Range(Inclusive)?<.*>>::next$')
def _(ex, st, a, f):
    loc = a[0].loc
    it = ex.read(st, loc)
    if isinstance(it, PRef): loc = it.loc; it = ex.read(st, loc)
    res = []
    for s, i2, v in inext(ex, st, it):
        ex.write(s, loc, i2)
        res.append((s, none() if v is None else some(v)))
    return res
@model(r'DoubleEndedIterator(>| for .*)::next_back$')
def _(ex, st, a, f):
    loc = a[0].loc
    it = ex.read(st, loc)
    res = []
    for s, i2, v in iback(ex, st, it):
        ex.write(s, loc, i2)
        res.append((s, none() if v is None else some(v)))
    return res
@model(r'Iterator>::zip::<')
def _(ex, st, a, f): return [(st, Agg('it:zip', (to_iter(ex, st, a[0]), to_iter(ex, st, a[1]))))]
@model(r'^std::iter::zip::<')
def _(ex, st, a, f): return [(st, Agg('it:zip', (to_iter(ex, st, a[0]), to_iter(ex, st, a[1]))))]
@model(r'Iterator>::enumerate$')
def _(ex, st, a, f): return [(st, Agg('it:enum', (to_iter(ex, st, a[0]), ZERO)))]
@model(r'Iterator>::rev$')
def _(ex, st, a, f): return [(st, Agg('it:rev', (to_iter(ex, st, a[0]),)))]
@model(r'Iterator>::(copied|cloned)(::<.*>)?$')
def _(ex, st, a, f): return [(st, Agg('it:copied', (to_iter(ex, st, a[0]),)))]
@model(r'Iterator>::take$')
def _(ex, st, a, f): return [(st, Agg('it:take', (to_iter(ex, st, a[0]), a[1])))]
@model(r'Iterator>::skip$')
def _(ex, st, a, f): return [(st, advance(ex, st, to_iter(ex, st, a[0]), a[1]))]
@model(r'Iterator>::step_by$')
def _(ex, st, a, f):
    it = to_iter(ex, st, a[0])
    res = []
    for s, r in ex.fork(st, ge(a[1], 1)):
        if not r: res.append(panic(s, 'step_by(0)')); continue
        if it.tag.endswith('ops::Range'): res.append((s, Agg('it:rstep', (it.f[0], it.f[1], a[1]))))
        elif it.tag == 'it:slice': res.append((s, Agg('it:sstep', (it.f[0], a[1]))))
        else: res.append((s, Agg('it:stepby', (it, a[1], True))))
    return res
@model(r'Iterator>::map::<')
def _(ex, st, a, f): return [(st, Agg('it:map', (to_iter(ex, st, a[0]), a[1])))]
@model(r'Iterator>::chain::<')
def _(ex, st, a, f): return [(st, Agg('it:chain', (to_iter(ex, st, a[0]), to_iter(ex, st, a[1]))))]
@model(r'Iterator>::by_ref$')
def _(ex, st, a, f): return [(st, a[0])]
def helper(ex, name):
    c = [i for i, f in enumerate(ex.prog.fns) if f['inst'].startswith(f'roots::{name}::<') or f['inst'] == f'roots::{name}']
    if len(c) != 1: raise ToolLimit(f'helper {name}')
    f = ex.prog.fns[c[0]]
    if not f.get('patched'):
        # the call of the closure becomes a call by value
        k = [i for i, g in enumerate(ex.prog.fns) if g['inst'] == 'vf::call']
        if not k:
            ex.prog.fns.append({'inst': 'vf::call', 'def': 'vf::call', 'krate': 'vf', 'blocks': None, 'argc': 2}); k = [len(ex.prog.fns) - 1]
        for b in f['blocks']:
            t = b['t']
            if t[0] == 'call' and t[1][0] == 'k' and t[1][1].get('c') == 'fn' and '{closure#' in ex.prog.fns[t[1][1]['fn']]['def']: t[1][1]['fn'] = k[0]
        f['patched'] = True
    return c[0]
@model(r'^vf::call$')
def _(ex, st, a, f):
    clo, args = a
    p = None
    while isinstance(clo, PRef): p = clo; clo = ex.read(st, clo.loc)
    if isinstance(clo, FnV): return [('push', st, clo.fn, list(args.f))]
    fn = ex.closure_fn(clo)
    if ex.ty(ex.prog.fns[fn]['locals'][1])['k'] == 'ref':
        if p is None: raise ToolLimit('closure by value')
        clo = p
    return [('push', st, fn, [clo] + list(args.f))]
@model(r'Iterator(>| for .*>)::(fold|for_each)::<')
def _(ex, st, a, f): return [('push', st, helper(ex, 'vfh_fold' if '::fold::<' in f['inst'] else 'vfh_for_each'), [to_iter(ex, st, a[0])] + list(a[1:]))]
@model(r'Iterator(>| for .*>)::(all|any|find|position)::<')
def _(ex, st, a, f):
    return [('push', st, helper(ex, 'vfh_' + re.search(r'::(all|any|find|position)::<', f['inst']).group(1)), list(a))]
@model(r'std::slice::ChunksExact(Mut)?::<.*>::(into_remainder|remainder)$')
def _(ex, st, a, f):
    it = a[0]
    while isinstance(it, PRef): it = ex.read(st, it.loc)
    if it.tag != 'it:chunks': raise ToolLimit(f'remainder of {it.tag}')
    s0, cs = it.f
    m = mod(st.ctx, s0.len, cs)
    return [(st, sub(s0, s0.len - m, m))]
@model(r'ExactSizeIterator(>| for .*)::len$|ExactSizeIterator>::len$')
def _(ex, st, a, f): return [(st, ilen(ex, st, ex.read(st, a[0].loc)))]
@model(r'Iterator>::collect::<std::vec::Vec<|FromIterator<.*>>::from_iter::<')
def _(ex, st, a, f):
    it = to_iter(ex, st, a[0])
    n = ilen(ex, st, it)
    vals = []
    if n.is_const() and n.cval() <= 64:
        cur = [(st, it, [])]
        for _ in range(int(n.cval())):
            nx = []
            for s, i, vs in cur:
                for s2, i2, v in inext(ex, s, i): nx.append((s2, i2, vs + [v]))
            cur = nx
        res = []
        for s, i, vs in cur:
            reg = mkvec(ex, s, vs[0] if vs else ZERO)
            node = Base('uninit')
            for j, v in enumerate(vs):
                for p in reg.paths: node = Bulk(node, [Entry((), (), C(j), p, ex.sub_read(v, p))])
            s.mem[reg] = node
            res.append((s, VecV(reg, n)))
        return res
    j = fresh('col')
    s = st.copy(); s.ctx.add(ge(j), lt(j, n)); s.active = s.active + (sid(j),)
    adv = advance_nocheck(ex, s, it, j)
    outs = inext(ex, s, adv)
    outs = [o for o in outs if o[2] is not None]
    if len(outs) != 1: raise ToolLimit('collect: several paths')
    v = outs[0][2]
    reg = mkvec(ex, st, v)
    st.mem[reg] = Bulk(Base('uninit'), [Entry([(sid(j), ZERO, n, False)], (), j, p, ex.sub_read(v, p)) for p in reg.paths])
    return [(st, VecV(reg, n))]
def advance_nocheck(ex, st, it, j):
    t = it.tag
    if t.endswith('ops::Range'): return Agg(t, (it.f[0] + j, it.f[1]))
    if t == 'it:slice': s = it.f[0]; return Agg(t, (sub(s, j, s.len - j),))
    if t == 'it:chunks': s, cs = it.f; return Agg(t, (sub(s, j * cs, s.len - j * cs), cs))
    if t in ('it:map',): return Agg(t, (advance_nocheck(ex, st, it.f[0], j), it.f[1]))
    if t == 'it:enum': return Agg(t, (advance_nocheck(ex, st, it.f[0], j), it.f[1] + j))
    if t == 'it:copied': return Agg(t, (advance_nocheck(ex, st, it.f[0], j),))
    if t == 'it:zip': return Agg(t, tuple(advance_nocheck(ex, st, x, j) for x in it.f))
    if t == 'it:take': return Agg(t, (advance_nocheck(ex, st, it.f[0], j), it.f[1] - j))
    if t == 'it:rev':
        b = it.f[0]
        if b.tag.endswith('ops::Range'): return Agg(t, (Agg(b.tag, (b.f[0], b.f[1] - j)),))
    raise ToolLimit(f'collect from {t}')
def mkvec(ex, st, v):
    if isinstance(v, Agg): paths = tuple((i,) for i in range(len(v.f)))
    else: paths = ((),)
    return ex.region('vec', paths)

# -- slices
SLICE = r'core::slice::<impl \[.*\]>::'
@model(SLICE + r'len$|std::vec::Vec::<.*>::len$')
def _(ex, st, a, f): return [(st, sl(ex, st, a[0]).len)]
@model(SLICE + r'is_empty$|std::vec::Vec::<.*>::is_empty$')
def _(ex, st, a, f): return [(st, eq(sl(ex, st, a[0]).len, 0))]
@model(SLICE + r'(iter|iter_mut)$')
def _(ex, st, a, f): return [(st, Agg('it:slice', (sl(ex, st, a[0]),)))]
@model(SLICE + r'chunks_exact(_mut)?$')
def _(ex, st, a, f):
    res = []
    for s, r in ex.fork(st, ge(a[1], 1)):
        res.append((s, Agg('it:chunks', (sl(ex, s, a[0]), a[1]))) if r else panic(s, 'chunk size must be non-zero'))
    return res
@model(SLICE + r'chunks(_mut)?$')
def _(ex, st, a, f):
    res = []
    for s, r in ex.fork(st, ge(a[1], 1)):
        res.append((s, Agg('it:chunksany', (sl(ex, s, a[0]), a[1]))) if r else panic(s, 'chunk size must be non-zero'))
    return res
@model(SLICE + r'windows$')
def _(ex, st, a, f): return [(st, Agg('it:windows', (sl(ex, st, a[0]), a[1])))]
@model(SLICE + r'split_at(_mut)?$')
def _(ex, st, a, f):
    s0, m = sl(ex, st, a[0]), a[1]
    res = []
    for s, r in ex.fork(st, le(m, s0.len)):
        res.append((s, Agg('tuple', (sub(s0, 0, m), sub(s0, m, s0.len - m)))) if r else panic(s, 'mid > len'))
    return res
@model(SLICE + r'split_at(_mut)?_unchecked$')
def _(ex, st, a, f):
    s0, m = sl(ex, st, a[0]), a[1]
    ex.oblige(st, 'mem', le(m, s0.len), f'split_at_unchecked at {m} of {s0.len}', ex.span)
    return [(st, Agg('tuple', (sub(s0, 0, m), sub(s0, m, s0.len - m))))]
@model(SLICE + r'split_first(_mut)?$')
def _(ex, st, a, f):
    s0 = sl(ex, st, a[0])
    return [(s, some(Agg('tuple', (elref(ex, s, s0, 0), sub(s0, 1, s0.len - 1)))) if r else none()) for s, r in ex.fork(st, ge(s0.len, 1))]
@model(SLICE + r'split_last(_mut)?$')
def _(ex, st, a, f):
    s0 = sl(ex, st, a[0])
    return [(s, some(Agg('tuple', (elref(ex, s, s0, s0.len - 1), sub(s0, 0, s0.len - 1)))) if r else none()) for s, r in ex.fork(st, ge(s0.len, 1))]
@model(SLICE + r'(first|last)(_mut)?$')
def _(ex, st, a, f):
    s0 = sl(ex, st, a[0])
    i = ZERO if 'first' in f['inst'].rsplit('::', 1)[1] else s0.len - 1
    return [(s, some(elref(ex, s, s0, i)) if r else none()) for s, r in ex.fork(st, ge(s0.len, 1))]
@model(SLICE + r'get(_mut)?::<usize>$')
def _(ex, st, a, f):
    s0 = sl(ex, st, a[0])
    return [(s, some(elref(ex, s, s0, a[1])) if r else none()) for s, r in ex.fork(st, lt(a[1], s0.len))]
@model(SLICE + r'get_unchecked(_mut)?::<usize>$')
def _(ex, st, a, f):
    s0, i = sl(ex, st, a[0]), a[1]
    ex.oblige(st, 'mem', conj([ge(i), lt(i, s0.len)]), f'get_unchecked({i}) of a slice of length {s0.len}', ex.span)
    return [(st, elref(ex, st, s0, i))]
@model(SLICE + r'get_unchecked(_mut)?::<std::ops::Range')
def _(ex, st, a, f):
    s0 = sl(ex, st, a[0])
    lo, hi = rng(a[1], s0.len)
    ex.oblige(st, 'mem', conj([le(lo, hi), le(hi, s0.len)]), f'get_unchecked({lo}..{hi}) of a slice of length {s0.len}', ex.span)
    return [(st, sub(s0, lo, hi - lo))]
def rng(r, n):
    t = r.tag
    if t.endswith('RangeFull'): return ZERO, n
    if t.endswith('RangeToInclusive'): return ZERO, r.f[0] + 1
    if t.endswith('RangeTo'): return ZERO, r.f[0]
    if t.endswith('RangeFrom'): return r.f[0], n
    if t.endswith('RangeInclusive'): return r.f[0], r.f[1] + 1
    if t.endswith('Range'): return r.f[0], r.f[1]
    raise ToolLimit(f'range {t}')
@model(r'(ops::Index(Mut)?<std::ops::Range.*>::index(_mut)?$)|SliceIndex.*Range.*index(_mut)?$')
def _(ex, st, a, f):
    s0 = sl(ex, st, a[0])
    lo, hi = rng(a[1], s0.len)
    res = []
    for s, r in ex.fork(st, le(lo, hi)):
        if not r: res.append(panic(s, 'slice index starts after its end')); continue
        for s2, r2 in ex.fork(s, le(hi, s0.len)):
            res.append((s2, sub(s0, lo, hi - lo)) if r2 else panic(s2, 'range end out of range'))
    return res
@model(r'ops::Index(Mut)?<usize>>?( for .*)?::index(_mut)?$|ops::Index(Mut)?<usize>>::index(_mut)?$')
def _(ex, st, a, f):
    s0 = sl(ex, st, a[0])
    return [(s, elref(ex, s, s0, a[1])) if r else panic(s, 'index out of bounds') for s, r in ex.fork(st, conj([ge(a[1]), lt(a[1], s0.len)]))]
def rcells(ex, st, s0, i):
    return ex.cell_read(st, s0.base, s0.off + i)
def bulkwrite(ex, st, dst, n, valfn, label=''):
    """dst[t] := valfn(t) for 0 <= t < n (values may only read nodes captured before)"""
    if n.is_const() and n.cval() <= 64:
        vs = [valfn(C(t)) for t in range(int(n.cval()))]
        for t, v in enumerate(vs): ex.cell_write(st, dst.base, dst.off + t, v)
        return
    if dst.base[0] != 'r': raise ToolLimit('symbolic copy into a local array')
    reg = dst.base[1]
    t = fresh('t')
    v = valfn(t)
    if reg.paths == ((),): es = [Entry([(sid(t), ZERO, n, False)], (), dst.off + t, (), v)]
    else: es = [Entry([(sid(t), ZERO, n, False)], (), dst.off + t, p, ex.sub_read(v, p)) for p in reg.paths]
    st.mem[reg] = Bulk(st.mem[reg], es, label)
@model(SLICE + r'(copy_from_slice|clone_from_slice)$')
def _(ex, st, a, f):
    d, s0 = sl(ex, st, a[0]), sl(ex, st, a[1])
    res = []
    for s, r in ex.fork(st, eq(d.len, s0.len)):
        if not r: res.append(panic(s, 'copy_from_slice: lengths differ')); continue
        snap = s.copy()
        bulkwrite(ex, s, d, d.len, lambda t: ex.cell_read(snap, s0.base, s0.off + t))
        res.append((s, UNIT))
    return res
@model(SLICE + r'reverse$')
def _(ex, st, a, f):
    d = sl(ex, st, a[0])
    snap = st.copy()
    bulkwrite(ex, st, d, d.len, lambda t: ex.cell_read(snap, d.base, d.off + d.len - 1 - t))
    return [(st, UNIT)]
@model(SLICE + r'fill$')
def _(ex, st, a, f):
    d = sl(ex, st, a[0])
    bulkwrite(ex, st, d, d.len, lambda t: a[1])
    return [(st, UNIT)]
@model(SLICE + r'swap$')
def _(ex, st, a, f):
    d = sl(ex, st, a[0])
    res = []
    for s, r in ex.fork(st, conj([ge(a[1]), lt(a[1], d.len), ge(a[2]), lt(a[2], d.len)])):
        if not r: res.append(panic(s, 'swap: index out of bounds')); continue
        x, y = ex.cell_read(s, d.base, d.off + a[1]), ex.cell_read(s, d.base, d.off + a[2])
        ex.cell_write(s, d.base, d.off + a[1], y); ex.cell_write(s, d.base, d.off + a[2], x)
        res.append((s, UNIT))
    return res
@model(SLICE + r'(copy_within)::<')
def _(ex, st, a, f):
    d = sl(ex, st, a[0])
    lo, hi = rng(a[1], d.len)
    res = []
    for s, r in ex.fork(st, conj([le(lo, hi), le(hi, d.len), le(a[2] + hi - lo, d.len)])):
        if not r: res.append(panic(s, 'copy_within out of bounds')); continue
        snap = s.copy()
        bulkwrite(ex, s, sub(d, a[2], hi - lo), hi - lo, lambda t: ex.cell_read(snap, d.base, d.off + lo + t))
        res.append((s, UNIT))
    return res
@model(SLICE + r'as(_mut)?_ptr$')
def _(ex, st, a, f):
    s0 = sl(ex, st, a[0])
    return [(st, RawP(s0.base, s0.off, s0.off, s0.off + s0.len))]
@model(r'ptr::(const|mut)_ptr::<impl \*(const|mut) .*>::(add|offset)$')
def _(ex, st, a, f):
    p, i = a
    if isinstance(p, PRef) and p.loc[0] == 'el': p = RawP(p.loc[1], p.loc[2], p.loc[2], p.loc[2] + 1)
    if not isinstance(p, RawP): raise ToolLimit('pointer add')
    return [(st, RawP(p.base, p.off + i, p.lo, p.hi))]
@model(r'ptr::(const|mut)_ptr::<impl \*(const|mut) .*>::sub$')
def _(ex, st, a, f):
    p, i = a
    if not isinstance(p, RawP): raise ToolLimit('pointer sub')
    return [(st, RawP(p.base, p.off - i, p.lo, p.hi))]
def rawloc(ex, st, p):
    if isinstance(p, RawP):
        ex.oblige(st, 'mem', conj([ge(p.off, p.lo), lt(p.off, p.hi)]), f'raw access at {p.off} within [{p.lo}, {p.hi})', ex.span)
        return ex.elem_loc(st, SR(p.base, 0, 0), p.off)
    if isinstance(p, PRef): return p.loc
    raise ToolLimit('raw access')
@model(r'^std::ptr::read::<|_ptr::<impl \*(const|mut) .*>::read$')
def _(ex, st, a, f): return [(st, ex.read(st, rawloc(ex, st, a[0])))]
@model(r'^std::ptr::write::<|_ptr::<impl \*mut .*>::write$')
def _(ex, st, a, f):
    ex.write(st, rawloc(ex, st, a[0]), a[1]); return [(st, UNIT)]
@model(r'^std::mem::swap::<')
def _(ex, st, a, f):
    x, y = ex.read(st, a[0].loc), ex.read(st, a[1].loc)
    ex.write(st, a[0].loc, y); ex.write(st, a[1].loc, x)
    return [(st, UNIT)]
@model(r'^std::mem::(take|replace)::<')
def _(ex, st, a, f):
    x = ex.read(st, a[0].loc)
    if 'replace' in f['inst']: ex.write(st, a[0].loc, a[1]); return [(st, x)]
    if isinstance(x, SR): ex.write(st, a[0].loc, SR(('e',), 0, 0)); return [(st, x)]
    raise ToolLimit('mem::take')

# -- Vec / Box / Arc
@model(r'^std::vec::Vec::<.*>::(new|with_capacity)$|^<std::vec::Vec<.*> as std::default::Default>::default$')
def _(ex, st, a, f):
    m = re.search(r'Vec(::)?<(.*?)>+', f['inst'])
    cplx = 'Complex' in f['inst']
    reg = ex.region('vec', ((0,), (1,)) if cplx else ((),))
    st.mem[reg] = Base('uninit')
    return [(st, VecV(reg, ZERO))]
@model(r'^std::vec::Vec::<.*>::push$')
def _(ex, st, a, f):
    v = ex.read(st, a[0].loc)
    ex.cell_write(st, ('r', v.reg), v.len, a[1])
    ex.write(st, a[0].loc, VecV(v.reg, v.len + 1))
    return [(st, UNIT)]
@model(r'Vec<.*> as std::iter::Extend<.*>>::extend::<|^std::vec::Vec::<.*>::extend_from_slice$')
def _(ex, st, a, f):
    it = to_iter(ex, st, a[1])
    if 'extend_from_slice' in f['inst'] or re.search(r'Extend<&', f['inst']): it = Agg('it:copied', (it,)) if it.tag != 'it:copied' else it
    if it.tag == 'it:vals':
        for x in it.f:
            v = ex.read(st, a[0].loc)
            ex.cell_write(st, ('r', v.reg), v.len, x)
            ex.write(st, a[0].loc, VecV(v.reg, v.len + 1))
        return [(st, UNIT)]
    return [('push', st, helper(ex, 'vfh_extend'), [a[0], it])]
@model(r'^std::vec::Vec::<.*>::resize$')
def _(ex, st, a, f):
    v = ex.read(st, a[0].loc)
    if v.len == ZERO:
        bulkwrite(ex, st, SR(('r', v.reg), 0, a[1]), a[1], lambda t: a[2])
        ex.write(st, a[0].loc, VecV(v.reg, a[1])); return [(st, UNIT)]
    raise ToolLimit('resize')
@model(r'^std::vec::Vec::<.*>::into_boxed_slice$|^std::vec::Vec::<.*>::(reserve|shrink_to_fit)$|Box<\[.*\]> as std::convert::From<|^std::slice::<impl \[.*\]>::into_vec|std::slice::<impl \[.*\]>::into_vec')
def _(ex, st, a, f): return [(st, a[0])]
@model(r'^std::vec::from_elem::<|vec::spec_from_elem')
def _(ex, st, a, f):
    v = a[0]
    reg = mkvec(ex, st, v)
    st.mem[reg] = Fill({p: ex.sub_read(v, p) for p in reg.paths})
    return [(st, VecV(reg, a[1]))]
@model(SLICE + r'to_vec$|std::slice::<impl \[.*\]>::to_vec$|^<std::vec::Vec<.*> as std::clone::Clone>::clone$')
def _(ex, st, a, f):
    s0 = sl(ex, st, a[0])
    if s0.base[0] != 'r': raise ToolLimit('to_vec of local')
    reg = ex.region('vec', s0.base[1].paths)
    st.mem[reg] = Base('uninit')
    snap = st.copy()
    bulkwrite(ex, st, SR(('r', reg), 0, s0.len), s0.len, lambda t: ex.cell_read(snap, s0.base, s0.off + t))
    return [(st, VecV(reg, s0.len))]
@model(r'^std::vec::Vec::<.*>::as(_mut)?_slice$|^<std::vec::Vec<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$|^<std::boxed::Box<\[.*\]> as std::ops::Deref(Mut)?>::deref|<std::boxed::Box<\[.*\]> as std::convert::AsRef|<std::vec::Vec<.*> as std::convert::AsRef|<\[.*\] as std::convert::AsRef')
def _(ex, st, a, f): return [(st, sl(ex, st, a[0]))]
@model(r'^<std::sync::Arc<.*> as std::ops::Deref>::deref$|^<std::sync::Arc<.*> as std::convert::AsRef')
def _(ex, st, a, f):
    v = a[0]
    if isinstance(v, PRef): v = ex.read(st, v.loc)
    if isinstance(v, DynD): return [(st, v)]
    raise ToolLimit('Arc deref')
@model(r'^<std::sync::Arc<.*> as std::clone::Clone>::clone$')
def _(ex, st, a, f):
    v = a[0]
    if isinstance(v, PRef): v = ex.read(st, v.loc)
    return [(st, v)]
@model(r'^std::sync::Arc::<.*>::new$')
def _(ex, st, a, f): return [(st, Agg('Arc', (a[0],)))]
@model(r'^<.* as std::clone::Clone>::clone$')
def _(ex, st, a, f): return [(st, ex.read(st, a[0].loc))]

# -- Option / Result / cmp
@model(r'^std::option::Option::<.*>::(unwrap|expect)$|^std::result::Result::<.*>::(unwrap|expect)$')
def _(ex, st, a, f):
    v = a[0]
    ok = 1 if v.tag.endswith('Option') else 0
    if v.var == ok: return [(st, v.f[0])]
    return [panic(st, 'unwrap on None/Err')]
@model(r'^std::option::Option::<.*>::unwrap_unchecked$')
def _(ex, st, a, f):
    v = a[0]
    if v.var == 1: return [(st, v.f[0])]
    ex.oblige(st, 'mem', False, 'unwrap_unchecked on None', ex.span)
    raise ToolLimit('unwrap_unchecked on None')
def _opt(v):
    return v
@model(r'^std::option::Option::<.*>::is_(some|none)$|^std::result::Result::<.*>::is_(ok|err)$')
def _(ex, st, a, f):
    v = ex.read(st, a[0].loc) if isinstance(a[0], PRef) else a[0]
    n = f['inst'].rsplit('is_', 1)[1]
    return [(st, {'some': v.var == 1, 'none': v.var == 0, 'ok': v.var == 0, 'err': v.var == 1}[n])]
@model(r'^std::cmp::(max|min)::<(usize|u64|u32|i64|isize)>$|^<usize as std::cmp::Ord>::(max|min)$|cmp::Ord for (usize|u64)>::(max|min)$|^std::intrinsics::integer_(max|min)')
def _(ex, st, a, f):
    mx = re.search(r'(max|min)(::<[^>]*>)?$', f['inst']).group(1) == 'max'
    return [(st, imax(st.ctx, a[0], a[1]) if mx else imin(st.ctx, a[0], a[1]))]
@model(r'cmp::(Partial)?Ord for (u64|usize|i64|u32)>::(partial_)?cmp$')
def _(ex, st, a, f):
    x, y = (ex.read(st, v.loc) if isinstance(v, PRef) else v for v in a)
    w = some if f['inst'].endswith('partial_cmp') else (lambda v: v)
    res = []
    for s, r in ex.fork(st, lt(x, y)):
        if r: res.append((s, w(Agg('std::cmp::Ordering', (), 255)))); continue
        for s2, r2 in ex.fork(s, eq(x, y)): res.append((s2, w(Agg('std::cmp::Ordering', (), 0 if r2 else 1))))
    return res
@model(r'^std::array::<impl \[.*; \d+\]>::map::<')
def _(ex, st, a, f):
    if not (isinstance(a[0], Agg) and a[0].tag == 'array'): raise ToolLimit('map of an array')
    cur = [(st, ())]
    for x in a[0].f: cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in call_closure(ex, s, a[1], (x,))]
    return [(s, Agg('array', vs)) for s, vs in cur]
@model(r'PartialOrd for (u64|usize|i64|u32)>::(lt|le|gt|ge)$|PartialEq for (u64|usize|i64|u32)>::(eq|ne)$')
def _(ex, st, a, f):
    x, y = [ex.read(st, v.loc) if isinstance(v, PRef) else v for v in a]
    op = f['inst'].rsplit('::', 1)[1]
    return [(st, {'lt': lt, 'le': le, 'gt': gt, 'ge': ge, 'eq': eq, 'ne': ne}[op](x, y))]
@model(r'^<(usize|u64|u32|i64) as std::ops::(Add|Sub|Mul|Div|Rem|Shr|Shl)<?')
def _(ex, st, a, f):
    x, y = [ex.read(st, v.loc) if isinstance(v, PRef) else v for v in a]
    op = re.search(r'ops::(\w+)', f['inst']).group(1)
    if op in ('Div', 'Rem'):
        res = []
        for s, r in ex.fork(st, ne(y, 0)):
            if r: res.append((s, div(s.ctx, x, y) if op == 'Div' else mod(s.ctx, x, y)))
            else: res.append(panic(s, 'division by zero'))
        return res
    if op == 'Sub' and not f['inst'].startswith('<i'):
        return [(s, x - y) if r else panic(s, 'subtract with overflow') for s, r in ex.fork(st, ge(x, y))]
    ty = None
    if op == 'Add': return [(st, x + y)]
    if op == 'Mul': return [(st, x * y)]
    if op == 'Sub': return [(st, x - y)]
    if y.is_const():
        k = 2 ** int(y.cval())
        return [(st, x * k if op == 'Shl' else div(st.ctx, x, C(k)))]
    raise ToolLimit(op)

# -- numbers
@model(r'^core::num::<impl (usize|u64|u32)>::is_power_of_two$')
def _(ex, st, a, f):
    p = a[0]
    if p.is_const(): n = int(p.cval()); return [(st, n > 0 and n & (n - 1) == 0)]
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if isinstance(c, int) and c > 0 and c & (c - 1) == 0 and all(ATOMS[x].kind == 'exp' and ATOMS[x].args[0] in (2, 4, 8, 16) for x, e in m): return [(st, True)]
    return ex.special(st, 'pow2', p)
@model(r'^core::num::<impl (usize|u64|u32)>::(trailing_zeros|ilog2)$')
def _(ex, st, a, f):
    p = a[0]
    if p.is_const() and p.cval() > 0:
        n = int(p.cval())
        return [(st, C((n & -n).bit_length() - 1 if 'trailing' in f['inst'] else n.bit_length() - 1))]
    if len(p.t) == 1:
        (m, c), = p.t.items()
        E = C(int(c).bit_length() - 1) if isinstance(c, int) and c > 0 and c & (c - 1) == 0 else None
        if E is None and isinstance(c, Fraction) and c.numerator == 1 and c.denominator & (c.denominator - 1) == 0: E = C(-(c.denominator.bit_length() - 1))
        if E is not None and all(ATOMS[x].kind == 'exp' and ATOMS[x].args[0] in (2, 4) and e == 1 for x, e in m):
            for x, e in m: E = E + ATOMS[x].args[1] * (1 if ATOMS[x].args[0] == 2 else 2)
            return [(st, E)]
    raise ToolLimit(f'trailing_zeros({p})')
@model(r'^core::num::<impl (usize|u64)>::(wrapping|saturating|checked)_\w+$')
def _(ex, st, a, f):
    n = f['inst'].rsplit('::', 1)[1]
    x, y = a[0], a[1]
    if n == 'wrapping_add': return [(st, x + y)]
    if n == 'wrapping_mul': return [(st, x * y)]
    if n == 'wrapping_sub' and st.ctx.prove(ge(x, y)): return [(st, x - y)]
    if n == 'saturating_sub': return [(s, x - y if r else ZERO) for s, r in ex.fork(st, ge(x, y))]
    if n == 'saturating_add': return [(st, x + y)]
    if n == 'checked_sub': return [(s, some(x - y) if r else none()) for s, r in ex.fork(st, ge(x, y))]
    if n in ('checked_add', 'checked_mul'): return [(st, some(x + y if 'add' in n else x * y))]
    if n == 'checked_div': return [(s, some(div(s.ctx, x, y)) if r else none()) for s, r in ex.fork(st, ne(y, 0))]
    if n == 'checked_rem': return [(s, some(mod(s.ctx, x, y)) if r else none()) for s, r in ex.fork(st, ne(y, 0))]
    raise ToolLimit(n)
@model(r'^core::num::<impl (usize|u64)>::(div_ceil|next_multiple_of|abs_diff|pow)$')
def _(ex, st, a, f):
    n = f['inst'].rsplit('::', 1)[1]
    x, y = a
    if n == 'div_ceil': return [(st, div(st.ctx, x + y - 1, y))]
    if n == 'next_multiple_of': return [(st, y * div(st.ctx, x + y - 1, y))]
    if n == 'abs_diff': return [(s, x - y if r else y - x) for s, r in ex.fork(st, ge(x, y))]
    if n == 'pow' and y.is_const(): return [(st, x ** int(y.cval()))]
    if n == 'pow' and x.is_const(): return [(st, exp(int(x.cval()), y))]
    raise ToolLimit(n)
@model(r'^<f64 as std::ops::(Add|Sub|Mul|Div)(<.*>)?>::\w+$|^<&f64 as std::ops::(Add|Sub|Mul|Div)(<.*>)?>::\w+$|^<f32 as std::ops::(Add|Sub|Mul|Div)>')
def _(ex, st, a, f):
    x, y = [ex.read(st, v.loc) if isinstance(v, PRef) else v for v in a]
    op = re.search(r'ops::(\w+)', f['inst']).group(1)
    if not (isinstance(x, Poly) and isinstance(y, Poly)): raise ToolLimit('float operands')
    r = x + y if op == 'Add' else x - y if op == 'Sub' else reals.mul(x, y) if op == 'Mul' else reals.mul(x, reals.recip(y))
    return [(st, r)]
@model(r'^<&?f64 as std::ops::Neg>::neg$')
def _(ex, st, a, f):
    x = ex.read(st, a[0].loc) if isinstance(a[0], PRef) else a[0]
    return [(st, -x)]
@model(r'^<f64 as std::ops::(Add|Sub|Mul|Div)Assign(<.*>)?>::\w+$')
def _(ex, st, a, f):
    x = ex.read(st, a[0].loc); y = ex.read(st, a[1].loc) if isinstance(a[1], PRef) else a[1]
    op = re.search(r'ops::(\w+)', f['inst']).group(1)
    r = x + y if op.startswith('Add') else x - y if op.startswith('Sub') else reals.mul(x, y) if op.startswith('Mul') else reals.mul(x, reals.recip(y))
    ex.write(st, a[0].loc, r)
    return [(st, UNIT)]
@model(r'num_traits::FromPrimitive>::from_f64$')
def _(ex, st, a, f): return [(st, some(a[0]))]
@model(r'num_traits::FromPrimitive>::from_f32$')
def _(ex, st, a, f): return [(st, some(a[0]))]
@model(r'num_traits::FromPrimitive>::from_(usize|u64|u32|i32|i64|u8|u16|i8|i16)$')
def _(ex, st, a, f): return [(st, some(a[0]))]
@model(r'^<f64 as .*Zero>::zero$')
def _(ex, st, a, f): return [(st, ZERO)]
@model(r'^<f64 as .*One>::one$')
def _(ex, st, a, f): return [(st, ONE)]
@model(r'Complex<f64> as .*Zero>::zero$')
def _(ex, st, a, f): return [(st, Agg('elem', (ZERO, ZERO)))]
@model(r'^std::f(64|32)::<impl f(64|32)>::(sqrt|sin|cos|sin_cos|mul_add|to_radians|recip|abs|powi)$|^core::f64::')
def _(ex, st, a, f):
    n = f['inst'].rsplit('::', 1)[1]
    w = reals.round32 if '<impl f32>' in f['inst'] else (lambda v: v)
    if n == 'sqrt': r = w(reals.sqrt(a[0]))
    elif n == 'sin': r = w(reals.sin(a[0]))
    elif n == 'cos': r = w(reals.cos(a[0]))
    elif n == 'sin_cos': r = Agg('tuple', (w(reals.sin(a[0])), w(reals.cos(a[0]))))
    elif n == 'mul_add': r = w(reals.mul(a[0], a[1]) + a[2])
    elif n == 'recip': r = w(reals.recip(a[0]))
    elif n == 'powi' and a[1].is_const(): r = w(a[0] ** int(a[1].cval()))
    else: raise ToolLimit(n)
    return [(st, r)]

# -- dependencies
@model(r'strength_reduce::StrengthReducedU\w+::new$')
def _(ex, st, a, f): return [(s, Agg('sr', (a[0],))) if r else panic(s, 'zero divisor') for s, r in ex.fork(st, ge(a[0], 1))]
@model(r'strength_reduce::.*StrengthReducedU\w+::get$')
def _(ex, st, a, f):
    v = ex.read(st, a[0].loc) if isinstance(a[0], PRef) else a[0]
    return [(st, v.f[0])]
@model(r'strength_reduce::<impl std::ops::(Rem|Div)<')
def _(ex, st, a, f):
    m = a[1].f[0]
    return [(st, mod(st.ctx, a[0], m) if 'ops::Rem' in f['inst'] else div(st.ctx, a[0], m))]
@model(r'^transpose::out_of_place::transpose::<')
def _(ex, st, a, f):
    i, o, w, h = sl(ex, st, a[0]), sl(ex, st, a[1]), a[2], a[3]
    res = []
    for s, r in ex.fork(st, eq(w * h, i.len)):
        if not r: res.append(panic(s, 'transpose: width*height != input len')); continue
        for s2, r2 in ex.fork(s, eq(w * h, o.len)):
            if not r2: res.append(panic(s2, 'transpose: width*height != output len')); continue
            node = s2.mem[i.base[1]]
            if w.is_const() and h.is_const() and w.cval() * h.cval() <= 64:
                W, H = int(w.cval()), int(h.cval())
                vs = [(x * H + y, ex.cell_read(s2, i.base, i.off + x + y * W)) for x in range(W) for y in range(H)]
                for k, v in vs: ex.cell_write(s2, o.base, o.off + k, v)
            else:
                x, y = fresh('tx'), fresh('ty')
                e = Entry([(sid(x), ZERO, w, False), (sid(y), ZERO, h, False)], (), o.off + x * h + y, (), rd0(node, i.off + x + y * w))
                s2.mem[o.base[1]] = Bulk(s2.mem[o.base[1]], [e], 'transpose')
            res.append((s2, UNIT))
    return res
def rd0(node, idx):
    if isinstance(node, Base): return cell(node.name, idx, ())
    if isinstance(node, Fill): return node.vals[()]
    return rd(node, idx, ())
@model(r'primal_check::is_prime::miller_rabin$')
def _(ex, st, a, f): return ex.special(st, 'prime', a[0])
@model(r'num_integer::Integer>::extended_gcd$')
def _(ex, st, a, f):
    x, y = [ex.read(st, v.loc) if isinstance(v, PRef) else v for v in a]
    return ex.special(st, 'egcd', (x, y))
@model(r'^rustdht::math_utils::primitive_root$')
def _(ex, st, a, f): return ex.special(st, 'root', a[0])

# -- fmt: values that only feed a panic message
@model(r'^core::fmt::rt::Argument|^std::fmt::Arguments::|^core::fmt::')
def _(ex, st, a, f): return [(st, Opaque('fmt'))]
@model(r'cold_path$|^std::hint::black_box|^core::ub_checks|^std::intrinsics::assume')
def _(ex, st, a, f): return [(st, UNIT if 'black_box' not in f['inst'] else a[0])]

# -- the inner transform's contract
def dyn(ex, st, v):
    for _ in range(4):
        if isinstance(v, DynD): return v
        if isinstance(v, PRef): v = ex.read(st, v.loc)
    raise ToolLimit('dyn receiver')
@model(r'^<dyn rustdht::Dht<f64> as rustfft::Length>::len$')
def _(ex, st, a, f): return [(st, dyn(ex, st, a[0]).n)]
@model(r'^<dyn rustdht::Dht<f64> as rustdht::Dht<f64>>::get_inplace_scratch_len$')
def _(ex, st, a, f): return [(st, dyn(ex, st, a[0]).iscr)]
@model(r'^<dyn rustdht::Dht<f64> as rustdht::Dht<f64>>::get_outofplace_scratch_len$')
def _(ex, st, a, f): return [(st, dyn(ex, st, a[0]).oscr)]
def SUM(m, lo, hi, body): 
    return Poly.of(atom('sum', sid(m), P(lo), P(hi), body))
def cas(turn): return reals.cosA(turn) + reals.sinA(turn)
_junk = [0]
def junkfill(ex, st, s0, label='junk'):
    if s0.base[0] == 'e': return
    if s0.len.is_const() and s0.len.cval() == 0: return
    _junk[0] += 1
    act = tuple(Poly.of(ATOMS[x]) for x in st.active)
    k = _junk[0]
    bulkwrite(ex, st, s0, s0.len, lambda t: Poly.of(atom('junk', k, P(t), *act)), 'junk')
def transform(ex, st, d, src_node, src_off, dst, length):
    n = d.n
    ch = div(st.ctx, length, n)
    c, t, m = fresh('c'), fresh('t'), fresh('m')
    base = src_off + (c * n if ch != ONE else ZERO)
    small = n.is_const() and n.cval() <= 16
    reg = dst.base[1]
    if small:
        N = int(n.cval())
        es = []
        chs = [c] if not (ch.is_const() and ch.cval() <= 64) else [C(i) for i in range(int(ch.cval()))]
        for cc in chs:
            for tt in range(N):
                v = ZERO
                for mm in range(N): v = v + reals.mul(cas(C(Fraction(mm * tt, N))), rd0(src_node, src_off + cc * n + mm))
                ps = [(sid(c), ZERO, ch, False)] if cc is c else []
                es.append(Entry(ps, (), dst.off + cc * n + tt, (), v))
        if es and not es[0].params:
            for e in es: st.mem[reg] = Bulk(st.mem[reg], [e], 'inner')
            return
        st.mem[reg] = Bulk(st.mem[reg], es, 'inner')
        return
    body = reals.mul(cas(m * t * reals.recip(n)), rd0(src_node, base + m))
    v = SUM(m, ZERO, n, body)
    ps = ([(sid(c), ZERO, ch, False)] if ch != ONE else []) + [(sid(t), ZERO, n, False)]
    st.mem[reg] = Bulk(st.mem[reg], [Entry(ps, (), dst.off + (c * n if ch != ONE else ZERO) + t, (), v)], 'inner')
def multiple(ctx, L, n):
    """is L a multiple of n provably"""
    return mod(ctx, L, n) == ZERO or ctx.prove(eq(mod(ctx, L, n), 0))
@model(r'^<dyn rustdht::Dht<f64> as rustdht::Dht<f64>>::(process_with_scratch|process)$')
def _(ex, st, a, f):
    d, b = dyn(ex, st, a[0]), sl(ex, st, a[1])
    ex.oblige(st, 'inner', ge(b.len, d.n), f'inner transform {d.name}: buffer of {b.len} >= {d.n}', ex.span)
    ex.oblige(st, 'inner', eq(mod(st.ctx, b.len, d.n), 0), f'inner transform {d.name}: buffer of {b.len} is a multiple of {d.n}', ex.span)
    if len(a) == 3:
        s0 = sl(ex, st, a[2])
        ex.oblige(st, 'inner', ge(s0.len, d.iscr), f'inner transform {d.name}: scratch of {s0.len} >= reported {d.iscr}', ex.span)
        junkfill(ex, st, s0)
    if b.base[0] != 'r': raise ToolLimit('inner transform on a local array')
    transform(ex, st, d, st.mem[b.base[1]], b.off, b, b.len)
    return [(st, UNIT)]
@model(r'^<dyn rustdht::Dht<f64> as rustdht::Dht<f64>>::process_outofplace_with_scratch$')
def _(ex, st, a, f):
    d, i, o, s0 = dyn(ex, st, a[0]), sl(ex, st, a[1]), sl(ex, st, a[2]), sl(ex, st, a[3])
    ex.oblige(st, 'inner', ge(i.len, d.n), f'inner transform {d.name}: input of {i.len} >= {d.n}', ex.span)
    ex.oblige(st, 'inner', eq(mod(st.ctx, i.len, d.n), 0), f'inner transform {d.name}: input of {i.len} is a multiple of {d.n}', ex.span)
    ex.oblige(st, 'inner', eq(o.len, i.len), f'inner transform {d.name}: output of {o.len} = input of {i.len}', ex.span)
    ex.oblige(st, 'inner', ge(s0.len, d.oscr), f'inner transform {d.name}: scratch of {s0.len} >= reported {d.oscr}', ex.span)
    junkfill(ex, st, s0)
    node = st.mem[i.base[1]]
    transform(ex, st, d, node, i.off, o, i.len)
    junkfill(ex, st, i)
    return [(st, UNIT)]
