"""Symbolic execution of extracted MIR."""
import struct, sys
from fractions import Fraction
from .poly import *
from .ctx import *
from .heap import *
from . import reals
sys.setrecursionlimit(20000)

class Agg:
    __slots__ = ('tag', 'var', 'f')
    def __init__(s, tag, f, var=None): s.tag, s.f, s.var = tag, tuple(f), var
    def __repr__(s): return f"{s.tag}{'' if s.var is None else '#%d' % s.var}({', '.join(map(repr, s.f))})"
class SR:
    """slice reference: base is ('r', region) or ('l', frame uid, local, path)"""
    __slots__ = ('base', 'off', 'len')
    def __init__(s, base, off, len): s.base, s.off, s.len = base, P(off), P(len)
    def __repr__(s): return f'&{s.base}[{s.off}; {s.len}]'
class PRef:
    __slots__ = ('loc',)
    def __init__(s, loc): s.loc = loc
    def __repr__(s): return f'&{s.loc}'
class RawP:
    """raw element pointer; lo/hi bound the slice it was derived from"""
    __slots__ = ('base', 'off', 'lo', 'hi')
    def __init__(s, base, off, lo, hi): s.base, s.off, s.lo, s.hi = base, off, lo, hi
    def __repr__(s): return f'*{s.base}+{s.off}'
class VecV:
    __slots__ = ('reg', 'len')
    def __init__(s, reg, len): s.reg, s.len = reg, P(len)
    def __repr__(s): return f'Vec({s.reg}; {s.len})'
class DynD:
    """an inner transform known only by its contract (or a concrete struct behind Arc)"""
    __slots__ = ('name', 'n', 'iscr', 'oscr')
    def __init__(s, name, n, iscr, oscr): s.name, s.n, s.iscr, s.oscr = name, P(n), P(iscr), P(oscr)
    def __repr__(s): return f'dyn {s.name}'
class FnV:
    __slots__ = ('fn', 'd')
    def __init__(s, fn, d): s.fn, s.d = fn, d
    def __repr__(s): return f'fn {s.d}'
class Opaque:
    __slots__ = ('what',)
    def __init__(s, what): s.what = what
    def __repr__(s): return f'<{s.what}>'
UNIT = Agg('tuple', ())
UNDEF = Opaque('undef')

class Region:
    def __init__(s, name, paths, ty=None): s.name = name; s.paths = paths; s.ty = ty
    def __repr__(s): return s.name

class Frame:
    __slots__ = ('fn', 'uid', 'loc', 'bb', 'dest', 'target', 'si')
    def __init__(s): s.si = 0
    def copy(s):
        f = Frame(); f.fn, f.uid, f.loc, f.bb, f.dest, f.target, f.si = s.fn, s.uid, dict(s.loc), s.bb, s.dest, s.target, s.si
        return f
class State:
    def __init__(s):
        s.frames = []; s.mem = {}; s.ctx = Ctx(); s.inloop = (); s.globals = {}; s.active = ()
        s.ret = None
    def copy(s):
        t = State(); t.frames = [f.copy() for f in s.frames]; t.mem = dict(s.mem); t.ctx = s.ctx.copy()
        t.inloop = s.inloop; t.globals = dict(s.globals); t.active = s.active; t.ret = s.ret
        return t
    @property
    def top(s): return s.frames[-1]
    def frame(s, uid):
        for f in s.frames:
            if f.uid == uid: return f
        if uid == 'g': return None
        raise ToolLimit('dangling frame')

class Oblig:
    """record of one obligation"""
    __slots__ = ('kind', 'span', 'fn', 'what', 'ok', 'ctx')
    def __init__(s, kind, span, fn, what, ok, ctx): s.kind, s.span, s.fn, s.what, s.ok, s.ctx = kind, span, fn, what, ok, ctx

class Outcome:
    __slots__ = ('tag', 'st', 'msg', 'span')
    def __init__(s, tag, st, msg=None, span=None): s.tag, s.st, s.msg, s.span = tag, st, msg, span

class Prog:
    def __init__(s, d):
        s.fns = d['fns']; s.tys = d['tys']; s.roots = dict(d['roots']); s.d = d
        s._loops = {}; s._live = {}
    def root(s, name): return s.roots["roots::" + name]
    def find(s, inst):
        for i, f in enumerate(s.fns):
            if f['inst'] == inst: return i
        return None
    # ---- CFG
    def succs(s, t):
        k = t[0]
        if k == 'goto': return [t[1]]
        if k == 'switch': return [b for _, b in t[2]] + [t[3]]
        if k == 'drop': return [t[2]]
        if k == 'call': return [t[4]] if t[4] is not None else []
        if k == 'assert': return [t[5]]
        return []
    def loops(s, fi):
        """{header: set of body blocks}"""
        if fi in s._loops: return s._loops[fi]
        bl = s.fns[fi]['blocks']
        n = len(bl)
        succ = [[x for x in s.succs(b['t']) if x is not None] for b in bl]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for x in ss: pred[x].append(i)
        # dominators
        reach = set(); st = [0]
        while st:
            x = st.pop()
            if x in reach: continue
            reach.add(x); st += succ[x]
        dom = {x: set(reach) for x in reach}; dom[0] = {0}
        ch = True
        order = sorted(reach)
        while ch:
            ch = False
            for x in order:
                if x == 0: continue
                ps = [dom[p] for p in pred[x] if p in reach]
                nd = set.intersection(*ps) | {x} if ps else {x}
                if nd != dom[x]: dom[x] = nd; ch = True
        res = {}
        for x in reach:
            for y in succ[x]:
                if y in dom[x]:
                    body = res.setdefault(y, {y})
                    st = [x]
                    while st:
                        z = st.pop()
                        if z in body: continue
                        body.add(z); st += [p for p in pred[z] if p in reach]
        s._loops[fi] = res
        return res
    def live(s, fi):
        """live-in locals per block; locals whose address is taken count as live everywhere after"""
        if fi in s._live: return s._live[fi]
        f = s.fns[fi]; bl = f['blocks']; n = len(bl)
        addr = set()
        use = [set() for _ in range(n)]; df = [set() for _ in range(n)]
        def places(o):
            if isinstance(o, list):
                if o and o[0] in ('cp', 'mv') and len(o) == 2 and isinstance(o[1], list): return [o[1]]
                r = []
                for x in o: r += places(x)
                return r
            return []
        def usep(b, p):
            if p[0] not in df[b]: use[b].add(p[0])
            for x in p[1]:
                if isinstance(x, list) and x[0] == 'i' and x[1] not in df[b]: use[b].add(x[1])
        def defp(b, p):
            if p[1]:
                usep(b, p)
            else: df[b].add(p[0])
        for i, b in enumerate(bl):
            for st in b['s']:
                if st[0] == '=':
                    rv = st[2]
                    if rv[0] in ('ref', 'addr'):
                        pl = rv[2]
                        usep(i, pl)
                        if '*' not in pl[1]: addr.add(pl[0])
                    elif rv[0] == 'discr' or rv[0] == 'len': usep(i, rv[1])
                    else:
                        for p in places(rv): usep(i, p)
                    defp(i, st[1])
                elif st[0] == 'setd': usep(i, st[1])
                else:
                    for p in places(st): usep(i, p)
            t = b['t']
            if t[0] == 'call':
                for p in places(t[1]) + places(t[2]): usep(i, p)
                defp(i, t[3])
            elif t[0] == 'ret': usep(i, [0, []])
            elif t[0] == 'drop': pass
            else:
                for p in places(t[1:]): usep(i, p)
        inn = [set(use[i]) for i in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                out = set()
                for x in s.succs(bl[i]['t']):
                    if x is not None: out |= inn[x]
                ni = use[i] | (out - df[i])
                if ni != inn[i]: inn[i] = ni; ch = True
        s._live[fi] = ([x | addr for x in inn], addr)
        return s._live[fi]

def leaves(v, path=()):
    """(path, leaf) pairs of a value tree"""
    if isinstance(v, Agg):
        for i, x in enumerate(v.f): yield from leaves(x, path + (i,))
    elif isinstance(v, SR):
        yield path + ('off',), v.off
        yield path + ('len',), v.len
    elif isinstance(v, VecV): yield path + ('len',), v.len
    elif isinstance(v, RawP): yield path + ('off',), v.off
    elif isinstance(v, PRef) and v.loc[0] == 'el': yield path + ('idx',), v.loc[2]
    else: yield path, v
def shape(v):
    if isinstance(v, Agg): return ('A', v.tag, v.var, tuple(shape(x) for x in v.f))
    if isinstance(v, SR): return ('S', v.base)
    if isinstance(v, VecV): return ('V', v.reg)
    if isinstance(v, RawP): return ('R', v.base)
    if isinstance(v, PRef): return ('P', v.loc[0], v.loc[1]) if v.loc[0] == 'el' else ('P', v.loc)
    if isinstance(v, Poly): return 'n'
    if v is True or v is False or isinstance(v, tuple): return 'b'
    if isinstance(v, FnV): return ('F', v.fn)
    if isinstance(v, Opaque): return 'o'
    return ('x', repr(v))
def setleaf(v, path, x):
    if not path: return x
    if isinstance(v, Agg):
        f = list(v.f); f[path[0]] = setleaf(f[path[0]], path[1:], x)
        return Agg(v.tag, f, v.var)
    if isinstance(v, SR): return SR(v.base, x, v.len) if path[0] == 'off' else SR(v.base, v.off, x)
    if isinstance(v, VecV): return VecV(v.reg, x)
    if isinstance(v, RawP): return RawP(v.base, x, v.lo, v.hi)
    if isinstance(v, PRef): return PRef(('el', v.loc[1], x, v.loc[3]))
    raise ToolLimit('setleaf')

class Exec:
    def __init__(self, prog, cuts=None):
        self.prog = prog
        self.uid = 0
        self.obs = []            # Oblig records
        self.cuts = cuts or {}   # callee instance name -> python contract(ex, st, args, span) -> [(st, value)]
        self.called = set()      # functions executed (under contract)
        self.regn = 0
        self.steps = 0
        self.hints = {}          # loop hints
        self.quiet = 0
        self.contracts_used = set()
        self.keep = []
        self.span = ''
        self.depth = 0
        self.chunkcut = None     # contract of the per-chunk functions (batch property)
    contractors = ()
    anno = None
    def closure_fn(self, clo):
        name = clo.tag[8:]
        c = [i for i, f in enumerate(self.prog.fns) if f['def'] == name and f.get('blocks')]
        if len(c) != 1: raise ToolLimit(f'closure body {name}')
        return c[0]
    def sync(self, st, fn, clo, args):
        """run closure fn to completion from a model -> outcomes, 'sret' carries the value in msg"""
        f = self.prog.fns[fn]
        selfv = clo
        if self.ty(f['locals'][1])['k'] == 'ref':
            st.globals[f'clo{id(clo)}'] = clo; self.keep.append(clo)
            selfv = PRef(('loc', 'g', f'clo{id(clo)}', ()))
        self.push(st, fn, [selfv] + list(args), None, 'sync')
        return self.run([st])
    def special(self, st, kind, x):
        raise ToolLimit(f'{kind}({x})')
    def newuid(self): self.uid += 1; return self.uid
    def region(self, name, paths, ty=None):
        self.regn += 1
        return Region(f'{name}.{self.regn}' , paths, ty)
    # ---- types
    def ty(self, t): return self.prog.tys[t]
    def elem_paths(self, t):
        """float leaf paths of an element type"""
        T = self.ty(t)
        if T['k'] in ('float', 'int', 'uint'): return ((),)
        if T['k'] == 'adt' and T['name'].endswith('Complex'): return ((0,), (1,))
        raise ToolLimit(f"elements of type {T['s']}")
    # ---- obligations
    def oblige(self, st, kind, cond, what, span):
        """decide cond; record it. True -> ok; else recorded as failed and assumed afterwards"""
        if st.ctx.infeasible() if cond is False else False: return True
        ok = st.ctx.prove(cond)
        if not self.quiet: self.obs.append(Oblig(kind, span, self.prog.fns[st.top.fn]['inst'] if st.frames else '', what, ok, None if ok else st.ctx.plus(neg(cond))))
        if not ok: st.ctx.add(cond)
        return ok
    # ---- memory
    def cell_read(self, st, base, idx, path=None):
        if base[0] == 'r':
            reg = base[1]
            node = st.mem[reg]
            if path is None:
                if reg.paths == ((),): return self._rd(st, node, idx, ())
                return Agg('elem', [self._rd(st, node, idx, p) for p in reg.paths])
            return self._rd(st, node, idx, path)
        if base[0] == 'l':
            if not idx.is_const(): raise ToolLimit('symbolic index into a local array')
            return self.read(st, ('loc', base[1], base[2], base[3] + (int(idx.cval()),) + (tuple(path) if path else ())))
        raise ToolLimit('cell_read')
    def _rd(self, st, node, idx, path):
        if isinstance(node, Base): return cell(node.name, idx, path)
        if isinstance(node, Fill): return node.vals[path]
        if idx.is_const() and isinstance(node, Bulk):
            n = node
            while isinstance(n, Bulk) and len(n.entries) == 1 and not n.entries[0].params and not n.entries[0].guards and n.entries[0].idx.is_const():
                e = n.entries[0]
                if e.path == path and e.idx == idx: return e.val
                n = n.prev
            if isinstance(n, Base): return cell(n.name, idx, path)
            node = n
        return rd(node, idx, path)
    def cell_write(self, st, base, idx, v, path=None):
        if base[0] == 'r':
            reg = base[1]
            if path is None and reg.paths != ((),):
                for p, x in zip(reg.paths, v.f): st.mem[reg] = Bulk(st.mem[reg], [Entry((), (), idx, p, x)])
            else:
                st.mem[reg] = Bulk(st.mem[reg], [Entry((), (), idx, path or (), v)])
            return
        if base[0] == 'l':
            if not idx.is_const(): raise ToolLimit('symbolic index into a local array')
            self.write(st, ('loc', base[1], base[2], base[3] + (int(idx.cval()),) + (tuple(path) if path else ())), v)
            return
        raise ToolLimit('cell_write')
    def sub_read(self, v, path):
        for p in path:
            if isinstance(v, Agg):
                if p >= len(v.f): raise ToolLimit(f'project {p} of {v}')
                v = v.f[p]
            elif isinstance(v, (VecV, DynD)): return v      # fields of library types are transparent
            else: raise ToolLimit(f'project {p} of {v}')
        return v
    def sub_write(self, v, path, x):
        if not path: return x
        if v is UNDEF or v is None:
            v = Agg('partial', [UNDEF] * (path[0] + 1))
        if not isinstance(v, Agg): raise ToolLimit(f'write into {v}')
        f = list(v.f)
        while len(f) <= path[0]: f.append(UNDEF)
        f[path[0]] = self.sub_write(f[path[0]], path[1:], x)
        return Agg(v.tag, f, v.var)
    def read(self, st, loc):
        k = loc[0]
        if k == 'loc':
            if loc[1] == 'g': return self.sub_read(st.globals[loc[2]], loc[3])
            return self.sub_read(st.frame(loc[1]).loc.get(loc[2], UNDEF), loc[3])
        if k == 'el': return self.cell_read(st, loc[1], loc[2], loc[3] or None)
        if k == 'val': return self.sub_read(loc[1], loc[2])
        if k == 'sl': return loc[1]
        raise ToolLimit('read ' + k)
    def write(self, st, loc, v):
        k = loc[0]
        if k == 'loc':
            if loc[1] == 'g':
                if str(loc[2]).startswith(('clo', 'const')): raise ToolLimit('mutable closure state')
                self.obs.append(Oblig('purity', '', '', f'write to shared state {loc[2]}', False, st.ctx))
                st.globals[loc[2]] = self.sub_write(st.globals[loc[2]], loc[3], v); return
            f = st.frame(loc[1])
            f.loc[loc[2]] = self.sub_write(f.loc.get(loc[2], UNDEF), loc[3], v) if loc[3] else v
            return
        if k == 'el': return self.cell_write(st, loc[1], loc[2], v, loc[3] or None)
        raise ToolLimit('write ' + k)
    def deref(self, st, v):
        if isinstance(v, PRef): return v.loc
        if isinstance(v, SR): return ('sl', v)
        if isinstance(v, RawP): return ('el', v.base, v.off, (), v)
        if isinstance(v, VecV): return ('sl', SR(('r', v.reg), 0, v.len))
        if isinstance(v, DynD): return ('val', v, ())
        if isinstance(v, Opaque): return ('val', Opaque(v.what), ())
        raise ToolLimit(f'deref of {v}')
    def place(self, st, pl):
        """location of a place"""
        fr = st.top
        loc = ('loc', fr.uid, pl[0], ())
        for x in pl[1]:
            if x == '*':
                v = self.read(st, loc) if loc[0] != 'sl' else loc[1]
                loc = self.deref(st, v)
                if loc[0] == 'el' and len(loc) == 5:
                    rp = loc[4]
                    self.oblige(st, 'mem', conj([ge(rp.off, rp.lo), lt(rp.off, rp.hi)]), f'raw access at {rp.off} within [{rp.lo}, {rp.hi})', self.span)
                    loc = loc[:4]
            elif x[0] == 'f':
                loc = self.proj(st, loc, x[1])
            elif x[0] == 'i' or x[0] == 'ci':
                if x[0] == 'i': i = fr.loc[x[1]]
                else: i = P(x[1])
                if loc[0] == 'sl':
                    sl = loc[1]
                    if x[0] == 'ci' and x[3]: i = sl.len - i
                    loc = self.elem_loc(st, sl, i)
                elif loc[0] == 'loc' or loc[0] == 'val':
                    if x[0] == 'ci' and x[3]: i = P(len(self.read(st, loc).f)) - i
                    if not i.is_const(): raise ToolLimit('symbolic index into array')
                    loc = self.proj(st, loc, int(i.cval()))
                else: raise ToolLimit('index of ' + loc[0])
            elif x[0] == 'd': pass
            elif x[0] == 'ss':
                if loc[0] == 'sl':
                    sl = loc[1]
                    hi = sl.len - x[2] if x[3] else P(x[2])
                    loc = ('sl', SR(sl.base, sl.off + x[1], hi - x[1]))
                else: raise ToolLimit('subslice of array')
            else: raise ToolLimit(f'projection {x}')
        return loc
    def elem_loc(self, st, sl, i):
        if sl.base[0] == 'r': return ('el', sl.base, sl.off + i, ())
        idx = sl.off + i
        if not idx.is_const(): raise ToolLimit('symbolic index into local array slice')
        return ('loc', sl.base[1], sl.base[2], sl.base[3] + (int(idx.cval()),))
    def proj(self, st, loc, i):
        if loc[0] == 'loc': return loc[:3] + (loc[3] + (i,),)
        if loc[0] == 'el': return ('el', loc[1], loc[2], loc[3] + (i,))
        if loc[0] == 'val':
            v = self.sub_read(loc[1], loc[2])
            if isinstance(v, (VecV, DynD, Opaque)): return ('val', v, ())    # fields of a library type: transparent
            return ('val', loc[1], loc[2] + (i,))
        raise ToolLimit(f'field of {loc[0]}')
    def read_place(self, st, pl):
        fr = st.top
        # library structs (Box, Vec, Arc, ...) are opaque: field projections return the value itself
        v = None
        loc = ('loc', fr.uid, pl[0], ())
        if not pl[1]: return fr.loc.get(pl[0], UNDEF)
        try:
            loc = self.place(st, pl)
        except ToolLimit: raise
        return self.read(st, loc)
    # ---- operands
    def const(self, c):
        k = c['c']
        if k == 'fn': return FnV(c.get('fn'), c['def'])
        if k == 'zst':
            T = self.ty(c['ty'])
            if T['k'] == 'fndef': return FnV(T.get('fn'), T['s'])
            if T['k'] == 'tuple': return UNIT
            return Agg(T.get('name', T['k']), ())
        if k == 'usize': return P(c['v'])
        if k == 'alloc':
            T = self.ty(c['ty'])
            b = bytes(x or 0 for x in c['bytes'])
            return self.decode(T, b, c.get('prov'))
        raise ToolLimit(f'constant {c}')
    def decode(self, T, b, prov):
        k = T['k']
        if k == 'bool': return b[0] != 0
        if k == 'uint': return P(int.from_bytes(b, 'little'))
        if k == 'int': return P(int.from_bytes(b, 'little', signed=True))
        if k == 'float':
            if len(b) == 8: return reals.f64const(struct.unpack('<d', b)[0])
            return reals.f32const(struct.unpack('<f', b)[0])
        if k == 'array' and not prov and T.get('n'):
            n = T['n']; w = len(b) // n; E = self.ty(T['e'])
            return Agg('array', [self.decode(E, b[i * w:i * w + w], None) for i in range(n)])
        if k == 'ref' and prov:
            E = self.ty(T['e'])
            if E['k'] == 'array' and len(prov) == 1 and prov[0].get('nprov') == 0 and len(b) == 8 and not any(b) and None not in prov[0].get('mem', [None]):
                return PRef(('val', self.decode(E, bytes(prov[0]['mem']), None)))
            return Opaque('constant data')
        if k == 'adt' and T['s'].endswith('cmp::Ordering') and len(b) == 1: return Agg('std::cmp::Ordering', (), b[0])
        if k == 'adt': return Opaque('constant ' + T['s'])
        return Opaque('constant ' + T['s'])
    def operand(self, st, o):
        if o[0] in ('cp', 'mv'): return self.read_place(st, o[1])
        if o[0] == 'k':
            c = o[1]
            if c['c'] == 'alloc' and self.ty(c['ty'])['k'] == 'ref':
                T = self.ty(c['ty'])
                E = self.ty(T['e']) if 'e' in T and T['e'] is not None else None
                if E and E['k'] == 'array' and E.get('n') in (0, '0'):
                    return PRef(('val', Agg('array', ()), ()))
                if E and E['k'] == 'array':
                    p = c.get('prov')
                    if p:
                        mem = bytes(x or 0 for x in p[0]['mem'])
                        ET = self.ty(E['e']); n = int(E['n']); w = len(mem) // n if n else 0
                        if ET['k'] in ('float', 'uint', 'int') and n:
                            return PRef(('val', Agg('array', [self.decode(ET, mem[i * w:(i + 1) * w], None) for i in range(n)]), ()))
                if E and E['k'] in ('uint', 'int', 'bool', 'float') and c.get('prov'):
                    mem = bytes(x or 0 for x in c['prov'][0]['mem'])
                    return PRef(('val', self.decode(E, mem, None), ()))
            return self.const(c)
        if o[0] == 'rc':   # runtime checks (ub checks, overflow checks, ...)
            return False if 'Ub' in str(o[1]) else True
        raise ToolLimit(f'operand {o[0]}')
    # ---- arithmetic
    def binop(self, st, op, a, b, ty, checked=False):
        T = self.ty(ty)
        k = T['k']
        if op.endswith('Unchecked'): op = op[:-9]
        if k == 'bool' or (isinstance(a, (bool, tuple)) and op in ('BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne')):
            if isinstance(a, Opaque) or isinstance(b, Opaque): return Opaque('ptr')
            if op == 'BitAnd': return conj([a, b])
            if op == 'BitOr': return disj([a, b])
            if op in ('Eq', 'Ne', 'BitXor'):
                if isinstance(b, bool): r = a if b else neg(a)
                elif isinstance(a, bool): r = b if a else neg(b)
                else: raise ToolLimit('bool eq')
                return r if op == 'Eq' else neg(r)
            raise ToolLimit('bool ' + op)
        if k == 'float':
            if not (isinstance(a, Poly) and isinstance(b, Poly)): raise ToolLimit(f'float op on {a}, {b}')
            if op == 'Add': return a + b
            if op == 'Sub': return a - b
            if op == 'Mul': return reals.mul(a, b)
            if op == 'Div': return reals.mul(a, reals.recip(b))
            raise ToolLimit('float ' + op)
        if isinstance(a, (RawP, PRef, SR)) or isinstance(b, (RawP, PRef, SR)) or isinstance(a, Opaque) or isinstance(b, Opaque):
            if op in ('Eq',): return Opaque('ptr')
            return Opaque('ptr')
        if not (isinstance(a, Poly) and isinstance(b, Poly)): raise ToolLimit(f'{op} on {a}, {b}')
        ctx = st.ctx
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return {'Eq': eq, 'Ne': ne, 'Lt': lt, 'Le': le, 'Gt': gt, 'Ge': ge}[op](a, b)
        if op == 'Add': return a + b
        if op == 'Sub': return a - b
        if op == 'Mul': return a * b
        if op == 'Div': return div(ctx, a, b)
        if op == 'Rem': return mod(ctx, a, b)
        if op == 'Shl':
            if b.is_const(): return a * 2 ** int(b.cval())
            return a * exp(2, b)
        if op == 'Shr':
            if b.is_const(): return div(ctx, a, C(2 ** int(b.cval())))
            return div(ctx, a, exp(2, b))
        if op == 'BitAnd':
            for x, y in ((a, b), (b, a)):
                if y.is_const():
                    m = int(y.cval()) + 1
                    if m & (m - 1) == 0: return mod(ctx, x, C(m)) if m > 1 else ZERO
            raise ToolLimit('bitand')
        if op in ('BitXor', 'BitOr') and a.is_const() and b.is_const():
            return P(int(a.cval()) ^ int(b.cval()) if op == 'BitXor' else int(a.cval()) | int(b.cval()))
        if op == 'Offset': raise ToolLimit('ptr offset')
        raise ToolLimit('int ' + op)
    def rvalue(self, st, rv):
        k = rv[0]
        if k == 'use': return self.operand(st, rv[1])
        if k == 'ref' or k == 'addr':
            loc = self.place(st, rv[2])
            if loc[0] == 'sl': return loc[1]
            if loc[0] == 'val':
                v = self.sub_read(loc[1], loc[2])
                if isinstance(v, (DynD, SR)): return v
                return PRef(loc)
            if loc[0] == 'loc':
                v = self.read(st, loc)
                if isinstance(v, DynD): return PRef(loc)
            return PRef(loc)
        if k == 'agg':
            kind, ops = rv[1], [self.operand(st, o) for o in rv[2]]
            if kind[0] == 'adt':
                T = self.ty(kind[1])
                enum = len(T['variants']) > 1 if T.get('variants') else False
                return Agg(T['name'], ops, kind[2] if enum else None)
            if kind[0] == 'closure': return Agg('closure:' + kind[2], ops)
            if kind[0] == 'rawptr' or kind[0] == 'RawPtr':
                return self.mkfat(ops)
            return Agg(kind[0], ops)
        if k == 'bin':
            r = self.binop(st, rv[1], self.operand(st, rv[2]), self.operand(st, rv[3]), rv[4])
            T = self.ty(rv[4])
            if isinstance(r, Poly) and T['k'] in ('uint', 'int') and T['w'] < 64 and rv[1].startswith(('Add', 'Sub', 'Mul', 'Shl')): r = self.fit(st, r, T)
            return r
        if k == 'cbin':
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            r = self.binop(st, rv[1], a, b, rv[4])
            T = self.ty(rv[4])
            ov = False
            if T['k'] == 'uint' and rv[1] == 'Sub': ov = lt(a, b)
            elif T['k'] in ('uint', 'int') and T['w'] < 64 and isinstance(r, Poly):
                lo, hi = self.bounds(T); ov = disj([lt(r, lo), ge(r, hi)])
            return Agg('tuple', [r, ov])
        if k == 'cast': return self.cast(st, rv[1], self.operand(st, rv[2]), rv[3], rv[4])
        if k == 'discr':
            v = self.read_place(st, rv[1])
            if isinstance(v, Agg) and v.var is not None: return P(v.var)
            if isinstance(v, Agg) and v.var is None: return ZERO
            raise ToolLimit(f'discriminant of {v}')
        if k == 'len':
            loc = self.place(st, rv[1])
            if loc[0] == 'sl': return loc[1].len
            return P(len(self.read(st, loc).f))
        if k == 'repeat':
            v = self.operand(st, rv[1])
            return Agg('array', [v] * int(rv[2]))
        if k == 'un':
            v = self.operand(st, rv[2])
            if rv[1] == 'Not':
                if isinstance(v, (bool, tuple)): return neg(v)
                if isinstance(v, Opaque): return v
                raise ToolLimit('bitwise not')
            if rv[1] == 'Neg': return -v
            if rv[1] == 'PtrMetadata':
                if isinstance(v, SR): return v.len
                if isinstance(v, PRef) and v.loc[0] == 'sl': return v.loc[1].len
                raise ToolLimit(f'PtrMetadata of {v}')
        raise ToolLimit(f'rvalue {k}')
    def mkfat(self, ops):
        p, n = ops
        if isinstance(p, RawP): return SR(p.base, p.off, n)
        raise ToolLimit('raw slice')
    @staticmethod
    def bounds(T):
        if T['k'] == 'uint': return 0, 1 << T['w']
        if T['k'] == 'int': return -(1 << T['w'] - 1), 1 << T['w'] - 1
        if T['k'] == 'bool': return 0, 2
        if T['k'] == 'char': return 0, 1 << 21
        return None
    def fit(self, st, v, T, F=None):
        """v as a value of the integer type T. 64-bit quantities are mathematical (stated assumption), except for their sign; narrower ones are checked:
        the values that do not fit are a path of their own"""
        b = self.bounds(T)
        if b is None: return v
        lo, hi = b
        f = self.bounds(F) if F is not None else None
        if f and lo <= f[0] and f[1] <= hi: return v
        if v.is_const():
            c = int(v.cval()); w = hi - lo
            return P((c - lo) % w + lo)
        need = []
        if T['w'] < 64: need += [ge(v, lo), lt(v, hi)]
        elif lo == 0: need += [ge(v, 0)]
        for c in need:
            d = st.ctx.decide(c)
            if d is True: continue
            if d is None: raise Split(c)
            if T['w'] >= 64: return v + (1 << T['w'])
            return v - (hi - lo) * rediv(v - lo, C(hi - lo))
        return v
    def cast(self, st, kind, v, ty, fty):
        T, F = self.ty(ty), self.ty(fty)
        if kind == 'IntToInt':
            if isinstance(v, Poly): return self.fit(st, v, T, F)
            return v
        if kind == 'IntToFloat':
            if T['s'] == 'f32' : return reals.round32(v)
            return v
        if kind == 'FloatToFloat':
            if T['s'] == 'f32' and F['s'] != 'f32': return reals.round32(v)
            return v
        if 'Unsize' in kind:
            if isinstance(v, PRef):
                a = self.read(st, v.loc)
                if isinstance(a, Agg) and a.tag in ('array', 'partial'):
                    if v.loc[0] == 'loc': return SR(('l',) + v.loc[1:4], 0, len(a.f))
                    if v.loc[0] == 'val' and not a.f: return SR(('e',), 0, 0)
                    if v.loc[0] == 'val':
                        st.globals[f'const{id(v)}'] = a
                        return SR(('l', 'g', f'const{id(v)}', ()), 0, len(a.f))
            if isinstance(v, (DynD, VecV)): return v
            if isinstance(v, Agg) and v.tag == 'Arc': return self.unsize_arc(st, v)
            raise ToolLimit(f'unsize {v}')
        if kind in ('PtrToPtr', 'BoxDerefTransmute', 'Transmute', 'Subtype') or 'PointerCoercion' in kind:
            if kind == 'Transmute' and T['k'] in ('uint', 'int') and not isinstance(v, Poly): return Opaque('addr')
            if isinstance(v, PRef) and T['k'] == 'ptr' and v.loc[0] == 'el': return RawP(v.loc[1], v.loc[2], v.loc[2], v.loc[2] + 1)
            return v
        raise ToolLimit(f'cast {kind} {F["s"]} -> {T["s"]}')
    def unsize_arc(self, st, v):
        return self.dyn_of(st, v.f[0])
    def dyn_of(self, st, v):
        raise ToolLimit('dyn of concrete struct')
    # ---- running
    def call_root(self, st, fn, args):
        self.push(st, fn, args, None, None)
        return self.run([st])
    def push(self, st, fn, args, dest, target):
        f = self.prog.fns[fn]
        if not f.get('blocks'): raise ToolLimit('no body: ' + f['inst'])
        if len(st.frames) > 40: raise ToolLimit('call depth')
        fr = Frame(); fr.fn = fn; fr.uid = self.newuid(); fr.loc = {}; fr.bb = 0; fr.dest = dest; fr.target = target
        argc = f['argc']
        if len(args) != argc:
            # rust-call ABI: last argument is a tuple
            if args and isinstance(args[-1], Agg) and args[-1].tag == 'tuple' and len(args) - 1 + len(args[-1].f) == argc:
                args = list(args[:-1]) + list(args[-1].f)
            else: raise ToolLimit(f'argument count of {f["inst"]}')
        if f.get('spread') is not None and argc and len(args) == argc:
            pass
        for i, a in enumerate(args): fr.loc[i + 1] = a
        st.frames.append(fr)
        self.called.add(f['inst'])
    def run(self, states, stop=None):
        """-> list of Outcome('ret'|'panic'|'stop')"""
        out = []
        todo = list(states)
        first = {id(s): True for s in todo}
        while todo:
            st = todo.pop()
            fr = st.top
            if stop is not None and not first.pop(id(st), False) and not fr.si and stop(st):
                out.append(Outcome('stop', st)); continue
            lp = self.prog.loops(fr.fn)
            if fr.bb in lp and not fr.si and (fr.uid, fr.bb) not in st.inloop:
                from . import loops
                keep, mark, dep = st.copy(), len(self.obs), self.depth
                try: outs = loops.handle(self, st, fr.bb, lp[fr.bb])
                except Split as e:
                    # a case distinction on symbols of the enclosing state
                    if e.cond[0] not in ('ge', 'eq', 'ne') or any("'" in (n := str(ATOMS[a].args[0])) or '`' in n for a in e.cond[1].free if ATOMS[a].kind == 'sym' and a not in st.active): raise
                    if st.ctx.decide(e.cond) is not None: raise ToolLimit(f'split {e.cond}')
                    del self.obs[mark:]; self.depth = dep
                    for c in (e.cond, neg(e.cond)):
                        s2 = keep.copy(); s2.ctx.add(c)
                        if not s2.ctx.infeasible(): todo.append(s2)
                    continue
                for o in outs:
                    if o.tag == 'go': todo.append(o.st)
                    else: out.append(o)
                continue
            self.steps += 1
            if self.steps > 400000: raise ToolLimit('step limit')
            for o in self.step(st):
                if o.tag == 'go': todo.append(o.st)
                else: out.append(o)
        return out
    def go(self, st, bb):
        if bb is None: raise ToolLimit('no target')
        st.top.bb = bb
        return Outcome('go', st)
    def fork(self, st, cond):
        """-> [(state, truth)] feasible branches"""
        r = st.ctx.decide(cond)
        if r is not None: return [(st, r)]
        a, b = st.copy(), st
        a.ctx.add(cond); b.ctx.add(neg(cond))
        res = []
        if not a.ctx.infeasible(): res.append((a, True))
        if not b.ctx.infeasible(): res.append((b, False))
        return res
    def step(self, st):
        fr = st.top
        f = self.prog.fns[fr.fn]
        b = f['blocks'][fr.bb]
        si0 = fr.si; fr.si = 0
        for si, s in enumerate(b['s']):
            if si < si0: continue
            self.span = s[-1] if isinstance(s[-1], str) else getattr(self, 'span', '')
            if s[0] == '=':
                try: v = self.rvalue(st, s[2])
                except Split as e:
                    # a value that depends on an undecided case: both cases resume at this statement
                    res = []
                    fr.si = si
                    for s2, r in self.fork(st, e.cond): res.append(Outcome('go', s2))
                    if len(res) < 2 and not st.ctx.infeasible() and res and res[0].st is st and st.ctx.decide(e.cond) is None: raise ToolLimit('split')
                    return res
                if not s[1][1]: fr.loc[s[1][0]] = v
                else: self.write(st, self.place(st, s[1]), v)
            elif s[0] == 'setd': 
                loc = self.place(st, s[1]); v = self.read(st, loc)
                self.write(st, loc, Agg(v.tag, v.f, s[2]))
            elif s[0] in ('assume', 'cno', 'nop'): pass
            else: raise ToolLimit(f'statement {s[0]}')
        t = b['t']
        k = t[0]
        if isinstance(t[-1], str): self.span = t[-1]
        if k == 'goto': return [self.go(st, t[1])]
        if k == 'switch':
            v = self.operand(st, t[1])
            if isinstance(v, Opaque): raise ToolLimit(f'branch on opaque value {v.what} in {f["inst"]} at {self.span}')
            res = []
            if isinstance(v, (bool, tuple)):
                for c, bb in t[2]:
                    pass
                tgt = {bool(c): bb for c, bb in t[2]}
                for s2, r in self.fork(st, v): res.append(self.go(s2, tgt.get(r, t[3])))
                return res
            cur = [st]
            for c, bb in t[2]:
                nxt = []
                for s1 in cur:
                    for s2, r in self.fork(s1, eq(v, P(c))):
                        if r: res.append(self.go(s2, bb))
                        else: nxt.append(s2)
                cur = nxt
            for s1 in cur: res.append(self.go(s1, t[3]))
            return res
        if k == 'ret':
            v = fr.loc.get(0, UNIT)
            st.frames.pop()
            if fr.target == 'sync': return [Outcome('sret', st, v)]
            if not st.frames:
                st.ret = v
                return [Outcome('ret', st)]
            self.write(st, self.place(st, fr.dest), v) if fr.dest[1] else st.top.loc.__setitem__(fr.dest[0], v)
            return [self.go(st, fr.target)]
        if k == 'assert':
            cond = self.operand(st, t[1])
            if isinstance(cond, Opaque):
                return [self.go(st, t[5])]      # pointer alignment / null checks
            if not t[2]: cond = neg(cond)
            return self.asserting(st, cond, t[3], t[5], t[6])
        if k == 'drop': return [self.go(st, t[2])]
        if k == 'unreach':
            if st.ctx.infeasible(): return []
            raise ToolLimit('unreachable reached')
        if k == 'call': return self.call(st, t)
        raise ToolLimit(f'terminator {k}')
    def asserting(self, st, cond, msg, target, span):
        res = []
        for s2, r in self.fork(st, cond):
            if r: res.append(self.go(s2, target))
            else: res.append(Outcome('panic', s2, str(msg), span))
        if not self.quiet: self.obs.append(Oblig('panic', span, '', str(msg), len(res) == 1 and res[0].tag == 'go', None))
        return res
    def call(self, st, t):
        fo, args, dest, target, span = t[1], t[2], t[3], t[4], t[5]
        fv = self.operand(st, fo)
        if not isinstance(fv, FnV) or fv.fn is None: raise ToolLimit(f'indirect call {fv}')
        av = [self.operand(st, a) for a in args]
        return self.call_fn(st, fv.fn, av, dest, target, span)
    def call_fn(self, st, fn, av, dest, target, span):
        f = self.prog.fns[fn]
        inst = f['inst']
        from . import models
        self.span = span
        m = models.find(self, inst, f)
        if m is None and self.chunkcut is not None and f['krate'] == 'rustdht': m = self.chunkcut.contract(self, st, fn, av)
        if m is None and f['krate'] == 'rustdht':
            for cn in self.contractors:
                m = cn.contract(self, st, fn, av)
                if m is not None: break
        if m is not None:
            self.contracts_used.add(f['def'] if f['krate'] != 'rustdht' else inst)
            res = []
            r = m(self, st, av, f)
            for x in r:
                if isinstance(x, Outcome):
                    if x.span is None: x.span = span
                    res.append(x); continue
                if x[0] == 'push':     # call another function
                    _, s2, fn2, av2 = x
                    self.push(s2, fn2, av2, dest, target); res.append(Outcome('go', s2)); continue
                s2, v = x
                if target is None: raise ToolLimit('diverging model')
                if dest[1]: self.write(s2, self.place(s2, dest), v)
                else: s2.top.loc[dest[0]] = v
                res.append(self.go(s2, target))
            return res
        if target is None and ('panic' in inst or 'unwrap_failed' in inst or 'expect_failed' in inst or 'assert_failed' in inst or 'fail' in inst.rsplit('::', 1)[-1]):
            return [Outcome('panic', st, inst, span)]
        if not f.get('blocks'): raise ToolLimit('no body: ' + inst)
        if f['def'].endswith('}') and '{closure#' in f['def'].rsplit('::', 1)[-1] and av and isinstance(av[-1], Agg) and av[-1].tag == 'tuple' and len(av) == 2:
            av = [av[0]] + list(av[1].f)
            if self.ty(f['locals'][1])['k'] == 'ref' and not isinstance(av[0], PRef):
                self.keep.append(av[0]); st.globals[f'clo{id(av[0])}'] = av[0]
                av[0] = PRef(('loc', 'g', f'clo{id(av[0])}', ()))
            elif self.ty(f['locals'][1])['k'] != 'ref' and isinstance(av[0], PRef): av[0] = self.read(st, av[0].loc)
        self.push(st, fn, av, dest, target)
        return [Outcome('go', st)]
