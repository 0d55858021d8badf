"""The verifier works on the code at element type f64. This module discharges, for every function of the crate it used, the obligation
that the code does not look at the element type: the instantiation at f32 is the same MIR up to the name of the element type, and
no function of the crate asks for the identity, name, size or alignment of a type that mentions it."""
import os, re, json, subprocess
from .ctx import ToolLimit

ASK = re.compile(r'^<?(core|std|alloc)::.*(any::|type_id|TypeId|type_name|size_of|align_of|needs_drop|transmute)')
FLT = re.compile(r'\bf(32|64)\b')
def norm(s): return FLT.sub('f64', s)

def extract32(V, run):
    """run(dir, out): builds the crate in dir with the extractor"""
    d = f'{V}/build/roots32'; out = f'{V}/build/mir32.json'
    os.makedirs(f'{d}/src', exist_ok=True)
    for f in ('Cargo.toml', 'Cargo.lock'):
        t = open(f'{V}/roots/{f}').read().replace('name = "roots"', 'name = "roots32"')
        open(f'{d}/{f}', 'w').write(t)
    open(f'{d}/src/lib.rs', 'w').write(FLT.sub('f32', open(f'{V}/roots/src/lib.rs').read()))
    run(d, out)
    return json.load(open(out))

def num(c): return int.from_bytes(bytes(c['bytes']), 'little') if c.get('c') == 'alloc' and not c['prov'] and None not in c['bytes'] else None

class Canon:
    def __init__(s, d):
        s.tys = d['tys']; s.fns = d['fns']
    def ty(s, i): return i if i is None else norm(s.tys[i]['s'])
    def fn(s, i): return i if i is None else norm(s.fns[i]['inst'])
    def ga(s, a): return [x if isinstance(x, dict) else s.ty(x) for x in a]
    def place(s, p): return [p[0], [[e[0], e[1], s.ty(e[2])] if e[0] == 'f' else e for e in p[1]]]
    def const(s, c):
        if c['c'] == 'fn': return ['fn', s.fn(c['fn']), norm(c['def']), s.ga(c['args'])]
        c = dict(c); t = c['ty']; c['ty'] = s.ty(t)
        if c['c'] == '?' and isinstance(c.get('d'), str): c['d'] = None if 'AllocId' in c['d'] else norm(c['d'])
        return c
    def op(s, o):
        if o[0] in ('cp', 'mv'): return [o[0], s.place(o[1])]
        if o[0] == 'k': return ['k', s.const(o[1])]
        return o
    def ops(s, v): return [s.op(o) for o in v]
    def rv(s, r):
        k = r[0]
        if k in ('addr', 'ref'): return [k, r[1], s.place(r[2])]
        if k == 'agg':
            a = r[1]
            if a[0] in ('array', 'adt', 'closure', 'rawptr'): a = [a[0], s.ty(a[1])] + [norm(x) if isinstance(x, str) else x for x in a[2:]]
            return [k, a, s.ops(r[2])]
        if k in ('bin', 'cbin'): return [k, r[1], s.op(r[2]), s.op(r[3]), s.ty(r[4])]
        if k == 'cast': return [k, re.sub(r'\d+', '#', norm(r[1])), s.op(r[2]), s.ty(r[3]), s.ty(r[4])] + [s.fn(x) for x in r[5:]]
        if k in ('discr', 'len'): return [k, s.place(r[1])]
        if k == 'repeat': return [k, s.op(r[1]), r[2]]
        if k == 'un': return [k, r[1], s.op(r[2]), s.ty(r[3])]
        if k == 'use': return [k, s.op(r[1])]
        return r
    def st(s, x):
        k = x[0]
        if k == '=': return [k, s.place(x[1]), s.rv(x[2])]
        if k == 'setd': return [k, s.place(x[1]), x[2]]
        return [k] + [s.op(o) for o in x[1:]]
    def term(s, t):
        k = t[0]
        if k == 'switch': return [k, s.op(t[1]), t[2], t[3], s.ty(t[4])]
        if k == 'drop': return [k, s.place(t[1]), t[2]]
        if k == 'call': return [k, s.op(t[1]), s.ops(t[2]), s.place(t[3]), t[4]]
        if k == 'assert': return [k, s.op(t[1]), t[2], t[3], s.ops(t[4]), t[5]]
        return t
    def block(s, b):
        """the compiler's own alignment and null checks before a dereference mention the alignment or size: `A - 1`, `A != 0` of constants, in a block ending in such a check"""
        st = [s.st(x) for x in b['s']]
        if b['t'][0] == 'assert' and b['t'][3] == 'ub':
            for x in st:
                r = x[2] if x[0] == '=' else None
                if r and r[0] == 'bin' and r[2][0] == r[3][0] == 'k' and (r[1], num(r[3][1])) in (('Sub', 1), ('Ne', 0)) and num(r[2][1]) in (4, 8): r[2] = 'align'
        return [st, s.term(b['t'])]
    def body(s, f):
        return {'argc': f.get('argc'), 'spread': f.get('spread'), 'args': s.ga(f['args']), 'locals': [s.ty(t) for t in f.get('locals', [])], 'blocks': [s.block(b) for b in f.get('blocks', [])]}

def asks(s, f):
    out = set()
    def walk(x):
        if isinstance(x, dict):
            if x.get('c') == 'fn' and ASK.search(x['def']):
                ts = [s.tys[a]['s'] for a in x['args'] if isinstance(a, int)]
                if any(FLT.search(t) for t in ts): out.add(x['def'])
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(f.get('blocks', []))
    return sorted(out)

def first(a, b, path=''):
    """where two canonical bodies differ"""
    if type(a) != type(b): return f'{path}: {a} / {b}'
    if isinstance(a, dict):
        for k in a:
            if a[k] != b.get(k): return first(a[k], b.get(k), f'{path}.{k}')
    if isinstance(a, list):
        if len(a) != len(b): return f'{path}: length {len(a)} / {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y: return first(x, y, f'{path}[{i}]')
    return f'{path}: {a} / {b}'

def check(d64, d32, used):
    """-> [(function, None or what is wrong)] for the crate's functions in used (names at f64)"""
    a, b = Canon(d64), Canon(d32)
    by = {}
    for f in d32['fns']: by.setdefault(norm(f['inst']), []).append(f)
    out = []
    for f in d64['fns']:
        if f['krate'] != 'rustdht' or not f.get('blocks') or f['inst'] not in used: continue
        q = asks(a, f)
        if q: out.append((f['inst'], f'asks about the element type: {q}')); continue
        x = a.body(f); g = by.get(norm(f['inst']), [])
        if not g: out.append((f['inst'], 'not used by the instantiation at f32')); continue
        ys = [b.body(h) for h in g]
        out.append((f['inst'], None if x in ys else 'the instantiation at f32 differs: ' + first(x, ys[0])[:300]))
    return out
