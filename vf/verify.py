"""Obligations of each property, generated from the extracted MIR and discharged in parallel."""
import os, sys, json, time, signal, subprocess, hashlib, multiprocessing as mp
from math import lcm
from .poly import *
from .ctx import *
from .heap import *
from .exec import *
from .kinds import *
from . import prove, trig, sample, loops, models, reals, radix, numth, generic
from . import ctx as ctxmod

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROG = None
class Timeout(Exception): pass

# ---------------------------------------------------------------- extraction
def extract():
    """MIR of every function reachable from the public entry points, from /repo's working tree"""
    env = dict(os.environ)
    out = f'{V}/build/mir.json'
    os.makedirs(f'{V}/build', exist_ok=True)
    md = f'{V}/build/mirdump/debug/mirdump'
    if not os.path.exists(md):
        e = dict(env); e['CARGO_TARGET_DIR'] = f'{V}/build/mirdump'
        p = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=f'{V}/mirdump', env=e, capture_output=True, text=True)
        if p.returncode: raise ToolLimit('extractor build failed: ' + p.stderr[-2000:])
    cargo(f'{V}/roots', out)
    return json.load(open(out))

def cargo(d, out):
    """compile the crate in d with the extractor as compiler; its functions are the roots"""
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
    e = dict(os.environ)
    e.update(MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=f'{V}/build/mirdump/debug/mirdump', LD_LIBRARY_PATH=sysroot + '/lib', RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0', CARGO_TARGET_DIR=f'{V}/build/roots')
    if os.path.exists(out): os.remove(out)
    for attempt in range(2):
        os.utime(f'{d}/src/lib.rs')
        p = subprocess.run(['cargo', '+nightly', 'build', '--offline'], cwd=d, env=e, capture_output=True, text=True)
        if os.path.exists(out): break
    if not os.path.exists(out): raise ToolLimit('extraction failed: ' + p.stderr[-3000:])

# ---------------------------------------------------------------- building blocks
def coords(K, n):
    """output and input index, in coordinates suited to the kind: [(k, conds)], [(x, conds)]"""
    if K == 'Radix4' and n.is_const() and n.cval() <= 16:
        N = int(n.cval()); return [(C(i), []) for i in range(N)], [(C(i), []) for i in range(N)]
    if K in FIXED:
        N = FIXED[K]; return [(C(i), []) for i in range(N)], [(C(i), []) for i in range(N)]
    if K in ('DhtNaive', 'Radix4'):
        k, x = sym('k'), sym('xx'); return [(k, [ge(k), lt(k, n)])], [(x, [ge(x), lt(x, n)])]
    a, b, j, m = sym('ka'), sym('kb'), sym('xj'), sym('xm')
    if K == 'MixedRadix':
        w, h = sym('w'), sym('h')
        return [(a + b * h, [ge(a), lt(a, h), ge(b), lt(b, w)])], [(m + j * w, [ge(m), lt(m, w), ge(j), lt(j, h)])]
    if K in STEP:
        r = STEP[K]; h = sym('h')
        return [(a + h * b, [ge(a), lt(a, h)]) for b in range(r)], [(j * r + m, [ge(j), lt(j, h)]) for m in range(r)]
    if K == 'SplitRadix':
        q = sym('q')
        return [(a * 4 + b, [ge(a), lt(a, q)]) for b in range(4)], [(j + q * m, [ge(j), lt(j, q)]) for m in range(4)]
    if K == 'RadersAlgorithm' and n.is_const(): return [(C(i), []) for i in range(int(n.cval()))], [(C(i), []) for i in range(int(n.cval()))]
    if K == 'RadersAlgorithm':
        p, g, gi = sym('p'), sym('g'), sym('ginv')
        i0, j0 = sym('ki'), sym('xj')
        # 0 and the powers of the generator (of its inverse)
        return [(ZERO, []), (loops.powmod(gi, i0, p), [ge(i0), lt(i0, p - 1)])], [(ZERO, []), (loops.powmod(g, j0, p), [ge(j0), lt(j0, p - 1)])]
    raise ToolLimit(f'no coordinates for {K}')

RADIX = None      # ('c', n): the concrete size n; ('g', b): all sizes b*4^(ly+1)
RCASES = [('c', 1), ('c', 2), ('c', 4), ('c', 8), ('c', 16), ('g', 8), ('g', 16)]      # every power of two
def radix_sizes(ctx):
    if RADIX[0] == 'c': return {'n': C(RADIX[1])}
    ly = sym('ly'); ctx.add(ge(ly))
    return {'n': exp(4, ly) * (4 * RADIX[1])}
def built(K, ctx, sizes=None):
    """construct K symbolically -> (ex, [(state with self, inplace scratch, out-of-place scratch)], n, all constructor outcomes)"""
    if sizes is None and RADIX is not None and K == 'Radix4': sizes = radix_sizes(ctx)
    if sizes is None and RADIX is not None and K == 'RadersAlgorithm':
        if RADIX[0] == 'c': sizes = {'p': C(RADIX[1])}
        else: ctx.add(ge(sym('p'), RADIX[1]))
    if K == 'RadersAlgorithm' and sizes is None and ctx.res.get(sid(sym('p')), (1, 0)) in ((2, 0), (4, 2)): sizes = {'p': C(2)}      # the even prime
    ex = KExec(PROG); ex.contractors = [radix.PrepContract()]
    ex, outs, args, n = construct(PROG, K, ctx=ctx, sizes=sizes, ex=ex)
    res = []
    for o in outs:
        if o.tag != 'ret' or o.st.ctx.infeasible(): continue
        st = o.st; setself(st, st.ret); st.ret = None
        for i in query(ex, PROG, K, st, 'iscr'):
            if i.tag != 'ret': continue
            s2 = st.copy(); s2.ctx = i.st.ctx
            for p in query(ex, PROG, K, s2, 'oscr'):
                if p.tag != 'ret': continue
                s3 = st.copy(); s3.ctx = p.st.ctx
                res.append((s3, i.st.ret, p.st.ret))
    return ex, res, n, outs

SCRATCHY = ('.iscr', '.oscr')
def scratchy(name): return name in ('slen',) or name.endswith(SCRATCHY)
def strip(ctx):
    """the same context without facts about scratch sizes (fewer assumptions: still sound)"""
    c = Ctx(); c.res = dict(ctx.res); c.dead = ctx.dead
    for f in ctx.f:
        if any(ATOMS[s].kind == 'sym' and scratchy(ATOMS[s].args[0]) for s in sample.cfree(f)): continue
        c.f.append(f)
    return c
def names(env): return {ATOMS[s].args[0]: int(v) for s, v in env.items() if "'" not in ATOMS[s].args[0] and '`' not in ATOMS[s].args[0]}

def witnesses(ctx, check=None, want=4):
    """concrete assignments of a context, smallest first; check filters"""
    res = []
    for _ in range(6):
        for e in ctx.envs():
            if check is not None and not check(e): continue
            d = names(e)
            if d not in res: res.append(d)
        if len(res) >= want: break
        ctx = ctx.copy(); ctx._env = []; ctx._nf = 0; ctx._tries = 0
    res.sort(key=lambda d: sum(d.values()))
    return res[:want]

class Result:
    def __init__(s, spec):
        s.spec = spec; s.obl = 0; s.ok = 0; s.fails = []; s.limits = []; s.called = set(); s.contracts = set(); s.cases = None; s.paths = []
        s.wall = 0; s.stats = {}; s.loops = {}; s.returns = 0; s.kinds = {}
    def fail(s, kind, what, ctx, span='', check=None, wit=None):
        s.obl += 1
        s.fails.append({'kind': kind, 'what': str(what)[:600], 'span': span, 'wit': wit if wit is not None else witnesses(ctx, check), 'facts': [str(f) for f in ctx.f][:40], 'res': {str(ATOMS[a]): v for a, v in ctx.res.items()}})
    def good(s, kind, k=1):
        s.obl += k; s.ok += k; s.kinds[kind] = s.kinds.get(kind, 0) + k
    def limit(s, what, ctx=None):
        s.obl += 1
        s.limits.append({'what': str(what)[:400], 'wit': witnesses(ctx) if ctx is not None else []})

def take(ex, R):
    R.called |= ex.called; R.contracts |= ex.contracts_used
def obs(ex, R, kinds, mark=0):
    """memory / inner-contract / purity obligations recorded by the executor"""
    for ob in ex.obs[mark:]:
        if ob.kind not in kinds: continue
        if ob.ok: R.good(ob.kind)
        else: R.fail(ob.kind, ob.what, ob.ctx if ob.ctx is not None else Ctx(), ob.span)

def numdiff(diff, thr=1e-9):
    def chk(e):
        try: return abs(float(trig.ev(diff, e))) > thr
        except Exception: return False
    return chk

def entry_bufs(ex, st, entry, n, isc, osc, L=None, OL=None, SL=None):
    """buffers with the given lengths (default: one chunk, sufficient scratch)"""
    L = n if L is None else L
    if entry == 'conv':
        bs = buffers(ex, st, x=L); return bs, [bs['x']], 'x'
    if SL is None:
        SL = sym('slen'); st.ctx.add(ge(SL, isc if entry == 'inplace' else osc))
    if entry == 'inplace':
        bs = buffers(ex, st, x=L, scr=SL); return bs, [bs['x'], bs['scr']], 'x'
    bs = buffers(ex, st, x=L, out=L if OL is None else OL, scr=SL)
    return bs, [bs['x'], bs['out'], bs['scr']], 'out'

def with_timeout(R, sec, fn):
    def h(*a): raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try: return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)

# ---------------------------------------------------------------- modes
def mode_func(R, K, entry, ctx, part, opts):
    """out[k] = sum_x cas(kx/n) in[x] for one chunk, or (chunks=True) for an arbitrary chunk of a batch; nothing else enters the result"""
    ex, bl, n, _ = built(K, ctx)
    tasks = []
    for st, isc, osc in bl:
        if K == 'Radix4' and RADIX[0] == 'g' and not opts.get('chunks'): ex.anno = radix.Layers(R, n, part if not opts.get('depth') else (0, 1))
        off = ZERO; L = n; extra = []
        if opts.get('chunks'):
            cc, ch = sym('cc'), sym('ch')
            st.ctx.add(ge(cc, 1)); L = cc * n; off = ch * n
            extra = [ge(ch), lt(ch, cc)]
        bs, args, o = entry_bufs(ex, st, entry, n, isc, osc, L=L)
        res = call_entry(ex, PROG, K, st, entry, args)
        for r in res:
            if r.st.ctx.infeasible(): continue
            if r.tag != 'ret':
                if part[0] == 0: R.fail('panic', f'{r.msg}', r.st.ctx, r.span)
                continue
            tasks.append((r, bs, o, off, extra))
    take(ex, R)
    if not tasks: R.limit('no returning path'); return
    ks, xs = coords(K, n)
    if opts.get('dirtyonly'): xs = []
    todo = [(t, kx) for t in tasks for kx in ks]
    p, P_ = part
    D = opts.get('depth', 0)
    if D:
        sub, P_ = p % (1 << D), P_ >> D
        p = p >> D
    for i, ((r, bs, o, off, extra), (k, kc)) in enumerate(todo):
        if i % P_ != p: continue
        R.returns += 1
        if R.returns == 1: R.paths += witnesses(r.st.ctx, want=2)
        node = r.st.mem[bs[o].base[1]]
        before = prove.STAT['cases']; leaf = prove.STAT['leaf']
        for att in (0, 1):
            c = strip(r.st.ctx) if att == 0 else r.st.ctx
            c = c.plus(*kc, *extra)
            try:
                f = prove.goal(c, node, k, 'x', xs, n, off=off, path=(sub, D) if D else None)
            except ToolLimit as e:
                if att == 0: continue
                R.limit(f'output {k}: {e}', c); f = None; break
            if not f: break
        if f is None: continue
        cases = prove.STAT['cases'] - before
        for z in f[:4]:
            if z[0] == 'value':
                kk, x, diff = z[2]
                R.fail('value', f'out[{kk}] has coefficient of {x} off by {diff}', z[1], check=numdiff(diff))
            else:
                t = z[2]
                R.fail(z[0], f'out[{off + k}] depends on {t.name}[{t.idx}] with coefficient {t.coef}', z[1], check=None if t.params else numdiff(t.coef))
        R.good('functional', max(0, cases - len([z for z in f if z[0] == 'value'])))
        R.good('independent of scratch and output contents', max(0, prove.STAT['leaf'] - leaf - len([z for z in f if z[0] != 'value'])))

class ChunkCut:
    """contract of a per-chunk function f(&self, chunk, scratch) / f(&self, in, out, scratch): exactly one chunk goes in, its transform
    comes out, scratch and (out of place) input end up arbitrary. Proved for single chunks by C01..C07; `allowed` are the functions that
    the single-chunk call uses."""
    def __init__(s, n, isc, osc): s.n, s.isc, s.osc = n, isc, osc; s.allowed = None; s.used = []
    def contract(s, ex, st, fn, av):
        f = PROG.fns[fn]
        if ' as rustdht::Dht' in f['inst'] or len(av) < 3 or len(av) > 4: return None
        a0 = av[0]
        if not (isinstance(a0, PRef) and a0.loc == ('loc', 'g', 'self', ())): return None
        if not all(isinstance(x, SR) for x in av[1:]): return None
        ch = av[1]
        if ch.base[0] != 'r' or not st.ctx.prove(eq(ch.len, s.n)): return None
        role = 'inplace' if len(av) == 3 else 'oop'
        if role == 'inplace' and av[2].base[0] == 'r' and not st.ctx.prove(ge(av[2].len, s.isc)): return None
        if role == 'oop' and not (av[2].base[0] == 'r' and av[2].base != ch.base and st.ctx.prove(eq(av[2].len, s.n)) and st.ctx.prove(ge(av[3].len, s.osc))): return None
        if s.allowed is not None and (f['inst'], role) not in s.allowed: return None
        s.used.append((f['inst'], role))
        d = DynD('chunk', s.n, s.isc, s.osc)
        def run(ex, st, a, f):
            if role == 'inplace':
                models.junkfill(ex, st, a[2])
                models.transform(ex, st, d, st.mem[ch.base[1]], ch.off, ch, s.n)
            else:
                models.junkfill(ex, st, a[3])
                models.transform(ex, st, d, st.mem[ch.base[1]], ch.off, a[2], s.n)
                models.junkfill(ex, st, ch)
            return [(st, UNIT)]
        return run

def mode_batch(R, K, entry, ctx, part, opts):
    """every chunk of a batch of any size receives its own transform; per-chunk functions by their contract"""
    ex, bl, n, _ = built(K, ctx)
    todo = []
    for st, isc, osc in bl:
        # which functions a single-chunk call uses (those are the ones C01..C07 verify)
        allowed = set()
        for e in ('inplace', 'oop'):
            x = KExec(PROG); x.contractors = ex.contractors; x.chunkcut = cut = ChunkCut(n, isc, osc); s1 = st.copy()
            bs, args, o = entry_bufs(x, s1, e, n, isc, osc)
            before = len(cut.used)
            rs = call_entry(x, PROG, K, s1, e, args)
            if len([r for r in rs if r.tag == 'ret']) == 1 and len(cut.used) == 1: allowed.add(cut.used[0])
        ex.chunkcut = ChunkCut(n, isc, osc); ex.chunkcut.allowed = allowed
        cc, ch = sym('cc'), sym('ch')
        st.ctx.add(ge(cc, 1)); L = cc * n; off = ch * n
        bs, args, o = entry_bufs(ex, st, entry, n, isc, osc, L=L)
        for r in call_entry(ex, PROG, K, st, entry, args):
            if r.st.ctx.infeasible(): continue
            if r.tag != 'ret': R.fail('panic', f'{r.msg}', r.st.ctx, r.span); continue
            R.returns += 1
            if R.returns == 1: R.paths += witnesses(r.st.ctx, want=2)
            k, x = sym('k'), sym('xx')
            c = r.st.ctx.plus(ge(ch), lt(ch, cc), ge(k), lt(k, n))
            before = prove.STAT['cases']
            f = prove.goal(c, r.st.mem[bs[o].base[1]], k, 'x', [(x, [ge(x), lt(x, n)])], n, off=off)
            for z in f[:4]:
                if z[0] == 'value':
                    kk, xx, diff = z[2]
                    R.fail('value', f'chunk ch: out[{kk}] has coefficient of {xx} off by {diff}', z[1], check=numdiff(diff))
                else:
                    t = z[2]
                    R.fail(z[0], f'out[{off + k}] depends on {t.name}[{t.idx}] with coefficient {t.coef}', z[1], check=None if t.params else numdiff(t.coef))
            R.good('functional', max(0, prove.STAT['cases'] - before - len(f)))
        for u in set(ex.chunkcut.used): R.contracts.add(f'{u[0]} ({u[1]}, proved by C01..C07)')
    take(ex, R)
    if not R.returns: R.limit('no returning path')

def inexact(p, seen, depth=0):
    """f32 roundings and unrecognised rational constants inside a value"""
    for m, c in p.t.items():
        if reals.coarse(c): return f'constant {float(c)!r} is not a correctly rounded mathematical constant'
        for a, e in m:
            if a in seen: continue
            seen.add(a)
            A = ATOMS[a]
            if A.kind == 'r32': return f'value rounded to single precision: {A}'
            if A.kind == 'special': return f'constant {A}'
            for x in A.args:
                if isinstance(x, Poly) and depth < 50:
                    r = inexact(x, seen, depth + 1)
                    if r: return r
    return None
def node_entries(nd, seen):
    while nd is not None and id(nd) not in seen:
        seen.add(id(nd))
        if isinstance(nd, Bulk): yield from nd.entries; nd = nd.prev
        elif isinstance(nd, Loop): yield from nd.ents(); nd = nd.pre()
        elif isinstance(nd, Fill):
            for v in nd.vals.values(): yield Entry((), (), ZERO, (), v)
            return
        else: return
def mode_const(R, K, entry, ctx, part, opts):
    """no value that reaches the data has been rounded to single precision or carries an unrecognised constant"""
    ex, bl, n, _ = built(K, ctx)
    for st, isc, osc in bl:
        bs, args, o = entry_bufs(ex, st, entry, n, isc, osc)
        tabs = {r: nd for r, nd in st.mem.items() if r not in [b.base[1] for b in bs.values()]}
        for r, nd in tabs.items(): _scan(R, f'table {r.name}', nd, st.ctx)
        for r in call_entry(ex, PROG, K, st, entry, args):
            if r.st.ctx.infeasible(): continue
            if r.tag != 'ret': R.limit(f'panics: {r.msg}', r.st.ctx); continue
            R.returns += 1
            if R.returns == 1: R.paths += witnesses(r.st.ctx, want=2)
            _scan(R, 'data', r.st.mem[bs[o].base[1]], r.st.ctx)
            if bs[o].base != bs['x'].base: _scan(R, 'data', r.st.mem[bs['x'].base[1]], r.st.ctx)
    take(ex, R)
    if not R.returns: R.limit('no returning path')
def _scan(R, what, nd, ctx):
    seen = set()
    for e in node_entries(nd, set()):
        bad = inexact(e.val, seen)
        if bad: R.fail('precision', f'{what}: {bad}', ctx); return
        R.good('exact constants')
        todo = [ATOMS[a] for m in e.val.t for a, _ in m]
    # nodes read by the values
    nodes = []
    def walk(p, depth=0):
        for m in p.t:
            for a, _ in m:
                A = ATOMS[a]
                if ('n', a) in seen: continue
                seen.add(('n', a))
                if A.kind == 'rd': nodes.append(A.args[0])
                for x in A.args:
                    if isinstance(x, Poly) and depth < 50: walk(x, depth + 1)
    done = set()
    for e in node_entries(nd, set()): walk(e.val)
    while nodes:
        x = nodes.pop()
        if id(x) in done: continue
        done.add(id(x))
        for e in node_entries(x, set()):
            bad = inexact(e.val, seen)
            if bad: R.fail('precision', f'{what}: {bad}', ctx); return
            R.good('exact constants')
            walk(e.val)

def documented(entry, n, L, OL, SL, req):
    bad = [lt(L, n), ne(sym('r'), 0) if False else None]
    return bad

def mode_gen(R, K, entry, ctx, part, opts):
    """a call with arbitrary lengths: every panic is a documented one, every return a well-sized call; memory, inner and purity obligations"""
    want = opts['want']
    ex, bl, n, outs = built(K, ctx)
    got = 0
    for st, isc, osc in bl:
        req = isc if entry != 'oop' else osc
        cb, r0, OL, SL = sym('cb'), sym('rem'), sym('olen'), sym('slen')
        st.ctx.add(ge(cb), ge(r0), lt(r0, n), ge(OL), ge(SL))
        if opts.get('ok'):
            st.ctx.add(ge(cb, 1)); L = cb * n; st.ctx.add(ge(SL, req)); OL = L; r0 = ZERO
        else: L = cb * n + r0
        bs, args, o = entry_bufs(ex, st, entry, n, isc, osc, L=L, OL=OL, SL=SL)
        tabs = {r: nd for r, nd in st.mem.items() if r not in [b.base[1] for b in bs.values()]}
        gl = dict(st.globals)
        res = call_entry(ex, PROG, K, st, entry, args)
        bad = [lt(cb, 1), ne(r0, 0)]
        if entry == 'oop': bad.append(ne(OL, L))
        if entry != 'conv': bad.append(lt(SL, req))
        for r in res:
            if r.st.ctx.infeasible(): continue
            got += 1
            c = r.st.ctx
            if r.tag == 'ret': R.returns += 1
            R.paths += witnesses(c, want=1)
            if 'panic' in want:
                if r.tag == 'ret':
                    for b in bad:
                        if c.prove(neg(b)): R.good('accept')
                        else: R.fail('accept', f'returns although {b}', c.plus(b), r.span)
                else:
                    if c.prove(disj(bad)): R.good('reject')
                    else: R.fail('reject', f'panics ({r.msg}) on a well-sized call', c.plus(*[neg(b) for b in bad]), r.span)
            if 'nopanic' in want:
                if r.tag == 'ret': R.good('no panic')
                else: R.fail('panic', f'panics ({r.msg}) although the scratch suffices', c, r.span)
            if 'pure' in want and r.tag == 'ret':
                for t, nd in tabs.items():
                    if r.st.mem.get(t) is nd: R.good('table unchanged')
                    else: R.fail('purity', f'table {t} modified', c)
                for g, v in gl.items():
                    if r.st.globals.get(g) is v: R.good('transform unchanged')
                    else: R.fail('purity', f'{g} modified', c)
    take(ex, R)
    obs(ex, R, [k for k in want if k in ('mem', 'inner', 'purity')])
    if got == 0: R.limit('no path')

def mode_ctor(R, K, entry, ctx, part, opts):
    """constructor: panics exactly on unusable parameters, reports the promised length"""
    sizes = {}
    if K == 'SplitRadix':
        q, h = sym('q'), sym('hh'); ctx.add(ge(q, 1), ge(h, 1)); sizes = {'q': q, 'half': h}
        ok = eq(h, q * 2)
    elif K == 'Radix4':
        if RADIX is not None: ok = True; sizes = radix_sizes(ctx)
        else:
            # the remaining lengths: no power of two
            ok = False; ctx.add(('op', ('pow2', sym('n')), False))
    elif K == 'RadersAlgorithm': ok = ('op', ('prime', sym('p')), True)
    else: ok = True
    ex, outs, args, n = construct(PROG, K, ctx=ctx, sizes=sizes)
    for o in outs:
        if o.st.ctx.infeasible(): continue
        c = o.st.ctx
        R.paths += witnesses(c, want=2)
        if o.tag == 'ret':
            R.returns += 1
            if ok is True or c.prove(ok): R.good('accepts')
            else: R.fail('ctor', 'accepts unusable parameters', c if ok is False else c.plus(neg(ok)))
            st = o.st; setself(st, st.ret); st.ret = None
            for l in query(ex, PROG, K, st, 'len'):
                if l.tag != 'ret': R.fail('len', 'len() panics', l.st.ctx); continue
                if l.st.ret == n or l.st.ctx.prove(eq(l.st.ret, n)): R.good('length')
                else: R.fail('len', f'len() = {l.st.ret}, promised {n}', l.st.ctx.plus(ne(l.st.ret, n)))
        else:
            if ok is False or ok is not True and c.prove(neg(ok)): R.good('rejects')
            else: R.fail('ctor', f'panics ({o.msg}) on usable parameters', c if ok is True else c.plus(ok), o.span)
    take(ex, R)
    obs(ex, R, ['mem'])

def mode_prep(R, K, entry, ctx, part, opts):
    """contract of prepare_radix4 / prepare_radix4_reversed (see radix.PrepContract), by induction on the recursion depth"""
    rev, deep = entry == 'rev', opts['deep']
    fns = [i for i, f in enumerate(PROG.fns) if radix.prep_name(f) == entry]
    if len(fns) != 1: raise ToolLimit('prepare_radix4 not found')
    ex = KExec(PROG)
    st = State(); st.ctx = ctx
    bb, stride, IL, OL = sym('bb'), sym('stride'), sym('ilen'), sym('olen')
    r = sym('rr') + 1 if deep else ZERO
    size = bb * exp(4, r)
    ctx.add(ge(bb, 1), ge(stride, 1), ge(sym('rr')))
    for f in (ge(bb * exp(4, sym('rr')), 1), ge(stride * bb * exp(4, sym('rr')), stride)):
        if not ctx.prove(f): raise ToolLimit('size lemma')
        ctx.add(f)
    ctx.add(ge(IL, stride * (size - 1) + 1), ge(OL, size))
    ex.contractors = [radix.PrepContract(below=r)]
    bs = buffers(ex, st, x=IL, out=OL)
    fn = fns[0]
    if PROG.fns[fn]['argc'] != 5: raise ToolLimit('signature of prepare_radix4')
    outs = ex.call_root(st, fn, [size, bb, bs['x'], bs['out'], stride])
    for o in outs:
        c = o.st.ctx
        if c.infeasible(): continue
        if o.tag != 'ret': R.limit(f'contract of {entry}: panics ({o.msg})', c); continue
        R.returns += 1
        node = o.st.mem[bs['out'].base[1]]
        if o.st.mem[bs['x'].base[1]] is not st.mem[bs['x'].base[1]]: R.limit('input modified'); continue
        goals = []
        v = sym('v')
        if not deep: goals.append((v, [ge(v), lt(v, size)], v))
        else:
            Q = bb * exp(4, sym('rr')); t = radix.TAU(bb, sym('rr'), v)
            for p in range(4): goals.append((Q * p + v, [ge(v), lt(v, Q)], t * 4 + p if p < 3 else (Q - 1 - t) * 4 + 3))
        for idx, cs, t in goals:
            want = stride * (size - 1 - t if rev else t)
            for c2, val in forall_cases(c.plus(*cs), lambda c: lookup(c, node, idx, ())):
                a = [ATOMS[x] for m in val.t for x, _ in m]
                if len(val.t) == 1 and len(a) == 1 and a[0].kind == 'cell' and a[0].args[0] == 'x' and (a[0].args[1] == want or c2.prove(eq(a[0].args[1], want))): R.good('contract')
                else: R.limit(f'contract of {entry}: output[{idx}] = {val}, expected x[{want}]', c2)
        z = sym('fz')
        for c2, val in forall_cases(c.plus(ge(z, size), lt(z, OL)), lambda c: lookup(c, node, z, ())):
            if val == cell('out', z): R.good('frame')
            else: R.limit(f'frame of {entry}: output[{z}] = {val}', c2)
    take(ex, R)
    obs(ex, R, opts.get('want', ('mem', 'pre')))
    for o in ex.obs:
        if o.kind == 'panic' and not o.ok: R.limit(f'panic: {o.what}')
def mode_lemma(R, K, entry, ctx, part, opts):
    for what, ok in radix.lemmas():
        if ok: R.good('lemma')
        else: R.limit(what)

def mode_numth(R, K, entry, ctx, part, opts):
    """contracts of the number-theory functions behind the prime transform, and the lemmas that turn them into the generator fact"""
    if entry == 'lemmas':
        n, err = numth.lean(f'{V}/lemmas/NumberTheory.lean')
        if err: R.limit(f'lemma file: {err}')
        else: R.good('lemma (lean)', n); R.returns += 1
        if numth.sqrt32(): R.good('lemma (exhaustive)')
        else: R.limit('single-precision square root lemma')
        return
    g = numth.verify(PROG, entry)
    for _ in g.ob: R.good('contract')
    for b in g.bad: R.limit(f'{entry}: {b}')
    R.returns += g.returns
    R.called |= {PROG.fns[i]['inst'] if isinstance(i, int) else i for i in g.called}
    ctxmod.STATS['queries'] += g.queries; ctxmod.STATS['z3'] += g.queries; ctxmod.STATS['time'] += g.solver
MODES = {'numth': mode_numth, 'prep': mode_prep, 'lemma': mode_lemma, 'func': mode_func, 'batch': mode_batch, 'const': mode_const, 'gen': mode_gen, 'ctor': mode_ctor}

def run_job(spec):
    """one job in a worker process"""
    R = Result(spec)
    t0 = time.time()
    s0 = dict(ctxmod.STATS)
    ctx = Ctx()
    global RADIX
    RADIX = spec.get('radix')
    for nm, v in spec['res'].items(): ctx.res[sid(sym(nm))] = tuple(v)
    try:
        with_timeout(R, spec.get('limit', 300), lambda: MODES[spec['mode']](R, spec['K'], spec['entry'], ctx, spec['part'], spec['opts']))
    except NeedCase as e:
        nm = ATOMS[e.sym].args[0]
        m0, r0 = spec['res'].get(nm, (1, 0))
        M = lcm(m0, e.m)
        if M == m0 or M > 48 or "'" in nm or '`' in nm: R.limit(f'residue {nm} mod {e.m}')
        else:
            R = Result(spec)
            R.cases = (nm, M, [r for r in range(M) if r % m0 == r0 % m0])
    except ToolLimit as e: R.limit(f'{e}')
    except Timeout: R.limit('time limit')
    except RecursionError: R.limit('recursion')
    except Split as e: R.limit(f'undecided split {e.cond}')
    except Exception as e:
        import traceback
        R.limit(f'internal: {type(e).__name__}: {e} ' + traceback.format_exc(limit=-3)[-500:])
    R.loops = {f'{k[0]}@bb{k[1]}': v for k, v in loops.LOOPS.items()}
    R.wall = time.time() - t0
    R.stats = {k: ctxmod.STATS[k] - s0.get(k, 0) for k in ctxmod.STATS}
    return R

def schedule(jobs, deadline, ncpu=8, verbose=False):
    """run jobs (and the residue cases they ask for) -> results"""
    done = []
    ctxm = mp.get_context('fork')
    pool = ctxm.Pool(ncpu, maxtasksperchild=40)
    pend = [(j, pool.apply_async(run_job, (j,))) for j in jobs]
    try:
        while pend:
            rest = []
            for j, a in pend:
                if not a.ready(): rest.append((j, a)); continue
                try: R = a.get()
                except Exception as e:
                    R = Result(j); R.limit(f'worker: {e}')
                if R.cases:
                    nm, M, rs = R.cases
                    for r in rs:
                        k = dict(j); k['res'] = dict(j['res']); k['res'][nm] = (M, r)
                        rest.append((k, pool.apply_async(run_job, (k,))))
                    continue
                if verbose and (verbose > 1 or R.fails or R.limits or R.wall > 30): print(f"  {j['K']} {j['entry']} {j['mode']} {j['res']} {j['part']} {j.get('radix')} {R.wall:.1f}s obl {R.obl} ok {R.ok} fails {[(f['kind'], f['what'][:200], f['wit'][:1], f['span']) for f in R.fails[:2]]} limits {[(l['what'][:300]) for l in R.limits[:2]]}", flush=True)
                done.append(R)
            pend = rest
            if time.time() > deadline:
                for j, a in pend:
                    R = Result(j); R.limit('time limit of the check'); done.append(R)
                break
            time.sleep(0.05)
    finally:
        pool.terminate(); pool.join()
    return done

def jobs_for(prop, tier):
    J = []
    def add(K, entry, mode, opts=None, parts=1, **kw):
        if K == 'Radix4' and mode not in ('prep', 'lemma') and 'radix' not in kw:
            for rc in RCASES: add(K, entry, mode, opts, 4 if mode == 'func' and rc[0] == 'g' and not (opts or {}).get('chunks') else 1, radix=rc, **kw)
            if mode == 'ctor': add(K, entry, mode, opts, radix=None)
            elif not any(j['mode'] == 'prep' for j in J):
                for e in ('fwd', 'rev'):
                    for d in (False, True): add(K, e, 'prep', {'deep': d})
                add(K, '', 'lemma')
            return
        if K == 'RadersAlgorithm' and mode == 'func' and 'radix' not in kw:
            # the transform network for p < 5 has empty loops and repeated powers: separate concrete cases
            for rc in (('c', 2), ('c', 3), ('g', 5)): add(K, entry, mode, opts, parts, radix=rc, **kw)
            return
        for i in range(parts): J.append(dict(prop=prop, K=K, entry=entry, mode=mode, opts=opts or {}, part=(i, parts), res={}, limit=kw.get('limit', 400), radix=kw.get('radix')))
    both = ('inplace', 'oop')
    F = {'C01': list(FIXED), 'C02': ['DhtNaive'], 'C03': ['MixedRadix'], 'C04': list(STEP), 'C05': ['Radix4'], 'C06': ['SplitRadix'], 'C07': ['RadersAlgorithm']}
    PARTS = {'MixedRadix': (4, 0), 'SplitRadix': (4, 0), 'MixedRadix6xn': (6, 0), 'MixedRadix5xn': (5, 0), 'MixedRadix4xn': (4, 0), 'Butterfly16': (4, 0)}
    if prop in F:
        for K in F[prop]:
            for e in both:
                p, d = PARTS.get(K, (1, 0)); add(K, e, 'func', {'depth': d}, p << d)
            if prop == 'C07':
                add(K, '', 'ctor')
                for e in ('factors', 'root', 'power', 'lemmas'): add(K, e, 'numth')
    elif prop == 'C08':
        for K in reversed(KINDS):
            for e in both + ('conv',):
                if K in FIXED:
                    p, d = PARTS.get(K, (1, 0)); add(K, e, 'func', {'depth': d, 'chunks': True}, p << d)
                elif K == 'Radix4':
                    for rc in RCASES: add(K, e, *(('batch', None) if rc[0] == 'g' else ('func', {'chunks': True})), radix=rc)
                    if e == 'inplace':
                        for d in (False, True): add(K, 'fwd', 'prep', {'deep': d}); add(K, 'rev', 'prep', {'deep': d})
                        add(K, '', 'lemma')
                else: add(K, e, 'batch')
    elif prop == 'C09':
        for K in reversed(KINDS):
            for e in both + ('conv',): add(K, e, 'gen', {'want': ('panic',)})
    elif prop == 'C10':
        for K in reversed(KINDS):
            for e in both + ('conv',): add(K, e, 'gen', {'want': ('mem',)})
    elif prop == 'C11':
        for K in reversed(KINDS):
            for e in both:
                add(K, e, 'gen', {'want': ('nopanic', 'inner'), 'ok': True})
                p, d = PARTS.get(K, (1, 0)); add(K, e, 'func', {'dirtyonly': True}, p)
    elif prop == 'C12':
        for K in reversed(KINDS): add(K, '', 'ctor')
    elif prop == 'C13':
        for K in reversed(KINDS):
            for e in both: add(K, e, 'const')
    elif prop == 'C14':
        for K in reversed(KINDS):
            for e in both + ('conv',): add(K, e, 'gen', {'want': ('pure', 'purity')})
    return J

def decide(prop, tier, deadline=None, verbose=False, data=None, kinds=None):
    global PROG
    PROG = Prog(data or extract())
    J = jobs_for(prop, tier)
    if kinds: J = [j for j in J if j['K'] in kinds]
    try: g = generic.extract32(V, cargo)
    except Exception as e: g = e
    rs = schedule(J, deadline or time.time() + 500, verbose=verbose)
    rs += mode_generic(prop, rs, g)
    return rs

def mode_generic(prop, rs, g):
    """one obligation per function of the crate that the other obligations went through: it does not depend on the element type"""
    used = set().union(*(R.called for R in rs)) if rs else set()
    t = time.time()
    by = {}
    def of(inst):
        K = next((k for k in sorted(KINDS, key=len, reverse=True) if k in inst), rs[0].spec['K'])
        if K not in {R.spec['K'] for R in rs}: K = rs[0].spec['K']
        if K not in by: by[K] = Result(dict(prop=prop, K=K, entry='inplace', mode='generic', opts={}, part=(0, 1), res={}, limit=0, radix=None)); by[K].returns = 1
        return by[K]
    try:
        if isinstance(g, Exception): raise g
        bad = generic.check(PROG.d, g, used)
    except Exception as e:
        of('').limit(f'worker: f32 instantiation: {e}'); bad = []
    for inst, w in bad:
        R = of(inst); R.called.add(inst)
        if w is None: R.good('generic')
        else: R.limit(f'{inst} depends on the element type: {w}')
    for R in by.values(): R.wall = (time.time() - t) / len(by)
    return list(by.values())

if __name__ == '__main__':
    t = time.time()
    data = json.load(open('/tmp/mir.json')) if os.environ.get('VF_MIR') else None
    rs = decide(sys.argv[1], 'quick', verbose=int(os.environ.get('VF_V','1')), data=data, kinds=sys.argv[2:] or None, deadline=time.time() + float(os.environ.get('VF_DEADLINE', 600)))
    print(sys.argv[1], 'jobs', len(rs), 'obl', sum(r.obl for r in rs), 'ok', sum(r.ok for r in rs), 'fails', sum(len(r.fails) for r in rs), 'limits', sum(len(r.limits) for r in rs), 'cpu', round(sum(r.wall for r in rs)), 'wall', round(time.time() - t, 1))
