"""Directed search on the real code for obligations that were neither discharged nor refuted by a runnable assignment:
sizes, chunk counts and scratch lengths built from the integer constants of the extracted code."""
import random
from . import wit, replay

def constants(prog, tys=('usize', 'u64', 'u32', 'i64', 'i32', 'isize', 'u16', 'u8')):
    """integer constants of the crate's own functions"""
    out = {1 << 8, 1 << 16}      # widths of narrow integers
    def walk(x):
        if isinstance(x, dict):
            if x.get('c') == 'alloc' and not x.get('prov') and isinstance(x.get('bytes'), list) and len(x['bytes']) in (1, 2, 4, 8) and all(isinstance(b, int) for b in x['bytes']):
                v = int.from_bytes(bytes(x['bytes']), 'little')
                if 0 < v < 1 << 40: out.add(v)
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    for f in prog.fns:
        if f.get('krate') == 'rustdht' and f.get('blocks'): walk(f['blocks'])
    return out

def isp(n):
    if n < 2: return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0: return n == q
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True
def nextp(n):
    while not isp(n): n += 1
    return n

def assignments(K, cs, rnd, top=1 << 19):
    """an endless stream of assignments for a kind"""
    seeds = sorted({c + d for c in cs for d in (-1, 0, 1) if 1 <= c + d <= top})
    big = [c for c in seeds if c > 12] or seeds
    def size(lim, odd=None):
        r = rnd.random()
        if r < .35 and seeds: n = rnd.choice(big if rnd.random() < .7 else seeds)
        elif r < .5 and seeds: n = rnd.choice(seeds) * rnd.choice((2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 32, 64))
        elif r < .6: n = (1 << rnd.randrange(0, 17)) + rnd.choice((-1, 0, 0, 1))
        elif r < .7: n = rnd.randrange(1, 40)
        else: n = int(2 ** rnd.uniform(0, 16))
        return max(1, min(n, lim))
    def scratch():
        r = rnd.random()
        return 0 if r < .3 else rnd.choice(seeds or [1]) if r < .5 else int(2 ** rnd.uniform(0, 18))
    while True:
        w = {}
        if K in ('DhtNaive',): n = w['n'] = size(9000)
        elif K == 'Radix4': n = w['n'] = 1 << rnd.randrange(0, 20)
        elif K == 'MixedRadix':
            a, b = size(3000), size(3000)
            if rnd.random() < .3: b = size(8)
            elif rnd.random() < .3: a = size(8)
            while a * b > top: a, b = max(1, a // 2), max(1, b // 2)
            w.update(w=a, h=b); n = a * b
        elif K == 'SplitRadix': q = w['q'] = size(top // 4); n = 4 * q
        elif K == 'RadersAlgorithm': p = w['p'] = nextp(size(top)); n = p
        elif K.startswith('Butterfly'): n = int(K[9:])
        else: h = w['h'] = size(top // 6); n = h * int(K[10])
        for x in 'WHQI': w[x + '.iscr'] = scratch(); w[x + '.oscr'] = scratch()
        small = n < 2000
        w['cc'] = w['cb'] = 1 if not small or rnd.random() < .5 else rnd.choice([2, 3, 4, 5, 7, 8, 9, 16] + [c for c in seeds if c * n < 1 << 17][:40])
        if rnd.random() < .5:
            w['rem'] = rnd.choice((0, 0, 1, n - 1, n // 2)) if n > 1 else 0
            if rnd.random() < .3: w['cb'] = rnd.choice((0, w['cb']))
            if rnd.random() < .4: w['olen'] = max(0, w['cb'] * n + w['rem'] + rnd.choice((0, 1, -1, n, -n)))
            if rnd.random() < .4: w['slen'] = rnd.choice((0, 1, n, max(0, n - 1), n + 1, 2 * n))
        yield w

def search(prog, prop, specs, bins, stop, seed=1):
    """-> ((variant, binary, case, message) or None, number of cases run)"""
    import time
    rnd = random.Random(seed)
    cs = constants(prog)
    jobs = {}
    for s in specs:
        if s['mode'] in ('prep', 'lemma', 'numth', 'generic'): s = dict(s, entry='inplace', mode='func', ty='f32' if s['mode'] == 'generic' else 'f64')
        jobs[(s['K'], s['entry'], s.get('ty'))] = dict(s, radix=None)
    if not jobs: return None, 0
    gens = [(sp, assignments(sp['K'], cs, rnd)) for sp in jobs.values()]
    seen = set(); n = 0
    vs = list(bins.items())
    while time.time() < stop:
        todo = []
        for _ in range(4000):
            sp, g = gens[rnd.randrange(len(gens))]
            for c in wit.cases(prop, sp, next(g)):
                if c not in seen: seen.add(c); todo.append(c)
            if len(todo) >= 256: break
        if not todo: break
        v, b = vs[(n // 256) % len(vs)]
        for c, (ok, out) in zip(todo, replay.run_specs(b, todo, stop)):
            if ok is None: continue
            n += 1
            if not ok: return (v, b, c, out), n
    return None, n
