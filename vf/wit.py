"""Concrete assignments found by the verifier -> replay cases on the real code."""
OPS = {'C08': 'same', 'C09': 'panic', 'C10': 'mem', 'C12': 'new', 'C14': 'hist'}
ENT = {'inplace': 'inp', 'oop': 'oop', 'conv': 'conv', '': 'inp'}
BIG = 1 << 22

def cases(prop, spec, w):
    """replay specs for assignment w of a job; [] when it is too large to run"""
    K = spec['K']
    g = w.get
    def scr(x): return f"{g(x + '.iscr', 0)}:{g(x + '.oscr', 0)}"
    a = b = 0; inner = 'n'
    if K.startswith('Butterfly'): n = int(K[9:])
    elif K in ('DhtNaive', 'Radix4'):
        rc = spec.get('radix')
        if rc and 'n' not in w:
            if rc[0] == 'g' and 'ly' not in w: return []
            w = dict(w); w['n'] = rc[1] if rc[0] == 'c' else rc[1] * 4 ** (min(w['ly'], 30) + 1)
        if 'n' not in w: return []
        a = n = w['n']
    elif K == 'MixedRadix':
        if 'w' not in w or 'h' not in w: return []
        a, b = w['w'], w['h']; n = a * b; inner = f"x{scr('W')}/{scr('H')}"
    elif K == 'SplitRadix':
        if 'q' not in w: return []
        a = w['q']; b = g('hh', 2 * a); n = 4 * a; inner = f"x{scr('Q')}/{scr('H')}"
    elif K == 'RadersAlgorithm':
        rc = spec.get('radix')
        if rc and rc[0] == 'c': w = dict(w); w['p'] = rc[1]
        if 'p' not in w: return []
        a = w['p'] - 1; n = a + 1; inner = f"x{scr('I')}"
    else:
        if 'h' not in w: return []
        a = w['h']; n = a * int(K[10]); inner = f"x{scr('H')}"
    op = OPS.get(prop, 'fn')
    if prop == 'C11': op = 'hungry' if inner != 'n' else 'same'
    if n < 1 and op != 'new': return []
    ch = max(1, g('cc', 1))
    if spec['mode'] == 'gen' and prop not in ('C09', 'C10'): ch = max(1, g('cb', 1))
    sc = sum(v for k, v in w.items() if k.endswith(('scr', 'slen')))
    if n * ch + sc > BIG or (K == 'DhtNaive' and n > 12000) or (op == 'hist' and n > 4000): return []
    base = f'op={op} kind={K} a={a} b={b} inner={inner} entry={ENT[spec["entry"]]} seed=1 ty={spec.get("ty", "f64")}'
    if op in ('panic', 'mem'):
        if op == 'mem' and spec['entry'] == 'conv': return []
        cb, rem = g('cb', 1), g('rem', 0)
        bl = cb * n + rem; ol = g('olen', bl)
        if max(bl, ol) > BIG: return []
        sl = 1_000_000_000 + g('slen', 0) if 'slen' in w else 1_000_000
        r = [f'{base} chunks=1 extra=0 vec=rand bl={bl} ol={ol} sl={sl}']
        if g('slen', 0): r.append(f'{base} chunks=1 extra=0 vec=rand bl={bl} ol={ol} sl=1000000')
        return r
    if op == 'new': return [f'{base} chunks=1 extra=0 vec=rand bl=0 ol=0 sl=0']
    return [f'{base} chunks={ch} extra={e} vec=rand bl=0 ol=0 sl=0' for e in (0, 3)]
