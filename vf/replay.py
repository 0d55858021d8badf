"""Runs the replay harness (real code, bounded case sets) for one property."""
import os, subprocess, time, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NSH = 8

def _env():
    e = dict(os.environ); e.pop('RUSTFLAGS', None); e.pop('RUSTC_WORKSPACE_WRAPPER', None)
    return e

def build(variant):
    """variant: dev (debug assertions, overflow checks), release, asan. Returns binary path; raises on failure."""
    e = _env(); e['CARGO_TARGET_DIR'] = f'{V}/build/replay'
    if variant == 'asan':
        e['CARGO_TARGET_DIR'] = f'{V}/build/replay-asan'
        e['RUSTFLAGS'] = '-Zsanitizer=address'
        cmd = ['cargo', '+nightly', 'build', '--offline', '--release', '--target', 'x86_64-unknown-linux-gnu']
        out = f'{V}/build/replay-asan/x86_64-unknown-linux-gnu/release/replay'
    elif variant == 'release':
        cmd = ['cargo', 'build', '--offline', '--release']; out = f'{V}/build/replay/release/replay'
    else:
        cmd = ['cargo', 'build', '--offline']; out = f'{V}/build/replay/debug/replay'
    p = subprocess.run(cmd, cwd=f'{V}/replay', env=e, capture_output=True, text=True)
    if p.returncode: raise RuntimeError('replay build failed:\n' + p.stderr[-4000:])
    return out

def run_case(binary, spec, timeout=60):
    """True (passes) / False (fails) plus output, for one case"""
    e = _env(); e['ASAN_OPTIONS'] = 'detect_leaks=0'
    try:
        p = subprocess.run([binary, 'case', spec], capture_output=True, text=True, timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return False, f'no return within {timeout} s'
    return p.returncode == 0, (p.stdout + p.stderr)[-3000:]

def run_specs(binary, specs, stop, timeout=20):
    """many single cases in parallel -> [(True / False / None when not finished, output)]"""
    from concurrent.futures import ThreadPoolExecutor
    def one(s):
        if time.time() > stop: return None, 'not run'
        ok, out = run_case(binary, s, timeout)
        if not ok and out.startswith('no return within'): return None, out
        return ok, out
    with ThreadPoolExecutor(NSH) as ex: return list(ex.map(one, specs))

def run_cases(binary, prop, tier, seed, timeout):
    """All shards of one property. -> (cases, fails: [(spec, message)], sample)"""
    e = _env(); e['ASAN_OPTIONS'] = 'detect_leaks=0'
    ps = [subprocess.Popen([binary, prop, tier, str(seed), str(i), str(NSH)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e) for i in range(NSH)]
    t0 = time.time(); cases = 0; fails = []; sample = None
    for i, p in enumerate(ps):
        try:
            out, err = p.communicate(timeout=max(1, timeout - (time.time() - t0)))
            code = p.returncode
        except subprocess.TimeoutExpired:
            p.kill(); out, err = p.communicate(); code = 'timeout'
        for l in out.splitlines():
            if l.startswith('FAIL '):
                s, m = l[5:].split(' :: ', 1); fails.append((s, m))
            if l.startswith('DONE '):
                cases += int(re.search(r'cases=(\d+)', l).group(1)); sample = sample or l.split('sample=')[1]
        if code not in (0, 1):
            # crashed or hung: find the case by tracing
            try:
                q = subprocess.run([binary, prop, tier, str(seed), str(i), str(NSH), '--trace'], capture_output=True, text=True, env=e, timeout=min(timeout, 100))
                tout, terr = q.stdout, q.stderr
            except subprocess.TimeoutExpired as x:
                tout, terr = (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or ''), ''
            last = [l for l in tout.splitlines() if l.startswith('TRY ')]
            if last:
                spec = last[-1][4:]
                ok, o = run_case(binary, spec, 60)
                if not ok: fails.append((spec, f'process ended with {code}: ' + (terr or err or o)[-1500:]))
    return cases, fails, sample

def numth():
    """the real primitive_root on primes below 2^32 -> (primes, [(command, message)]); (0, []) when it is not reachable as src/math_utils.rs"""
    e = _env(); e['CARGO_TARGET_DIR'] = f'{V}/build/nt'
    p = subprocess.run(['cargo', 'build', '--offline', '--release'], cwd=f'{V}/nt', env=e, capture_output=True, text=True)
    if p.returncode: return 0, []
    b = f'{V}/build/nt/release/nt'
    try: q = subprocess.run([b, 'sweep'], capture_output=True, text=True, timeout=100)
    except subprocess.TimeoutExpired: return 0, []
    n = re.search(r'DONE primes=(\d+)', q.stdout)
    f = [l.split(' ', 2)[1:] for l in q.stdout.splitlines() if l.startswith('FAIL ')]
    return int(n.group(1)) if n else 0, [(f'{b} p {a}', m) for a, m in f]
