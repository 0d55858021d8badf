#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree. Exit 0 or 1 only.

1. the replay harness runs the bounded case set of the property on the real code (this can only find violations);
2. the verifier extracts the MIR of /repo's working tree and discharges every obligation of the property;
3. obligations it refutes come with concrete assignments; those become replay cases for the real code.
4. for obligations that are refuted without a failing case or that cannot be discharged, a directed search on the real code follows.
A violation is reported when the real code fails a case (with that case), and otherwise when an obligation is refuted or not
discharged (no-failing-input-found, naming the obligation). Running out of time is neither: the evidence then says what is left open."""
import sys, os, json, time, traceback
if os.environ.get('PYTHONHASHSEED') != '0':      # the order of set iteration must not vary between runs
    os.environ['PYTHONHASHSEED'] = '0'; os.execv(sys.executable, [sys.executable] + sys.argv)
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from vf import replay, wit, hunt

VARIANTS = {'C10': ['dev', 'asan'], 'C09': ['dev', 'release']}
TRUST = ['rustc front end up to MIR (nightly), monomorphised at f64', 'the VC generator and decision procedures in /verif/vf (own code) and z3',
  'contracts of core/alloc/num-traits/num-integer/strength_reduce/primal-check functions (vf/models.py)']
ASSUME = ['arithmetic on element values is exact real arithmetic (rounding is covered by the bounded replay and, for constants, by C13)',
  'usize/u64 additions and multiplications are mathematical integers (no wrap-around at 2^64); subtractions, narrower integers and integer casts are checked',
  'the proofs are at element type f64; every crate function they go through is shown to have the same MIR at f32 and not to inspect the type (obligations "generic"), so other element types differ only in their own arithmetic',
  'inner transforms behave as the Dht contract says (each kind in this crate is proved to, others are the caller\'s)']
EXTRA = {'C07': ['primal_check::miller_rabin and num_integer::extended_gcd return what their names say (bounded check only)', 'p < 2^32 (products of residues fit u64); hardware f32 square root is correctly rounded (IEEE 754)']}

TIME = ('time limit', 'worker:')      # not an answer about the code
def name(R): return f'{R.spec["K"]} {R.spec["entry"]} {R.spec["mode"]}' + (f' {R.spec["radix"]}' if R.spec.get('radix') else '') + (f' {R.spec["res"]}' if R.spec['res'] else '')

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    quick = tier == 'quick'
    t0 = time.time()
    os.makedirs(f'{V}/evidence', exist_ok=True)
    fails = []; cases = 0; samples = []; bins = {}
    for variant in VARIANTS.get(prop, ['dev', 'release']):
        bins[variant] = b = replay.build(variant)
        c, f, s = replay.run_cases(b, prop, tier, seed, 100 if quick else 1500)
        cases += c; fails += [(variant, b, *x) for x in f]; samples.append(s)
        if f: break
    if prop == 'C07' and not fails:
        c, f = replay.numth(); cases += c
        fails += [('nt', None, cmd, m) for cmd, m in f]
    treplay = time.time() - t0
    # ---- the verifier
    res = []; err = None
    for _ in range(2):
        try:
            from vf import verify
            left = (120 if fails else 520) if quick else 3000
            res = verify.decide(prop, tier, deadline=time.time() + left); err = None
            break
        except Exception as e:
            err = f'{type(e).__name__}: {e}'
            if os.environ.get('VF_V'): traceback.print_exc()
            if time.time() - t0 > 200: break
    refuted = [(R, f) for R in res for f in R.fails]
    limits = [(R, l) for R in res for l in R.limits]
    # ---- witnesses of refuted obligations, of undecided ones and of every explored path, on the real code
    unconfirmed = []; huge = []; wcases = 0
    if not fails:
        seen = set(); todo = []
        for R, f in refuted:
            sp = []
            for w in f['wit']:
                x = wit.cases(prop, R.spec, w)
                sp += x
                if w and not x: huge.append((R, f, w))
            todo += [(0, s, (R, f)) for s in sp]
        for R, l in limits:
            for w in l['wit']: todo += [(1, s, None) for s in wit.cases(prop, R.spec, w)]
        for R in res:
            for w in R.paths[:40]: todo += [(2, s, None) for s in wit.cases(prop, R.spec, w)]
        todo = [(pr, s, o) for pr, s, o in todo if not (s in seen or seen.add(s))]
        todo.sort(key=lambda x: x[0])
        lim = 600 if quick else 4000
        stop = time.time() + (90 if quick else 900)
        slow = set()
        for variant, b in bins.items():
            for (pr, s, o), (ok, out) in zip(todo[:lim], replay.run_specs(b, [s for _, s, _ in todo[:lim]], stop)):
                if ok is None: slow.add(s); continue
                wcases += 1
                if not ok: fails.append((variant, b, s, out)); break
            if fails: break
        for R, f in refuted:
            ss = [s for w in f['wit'] for s in wit.cases(prop, R.spec, w)]
            if ss and all(s in slow for s in ss): huge.append((R, f, f['wit'][0]))
    unconf = [(R, f) for R, f in refuted if not any(f is h[1] for h in huge)] if not fails else []
    # ---- directed search for what is left
    open_ = [(R, l) for R, l in limits if not l['what'].startswith(TIME)]
    hcases = 0
    if not fails and (unconf or huge or open_):
        f, hcases = hunt.search(verify.PROG, prop, [R.spec for R, _ in unconf + open_] + [h[0].spec for h in huge], bins, time.time() + (100 if quick else 900), seed)
        if f: fails.append(f)
    obl = sum(R.obl for R in res); ok = sum(R.ok for R in res)
    path = f'{V}/evidence/{prop}.replay.txt'
    viol = 0
    if fails:
        viol = len(fails)
        v, b, spec, m = fails[0]
        txt = f'property {prop}\nvariant {v}\ncommand: ' + (f'{b} case "{spec}"' if b else spec) + f'\nresult: {m}\n'
        for R, f in refuted[:20]: txt += f'failed obligation: {R.spec["K"]} {R.spec["entry"]} {f["kind"]}: {f["what"]} at {f["span"]}\n  witness {f["wit"][:1]}\n'
        for R, l in limits[:10]: txt += f'not discharged: {R.spec["K"]} {R.spec["entry"]}: {l["what"]}\n'
        open(path, 'w').write(txt)
        print(f'VIOLATION property={prop} replay={path}')
    elif huge or unconf or open_ or err:
        viol = len(huge) + len(unconf) + len(open_) + bool(err)
        txt = f'property {prop}\nno failing input found in {hcases} directed cases; obligations that fail:\n'
        if err: txt += f'no obligation could be generated: {err}\n'
        for R, f, w in huge[:20]: txt += f'refuted: {name(R)} {f["kind"]}: {f["what"]} at {f["span"]}\n  assignment (too large to run) {w}\n  facts {f["facts"]} {f["res"]}\n'
        for R, f in unconf[:20]: txt += f'refuted: {name(R)} {f["kind"]}: {f["what"]} at {f["span"]}\n  assignments {f["wit"][:2]}\n  facts {f["facts"]} {f["res"]}\n'
        for R, l in open_[:20]: txt += f'not discharged: {name(R)}: {l["what"]}\n'
        open(path, 'w').write(txt)
        print(f'VIOLATION property={prop} replay={path} no-failing-input-found')
    byk = {}
    for R in res:
        d = byk.setdefault(R.spec['K'], [0, 0]); d[0] += R.obl; d[1] += R.ok
    proved = bool(res) and obl > 0 and ok == obl and sum(R.returns for R in res) > 0 and not err
    kinds = {}
    for R in res:
        for k, n in R.kinds.items(): kinds[k] = kinds.get(k, 0) + n
    lp = {}
    for R in res:
        for k, n in R.loops.items(): lp[k] = n
    cov = {'obligations': obl, 'discharged': ok, 'checker_cmd': f'python3-vt check.py {prop} (vf.verify: extraction of MIR from /repo, symbolic execution, z3 {zver()})',
        'trusted_base': TRUST, 'by_transform': {k: f'{b}/{a}' for k, (a, b) in sorted(byk.items())}, 'obligation_kinds': kinds,
        'functions_under_contract': sorted({x for R in res for x in R.called if 'rustdht' in x})[:400],
        'contracts_used': sorted({x for R in res for x in R.contracts})[:200], 'loops': lp,
        'solver': {k: round(sum(R.stats.get(k, 0) for R in res), 2) for k in ('queries', 'z3', 'time', 'sampled', 'memo')},
        'cpu_s': round(sum(R.wall for R in res), 1), 'verifier_jobs': len(res), 'verifier_error': err,
        'not_discharged': [f'{R.spec["K"]} {R.spec["entry"]}: {l["what"]}'[:300] for R, l in limits][:40],
        'refuted_but_not_reproduced': [f'{R.spec["K"]} {R.spec["entry"]}: {f["what"]}'[:300] for R, f in unconf][:40],
        'evaluations': cases + wcases + hcases, 'distinct_nontrivial': (cases + wcases) // max(1, len(bins)) + hcases, 'witness_cases': wcases, 'directed_cases': hcases, 'rule': 'bounded case set of the property on the real code, plus one concrete case per path the verifier explored; every case runs once per build variant and is distinct within a variant', 'samples': samples,
        'bounded_only': sorted({R.spec['K'] for R, _ in limits})}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if proved else 'exploration', 'coverage': cov, 'assumptions': ASSUME + EXTRA.get(prop, []),
        'wall_s': round(time.time() - t0, 1), 'violations': viol}
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop}: obligations {ok}/{obl}, bounded cases {cases}+{wcases}+{hcases}, {time.time() - t0:.0f} s (replay {treplay:.0f} s)' + (f', verifier: {err}' if err else '') + (f', not discharged: {len(limits)}' if limits else '') + (f', refuted but not reproduced: {len(unconf)}' if unconf else ''))
    return 1 if viol else 0

def zver():
    import z3
    return z3.get_version_string()

if __name__ == '__main__':
    sys.exit(main())
