import json
T='contract-based deductive verification: MIR of the real functions extracted on every run, verification conditions discharged by vf (symbolic execution against contracts, checked loop invariants, z3)'
N={
'C01':'every input, both entry points, all nine kernels; exact real arithmetic',
'C02':'every length, every input; exact real arithmetic',
'C03':'every pair of lengths, every input, inner transforms by contract; exact real arithmetic',
'C04':'every inner length, every input, inner transform by contract; exact real arithmetic',
'C05':'every power of two (layer loop by an annotated invariant over a ghost permutation, recursion of the reordering by contract); exact real arithmetic',
'C06':'every q, every input, inner transforms by contract; exact real arithmetic',
'C07':'every prime, inner transform by contract; primality test and extended gcd (dependencies) by assumed contracts; orthogonality of characters used as a lemma; exact real arithmetic',
'C08':'every transform, any number of chunks',
'C09':'every transform, every combination of buffer, output and scratch lengths',
'C10':'one obligation per raw access, every transform and size',
'C11':'every transform, every scratch requirement of the inner transforms',
'C12':'every constructor, every argument',
'C13':'every constant and table entry equals its exact value before the final conversion to the element type',
'C14':'frame conditions: no write reachable through &self, statics or interior mutability',
}
json.dump({i:{'technique':T,'level':'proof','note':'all obligations discharged: '+n} for i,n in N.items()},open('/verif/levels.json','w'),indent=1)
