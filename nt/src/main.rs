//! Runs the real math_utils::primitive_root on primes below 2^32 and checks that the result generates the multiplicative group.
//! `nt sweep` enumerates, `nt p <prime>` checks one prime.
#![allow(dead_code)]
#[path = "/repo/src/math_utils.rs"]
mod math_utils;

fn pw(b: u64, mut e: u64, m: u64) -> u64 { let (mut r, mut b) = (1u128, b as u128 % m as u128); while e > 0 { if e & 1 == 1 { r = r * b % m as u128 } b = b * b % m as u128; e >>= 1 } (r % m as u128) as u64 }
fn factors(mut n: u64) -> Vec<u64> { let mut v = vec![]; let mut d = 2; while d * d <= n { if n % d == 0 { v.push(d); while n % d == 0 { n /= d } } d += 1 } if n > 1 { v.push(n) } v }
fn is_prime(n: u64) -> bool {
    if n < 2 { return false }
    for q in [2, 3, 5, 7, 11, 13] { if n % q == 0 { return n == q } }
    let (mut d, mut s) = (n - 1, 0); while d % 2 == 0 { d /= 2; s += 1 }
    'a: for a in [2, 3, 5, 7, 11] { let mut x = pw(a, d, n); if x == 1 || x == n - 1 { continue } for _ in 1..s { x = pw(x, 2, n); if x == n - 1 { continue 'a } } return false }
    true
}
fn check(p: u64) -> Result<(), String> {
    let r = std::panic::catch_unwind(|| math_utils::primitive_root(p)).map_err(|_| format!("primitive_root({}) panics", p))?;
    let r = r.ok_or(format!("primitive_root({}) is None", p))?;
    if r == 0 || r >= p { return Err(format!("primitive_root({}) = {} out of range", p, r)) }
    for f in factors(p - 1) { if pw(r, (p - 1) / f, p) == 1 { return Err(format!("primitive_root({}) = {} has order dividing (p-1)/{}", p, r, f)) } }
    Ok(())
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "p" { match check(a[2].parse().unwrap()) { Ok(()) => println!("ok"), Err(e) => { println!("{}", e); std::process::exit(1) } } return }
    let mut ps: Vec<u64> = (2..1 << 21).filter(|p| is_prime(*p)).collect();
    // p - 1 = k q^2, k q r with q, r close, k q with a large prime q, 2^k q, primorials and the largest primes below 2^32
    let small: Vec<u64> = (2..65536).filter(|p| is_prime(*p)).collect();
    for (i, &q) in small.iter().enumerate() { for k in 1..40u64 { for m in [q * q, if i + 1 < small.len() { q * small[i + 1] } else { 0 }] { let p = k * m + 1; if m > 0 && p < 1 << 32 && is_prime(p) && (q < 400 || i % 37 == 0) { ps.push(p) } } } }
    for e in 16..32u32 { for s in 0..400u64 { for p in [(1u64 << e) + s, (1u64 << (e + 1)) - 1 - s] { if p < 1 << 32 && is_prime(p) { ps.push(p) } } } }
    let mut z = 12345u64; for _ in 0..200000 { z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let p = (z >> 32) | 1; if is_prime(p) { ps.push(p) } }
    ps.sort(); ps.dedup();
    let n = ps.len();
    let bad = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|s| for t in 0..8 { let (ps, bad) = (&ps, &bad); s.spawn(move || for p in ps.iter().skip(t).step_by(8) { if let Err(e) = check(*p) { bad.lock().unwrap().push((*p, e)); } }); });
    let mut b = bad.into_inner().unwrap(); b.sort();
    for (p, e) in b.iter().take(20) { println!("FAIL {} {}", p, e) }
    println!("DONE primes={}", n);
    if !b.is_empty() { std::process::exit(1) }
}
