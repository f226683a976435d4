//! Reference arithmetic. Natural numbers are canonical little-endian digit vectors in base `b`
//! (2^8..2^64 or 10^2..10^19); every operation is the plain textbook one, written without
//! regard for speed except where noted. Nothing here uses the crate under test.

use std::cmp::Ordering;

pub type N = Vec<u64>;

#[derive(Clone, Copy, Debug)]
pub struct Ty
{
    pub name: &'static str,
    /// decimal or binary digits
    pub dec: bool,
    /// bits of the storage type
    pub bits: usize,
    /// the base
    pub base: u128,
    /// decimal places per digit (decimal types) or hexadecimal places per digit (binary types)
    pub places: usize
}

pub const TYPES: [Ty; 8] = [
    Ty { name: "bin8",  dec: false, bits: 8,  base: 1 << 8,  places: 2 },
    Ty { name: "bin16", dec: false, bits: 16, base: 1 << 16, places: 4 },
    Ty { name: "bin32", dec: false, bits: 32, base: 1 << 32, places: 8 },
    Ty { name: "bin64", dec: false, bits: 64, base: 1 << 64, places: 16 },
    Ty { name: "dec8",  dec: true,  bits: 8,  base: 100, places: 2 },
    Ty { name: "dec16", dec: true,  bits: 16, base: 10_000, places: 4 },
    Ty { name: "dec32", dec: true,  bits: 32, base: 1_000_000_000, places: 9 },
    Ty { name: "dec64", dec: true,  bits: 64, base: 10_000_000_000_000_000_000, places: 19 }
];

impl Ty
{
    pub fn max_digit(&self) -> u64 { (self.base - 1) as u64 }
    pub fn max_prim(&self) -> u64 { if self.bits == 64 { u64::MAX } else { (1u64 << self.bits) - 1 } }
}

pub fn trim(a: &mut N)
{
    while a.last() == Some(&0) { a.pop(); }
}

pub fn is_canonical(a: &[u64], base: u128) -> bool
{
    a.last() != Some(&0) && a.iter().all(|&d| (d as u128) < base)
}

pub fn from_u128(mut v: u128, base: u128) -> N
{
    let mut r = vec![];
    while v > 0
    {
        r.push((v % base) as u64);
        v /= base;
    }
    r
}

pub fn cmp(a: &[u64], b: &[u64]) -> Ordering
{
    if a.len() != b.len()
    {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev()
    {
        if a[i] != b[i] { return a[i].cmp(&b[i]); }
    }
    Ordering::Equal
}

pub fn add(a: &[u64], b: &[u64], base: u128) -> N
{
    let mut r = Vec::with_capacity(a.len().max(b.len()) + 1);
    let mut c = 0u128;
    for i in 0..a.len().max(b.len())
    {
        let mut s = c;
        if i < a.len() { s += a[i] as u128; }
        if i < b.len() { s += b[i] as u128; }
        if s >= base { r.push((s - base) as u64); c = 1; } else { r.push(s as u64); c = 0; }
    }
    if c > 0 { r.push(1); }
    r
}

/// a - b, or None if a < b
pub fn sub(a: &[u64], b: &[u64], base: u128) -> Option<N>
{
    if cmp(a, b) == Ordering::Less { return None; }
    let mut r = Vec::with_capacity(a.len());
    let mut c = 0u128;
    for i in 0..a.len()
    {
        let s = (if i < b.len() { b[i] as u128 } else { 0 }) + c;
        if (a[i] as u128) < s { r.push((a[i] as u128 + base - s) as u64); c = 1; } else { r.push((a[i] as u128 - s) as u64); c = 0; }
    }
    assert!(c == 0);
    trim(&mut r);
    Some(r)
}

fn mul_small_base<const B: u64>(a: &[u64], b: &[u64]) -> N
{
    let mut r = vec![0u64; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate()
    {
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate()
        {
            let t = r[i + j] + x * y + c;
            r[i + j] = t % B;
            c = t / B;
        }
        r[i + b.len()] = c;
    }
    trim(&mut r);
    r
}

fn mul_big_base(a: &[u64], b: &[u64], dec: bool) -> N
{
    const D: u128 = 10_000_000_000_000_000_000;
    let mut r = vec![0u64; a.len() + b.len()];
    for (i, &x) in a.iter().enumerate()
    {
        let mut c = 0u64;
        for (j, &y) in b.iter().enumerate()
        {
            let t = r[i + j] as u128 + x as u128 * y as u128 + c as u128;
            if dec { r[i + j] = (t % D) as u64; c = (t / D) as u64; }
            else { r[i + j] = t as u64; c = (t >> 64) as u64; }
        }
        r[i + b.len()] = c;
    }
    trim(&mut r);
    r
}

/// Schoolbook product
pub fn mul(a: &[u64], b: &[u64], base: u128) -> N
{
    match base
    {
        0x100 => mul_small_base::<0x100>(a, b),
        0x10000 => mul_small_base::<0x10000>(a, b),
        0x1_0000_0000 => mul_small_base::<0x1_0000_0000>(a, b),
        100 => mul_small_base::<100>(a, b),
        10_000 => mul_small_base::<10_000>(a, b),
        1_000_000_000 => mul_small_base::<1_000_000_000>(a, b),
        10_000_000_000_000_000_000 => mul_big_base(a, b, true),
        _ => { assert!(base == 1 << 64); mul_big_base(a, b, false) }
    }
}

/// a*m + c for small m, c (m <= 2^64, c < 2^64)
pub fn mul_add_small(a: &mut N, m: u128, c: u64, base: u128)
{
    let mut c = c as u128;
    for d in a.iter_mut()
    {
        let t = *d as u128 * m + c;
        *d = (t % base) as u64;
        c = t / base;
    }
    while c > 0
    {
        a.push((c % base) as u64);
        c /= base;
    }
    trim(a);
}

/// floor(a / m) for small m (m < 2^63), remainder returned
pub fn div_small(a: &mut N, m: u64, base: u128) -> u64
{
    let mut r = 0u128;
    for d in a.iter_mut().rev()
    {
        let t = r * base + *d as u128;
        *d = (t / m as u128) as u64;
        r = t % m as u128;
    }
    trim(a);
    r as u64
}

/// a * 2^n by repeated small multiplication
pub fn shl(a: &[u64], n: usize, base: u128) -> N
{
    let mut r = a.to_vec();
    if r.is_empty() { return r; }
    let mut n = n;
    if base.is_power_of_two()
    {
        let bits = base.trailing_zeros() as usize;
        if n >= bits
        {
            let mut z = vec![0u64; n / bits];
            z.extend_from_slice(&r);
            r = z;
            n %= bits;
        }
    }
    while n > 0
    {
        let k = n.min(60);
        mul_add_small(&mut r, 1u128 << k, 0, base);
        n -= k;
    }
    r
}

/// floor(a / 2^n) by repeated small division
pub fn shr(a: &[u64], n: usize, base: u128) -> N
{
    let mut r = a.to_vec();
    let mut n = n;
    if base.is_power_of_two()
    {
        let bits = base.trailing_zeros() as usize;
        r.drain(..(n / bits).min(a.len()));
        n %= bits;
    }
    while n > 0 && !r.is_empty()
    {
        let k = n.min(60);
        div_small(&mut r, 1u64 << k, base);
        n -= k;
    }
    r
}

/// Product with a quick exact path for short operands; only used where the plain schoolbook
/// product would dominate the run. `None` when it is left to the residue check.
pub const EXACT_MUL_LIMIT: usize = 60_000;

pub const PRIMES: [u64; 3] = [(1 << 61) - 1, 2305843009213693921, 1152921504606846883];

pub fn residue(a: &[u64], base: u128, p: u64) -> u64
{
    let b = (base % p as u128) as u64;
    let mut r = 0u64;
    for &d in a.iter().rev()
    {
        r = ((r as u128 * b as u128 + d as u128) % p as u128) as u64;
    }
    r
}

pub fn mulmod(a: u64, b: u64, p: u64) -> u64 { (a as u128 * b as u128 % p as u128) as u64 }

/// Is `prod` = a*b? Schoolbook for moderate sizes; for long operands residues modulo three
/// primes (any wrong answer that passes would have to be off by a multiple of their product),
/// together with the digit count.
pub fn is_product(a: &[u64], b: &[u64], prod: &[u64], base: u128) -> bool
{
    if a.is_empty() || b.is_empty() { return prod.is_empty(); }
    if a.len() * b.len() <= EXACT_MUL_LIMIT
    {
        return mul(a, b, base) == prod;
    }
    if prod.len() != a.len() + b.len() && prod.len() != a.len() + b.len() - 1 { return false; }
    PRIMES.iter().all(|&p| mulmod(residue(a, base, p), residue(b, base, p), p) == residue(prod, base, p))
}

/// Is `x` = a^e (a non-zero, e at least 1)? By residues modulo three primes and the digit count.
pub fn is_power(a: &[u64], e: u64, x: &[u64], base: u128) -> bool
{
    if !is_canonical(x, base) { return false; }
    // number of digits from the logarithm, which is exact to about twelve decimals
    let top = a.iter().rev().take(4).fold(0f64, |v, &d| v * base as f64 + d as f64);
    let digits = e as f64 * (top.ln() / (base as f64).ln() + a.len().saturating_sub(4) as f64);
    if ((x.len() as f64 - 0.5) - digits).abs() > 0.51 + digits * 1e-10 { return false; }
    PRIMES.iter().all(|&p| {
        let (mut r, mut b, mut n) = (1u64, residue(a, base, p), e);
        while n > 0
        {
            if n % 2 == 1 { r = mulmod(r, b, p); }
            b = mulmod(b, b, p);
            n /= 2;
        }
        r == residue(x, base, p)
    })
}

/// Is n = q*d + r and r < d? (d non-zero)
pub fn is_quot_rem(n: &[u64], d: &[u64], q: &[u64], r: &[u64], base: u128) -> bool
{
    if cmp(r, d) != Ordering::Less { return false; }
    if q.len() * d.len() <= EXACT_MUL_LIMIT
    {
        return add(&mul(q, d, base), r, base) == n;
    }
    PRIMES.iter().all(|&p| {
        let t = mulmod(residue(q, base, p), residue(d, base, p), p);
        (t as u128 + residue(r, base, p) as u128) % p as u128 == residue(n, base, p) as u128
    })
}

/// Floor division one digit of quotient at a time. The digit is never over-estimated (leading
/// digits of the remainder over the leading digit of the divisor plus one, the divisor scaled to
/// have a large leading digit), and the estimate is repeated until the remainder is below the
/// divisor.
pub fn div_rem(n: &[u64], d: &[u64], base: u128) -> (N, N)
{
    assert!(!d.is_empty());
    if cmp(n, d) == Ordering::Less { return (vec![], n.to_vec()); }
    let k = base / (d[d.len() - 1] as u128 + 1);
    let (mut x, mut y) = (n.to_vec(), d.to_vec());
    mul_add_small(&mut x, k, 0, base);
    mul_add_small(&mut y, k, 0, base);
    assert!(y.len() == d.len());
    let l = y.len();
    let top = y[l - 1] as u128 + 1;
    let mut q = vec![0u64; x.len()];
    let mut r: N = vec![];
    for i in (0..x.len()).rev()
    {
        r.insert(0, x[i]);
        trim(&mut r);
        let mut digit = 0u128;
        while cmp(&r, &y) != Ordering::Less
        {
            let lead = r[l - 1] as u128 + if r.len() > l { r[l] as u128 * base } else { 0 };
            let e = (lead / top).max(1);
            let mut t = y.clone();
            mul_add_small(&mut t, e, 0, base);
            r = sub(&r, &t, base).unwrap();
            digit += e;
        }
        assert!(digit < base);
        q[i] = digit as u64;
    }
    trim(&mut q);
    // the scaling goes out of the remainder again
    let mut rest = 0u128;
    for v in r.iter_mut().rev()
    {
        let t = rest * base + *v as u128;
        *v = (t / k) as u64;
        rest = t % k;
    }
    assert!(rest == 0);
    trim(&mut r);
    (q, r)
}

pub fn pow(a: &[u64], e: usize, base: u128) -> N
{
    if e > 64
    {
        let h = pow(a, e / 2, base);
        let r = mul(&h, &h, base);
        return if e % 2 == 1 { mul(&r, a, base) } else { r };
    }
    let mut r = vec![1u64];
    for _ in 0..e { r = mul(&r, a, base); }
    r
}

/// Pack small digits into the largest power of their base that fits 2^64, to make radix
/// conversion quadratic in words rather than bytes.
fn pack(a: &[u64], base: u128) -> (N, u128)
{
    let mut k = 1;
    let mut bb = base;
    while bb <= (1 << 64) / base { bb *= base; k += 1; }
    let r = a.chunks(k).map(|c| c.iter().rev().fold(0u128, |acc, &d| acc * base + d as u128) as u64).collect();
    (r, bb)
}

fn unpack(a: &[u64], base: u128) -> N
{
    let mut k = 1;
    let mut bb = base;
    while bb <= (1 << 64) / base { bb *= base; k += 1; }
    let mut r = vec![];
    for &w in a
    {
        let mut w = w;
        for _ in 0..k
        {
            r.push((w as u128 % base) as u64);
            w = (w as u128 / base) as u64;
        }
    }
    trim(&mut r);
    r
}

/// Radix conversion: between two powers of two or two powers of ten by moving digits about,
/// otherwise by Horner's rule
pub fn convert(a: &[u64], from: u128, to: u128) -> N
{
    if from == to { return a.to_vec(); }
    if from.is_power_of_two() == to.is_power_of_two() { return regroup(a, from, to); }
    horner(a, from, to)
}

/// Conversion between bases that are powers of the same number: split into digits of that number
/// and collect those again
fn regroup(a: &[u64], from: u128, to: u128) -> N
{
    let small = if from.is_power_of_two() { 256 } else { 10 };
    let count = |base: u128| { let (mut k, mut b) = (0, 1u128); while b < base { b *= small; k += 1; } assert!(b == base); k };
    let (kf, kt): (usize, usize) = (count(from), count(to));
    let mut d = Vec::with_capacity(a.len() * kf);
    for &w in a
    {
        let mut w = w;
        for _ in 0..kf { d.push(w % small as u64); w /= small as u64; }
    }
    let mut r: N = d.chunks(kt).map(|c| c.iter().rev().fold(0u64, |acc, &x| acc * small as u64 + x)).collect();
    trim(&mut r);
    r
}

/// Radix conversion by Horner's rule
fn horner(a: &[u64], from: u128, to: u128) -> N
{
    let (p, bb) = pack(a, from);
    let (_, tt) = pack(&[], to);
    let mut r: N = vec![];
    for &d in p.iter().rev()
    {
        mul_add_small(&mut r, bb, d, tt);
    }
    unpack(&r, to)
}

/// Decimal (ten = true) or hexadecimal (lower case) digits of the value, "0" for zero
pub fn to_string(a: &[u64], base: u128, ten: bool) -> String
{
    if a.is_empty() { return "0".to_string(); }
    let (b, places) = if ten { (10_000_000_000_000_000_000u128, 19) } else { (1u128 << 64, 16) };
    let c = convert(a, base, b);
    let mut s = String::new();
    for (i, &d) in c.iter().rev().enumerate()
    {
        match (ten, i == 0)
        {
            (true, true)   => s.push_str(&format!("{}", d)),
            (true, false)  => s.push_str(&format!("{:0w$}", d, w = places)),
            (false, true)  => s.push_str(&format!("{:x}", d)),
            (false, false) => s.push_str(&format!("{:0w$x}", d, w = places))
        }
    }
    s
}

/// Value of a string of digits in base ten or sixteen
pub fn from_string(s: &str, ten: bool, base: u128) -> N
{
    let radix = if ten { 10u32 } else { 16 };
    let k = if ten { 19 } else { 16 };
    let bb = if ten { 10_000_000_000_000_000_000u128 } else { 1u128 << 64 };
    let digits: Vec<u32> = s.chars().map(|c| c.to_digit(radix).expect("digit")).collect();
    let mut w: N = digits.rchunks(k)
        .map(|c| c.iter().fold(0u128, |acc, &d| acc * radix as u128 + d as u128) as u64).collect();
    trim(&mut w);
    convert(&w, bb, base)
}

pub fn bit_length(a: &[u64], base: u128) -> usize
{
    let c = convert(a, base, 1 << 64);
    match c.last() { None => 0, Some(&d) => 64 * c.len() - d.leading_zeros() as usize }
}

#[cfg(test)]
mod tests
{
    use super::*;
    fn powmod(mut a: u64, mut e: u64, p: u64) -> u64
    {
        let mut r = 1;
        while e > 0 { if e & 1 == 1 { r = mulmod(r, a, p); } a = mulmod(a, a, p); e >>= 1; }
        r
    }
    #[test]
    fn division_of_long_numbers()
    {
        let mut r = crate::gen::Rng::new(7, 7, 7);
        for i in 0..100_000
        {
            let t = TYPES[i % 8];
            let (n, d) = crate::gen::dividend(&mut r, &t, [4, 1, 0, 0]);
            let (q, rem) = div_rem(&n, &d, t.base);
            assert!(is_canonical(&q, t.base) && is_canonical(&rem, t.base));
            assert!(cmp(&rem, &d) == Ordering::Less);
            assert_eq!(add(&mul(&q, &d, t.base), &rem, t.base), n);
        }
    }
    #[test]
    fn short_cuts_agree_with_the_long_way()
    {
        let mut r = crate::gen::Rng::new(9, 9, 9);
        for i in 0..20_000
        {
            let (t, u) = (TYPES[i % 8], TYPES[i / 8 % 8]);
            let mut a = crate::gen::any(&mut r, &t, [4, 1, 0, 0]);
            trim(&mut a);
            assert_eq!(convert(&a, t.base, u.base), horner(&a, t.base, u.base));
            let n = r.below(a.len() * t.bits + 70);
            let mut want = a.clone();
            for _ in 0..n { if !want.is_empty() { div_small(&mut want, 2, t.base); } }
            assert_eq!(shr(&a, n, t.base), want);
        }
    }
    // Self-test of the reference against u128 arithmetic.
    #[test]
    fn powers_are_repeated_products()
    {
        for base in [256u128, 10_000, 1 << 64]
        {
            for a in [vec![3u64], vec![7, 1], vec![255, 0, 9]]
            {
                let mut p = vec![1u64];
                for e in 0..200 { assert_eq!(pow(&a, e, base), p); p = mul(&p, &a, base); }
            }
        }
    }

    #[test]
    fn reference_agrees_with_u128()
    {
        let mut x = 88172645463325252u64;
        let mut rnd = move || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
        for i in 0..200_000
        {
            let t = TYPES[i % 8];
            let b = t.base;
            let (p, q) = ((rnd() >> (rnd() % 64)) as u128, (rnd() >> (rnd() % 64)) as u128);
            let (a, c) = (from_u128(p, b), from_u128(q, b));
            assert_eq!(add(&a, &c, b), from_u128(p + q, b));
            assert_eq!(mul(&a, &c, b), from_u128(p * q, b));
            assert_eq!(sub(&a, &c, b), p.checked_sub(q).map(|v| from_u128(v, b)));
            assert_eq!(cmp(&a, &c), p.cmp(&q));
            let s = (rnd() % 130) as usize;
            assert_eq!(shr(&from_u128(p * q, b), s, b), from_u128((p * q).checked_shr(s as u32).unwrap_or(0), b));
            if s < 64 { assert_eq!(shl(&a, s, b), from_u128(p << s, b)); }
            if q > 0
            {
                let (dq, dr) = div_rem(&from_u128(p * 77777 + q, b), &c, b);
                assert_eq!(dq, from_u128((p * 77777 + q) / q, b));
                assert_eq!(dr, from_u128((p * 77777 + q) % q, b));
                assert!(is_quot_rem(&from_u128(p * 77777 + q, b), &c, &dq, &dr, b));
            }
            assert_eq!(to_string(&from_u128(p * q, b), b, true), format!("{}", p * q));
            assert_eq!(to_string(&from_u128(p * q, b), b, false), format!("{:x}", p * q));
            assert_eq!(from_string(&format!("{}", p * q), true, b), from_u128(p * q, b));
            assert_eq!(from_string(&format!("{:X}", p * q), false, b), from_u128(p * q, b));
            let t2 = TYPES[(i / 8) % 8];
            assert_eq!(convert(&from_u128(p * q, b), b, t2.base), from_u128(p * q, t2.base));
            for pr in PRIMES { assert_eq!(residue(&from_u128(p * q, b), b, pr) as u128, p * q % pr as u128); }
        }
    }
    #[test]
    fn primes_are_prime()
    {
        for p in PRIMES { for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
            let mut d = p - 1; let mut s = 0; while d % 2 == 0 { d /= 2; s += 1; }
            let mut x = powmod(a, d, p);
            let mut ok = x == 1 || x == p - 1;
            for _ in 1..s { x = mulmod(x, x, p); ok |= x == p - 1; }
            assert!(ok, "{} not prime", p);
        } }
    }
}
