//! Deterministic generators. Every case is a pure function of (VERIF_SEED, property, index).

use crate::model::*;

#[derive(Clone)]
pub struct Rng { s: [u64; 4], pub big: bool }

fn splitmix(x: &mut u64) -> u64
{
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng
{
    pub fn new(seed: u64, stream: u64, idx: u64) -> Rng
    {
        let mut x = seed;
        let a = splitmix(&mut x) ^ stream.wrapping_mul(0xd1342543de82ef95);
        let mut y = a;
        let b = splitmix(&mut y) ^ idx.wrapping_mul(0x2545f4914f6cdd1d);
        let mut z = b;
        let mut s = [0u64; 4];
        for v in s.iter_mut() { *v = splitmix(&mut z); }
        Rng { s, big: false }
    }
    pub fn u64(&mut self) -> u64
    {
        let s = &mut self.s;
        let r = (s[0].wrapping_add(s[3])).rotate_left(23).wrapping_add(s[0]);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t; s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize
    {
        if n == 0 { return 0; }
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn below_u64(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len())] }
}

/// A digit, biased towards the edges of its range
pub fn digit(r: &mut Rng, t: &Ty) -> u64
{
    let b = t.base;
    let m = t.max_digit();
    let d: u128 = match r.below(16)
    {
        0 => 0,
        1 => 1,
        2 => m as u128,
        3 => m as u128 - r.below(4) as u128,
        4 => r.below(5) as u128,
        5 => b / 2 + r.below(3) as u128 - 1,
        6 => { let k = r.below(t.bits); (1u128 << k) + r.below(3) as u128 - 1 },
        7 => { let k = r.pick(&[3u128, 5, 6, 7, 9, 10, 12]); b / k * r.range(1, 2) as u128 + r.below(3) as u128 - 1 },
        8 => { let k = r.below(20); 10u128.pow(k as u32) + r.below(3) as u128 - 1 },
        9 => { let k = t.bits / 2; (1u128 << k) + r.below(5) as u128 - 2 },
        10 => r.u64() as u128 >> r.below(64),
        11 => m as u128 - (r.u64() as u128 >> r.below(64)).min(m as u128),
        _ => r.u64() as u128
    };
    (d % b) as u64
}

fn top_digit(r: &mut Rng, t: &Ty) -> u64
{
    loop
    {
        let d = digit(r, t);
        if d != 0 { return d; }
    }
}

/// A number of exactly `n` digits
pub fn num(r: &mut Rng, t: &Ty, n: usize) -> N
{
    if n == 0 { return vec![]; }
    let m = t.max_digit();
    let mut v: N = match r.below(12)
    {
        0 | 1 | 2 => (0..n).map(|_| r.below_u64(m).wrapping_add(r.below(2) as u64)).collect(),
        3 | 4 => (0..n).map(|_| digit(r, t)).collect(),
        5 => {
            // mostly zero
            let mut v = vec![0; n];
            for _ in 0..r.below(4) { let i = r.below(n); v[i] = digit(r, t); }
            v
        },
        6 => {
            // mostly maximal
            let mut v = vec![m; n];
            for _ in 0..r.below(4) { let i = r.below(n); v[i] = digit(r, t); }
            v
        },
        7 | 8 => {
            // runs
            let mut v = Vec::with_capacity(n);
            while v.len() < n
            {
                let l = (1 + r.below(n.min(40)) >> r.below(5)).max(1).min(n - v.len());
                match r.below(4)
                {
                    0 => v.extend(std::iter::repeat(0).take(l)),
                    1 => v.extend(std::iter::repeat(m).take(l)),
                    2 => { let d = digit(r, t); v.extend(std::iter::repeat(d).take(l)) },
                    _ => for _ in 0..l { let d = r.below_u64(m); v.push(d) }
                }
            }
            v
        },
        9 => { let d = digit(r, t); vec![d; n] },
        _ => parts(r, t, n)
    };
    if *v.last().unwrap() == 0 || r.chance(1, 4) { *v.last_mut().unwrap() = top_digit(r, t); }
    v
}

/// A number put together from equal or nearly equal blocks, so that differences of its halves,
/// thirds and so on cancel, vanish or change sign.
pub fn parts(r: &mut Rng, t: &Ty, n: usize) -> N
{
    if n == 0 { return vec![]; }
    let k = r.pick(&[2usize, 2, 3, 3, 3, 4, 6, 9]);
    let s = (n + k - 1) / k;
    let m = t.max_digit();
    let x: N = match r.below(3) { 0 => (0..s).map(|_| digit(r, t)).collect(), _ => (0..s).map(|_| r.below_u64(m)).collect() };
    let mut v: N = Vec::with_capacity(k * s);
    for _ in 0..k
    {
        match r.below(7)
        {
            0 => v.extend(std::iter::repeat(0).take(s)),
            1 => v.extend(std::iter::repeat(m).take(s)),
            2 => {
                let mut y = x.clone();
                let i = r.below(s);
                y[i] = (y[i] as u128 + t.base + r.below(3) as u128 - 1).rem_euclid(t.base) as u64;
                v.extend(y)
            },
            3 => {
                // multiple of x, cut to size
                let mut y = x.clone();
                mul_add_small(&mut y, r.range(2, 4) as u128, r.below(2) as u64, t.base);
                y.resize(s, 0);
                v.extend(y)
            },
            4 => { let mut y = vec![0; s]; let i = r.below(s); y[i] = digit(r, t); v.extend(y) },
            _ => v.extend_from_slice(&x)
        }
    }
    v.truncate(n);
    v
}

/// Lengths at and around the points where algorithms switch
pub const EDGE_LENS: [usize; 40] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 19, 20, 21, 22, 23, 29, 30,
    31, 37, 38, 39, 40, 41, 42, 43, 59, 60, 61, 64, 79, 80, 81, 100, 120];
pub const LONG_LENS: [usize; 30] = [124, 125, 126, 127, 128, 129, 130, 131, 132, 150, 158, 159, 160, 161, 162, 191, 200,
    240, 254, 255, 256, 257, 258, 300, 319, 320, 321, 350, 378, 379];
pub const HUGE_LENS: [usize; 16] = [380, 381, 382, 383, 384, 385, 386, 387, 400, 450, 512, 513, 600, 640, 641, 700];

/// Length class: 0 tiny, 1 medium, 2 long, 3 huge
pub fn len(r: &mut Rng, class: usize) -> usize
{
    match class
    {
        0 => if r.chance(1, 12) { 0 } else { r.range(1, 6) },
        1 => if r.chance(1, 2) { r.pick(&EDGE_LENS) } else { r.range(1, 64) },
        2 => if r.chance(1, 2) { r.pick(&LONG_LENS) } else { r.range(64, 379) },
        _ => if r.chance(1, 2) { r.pick(&HUGE_LENS) } else if r.big { r.range(380, 2600) } else { r.range(380, 900) }
    }
}

/// Length class with the given weights (out of their sum)
pub fn class(r: &mut Rng, w: [usize; 4]) -> usize
{
    let mut x = r.below(w.iter().sum());
    for (i, &k) in w.iter().enumerate()
    {
        if x < k { return i; }
        x -= k;
    }
    3
}

pub fn any(r: &mut Rng, t: &Ty, w: [usize; 4]) -> N
{
    let c = class(r, w);
    let n = len(r, c);
    num(r, t, n)
}

/// Every `every`-th case, apart from those other residues are used for, goes through a grid point by
/// point instead of at random: the number of the point for case `i`, if it is one of those.
pub fn sweep(i: usize, every: usize) -> Option<usize> { if i % every == 21 % every { Some(i / every) } else { None } }

/// A number of `n` digits, none of the leading ones zero
pub fn exact(r: &mut Rng, t: &Ty, n: usize) -> N
{
    let mut v = num(r, t, n);
    if let Some(d) = v.last_mut() { if *d == 0 { *d = 1 + r.below_u64(t.max_digit()); } }
    v
}

/// A number of at most `n` digits, mostly of just that many, built to have something to do with `a`
pub fn exact_related(r: &mut Rng, t: &Ty, a: &N, n: usize) -> N
{
    let mut v = if r.chance(1, 2) { related(r, t, a) } else { return exact(r, t, n) };
    v.resize(n, 0);
    if let Some(d) = v.last_mut() { if *d == 0 { *d = 1; } }
    v
}

/// Lengths far over the usual ones, for operations that take time linear in the length
pub fn giant_len(r: &mut Rng) -> usize
{
    match r.below(64)
    {
        0 => r.range(65_530, 66_000),
        1 | 2 => r.range(8_000, 33_000),
        3..=20 => r.pick(&[1000usize, 1023, 1024, 1025, 1151, 1152, 1153, 1999, 2000, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000]),
        _ => r.range(901, 6000)
    }
}

/// As `any`, with one number in four hundred far longer
pub fn any_linear(r: &mut Rng, t: &Ty, w: [usize; 4]) -> N
{
    if r.chance(1, 400) { let n = giant_len(r); num(r, t, n) } else { any(r, t, w) }
}

/// A number that has something to do with `a`
pub fn related(r: &mut Rng, t: &Ty, a: &N) -> N
{
    let b = t.base;
    let mut v = match r.below(16)
    {
        14 | 15 => against(r, t, a),
        0 => a.clone(),
        1 => add(a, &[1 + r.below(3) as u64], b),
        2 => sub(a, &[1 + r.below(3) as u64], b).unwrap_or_default(),
        3 | 4 if !a.is_empty() => {
            // one digit replaced
            let mut v = a.clone();
            let i = r.below(v.len());
            v[i] = digit(r, t);
            v
        },
        5 if !a.is_empty() => {
            // one digit off by one
            let mut v = a.clone();
            let i = r.below(v.len());
            if v[i] < t.max_digit() && r.chance(1, 2) { v[i] += 1; } else if v[i] > 0 { v[i] -= 1; }
            v
        },
        6 | 7 if !a.is_empty() => {
            // the same high digits, other low digits
            let mut v = a.clone();
            let k = r.below(v.len() + 1);
            for d in v[..k].iter_mut() { *d = digit(r, t); }
            v
        },
        8 if !a.is_empty() => {
            // the same low digits, other (fewer, more) high digits
            let k = r.below(a.len() + 1);
            let mut v = a[..k].to_vec();
            for _ in 0..r.below(4) { v.push(digit(r, t)); }
            v
        },
        9 if !a.is_empty() => a[r.below(a.len())..].to_vec(),
        10 => {
            // complement to a power of the base
            let mut p = vec![0; a.len() + r.below(2)];
            p.push(1);
            sub(&p, a, b).unwrap_or_default()
        },
        11 => { let mut v = a.clone(); mul_add_small(&mut v, 2 + r.below(100) as u128, r.below(3) as u64, b); v },
        12 => { let mut v = a.clone(); div_small(&mut v, 2 + r.below(100) as u64, b); v },
        _ => {
            let n = r.below(a.len() + 3);
            num(r, t, n)
        }
    };
    trim(&mut v);
    v
}

/// A number <= a (for subtraction)
pub fn at_most(r: &mut Rng, t: &Ty, a: &N) -> N
{
    for _ in 0..4
    {
        let v = related(r, t, a);
        if cmp(&v, a) != std::cmp::Ordering::Greater { return v; }
    }
    let mut v = a.clone();
    let k = r.below(v.len() + 1);
    for d in v[..k].iter_mut() { *d = digit(r, t); }
    for i in (0..v.len()).rev()
    {
        if v[i] > a[i] { v[i] = if a[i] > 0 { r.below_u64(a[i]) } else { 0 }; }
        if v[i] < a[i] { break; }
    }
    trim(&mut v);
    v
}

fn inv_mod(a: u128, m: u128) -> Option<u128>
{
    // extended Euclid with i128 coefficients reduced modulo m < 2^64
    let (mut r0, mut r1) = (m as i128, (a % m) as i128);
    let (mut t0, mut t1) = (0i128, 1i128);
    while r1 != 0
    {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    if r0 != 1 { return None; }
    Some(t0.rem_euclid(m as i128) as u128)
}

/// Two digits whose product (plus a small carry) falls just below, at or just above a multiple of
/// the base: where a quotient by the base that is computed approximately goes wrong first.
pub fn tight_pair(r: &mut Rng, t: &Ty) -> (u64, u64)
{
    let b = t.base;
    for _ in 0..20
    {
        let a = (r.u64() as u128) % b;
        let a = if r.chance(1, 2) { b - 1 - (a >> r.below(t.bits)) % b } else { a };
        if a == 0 { continue; }
        if let Some(i) = inv_mod(a, b)
        {
            let e = match r.below(6) { 0 => 0, 1 => b - 1, 2 => 1, 3 => b - 1 - r.below(50) as u128 % b, 4 => r.below(50) as u128 % b, _ => (r.u64() as u128 >> r.below(64)) % b };
            // i * e mod b without overflow: both < 2^64
            let y = (i * e) % b;
            return (a as u64, y as u64);
        }
    }
    let a = digit(r, t);
    (a, digit(r, t))
}

/// Two numbers of about `n` digits put together from the same few blocks, each block as long as
/// the parts in which a multiplication would split the longer of the two: `x`, `x` plus or minus
/// something small, multiples of it, zero, one digit, or all digits maximal. The sums, differences
/// and products of the parts then cancel, vanish or come out tiny, with either sign.
pub fn joint_parts(r: &mut Rng, t: &Ty, n: usize) -> (N, N)
{
    let k = r.pick(&[2usize, 3, 3, 3, 4, 6]);
    let s = (n + k - 1) / k;
    if s == 0 { return (vec![], vec![]); }
    let b = t.base;
    let lx = if r.chance(1, 2) { s.saturating_sub(r.below(4)).max(1) } else { r.range(1, s) };
    let mut x: N = if r.chance(1, 4) { (0..lx).map(|_| digit(r, t)).collect() } else { (0..lx).map(|_| r.below_u64(t.max_digit())).collect() };
    trim(&mut x);
    let small: N = if r.chance(1, 2) { vec![r.range(1, 5) as u64] } else { vec![top_digit(r, t)] };
    let one = |r: &mut Rng, n: usize| -> N {
        let mut v: N = Vec::with_capacity(k * s);
        for _ in 0..k
        {
            let mut y: N = match r.below(10)
            {
                0 => vec![],
                1 => vec![t.max_digit(); s],
                2 | 3 => add(&x, &small, b),
                4 | 5 => sub(&x, &small, b).unwrap_or_default(),
                6 => { let mut y = x.clone(); mul_add_small(&mut y, r.range(2, 4) as u128, 0, b); y },
                7 => small.clone(),
                _ => x.clone()
            };
            y.resize(s, 0);
            v.extend(y);
        }
        v.truncate(n);
        trim(&mut v);
        v
    };
    let m = n - r.below(3).min(n);
    let (p, q) = (one(r, n), one(r, m));
    if r.chance(1, 2) { (p, q) } else { (q, p) }
}

/// A number of about `n` digits that adds digit by digit to (almost) the same value everywhere as
/// `a` does: the base, the next power of two, half of it, or one digit. Each place then just carries,
/// just fails to, or stands on the edge of what a machine word holds.
pub fn against(r: &mut Rng, t: &Ty, a: &N) -> N
{
    let b = t.base;
    let s: u128 = match r.below(5) { 0 | 1 => b, 2 | 3 => 1u128 << t.bits, _ => r.pick(&[b / 2, b - 1 + b / 2, 2 * b - 2]) };
    let spread = r.pick(&[0usize, 1, 2]);
    let mut v: N = a.iter().map(|&x| {
        let e = if spread == 0 { 1 } else { r.below(2 * spread + 1) as u128 };
        let want = (s + e).saturating_sub(1 + spread as u128 / 2 + x as u128);
        if want < b && !r.chance(1, 12) { want as u64 } else { r.pick(&[t.max_digit(), 0, x]) }
    }).collect();
    // a carry to start with
    if !v.is_empty() && r.chance(1, 2) { v[0] = t.max_digit() - r.below(2) as u64; }
    trim(&mut v);
    v
}

/// A number and a digit (not zero) whose digit-by-digit product, with the carry from the place before, keeps
/// coming out at or next to a multiple of the base.
pub fn critical_product(r: &mut Rng, t: &Ty, n: usize, d: u64) -> N
{
    let b = t.base;
    let d = d as u128;
    let mut v: N = vec![];
    let mut carry = 0u128;
    // from the top down: the carry that makes the place above critical, then a digit that makes that carry
    'outer: for _ in 0..8
    {
        let mut w: N = vec![];
        let hi = digit(r, t) as u128;
        let target = match r.below(4) { 0 => 0, 1 => b - 1, 2 => 1 % b, _ => b - 2 };
        w.push(hi as u64);
        let mut need = (target + b - hi * d % b) % b;
        for _ in 1..n
        {
            // need < d, or no carry makes it
            if need >= d
            {
                if w.len() < 2 { continue 'outer; }
                break;
            }
            // any x with floor((x*d + c) / b) = need, the smallest, the largest, or one between
            let lo = (need * b + d - 1) / d;
            let top = ((need + 1) * b - 1) / d;
            let top = top.min(b - 1);
            if lo >= b || lo > top { break; }
            let x = match r.below(4) { 0 => lo, 1 => top, _ => lo + (r.u64() as u128 % (top - lo + 1)) };
            w.push(x as u64);
            // this place too: what carry in brings it to the edge
            need = (need * b + b - 1).saturating_sub(x * d).min(if r.chance(1, 2) { b } else { 0 });
            if need == 0 { break; }
        }
        w.reverse();
        v = w;
        break;
    }
    if v.is_empty()
    {
        // from the bottom up: search a digit at each place
        for _ in 0..n
        {
            let x = digit(r, t) as u128;
            let p = x * d + carry;
            v.push(x as u64);
            carry = p / b;
        }
    }
    let low = r.below(3);
    for _ in 0..low { let x = digit(r, t); v.insert(0, x); }
    trim(&mut v);
    v
}

/// A dividend whose division by `d` from the top down leaves remainders zero, one, d-1, and whose partial
/// dividends are next to multiples of `d`.
pub fn critical_dividend(r: &mut Rng, t: &Ty, n: usize, d: u64) -> N
{
    let b = t.base;
    let d = d as u128;
    if d == 0 { return num(r, t, n); }
    let mut v: N = vec![];
    let mut rem = 0u128;
    for _ in 0..n
    {
        let want = match r.below(6) { 0 => Some(0), 1 => Some(1 % d), 2 | 3 => Some(d - 1), 4 => Some(d / 2), _ => None };
        let x = match want
        {
            // the smallest x with rem * b + x = want modulo d, plus a multiple of d
            Some(w) => {
                let c = rem * b % d;
                let x = (w + d - c) % d;
                let k = if x < b { (b - 1 - x) / d } else { 0 };
                if x < b { x + d * match r.below(3) { 0 => 0, 1 => k, _ => if k > 0 { r.u64() as u128 % (k + 1) } else { 0 } } } else { digit(r, t) as u128 }
            },
            None => digit(r, t) as u128
        };
        v.push(x as u64);
        rem = (rem * b + x) % d;
    }
    v.reverse();
    trim(&mut v);
    v
}

/// A pair of factors
pub fn factors(r: &mut Rng, t: &Ty, w: [usize; 4]) -> (N, N)
{
    let c = class(r, w);
    match r.below(10)
    {
        // lopsided
        0 | 1 => {
            let n = len(r, c);
            let f = r.pick(&[2usize, 2, 3, 4, 5, 8, 12]);
            let m = (n / f).max(1) + r.below(3);
            let (a, b) = (num(r, t, n), num(r, t, m));
            if r.chance(1, 2) { (a, b) } else { (b, a) }
        },
        2 => { let n = len(r, c); let m = n + r.below(4); (num(r, t, n), num(r, t, m)) },
        3 => { let n = len(r, c); let a = num(r, t, n); let mut b = parts(r, t, n); trim(&mut b); (a, b) },
        4 if r.chance(1, 2) => { let n = len(r, c); joint_parts(r, t, n) },
        4 => { let n = len(r, c); let mut a = parts(r, t, n); trim(&mut a); let mut b = parts(r, t, n); trim(&mut b); (a, b) },
        5 => { let n = len(r, c); let a = num(r, t, n); let b = related(r, t, &a); (a, b) },
        6 if c == 0 && r.chance(1, 2) => {
            let d = top_digit(r, t);
            let l = r.range(2, 4);
            let a = critical_product(r, t, l, d);
            let mut b = vec![d];
            if r.chance(1, 3) { b.push(digit(r, t)); }
            if r.chance(1, 3) { b.insert(0, 0); }
            trim(&mut b);
            if r.chance(1, 2) { (a, b) } else { (b, a) }
        },
        6 if c == 0 => { let (x, y) = tight_pair(r, t); let mut a = vec![x]; let mut b = vec![y]; if r.chance(1, 3) { a.push(digit(r, t)); } if r.chance(1, 3) { b.push(digit(r, t)); } trim(&mut a); trim(&mut b); (a, b) },
        _ => { let n = len(r, c); let c2 = if r.chance(2, 3) { c } else { class(r, w) }; let m = len(r, c2); (num(r, t, n), num(r, t, m)) }
    }
}

/// Factors of which at least one is far longer than any algorithm switch; `area` bounds the product
/// of the two lengths.
pub fn giant_factors(r: &mut Rng, t: &Ty, area: usize) -> (N, N)
{
    // now and then more digits than sixteen bits can count, against a short factor
    if r.chance(1, 40) && area >= 66_000 * 20
    {
        let n = r.range(65_530, 66_000);
        let m = r.range(1, area / n);
        let (mut a, mut b) = (num(r, t, n), num(r, t, m));
        trim(&mut a);
        trim(&mut b);
        return if r.chance(1, 2) { (a, b) } else { (b, a) };
    }
    let n = match r.below(4) { 0 => r.range(800, 1300), 1 => r.pick(&[1152usize, 1153, 1154, 1151, 1155, 1536, 1024, 2048, 3456]), _ => r.range(600, 4000) }.min(area / 2);
    let m = match r.below(6)
    {
        0 | 1 => r.range(1, 140),
        2 => r.pick(&[60usize, 61, 63, 64, 65, 126, 127, 128, 129, 130, 190, 250, 383, 384, 385]),
        3 => n / r.range(1, 12).min(n),
        4 => n + 2 - r.below(5),
        _ => r.range(1, n)
    }.min(area / n).max(1);
    let mut a = if r.chance(1, 3) { parts(r, t, n) } else { num(r, t, n) };
    let mut b = if r.chance(1, 3) { parts(r, t, m) } else { num(r, t, m) };
    trim(&mut a);
    trim(&mut b);
    if r.chance(1, 2) { (a, b) } else { (b, a) }
}

/// The same for division
pub fn giant_dividend(r: &mut Rng, t: &Ty, area: usize) -> (N, N)
{
    let (q, mut d) = if r.chance(1, 60) && area >= 66_000 * 20
    {
        // quotient and divisor both long enough for the recursive division, with more digits in
        // the divisor than (255, 65535) blocks or sixteen bits can count
        let nd = match r.below(3) { 0 => r.range(65_400, 66_600), 1 => r.range(15_000, 17_000), _ => r.range(4_000, 30_000) };
        let nq = r.range(20, 140);
        (num(r, t, nq), num(r, t, nd))
    }
    else { giant_factors(r, t, area) };
    trim(&mut d);
    if d.is_empty() { d.push(1); }
    if r.chance(1, 3) { let l = d.len() - 1; d[l] = t.max_digit() - r.below(3) as u64; }
    let mut n = if q.len() * d.len() > 300_000 || r.chance(1, 3) { let l = q.len() + d.len() - r.below(2); num(r, t, l) }
        else { let p = mul(&q, &d, t.base); match r.below(3) { 0 => p, 1 => add(&p, &sub(&d, &[1], t.base).unwrap(), t.base), _ => sub(&p, &[1], t.base).unwrap_or_default() } };
    trim(&mut n);
    (n, d)
}

/// A dividend and a non-zero divisor
pub fn dividend(r: &mut Rng, t: &Ty, w: [usize; 4]) -> (N, N)
{
    let b = t.base;
    let c = class(r, w);
    let nd = len(r, c).max(1);
    let mut d = num(r, t, nd);
    if r.chance(1, 3)
    {
        // normalised or barely not normalised leading digit
        let l = d.len() - 1;
        d[l] = match r.below(4) { 0 => (b / 2) as u64, 1 => (b / 2) as u64 - 1, 2 => t.max_digit(), _ => (b / 2) as u64 + r.below_u64((b / 2) as u64) };
        if l > 0 && r.chance(1, 2) { d[l - 1] = digit(r, t); }
    }
    if r.chance(1, 6) && d.len() > 1
    {
        // leading digit small, the rest maximal: most over-estimated quotient digits
        let l = d.len() - 1;
        let k = r.below(l) ;
        for x in d[k..l].iter_mut() { *x = t.max_digit(); }
    }
    trim(&mut d);
    if d.is_empty() { d.push(1); }
    let nd = d.len();
    let n = match r.below(12)
    {
        0 => related(r, t, &d),
        1 | 2 => {
            // dividend that starts with the digits of the divisor
            let extra = if c == 0 { r.range(0, 4) } else { r.range(0, nd.min(60) + 2) };
            let mut v: N = (0..extra).map(|_| digit(r, t)).collect();
            v.extend_from_slice(&d);
            let k = r.below(nd);
            if r.chance(3, 4)
            {
                let i = extra + k;
                if v[i] > 0 && r.chance(2, 3) { v[i] -= 1 } else { v[i] = digit(r, t) }
                if r.chance(1, 2) { for x in v[..i].iter_mut() { *x = t.max_digit(); } }
            }
            v
        },
        3 | 4 | 5 | 6 => {
            // q*d + rem with chosen quotient and remainder
            let lq = if c == 0 { r.range(1, 5) } else { match r.below(4) { 0 => r.range(1, 4), 1 => nd + r.below(3), 2 => r.range(1, nd + 2), _ => (2 * nd + r.below(nd)).min(700) } };
            let q = num(r, t, lq);
            let p = if q.len() * nd > 40_000 { num(r, t, nd + lq) } else { mul(&q, &d, b) };
            let rem = match r.below(5) { 0 => vec![], 1 => sub(&d, &[1], b).unwrap(), 2 => vec![1], 3 => at_most(r, t, &sub(&d, &[1], b).unwrap()), _ => { let mut x = d.clone(); div_small(&mut x, 2, b); x } };
            let mut v = add(&p, &rem, b);
            if r.chance(1, 8) { v = sub(&v, &[1], b).unwrap_or_default(); }
            v
        },
        7 => { let n = nd + r.below(3); num(r, t, n) },
        8 => { let n = (2 * nd + r.below(3)).saturating_sub(1); num(r, t, n) },
        9 => { let n = 3 * nd.min(300) + r.below(nd.min(300) + 1); num(r, t, n) },
        10 => { let n = nd.saturating_sub(r.below(3)); num(r, t, n) },
        _ => { let c2 = class(r, w); let n = len(r, c2); num(r, t, n) }
    };
    let mut n = n;
    trim(&mut n);
    (n, d)
}

pub fn prim(r: &mut Rng, t: &Ty) -> u64
{
    let m = t.max_prim();
    match r.below(10)
    {
        0 => r.below(4) as u64,
        1 => m - r.below(4) as u64,
        2 | 3 => ((t.base as u64).wrapping_sub(2).wrapping_add(r.below(5) as u64)) & m,
        4 => (((t.base % (1 << 64)) as u64).wrapping_mul(r.range(1, 6) as u64).wrapping_add(r.below(3) as u64)) & m,
        5 => r.u64() & m,
        6 => (r.u64() >> r.below(64)) & m,
        7 => m - (r.u64() >> r.below(64)).min(m),
        _ => digit(r, t)
    }
}

/// Shift distances: around multiples of the digit width, within a digit, around the length
pub fn shift(r: &mut Rng, t: &Ty, bitlen: usize, max: usize) -> usize
{
    let w = t.bits;
    let n = match r.below(8)
    {
        0 => r.below(w + 1),
        1 => r.below(4),
        2 => (w * r.below(8) + r.below(3)).saturating_sub(1),
        3 => (bitlen + r.below(5)).saturating_sub(2),
        4 => bitlen + r.below(2 * w + 2),
        5 => { let h = if t.dec { 4 * (2 * w / 8 - 1) } else { w }; (h * r.below(6) + r.below(3)).saturating_sub(1) },
        6 => r.below(bitlen + 1),
        _ => r.below(4 * w + 80)
    };
    n.min(max)
}
