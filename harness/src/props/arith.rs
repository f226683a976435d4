//! C01-C07: the four operations, powers, and what is refused

use super::*;
use crate::api::*;
use crate::case::*;
use crate::engine::*;
use crate::gen::{self, Rng};
use crate::with_ty;
use std::cmp::Ordering;

const W: [usize; 4] = [20, 9, 2, 1];

/// The right operand of a step: big number, digit or primitive
pub enum Rhs { Big, Dig, Prim }

pub fn rhs_of(st: &Step) -> Rhs
{
    if st.op.ends_with("_dig") { Rhs::Dig } else if st.op.ends_with("_prim") { Rhs::Prim } else { Rhs::Big }
}

/// The form `&x op &x`, both operands the same object
pub const SELF: usize = 36;

/// A step on two big numbers; equal ones are sometimes the same object
fn pair(r: &mut Rng, mut st: Step, a: N, b: N) -> Case
{
    if a == b && r.chance(1, 2) { st.form = SELF; }
    Case::one(st.num(a).num(b))
}

/// Value of the right operand
pub fn rhs_value(st: &Step, t: &Ty) -> N
{
    match rhs_of(st) { Rhs::Big => st.nums[1].clone(), _ => from_u128(st.ints[0] as u128, t.base) }
}

pub fn well_formed(st: &Step) -> bool
{
    let t = ty_of(st.ty);
    let n = match rhs_of(st) { Rhs::Big => st.nums.len() == 2, Rhs::Dig => st.nums.len() == 1 && st.ints.len() == 1 && (st.ints[0] as u128) < t.base,
        Rhs::Prim => st.nums.len() == 1 && st.ints.len() == 1 && st.ints[0] <= t.max_prim() };
    n && st.nums.iter().all(|x| is_canonical(x, t.base)) && (st.form != SELF || st.nums.len() == 2 && st.nums[0] == st.nums[1])
}

pub fn op_of(st: &Step) -> Op { op_from(st.op.split('_').next().unwrap()) }

pub fn what(st: &Step) -> String { format!("{} {} form {}", ty_of(st.ty).name, st.op, st.form) }

/// Run the single operation of a step
pub fn apply<U: Big>(st: &Step) -> Result<U, String>
{
    let a = U::mk(&st.nums[0]);
    let op = op_of(st);
    match rhs_of(st)
    {
        Rhs::Big if st.form == SELF => attempt(move || U::itself(op, &a)),
        Rhs::Big => { let b = U::mk(&st.nums[1]); attempt(move || U::big(op, st.form, a, b).0) },
        Rhs::Dig => attempt(move || U::dig(op, st.form % 3, a, st.ints[0]).0),
        Rhs::Prim => attempt(move || U::dig(op, 3 + st.form % 3, a, st.ints[0]).0)
    }
}

fn rhs_class(st: &Step) -> &'static str
{
    match rhs_of(st) { Rhs::Big => "big right operand", Rhs::Dig => "digit right operand", Rhs::Prim => "primitive right operand" }
}

fn ty_class(t: usize) -> &'static str { TYPES[t].name }

fn pick_ty(r: &mut Rng) -> usize { r.below(8) }

const ADD_OPS: [&str; 3] = ["add", "add_dig", "add_prim"];
const SUB_OPS: [&str; 3] = ["sub", "sub_dig", "sub_prim"];

fn rhs_kind(r: &mut Rng) -> usize { match r.below(10) { 0..=5 => 0, 6 | 7 => 1, _ => 2 } }

// ---- C01 ----------------------------------------------------------------------------------

fn gen_add(r: &mut Rng, i: usize) -> Case
{
    let ty = pick_ty(r);
    let t = ty_of(ty);
    let form = r.below(6);
    if let Some(k) = gen::sweep(i, 128)
    {
        let a = gen::exact(r, t, k % 512 + 1);
        let b = gen::exact_related(r, t, &a, k / 512 % 512 + 1);
        return pair(r, Step::new("add", ty, form), a, b);
    }
    let k = rhs_kind(r);
    let mut a = gen::any_linear(r, t, W);
    let st = Step::new(ADD_OPS[k], ty, form);
    if k == 0
    {
        if r.chance(1, 12) { let b = gen::against(r, t, &a); return pair(r, st, a, b); }
        let b = if r.chance(1, 2) { gen::any_linear(r, t, W) } else { gen::related(r, t, &a) };
        return if r.chance(1, 2) { pair(r, st, a, b) } else { pair(r, st, b, a) };
    }
    let v = if k == 1 { gen::digit(r, t) } else { gen::prim(r, t) };
    if r.chance(1, 2) && !a.is_empty()
    {
        // low digits that make the carry go far
        let n = a.len();
        let m = r.below(n + 1);
        for d in a[..m].iter_mut() { *d = t.max_digit(); }
        if r.chance(1, 2) { a[0] = (t.base - 1 - (v as u128 % t.base).min(t.base - 1)) as u64; if r.chance(2, 3) && a[0] < t.max_digit() { a[0] += 1; } }
        if n > 1 && r.chance(1, 3) { a[1] = t.max_digit() - r.below(3) as u64; }
        trim(&mut a);
    }
    Case::one(st.num(a).int(v))
}

fn check_add(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    if c.steps.len() != 1 || !well_formed(st) { return Verdict::Invalid; }
    let t = ty_of(st.ty);
    let b = rhs_value(st, t);
    let want = add(&st.nums[0], &b, t.base);
    with_ty!(st.ty, U, match apply::<U>(st)
    {
        Err(m) => return fail(format!("{} panicked: {}", what(st), m)),
        Ok(x) => if let Err(m) = same(&what(st), &x, &want) { return fail(m); }
    });
    let carry = st.nums[0].len().min(b.len()) > 0 && (0..st.nums[0].len().min(b.len())).any(|i| st.nums[0][i] as u128 + b[i] as u128 >= t.base);
    let mut cl = vec![ty_class(st.ty), rhs_class(st), size_class(st.nums[0].len())];
    if carry { cl.push("with carry"); }
    if want.len() > st.nums[0].len().max(b.len()) { cl.push("sum longer than both operands"); }
    Verdict::Ok(carry, cl)
}

pub const C01: Prop = Prop
{
    id: "C01", quick: 40_000_000, thorough: 300_000_000,
    rule: "one addition in one operator form with a big number, digit or primitive on the right, in one of 8 types; operands are edge-biased, run-structured, related to each other or complementary, mostly up to 900 digits and now and then up to 66000, and every pair of lengths up to 512; non-trivial = at least one digit position carries",
    gen: gen_add, check: check_add
};

// ---- C02 ----------------------------------------------------------------------------------

fn gen_sub(r: &mut Rng, i: usize) -> Case
{
    let ty = pick_ty(r);
    let t = ty_of(ty);
    let form = r.below(6);
    if let Some(k) = gen::sweep(i, 160)
    {
        let a = gen::exact(r, t, k % 512 + 1);
        let b = gen::exact_related(r, t, &a, k / 512 % 512 + 1);
        let (a, b) = if cmp(&a, &b) == Ordering::Less { (b, a) } else { (a, b) };
        return pair(r, Step::new("sub", ty, form), a, b);
    }
    let k = rhs_kind(r);
    let mut a = gen::any_linear(r, t, W);
    let st = Step::new(SUB_OPS[k], ty, form);
    if k == 0
    {
        let b = match r.below(4)
        {
            0 => { let b = gen::any_linear(r, t, W); b },
            1 => {
                // difference chosen: a = b + small or structured difference
                let b = gen::any_linear(r, t, W);
                let l = r.below(b.len() + 2);
                let mut d = gen::num(r, t, l);
                trim(&mut d);
                a = add(&b, &d, t.base);
                b
            },
            _ => gen::at_most(r, t, &a)
        };
        let (a, b) = if cmp(&a, &b) == Ordering::Less { (b, a) } else { (a, b) };
        return pair(r, st, a, b);
    }
    let v = if k == 1 { gen::digit(r, t) } else { gen::prim(r, t) };
    if r.chance(1, 2)
    {
        // low digits that make the borrow go far, or a difference that loses its top
        let vn = from_u128(v as u128, t.base);
        match r.below(3)
        {
            0 => { let l = r.below(4); let mut z = vec![0; l]; z.push(1 + r.below(2) as u64); a = add(&z, &vn, t.base); a = sub(&a, &[1], t.base).unwrap_or_default(); },
            1 => { let mut d = gen::any(r, t, [1, 0, 0, 0]); trim(&mut d); a = add(&vn, &d, t.base); },
            _ => { let n = a.len(); for d in a[..n.saturating_sub(1)].iter_mut() { *d = 0; } }
        }
    }
    let vn = from_u128(v as u128, t.base);
    if cmp(&a, &vn) == Ordering::Less { a = vn; if r.chance(1, 2) { a = add(&a, &[gen::digit(r, t)], t.base); trim(&mut a); } }
    Case::one(st.num(a).int(v))
}

fn check_sub(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    if c.steps.len() != 1 || !well_formed(st) { return Verdict::Invalid; }
    let t = ty_of(st.ty);
    let b = rhs_value(st, t);
    let want = match sub(&st.nums[0], &b, t.base) { Some(x) => x, None => return Verdict::Invalid };
    with_ty!(st.ty, U, match apply::<U>(st)
    {
        Err(m) => return fail(format!("{} panicked: {}", what(st), m)),
        Ok(x) => if let Err(m) = same(&what(st), &x, &want) { return fail(m); }
    });
    let a = &st.nums[0];
    let borrow = (0..b.len()).any(|i| a[i] < b[i]);
    let mut cl = vec![ty_class(st.ty), rhs_class(st), size_class(a.len())];
    if borrow { cl.push("with borrow"); }
    if want.len() < a.len() { cl.push("difference shorter than minuend"); }
    if want.is_empty() { cl.push("difference zero"); }
    Verdict::Ok(borrow || want.len() < a.len(), cl)
}

pub const C02: Prop = Prop
{
    id: "C02", quick: 50_000_000, thorough: 160_000_000,
    rule: "one subtraction that does not underflow, in one operator form with a big number, digit or primitive on the right, in one of 8 types, every pair of lengths up to 512 among them; non-trivial = some digit position borrows or the difference has fewer digits than the minuend",
    gen: gen_sub, check: check_sub
};

// ---- C03 ----------------------------------------------------------------------------------

fn gen_under(r: &mut Rng, i: usize) -> Case
{
    let ty = pick_ty(r);
    let t = ty_of(ty);
    let form = r.below(6);
    if let Some(k) = gen::sweep(i, 160)
    {
        let a = gen::exact(r, t, k % 350 + 1);
        let b = gen::exact_related(r, t, &a, k / 350 % 350 + 1);
        let (a, b) = match cmp(&a, &b) { Ordering::Less => (a, b), Ordering::Equal => (a, add(&b, &[1], t.base)), Ordering::Greater => (b, a) };
        return Case::one(Step::new("sub", ty, form).num(a).num(b));
    }
    let k = rhs_kind(r);
    let st = Step::new(SUB_OPS[k], ty, form);
    if k == 0
    {
        let b = { let mut b = gen::any_linear(r, t, W); if b.is_empty() { b.push(1); } b };
        let a = match r.below(3)
        {
            0 => gen::at_most(r, t, &sub(&b, &[1], t.base).unwrap()),
            1 => sub(&b, &[1 + r.below(2) as u64], t.base).unwrap_or_default(),
            _ => { let x = gen::any_linear(r, t, W); x }
        };
        let (a, b) = match cmp(&a, &b) { Ordering::Less => (a, b), Ordering::Equal => (a, add(&b, &[1], t.base)), Ordering::Greater => (b, a) };
        return Case::one(st.num(a).num(b));
    }
    let v = if k == 1 { gen::digit(r, t) } else { gen::prim(r, t) }.max(1);
    let vn = from_u128(v as u128, t.base);
    let a = match r.below(4)
    {
        0 => vec![],
        1 => sub(&vn, &[1], t.base).unwrap(),
        _ => from_u128(r.below_u64(v) as u128, t.base)
    };
    Case::one(st.num(a).int(v))
}

fn check_under(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    if c.steps.len() != 1 || !well_formed(st) { return Verdict::Invalid; }
    let t = ty_of(st.ty);
    let b = rhs_value(st, t);
    if cmp(&st.nums[0], &b) != Ordering::Less { return Verdict::Invalid; }
    with_ty!(st.ty, U, match apply::<U>(st)
    {
        Err(m) => if !m.to_lowercase().contains("underflow") { return fail(format!("{} of a larger number panicked with \"{}\", which does not report underflow", what(st), m)); },
        Ok(x) => return fail(format!("{} of a larger number returned {}", what(st), show(&x.raw())))
    });
    let mut cl = vec![ty_class(st.ty), rhs_class(st), size_class(b.len())];
    let same_len = b.len() == st.nums[0].len();
    if same_len { cl.push("equal lengths"); }
    Verdict::Ok(!st.nums[0].is_empty(), cl)
}

pub const C03: Prop = Prop
{
    id: "C03", quick: 20_000_000, thorough: 120_000_000,
    rule: "one subtraction of a larger number (often larger by one, equal in length or in its leading digits) in one operator form; it has to panic with a message naming underflow; every pair of lengths up to 350 among them; non-trivial = the minuend is not zero",
    gen: gen_under, check: check_under
};

// ---- C04 ----------------------------------------------------------------------------------

fn gen_mul(r: &mut Rng, i: usize) -> Case
{
    let ty = pick_ty(r);
    let t = ty_of(ty);
    let form = r.below(6);
    if let Some(k) = gen::sweep(i, 256)
    {
        let m = if r.big { 550 } else { 300 };
        let a = gen::exact(r, t, k % m + 1);
        let b = if r.chance(1, 4) { let n = k / m % m + 1; let mut b = gen::parts(r, t, n); if b[n - 1] == 0 { b[n - 1] = 1; } b } else { gen::exact(r, t, k / m % m + 1) };
        return pair(r, Step::new("mul", ty, form), a, b);
    }
    // long products only in one case out of eight: they cost a thousand times as much
    let w = if i % 8 == 0 { [0, 4, 5, 2] } else { [10, 6, 0, 0] };
    if i % 1_000_000 == 13
    {
        // both longer than sixteen bits can count
        let (n, m) = (r.range(65_530, 65_800), r.range(65_530, 65_800));
        let (mut a, mut b) = (gen::num(r, t, n), gen::num(r, t, m));
        trim(&mut a);
        trim(&mut b);
        return Case::one(Step::new("mul", ty, form).num(a).num(b));
    }
    if i % 1024 == 5 { let area = if r.big { 6_000_000 } else { 2_000_000 }; let (a, b) = gen::giant_factors(r, t, area); return Case::one(Step::new("mul", ty, form).num(a).num(b)); }
    match r.below(10)
    {
        0 => { let mut a = gen::any_linear(r, t, W); let mut d = gen::digit(r, t); if r.chance(1, 3) { let (x, y) = gen::tight_pair(r, t); d = x; if !a.is_empty() { a[0] = y; } trim(&mut a); } Case::one(Step::new("mul_dig", ty, form).num(a).int(d)) },
        1 => {
            let v = gen::prim(r, t);
            let a = if r.chance(1, 3) && v > 0 && (v as u128) < t.base { let n = r.range(1, 8); gen::critical_product(r, t, n, v) } else { gen::any_linear(r, t, W) };
            Case::one(Step::new("mul_prim", ty, form).num(a).int(v))
        },
        2 if r.chance(1, 3) => { let d = gen::digit(r, t).max(1); let n = r.range(1, 8); Case::one(Step::new("mul_dig", ty, form).num(gen::critical_product(r, t, n, d)).int(d)) },
        _ => { let (mut a, mut b) = gen::factors(r, t, w); trim(&mut a); trim(&mut b); pair(r, Step::new("mul", ty, form), a, b) }
    }
}

fn check_mul(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    if c.steps.len() != 1 || !well_formed(st) { return Verdict::Invalid; }
    let t = ty_of(st.ty);
    let b = rhs_value(st, t);
    let a = &st.nums[0];
    with_ty!(st.ty, U, match apply::<U>(st)
    {
        Err(m) => return fail(format!("{} panicked: {}", what(st), m)),
        Ok(x) => {
            let p = x.raw();
            if !is_canonical(&p, t.base) { return fail(format!("{} of {} and {} digits: product {} is not canonical", what(st), a.len(), b.len(), show(&p))); }
            if !is_product(a, &b, &p, t.base) { return fail(wrong_product(&what(st), a, &b, &p, t)); }
        }
    });
    let (s, l) = (a.len().min(b.len()), a.len().max(b.len()));
    let mut cl = vec![ty_class(st.ty), rhs_class(st), size_class(s)];
    if s > 0 && l >= 2 * s { cl.push("lopsided (2:1 or more)"); }
    if a.len() * b.len() > EXACT_MUL_LIMIT { cl.push("verified by residues"); }
    Verdict::Ok(s >= 2 || (s == 1 && l >= 2), cl)
}

fn wrong_product(w: &str, a: &N, b: &N, p: &N, t: &Ty) -> String
{
    if a.len() * b.len() <= 400_000 { differ(&format!("{} ({}x{} digits)", w, a.len(), b.len()), p, &mul(a, b, t.base)) }
    else { format!("{} ({}x{} digits): product wrong modulo a prime", w, a.len(), b.len()) }
}

pub const C04: Prop = Prop
{
    id: "C04", quick: 24_000_000, thorough: 80_000_000,
    rule: "one product in one operator form, in one of 8 types; lengths at and around every algorithm switch, balanced and lopsided, up to thousands and rarely over 65536 digits, and every pair of lengths up to 300 (thorough 550); digits edge-biased, in runs, or in blocks whose sums and differences vanish or change sign; non-trivial = not digit times digit and neither factor zero",
    gen: gen_mul, check: check_mul
};

// ---- C05 ----------------------------------------------------------------------------------

/// The largest exponent a power of `a` (neither zero nor one) is checked with
pub fn max_exponent(a: &[u64]) -> u64
{
    let bits = (a.len() as u64 - 1) * 64 + a.last().unwrap().ilog2() as u64 + 1;
    (1000 / a.len() as u64).max(12_000 / bits).max(3)
}

/// A base and an exponent
pub fn power(r: &mut Rng, t: &Ty) -> (N, u64)
{
    let max = if r.chance(1, 500) { 900 } else if r.chance(1, 20) { 260 } else { 60 };
    let mut a = match r.below(6) { 0 => { let mut v = vec![r.below(4) as u64]; trim(&mut v); v }, 1 => { let mut v = vec![10u64.pow(r.below(2) as u32)]; if r.chance(1, 2) { v.insert(0, 0); } v }, 2 if r.chance(1, 3) => gen::any(r, t, [4, 4, 1, 0]), _ => { let n = r.range(1, 5); gen::num(r, t, n) } };
    trim(&mut a);
    let e = match (a.len(), a.first())
    {
        // any exponent: parts of it may be all a faulty power looks at
        (0, _) | (1, Some(1)) => match r.below(5)
        {
            0 => r.pick(&[0u64, 1, 2, 3, 7, 1000, u64::MAX, u64::MAX - 1]),
            1 => 1 << r.below(64),
            2 => (1u64 << r.below(64)).wrapping_add(r.below(5) as u64).wrapping_sub(2),
            3 => (1 + r.below(9) as u64) << r.below(60),
            _ => r.u64() >> r.below(64)
        },
        // long exponents of small bases
        (1, Some(&d)) if d < 16 && r.chance(1, 60) => { let m = max_exponent(&a); match r.below(3) { 0 => 1 << r.below(m.ilog2() as usize + 1), _ => r.below(m as usize + 1) as u64 } },
        (l, _) if l > 5 => (2 + r.below(5) as u64).min(max_exponent(&a)),
        (l, _) => { let m = max / l; match r.below(4) { 0 => r.below(8) as u64, 1 => (r.pick(&[2usize, 3, 4, 7, 8, 15, 16, 31, 32, 33, 63, 64]).min(m)) as u64, _ => r.below(m + 1) as u64 } }
    };
    (a, e)
}

fn gen_pow(r: &mut Rng, i: usize) -> Case
{
    let ty = pick_ty(r);
    let t = ty_of(ty);
    if let Some(k) = gen::sweep(i, 5000)
    {
        let n = k % if r.big { 3200 } else { 1600 } + 1;
        return Case::one(Step::new("square", ty, 0).num(gen::exact(r, t, n)));
    }
    if let Some(k) = gen::sweep(i, 1024)
    {
        let e = k % 100;
        let n = (k / 100 % 40 + 1).min(900 / e.max(1));
        let form = r.below(2);
        return Case::one(Step::new("pow", ty, form).num(gen::exact(r, t, n)).int((e as u64).min(max_exponent(&vec![t.max_digit(); n]))));
    }
    if r.chance(3, 5)
    {
        let w = if i % 8 == 0 { [0, 4, 5, 2] } else { [10, 6, 0, 0] };
        if i % 1_000_000 < 2 { let n = r.range(65_530, 65_800); let mut a = gen::num(r, t, n); trim(&mut a); return Case::one(Step::new("square", ty, 0).num(a)); }
        if i % 2048 == 5 { let mut a = gen::giant_factors(r, t, 4_000_000).0; a.truncate(if r.big { 3500 } else { 1600 }); trim(&mut a); return Case::one(Step::new("square", ty, 0).num(a)); }
        let a = if r.chance(1, 3) { let c = gen::class(r, w); let n = gen::len(r, c); let mut a = gen::parts(r, t, n); trim(&mut a); a } else { gen::any(r, t, w) };
        return Case::one(Step::new("square", ty, 0).num(a));
    }
    let form = r.below(2);
    if i % 4096 == 7
    {
        // a long result, now and then over 65536 digits
        let far = i % (1 << 19) == 7;
        let mut a = match r.below(4)
        {
            // a power of the base, or a small multiple of one
            _ if far => { let k = r.range(1, 300); let mut v = vec![0; k]; v.push(1 + r.below(3) as u64); v },
            0 => { let k = r.range(1, 20); let mut v = vec![0; k]; v.push(gen::digit(r, t)); v },
            1 => vec![gen::digit(r, t)],
            _ => { let n = r.range(1, 60); gen::num(r, t, n) }
        };
        trim(&mut a);
        if a.is_empty() { a = vec![0, 1]; }
        let size = if far { r.range(65_530, 66_000) } else { r.range(900, if r.big { 6000 } else { 2500 }) };
        let e = size / a.len().saturating_sub(usize::from(a.len() > 1 && *a.last().unwrap() < 4)).max(1);
        return Case::one(Step::new("longpow", ty, form).num(a).int(e as u64));
    }
    let (a, e) = power(r, t);
    Case::one(Step::new("pow", ty, form).num(a).int(e))
}

fn check_pow(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 || st.nums.len() != 1 || !is_canonical(&st.nums[0], t.base) { return Verdict::Invalid; }
    let a = &st.nums[0];
    if st.op == "square"
    {
        with_ty!(st.ty, U, { let x = U::mk(a); match attempt(|| U::square(&x))
        {
            Err(m) => return fail(format!("{} panicked: {}", what(st), m)),
            Ok(x) => {
                let p = x.raw();
                if !is_canonical(&p, t.base) { return fail(format!("{} of {} digits: square {} is not canonical", what(st), a.len(), show(&p))); }
                if !is_product(a, a, &p, t.base) { return fail(wrong_product(&what(st), a, a, &p, t)); }
            }
        } });
        return Verdict::Ok(a.len() >= 2, vec![ty_class(st.ty), "square", size_class(a.len())]);
    }
    let e = st.ints[0] as usize;
    if st.op == "longpow"
    {
        if a.is_empty() || e < 3 || a.len() * e > 300_000 { return Verdict::Invalid; }
        let x = with_ty!(st.ty, U, { let x = U::mk(a); match attempt(|| U::pow(x, st.form, e).0) { Err(m) => return fail(format!("{} exponent {} panicked: {}", what(st), e, m)), Ok(x) => x.raw() } });
        if !is_power(a, e as u64, &x, t.base) { return fail(format!("{} exponent {}: {} is not the power", what(st), e, show(&x))); }
        return Verdict::Ok(x.len() > 1, vec![ty_class(st.ty), "power", "long power", size_class(x.len())]);
    }
    let want = if e == 0 || *a == [1] { vec![1] } else if a.is_empty() { vec![] }
        else if e as u64 > max_exponent(a) { return Verdict::Invalid } else { pow(a, e, t.base) };
    with_ty!(st.ty, U, { let x = U::mk(a); match attempt(|| U::pow(x, st.form, e).0)
    {
        Err(m) => return fail(format!("{} exponent {} panicked: {}", what(st), e, m)),
        Ok(x) => if let Err(m) = same(&format!("{} exponent {}", what(st), e), &x, &want) { return fail(m); }
    } });
    let mut cl = vec![ty_class(st.ty), "power"];
    if e == 0 { cl.push("exponent 0"); }
    if a.is_empty() { cl.push("base zero"); }
    if e >= 8 { cl.push("exponent 8 or more"); }
    if e >= 1000 { cl.push("exponent 1000 or more"); }
    Verdict::Ok(e >= 3 && want.len() > 1, cl)
}

pub const C05: Prop = Prop
{
    id: "C05", quick: 20_000_000, thorough: 80_000_000,
    rule: "one square (all length classes, every length up to 1600, rarely over 65536 digits, structured as for products) or one power (mostly of bases of up to 5 digits, also of up to 379; exponents up to 260, rarely 900, digits of result; bases under 16 also with exponents up to 12000 bits of result; any exponent for 0 and 1; now and then results of up to 2500, rarely over 65536, digits, verified by residues), both forms; non-trivial = square of two digits or more, or exponent 3 or more with a result of two digits or more",
    gen: gen_pow, check: check_pow
};

// ---- C06 ----------------------------------------------------------------------------------

fn gen_div(r: &mut Rng, i: usize) -> Case
{
    let ty = pick_ty(r);
    let t = ty_of(ty);
    let form = r.below(36);
    if let Some(k) = gen::sweep(i, 128)
    {
        // every length of divisor with every length of quotient
        let m = if r.big { 500 } else { 300 };
        let d = gen::exact(r, t, k % m + 1);
        let q = k / m % m;
        let l = k % m + 1 + q - r.below(2).min(q);
        let n = gen::exact(r, t, l);
        return pair(r, Step::new("div", ty, form), n, d);
    }
    match r.below(10)
    {
        0 | 1 => {
            let v = gen::digit(r, t).max(1);
            let a = match r.below(3)
            {
                0 => gen::any_linear(r, t, W),
                1 => { let n = r.range(1, 12); gen::critical_dividend(r, t, n, v) },
                _ => { let lq = r.range(1, 6); let q = gen::num(r, t, lq); let mut x = q; mul_add_small(&mut x, v as u128, if r.chance(1, 2) { v - 1 } else { r.below_u64(v) }, t.base); x }
            };
            Case::one(Step::new("div_dig", ty, form).num(a).int(v))
        },
        2 | 3 => {
            let v = gen::prim(r, t).max(1);
            let a = match r.below(3)
            {
                0 if r.chance(1, 2) && (v as u128) < t.base => { let n = r.range(1, 12); gen::critical_dividend(r, t, n, v) },
                0 => gen::any_linear(r, t, W),
                1 => { let lq = r.range(1, 6); let mut x = gen::num(r, t, lq); mul_add_small(&mut x, v as u128, if r.chance(1, 2) { v - 1 } else { r.below_u64(v) }, t.base); x },
                _ => { let d = from_u128(v as u128, t.base); let lx = r.range(0, 5); let mut x: N = (0..lx).map(|_| gen::digit(r, t)).collect(); x.extend(sub(&d, &[r.below(2) as u64], t.base).unwrap_or_default()); trim(&mut x); x }
            };
            Case::one(Step::new("div_prim", ty, form).num(a).int(v))
        },
        _ => {
            let w = if i % 8 == 0 { [0, 4, 5, 1] } else { [12, 6, 0, 0] };
            let (n, d) = if i % 1024 == 5 { let area = if r.big { 6_000_000 } else { 1_500_000 }; gen::giant_dividend(r, t, area) } else { gen::dividend(r, t, w) };
            pair(r, Step::new("div", ty, form), n, d)
        }
    }
}

fn check_div(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    if c.steps.len() != 1 || !well_formed(st) { return Verdict::Invalid; }
    let t = ty_of(st.ty);
    let (n, d) = (&st.nums[0], rhs_value(st, t));
    if d.is_empty() { return Verdict::Invalid; }
    let (fq, fr) = if st.form == SELF { (SELF, SELF) } else { (st.form % 6, st.form / 6 % 6) };
    let w = format!("{} {}/{} digits", what(st), n.len(), d.len());
    let (q, rem) = with_ty!(st.ty, U, {
        let mut sq = st.clone();
        sq.form = fq;
        let q = match apply::<U>(&sq) { Ok(x) => x.raw(), Err(m) => return fail(format!("{}: quotient panicked: {}", w, m)) };
        let mut sr = st.clone();
        sr.form = fr;
        sr.op = std::borrow::Cow::Owned(st.op.replace("div", "rem"));
        let rem = match apply::<U>(&sr) { Ok(x) => x.raw(), Err(m) => return fail(format!("{}: remainder panicked: {}", w, m)) };
        if matches!(rhs_of(st), Rhs::Big)
        {
            let y = U::mk(&d);
            let mut x = U::mk(n);
            match attempt(|| { let r = x.try_div(&y); (x, r) })
            {
                Err(m) => return fail(format!("{}: div_assign_big panicked: {}", w, m)),
                Ok((_, Err(m))) => return fail(format!("{}: div_assign_big failed with {}", w, m)),
                Ok((x, Ok(r))) => {
                    if x.raw() != q { return fail(differ(&format!("{}: quotient of div_assign_big against operator", w), &x.raw(), &q)); }
                    if r.raw() != rem { return fail(differ(&format!("{}: remainder of div_assign_big against operator", w), &r.raw(), &rem)); }
                }
            }
            let mut x = U::mk(n);
            match attempt(|| { let r = x.try_rem(&y); (x, r) })
            {
                Err(m) => return fail(format!("{}: rem_assign_big panicked: {}", w, m)),
                Ok((_, Err(m))) => return fail(format!("{}: rem_assign_big failed with {}", w, m)),
                Ok((x, Ok(()))) => if x.raw() != rem { return fail(differ(&format!("{}: rem_assign_big against operator", w), &x.raw(), &rem)); }
            }
        }
        (q, rem)
    });
    if !is_canonical(&q, t.base) { return fail(format!("{}: quotient {} not canonical", w, show(&q))); }
    if !is_canonical(&rem, t.base) { return fail(format!("{}: remainder {} not canonical", w, show(&rem))); }
    if !is_quot_rem(n, &d, &q, &rem, t.base) { return fail(format!("{}: n != q*d + r or r >= d with n={} d={} q={} r={}", w, show(n), show(&d), show(&q), show(&rem))); }
    let mut cl = vec![ty_class(st.ty), rhs_class(st), size_class(d.len())];
    if rem.is_empty() { cl.push("exact division"); }
    if cmp(n, &d) == Ordering::Less { cl.push("dividend smaller than divisor"); }
    if q.len() >= 2 && d.len() >= 2 { cl.push("quotient and divisor of two or more digits"); }
    if d.len() >= 60 && q.len() >= 60 { cl.push("divisor and quotient of 60 digits or more"); }
    Verdict::Ok(!q.is_empty() && d != [1], cl)
}

pub const C06: Prop = Prop
{
    id: "C06", quick: 14_000_000, thorough: 50_000_000,
    rule: "one division: quotient and remainder through one operator form each and through both fallible operations, all compared, then n = q*d + r and r < d verified exactly (by residues modulo three primes when q*d is over 60000 digit products); dividends are built from chosen quotients and remainders, share leading digits with the divisor, or have leading digits that make quotient-digit estimates too high, up to thousands and rarely over 65536 digits, and go through every pair of lengths of divisor and quotient up to 300 (thorough 500); non-trivial = quotient not zero and divisor not one",
    gen: gen_div, check: check_div
};

// ---- C07 ----------------------------------------------------------------------------------

const ZERO_OPS: [&str; 8] = ["div", "rem", "div_dig", "rem_dig", "div_prim", "rem_prim", "fallible_div", "fallible_rem"];

fn gen_zero(r: &mut Rng, i: usize) -> Case
{
    let ty = pick_ty(r);
    let t = ty_of(ty);
    let form = r.below(6);
    if let Some(k) = gen::sweep(i, 500) { return Case::one(Step::new(ZERO_OPS[k % 8], ty, form).num(gen::exact(r, t, k / 8 % 4000))); }
    let op = ZERO_OPS[r.below(8)];
    let a = if r.chance(1, 8) { vec![] } else { gen::any_linear(r, t, W) };
    Case::one(Step::new(op, ty, form).num(a))
}

fn check_zero(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 || st.nums.len() != 1 || !is_canonical(&st.nums[0], t.base) { return Verdict::Invalid; }
    let a = &st.nums[0];
    with_ty!(st.ty, U, {
        let mut x = U::mk(a);
        let zero = U::mk(&[]);
        match &*st.op
        {
            "fallible_div" => match attempt(|| { let r = x.try_div(&zero); (x, r) })
            {
                Err(m) => return fail(format!("{} panicked: {}", what(st), m)),
                Ok((_, Ok(r))) => return fail(format!("{} by zero returned a remainder {}", what(st), show(&r.raw()))),
                Ok((x, Err(e))) => {
                    if !e.contains("DivisionByZero") { return fail(format!("{} by zero failed with {}", what(st), e)); }
                    if let Err(m) = same(&format!("{}: dividend after the error", what(st)), &x, a) { return fail(m); }
                }
            },
            "fallible_rem" => match attempt(|| { let r = x.try_rem(&zero); (x, r) })
            {
                Err(m) => return fail(format!("{} panicked: {}", what(st), m)),
                Ok((_, Ok(()))) => return fail(format!("{} by zero succeeded", what(st))),
                Ok((x, Err(e))) => {
                    if !e.contains("DivisionByZero") { return fail(format!("{} by zero failed with {}", what(st), e)); }
                    if let Err(m) = same(&format!("{}: dividend after the error", what(st)), &x, a) { return fail(m); }
                }
            },
            op => {
                let r = if a.is_empty() && st.form == 5 && !op.contains('_') { attempt(|| U::itself(op_of(st), &x)) } else if op.contains('_') { attempt(|| U::dig(op_of(st), if op.ends_with("dig") { st.form % 3 } else { 3 + st.form % 3 }, x, 0).0) }
                    else { attempt(|| U::big(op_of(st), st.form, x, zero).0) };
                if let Ok(x) = r { return fail(format!("{} by zero returned {}", what(st), show(&x.raw()))); }
            }
        }
    });
    Verdict::Ok(!a.is_empty(), vec![ty_class(st.ty), size_class(a.len()), if st.op.starts_with('f') { "fallible" } else { "operator" }])
}

pub const C07: Prop = Prop
{
    id: "C07", quick: 16_000_000, thorough: 150_000_000,
    rule: "one division or remainder by zero through one operator form (big, digit or primitive zero) or a fallible operation; operators have to panic, fallible operations have to return the division-by-zero error and leave the dividend as it was; non-trivial = dividend not zero",
    gen: gen_zero, check: check_zero
};
