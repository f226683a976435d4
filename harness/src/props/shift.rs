//! C08, C09: shifts are multiplication and division by powers of two

use super::*;
use crate::api::*;
use crate::case::*;
use crate::engine::*;
use crate::gen::{self, Rng};
use crate::with_ty;

const W: [usize; 4] = [20, 9, 2, 1];

fn bits_about(a: &N, t: &Ty) -> usize
{
    // exact for short numbers, within a few bits for long ones
    if a.len() <= 40 { bit_length(a, t.base) } else { (a.len() as f64 * (t.base as f64).log2()) as usize }
}

fn gen_shl(r: &mut Rng, i: usize) -> Case
{
    let ty = r.below(8);
    let t = ty_of(ty);
    if let Some(k) = gen::sweep(i, 32)
    {
        // short numbers by every distance, longer ones by every short distance
        let (l, n) = if k % 2 == 0 { (k / 2 % 40 + 1, k / 80 % 1500) } else { (k / 2 % 400 + 1, k / 800 % 140) };
        let form = r.below(3);
        return Case::one(Step::new("shl", ty, form).num(gen::exact(r, t, l)).int(n as u64));
    }
    let mut a = if r.chance(1, 30) { vec![] } else if t.dec && !r.chance(1, 8) { gen::any(r, t, W) } else { gen::any_linear(r, t, W) };
    trim(&mut a);
    if t.dec && r.chance(1, 5)
    {
        // places on the edge of a carry, for a shift in one step or the last of several
        let k = r.range(1, t.bits - 1);
        let l = r.range(1, 8);
        a = gen::critical_product(r, t, l, ((1u128 << k) % t.base).max(1) as u64);
        let form = r.below(3);
        return Case::one(Step::new("shl", ty, form).num(a).int(k as u64));
    }
    let n = if !t.dec && r.chance(1, 300) { r.below(90_000) }
        // whole digits more than sixteen bits can count
        else if !t.dec && r.chance(1, 3000) { t.bits * r.range(65_530, 66_500) + r.below(t.bits) }
        else if t.dec && r.chance(1, 3000) { r.below(20_000) }
        else if a.is_empty() && r.chance(1, 2) { match r.below(4) { 0 => r.pick(&[0usize, 1, 63, 64, 65, 1000, 100_000, usize::MAX, usize::MAX - 63, 1 << 32]), 1 => (1usize << r.below(64)) - r.below(2), _ => (r.u64() >> r.below(64)) as usize } }
        else if a.len() <= 900 && r.chance(1, 12) { r.below(if r.big { 12_000 } else { 3_000 }) }
        else { let b = bits_about(&a, t); gen::shift(r, t, b, 4_000) };
    let form = r.below(3);
    Case::one(Step::new("shl", ty, form).num(a).int(n as u64))
}

fn gen_shr(r: &mut Rng, i: usize) -> Case
{
    let ty = r.below(8);
    let t = ty_of(ty);
    if let Some(k) = gen::sweep(i, 32)
    {
        // short numbers by every distance, longer ones by every short distance
        let (l, n) = if k % 2 == 0 { (k / 2 % 40 + 1, k / 80 % 1500) } else { (k / 2 % 400 + 1, k / 800 % 140) };
        let form = r.below(3);
        return Case::one(Step::new("shr", ty, form).num(gen::exact(r, t, l)).int(n as u64));
    }
    let mut a = if r.chance(1, 40) { vec![] } else if t.dec && !r.chance(1, 8) { gen::any(r, t, W) } else { gen::any_linear(r, t, W) };
    if t.dec && a.len() > 7000 { a.truncate(7000); if a[6999] == 0 { a[6999] = 1; } }
    if r.chance(1, 8)
    {
        // a power of two, or one below it
        let n = r.below(if r.big { 3_000 } else { 700 });
        a = shl(&[1], n, t.base);
        if r.chance(1, 2) { a = sub(&a, &[1], t.base).unwrap(); }
    }
    trim(&mut a);
    if t.dec && r.chance(1, 6)
    {
        let k = r.range(1, t.bits - 1);
        let l = r.range(1, 12);
        a = gen::critical_dividend(r, t, l, ((1u128 << k) % t.base).max(1) as u64);
        let form = r.below(3);
        return Case::one(Step::new("shr", ty, form).num(a).int(k as u64));
    }
    let b = bits_about(&a, t);
    let n = match r.below(16)
    {
        0 => match r.below(4) { 0 => r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, 1 << 32, 1 << 20, usize::MAX - 63]), 1 => (1usize << r.below(64)) + r.below(3), 2 => (r.range(1, 9) << r.below(60)) | r.below(9), _ => (r.u64() >> r.below(40)) as usize },
        1 => b + r.below(20_000),
        2 | 3 => b.saturating_sub(r.below(80)),
        _ => gen::shift(r, t, b, 100_000)
    };
    let form = r.below(3);
    Case::one(Step::new("shr", ty, form).num(a).int(n as u64))
}

fn check(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 || st.nums.len() != 1 || st.ints.len() != 1 || !is_canonical(&st.nums[0], t.base) { return Verdict::Invalid; }
    let (a, n) = (&st.nums[0], st.ints[0] as usize);
    let left = st.op == "shl";
    if left && n > 5_000_000 && !a.is_empty() { return Verdict::Invalid; }
    let want = if left { shl(a, n, t.base) } else { shr(a, n, t.base) };
    let w = format!("{} {} form {} of {} digits by {}", t.name, st.op, st.form, a.len(), n);
    with_ty!(st.ty, U, {
        let x = U::mk(a);
        match attempt(|| if left { U::shl(x, st.form, n).0 } else { U::shr(x, st.form, n).0 })
        {
            Err(m) => return fail(format!("{} panicked: {}", w, m)),
            Ok(x) => if let Err(m) = same(&w, &x, &want) { return fail(m); }
        }
    });
    let mut cl = vec![t.name, size_class(a.len())];
    if n == 0 { cl.push("distance 0"); }
    if a.is_empty() { cl.push("zero shifted"); }
    if n >= t.bits { cl.push("distance of a digit or more"); }
    if !left && want.is_empty() && !a.is_empty() { cl.push("beyond the length"); }
    if !left && !want.is_empty() && *a != shl(&want, n, t.base) { cl.push("bits lost"); }
    Verdict::Ok(n > 0 && !a.is_empty(), cl)
}

pub const C08: Prop = Prop
{
    id: "C08", quick: 8_000_000, thorough: 60_000_000,
    rule: "one left shift in one of three forms; distances within a digit, at multiples of the digit width and of the step decimal numbers shift by, and up to thousands, rarely 90000, bits, very rarely over 65536 digits of a binary type, zero by any distance at all, and every distance under 1500 for 1 to 40, under 140 for 1 to 400 digits; non-trivial = distance and number not zero",
    gen: gen_shl, check
};

pub const C09: Prop = Prop
{
    id: "C09", quick: 7_000_000, thorough: 60_000_000,
    rule: "one right shift in one of three forms; distances within a digit, at multiples of the digit width, at, just below and far beyond the number's bit length, up to the maximum, and every distance under 1500 for 1 to 40, under 140 for 1 to 400 digits; non-trivial = distance and number not zero",
    gen: gen_shr, check
};
