//! C11: histories of operations on a pool of numbers, checked after every step against the model

use super::*;
use crate::api::*;
use crate::case::*;
use crate::engine::*;
use crate::gen::{self, Rng};
use crate::with_ty;
use std::cmp::Ordering;

const REGS: usize = 4;
/// Longest number kept in a register (digits), in histories of short and of long numbers
const CAPS: [usize; 2] = [70, 420];

/// What the next operation does to the model; `None` when it is not applicable. Registers are
/// ints[0] (destination), ints[1], ints[2] (sources).
fn predict(st: &Step, m: &[N], t: &Ty, cap: usize) -> Option<(N, Option<N>)>
{
    let reg = |i: usize| -> &N { &m[st.ints.get(i).copied().unwrap_or(0) as usize % REGS] };
    let x = reg(1);
    let y = reg(2);
    let v = st.ints.get(2).copied().unwrap_or(0);
    let digit_ok = (v as u128) < t.base;
    let prim_ok = v <= t.max_prim();
    let vn = from_u128(v as u128, t.base);
    let small = |f: bool, r: Option<N>| if f { r } else { None };
    let b = t.base;
    let one = |r: Option<N>| r.map(|r| (r, None));
    match &*st.op
    {
        "load" => { let mut d = st.nums.first()?.clone(); trim(&mut d); one(Some(d)) },
        "add" => one(Some(add(x, y, b))),
        "sub" => one(sub(x, y, b)),
        "mul" => if x.len() + y.len() > cap { None } else { one(Some(mul(x, y, b))) },
        "div" | "rem" | "divrem" | "remassign" => {
            if y.is_empty() { return None; }
            let (q, r) = quick_div(x, y, b);
            match &*st.op { "div" => Some((q, None)), "divrem" => Some((q, Some(r))), _ => Some((r, None)) }
        },
        "divzero" => one(Some(x.clone())),
        "square" => if 2 * x.len() > cap { None } else { one(Some(mul(x, x, b))) },
        "pow" => if x.len() * v as usize > cap || v > 400 { None } else { one(Some(pow(x, v as usize, b))) },
        "shl" => if x.len() * t.bits + v as usize > cap * t.bits { None } else { one(Some(shl(x, v as usize, b))) },
        "shr" => one(Some(shr(x, v as usize, b))),
        "add_dig" => one(small(digit_ok, Some(add(x, &vn, b)))),
        "sub_dig" => one(small(digit_ok, sub(x, &vn, b))),
        "mul_dig" => one(small(digit_ok, Some(mul(x, &vn, b)))),
        "div_dig" => if v == 0 || !digit_ok { None } else { one(Some(quick_div(x, &vn, b).0)) },
        "rem_dig" => if v == 0 || !digit_ok { None } else { one(Some(quick_div(x, &vn, b).1)) },
        "add_prim" => one(small(prim_ok, Some(add(x, &vn, b)))),
        "sub_prim" => one(small(prim_ok, sub(x, &vn, b))),
        "mul_prim" => one(small(prim_ok, Some(mul(x, &vn, b)))),
        "div_prim" => if v == 0 || !prim_ok { None } else { one(Some(quick_div(x, &vn, b).0)) },
        "rem_prim" => if v == 0 || !prim_ok { None } else { one(Some(quick_div(x, &vn, b).1)) },
        "text" | "hex" | "copy" => if st.op == "hex" && t.dec { None } else { one(Some(x.clone())) },
        "from" => if prim_ok { one(Some(vn)) } else { None },
        "set_zero" => one(Some(vec![])),
        "set_one" => one(Some(vec![1])),
        _ => None
    }
}

/// Floor division
pub fn quick_div(x: &N, y: &N, b: u128) -> (N, N)
{
    if cmp(x, y) == Ordering::Less { return (vec![], x.clone()); }
    if y.len() == 1 && (y[0] as u128) < (1 << 63)
    {
        let mut q = x.clone();
        let r = div_small(&mut q, y[0], b);
        return (q, from_u128(r as u128, b));
    }
    div_rem(x, y, b)
}

const OPS: [(&str, usize); 28] = [
    ("load", 6), ("add", 10), ("sub", 14), ("mul", 9), ("div", 6), ("rem", 5), ("divrem", 5), ("remassign", 3),
    ("divzero", 2), ("square", 3), ("pow", 2), ("shl", 5), ("shr", 7), ("add_dig", 4), ("sub_dig", 6), ("mul_dig", 3),
    ("div_dig", 2), ("rem_dig", 2), ("add_prim", 4), ("sub_prim", 6), ("mul_prim", 3), ("div_prim", 2), ("rem_prim", 2),
    ("text", 2), ("hex", 1), ("copy", 3), ("from", 2), ("set_zero", 1)
];

fn gen_history(r: &mut Rng, _: usize) -> Case
{
    let ty = r.below(8);
    let t = ty_of(ty);
    let total: usize = OPS.iter().map(|o| o.1).sum();
    let mut m: Vec<N> = vec![vec![]; REGS];
    let mut c = Case::default();
    let long = r.chance(1, 150);
    let cap = CAPS[long as usize];
    let len = if r.big || r.chance(1, 20) { r.range(4, 60) } else { r.range(4, 28) };
    let mut tries = 0;
    while c.steps.len() < len && tries < 4 * len
    {
        tries += 1;
        let mut x = r.below(total);
        let mut k = 0;
        while x >= OPS[k].1 { x -= OPS[k].1; k += 1; }
        let op = OPS[k].0;
        let op = if c.steps.len() < 2 { "load" } else { op };
        let s = r.below(REGS);
        let d = if r.chance(1, 2) { s } else { r.below(REGS) };
        let form = r.below(6);
        let mut st = Step::new(op, ty, form).int(d as u64).int(s as u64);
        match op
        {
            "load" => {
                // fresh, or related to what is there so that differences cancel and quotients are short
                let mut n = if r.chance(1, 6) {
                    // a factor that makes carries run through the product with another register
                    let y = m[r.below(REGS)].clone();
                    match y.last() { Some(&f) if r.chance(1, 2) => { let l = r.range(1, 7); gen::critical_product(r, t, l, f) }, _ => { let l = r.range(1, 6); let mut v = vec![t.max_digit(); l]; if r.chance(1, 2) { let k = r.below(l); v[k] = gen::digit(r, t); } v } }
                }
                else if r.chance(1, 2) { gen::related(r, t, &m[s]) } else { let w = if c.steps.is_empty() && long || long && r.chance(1, 2) { [0, 0, 1, 0] } else if r.chance(1, 10) { [0, 1, 0, 0] } else { [1, 0, 0, 0] }; gen::any(r, t, w) };
                if c.steps.is_empty() && !long { n.truncate(CAPS[0] / 2); }
                n.truncate(cap / 2);
                if r.chance(1, 2) { let z = r.below(4); n.extend(std::iter::repeat(0).take(z)); }
                st = st.num(n);
            },
            "pow" => { let e = if r.chance(1, 4) { r.below(cap.min(400) / m[s].len().max(1) + 1) } else { r.below(6) }; st = st.int(e as u64); },
            "shl" => { let n = gen::shift(r, t, m[s].len() * t.bits, cap / 2 * t.bits); st = st.int(n as u64); },
            "shr" => { let b = bit_length(&m[s], t.base); let n = if r.chance(1, 2) { b.saturating_sub(r.below(t.bits)) } else { gen::shift(r, t, b, 100_000) }; st = st.int(n as u64); },
            o if o.ends_with("_dig") => {
                // a digit, often the lowest digit of the number or the number itself
                let v = match r.below(3) { 0 if !m[s].is_empty() => m[s][0], _ => gen::digit(r, t) };
                st = st.int(v);
            },
            o if o.ends_with("_prim") || o == "from" => {
                let low: u128 = m[s].iter().take(2).rev().fold(0, |acc, &x| acc.wrapping_mul(t.base).wrapping_add(x as u128));
                let v = match r.below(3) { 0 if low <= t.max_prim() as u128 => low as u64, _ => gen::prim(r, t) };
                st = st.int(v);
            },
            _ => {
                // an equal operand now and then
                let mut y = r.below(REGS);
                if op == "sub" && cmp(&m[s], &m[y]) == Ordering::Less { st.ints[1] = y as u64; y = s; }
                st = st.int(y as u64);
            }
        }
        if op == "divrem" { let rd = r.below(REGS); st = st.int(rd as u64); }
        if let Some((v, r2)) = predict(&st, &m, t, cap)
        {
            if v.len() > cap { continue; }
            let d = st.ints[0] as usize;
            if let Some(r2) = r2 { let rd = st.ints[3] as usize % REGS; if rd == d { continue; } m[rd] = r2; }
            m[d] = v;
            c.steps.push(st);
        }
    }
    c
}

fn run<U: Big>(c: &Case) -> Result<(usize, usize, usize), String>
{
    let t = ty_of(U::TY);
    let cap = CAPS[(c.steps[0].nums.first().map_or(0, |n| n.len()) > CAPS[0]) as usize];
    let mut m: Vec<N> = vec![vec![]; REGS];
    let mut regs: Vec<U> = (0..REGS).map(|_| U::zero()).collect();
    let (mut done, mut shorter, mut zero) = (0, 0, 0);
    for (i, st) in c.steps.iter().enumerate()
    {
        if st.op == "load" && !st.nums.first().map_or(false, |n| n.iter().all(|&d| (d as u128) < t.base)) { continue; }
        let (want, want2) = match predict(st, &m, t, cap) { Some(x) => x, None => continue };
        if want.len() > 2 * cap { continue; }
        let g = |i: usize| st.ints.get(i).copied().unwrap_or(0) as usize % REGS;
        let (d, s) = (g(0), g(1));
        let v = st.ints.get(2).copied().unwrap_or(0);
        // an operand that is replaced by the result is used up itself, with whatever it carries
        // along (a long allocation, for one), the others are copied
        let binary = matches!(&*st.op, "add" | "sub" | "mul" | "div" | "rem" | "divrem" | "remassign");
        let y = if binary && d == g(2) && d != s { std::mem::replace(&mut regs[d], U::zero()) } else { regs[g(2)].clone() };
        let x = if d == s { std::mem::replace(&mut regs[d], U::zero()) } else { regs[s].clone() };
        let f = st.form;
        let w = format!("step {}: {} {} form {}", i + 1, t.name, st.op, f);
        let res = attempt(|| -> Result<(U, Option<U>), String> { Ok(match &*st.op
        {
            "load" => (U::mk(&st.nums[0]), None),
            "add" | "sub" | "mul" | "div" | "rem" => (U::big(op_from(&st.op), f % 6, x, y).0, None),
            "divrem" => { let mut x = x; let r = x.try_div(&y)?; (x, Some(r)) },
            "remassign" => { let mut x = x; x.try_rem(&y)?; (x, None) },
            "divzero" => {
                let mut x = x;
                let r = if f % 2 == 0 { x.try_div(&U::zero()).is_err() } else { x.try_rem(&U::zero()).is_err() };
                if !r { return Err("division by zero succeeded".into()); }
                (x, None)
            },
            "square" => (x.square(), None),
            "pow" => (U::pow(x, f % 2, v as usize).0, None),
            "shl" => (U::shl(x, f % 3, v as usize).0, None),
            "shr" => (U::shr(x, f % 3, v as usize).0, None),
            "text" => (U::parse(&x.decimal())?, None),
            "hex" => { let s = x.fmt_hex(f % 2 == 0, 2, 0).unwrap(); (U::parse(&s)?, None) },
            "copy" => (x, None),
            "from" => (U::from_prim(v), None),
            "set_zero" => { let mut x = x; x.set_zero(); (x, None) },
            "set_one" => { let mut x = x; x.set_one(); (x, None) },
            o => {
                let op = op_from(o.split('_').next().unwrap());
                (U::dig(op, if o.ends_with("_dig") { f % 3 } else { 3 + f % 3 }, x, v).0, None)
            }
        }) });
        let (z, z2) = match res
        {
            Err(p) => return Err(format!("{} panicked: {}", w, p)),
            Ok(Err(e)) => return Err(format!("{} failed: {}", w, e)),
            Ok(Ok(x)) => x
        };
        let mut judge = |z: &U, want: &N| -> Result<(), String> {
            let raw = z.raw();
            if raw.iter().any(|&d| d as u128 >= t.base) { return Err(format!("{}: digit not smaller than the base in {}", w, show(&raw))); }
            if raw.last() == Some(&0) { return Err(format!("{}: leading zero digit in {}", w, show(&raw))); }
            if z.nr() != raw.len() { return Err(format!("{}: {} digits reported, {} present", w, z.nr(), raw.len())); }
            if z.is_zero() != raw.is_empty() { return Err(format!("{}: is_zero is {} with {} digits", w, z.is_zero(), raw.len())); }
            if raw != *want { return Err(differ(&w, &raw, want)); }
            let fresh = U::mk(want);
            if attempt(|| U::compare(z, &fresh)).ok() != Some((Ordering::Equal, Some(Ordering::Equal), [false, true, false, true, true, false])) { return Err(format!("{}: the result {} and a new number of the same digits compare as different", w, show(&raw))); }
            if let Some((_, dd)) = attempt(|| if raw.len() < 40 { z.decimal_digits() } else { None }).map_err(|p| format!("{}: to_decimal panicked: {}", w, p))?
            {
                if !is_canonical(&dd, TYPES[U::TY + 4].base) { return Err(format!("{}: decimal conversion {} not canonical", w, show(&dd))); }
            }
            if raw.is_empty() { zero += 1; }
            if st.op != "load" && raw.len() < m[s].len() { shorter += 1; }
            Ok(())
        };
        judge(&z, &want)?;
        if let (Some(z2), Some(want2)) = (z2, want2)
        {
            judge(&z2, &want2)?;
            let rd = g(3);
            regs[rd] = z2;
            m[rd] = want2;
        }
        regs[d] = z;
        m[d] = want;
        done += 1;
    }
    Ok((done, shorter, zero))
}

fn check_history(c: &Case) -> Verdict
{
    if c.steps.is_empty() || c.steps.iter().any(|s| s.ty != c.steps[0].ty || s.ints.len() < 2) { return Verdict::Invalid; }
    let ty = c.steps[0].ty;
    match with_ty!(ty, U, run::<U>(c))
    {
        Err(m) => fail(m),
        Ok((done, shorter, zero)) => {
            let mut cl = vec![TYPES[ty].name];
            if done >= 10 { cl.push("ten or more operations applied"); }
            if zero > 0 { cl.push("some result zero"); }
            if shorter >= 2 { cl.push("two or more results shorter than their operand"); }
            Verdict::Ok(done >= 4 && shorter >= 1, cl)
        }
    }
}

pub const C11: Prop = Prop
{
    id: "C11", quick: 12_000_000, thorough: 40_000_000,
    rule: "one history of up to 28 (rarely, and in the thorough tier, 60) operations of every public kind on a pool of four numbers (up to 70, in one history of 150 up to 420 digits) of one type, each result checked for canonical digits and against the model and used by later steps; operands are often equal or nearly equal so that results shrink; non-trivial = at least four operations applied of which one gave fewer digits than it was given",
    gen: gen_history, check: check_history
};
