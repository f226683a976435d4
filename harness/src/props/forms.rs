//! C17: all forms of an operation agree

use super::arith::{max_exponent, op_of, power, well_formed};
use super::*;
use crate::api::*;
use crate::case::*;
use crate::engine::*;
use crate::gen::{self, Rng};
use crate::with_ty;

const W: [usize; 4] = [24, 9, 1, 0];
const BIG: [&str; 5] = ["add", "sub", "mul", "div", "rem"];
const DIG: [&str; 5] = ["add_prim", "sub_prim", "mul_prim", "div_prim", "rem_prim"];

fn gen_forms(r: &mut Rng, i: usize) -> Case
{
    let ty = r.below(8);
    let t = ty_of(ty);
    if let Some(k) = gen::sweep(i, 96)
    {
        let (o, n, m) = (k % 5, k / 5 % 180 + 1, k / 900 % 180 + 1);
        let a = gen::exact(r, t, n);
        let b = if o < 2 { gen::exact_related(r, t, &a, m) } else { gen::exact(r, t, m) };
        return Case::one(Step::new(BIG[o], ty, 0).num(a).num(b));
    }
    let o = r.below(5);
    if r.chance(1, 1500)
    {
        let area = if r.big { 1_000_000 } else { 250_000 };
        let (a, b) = if o < 3 { gen::giant_factors(r, t, area) } else { gen::giant_dividend(r, t, area) };
        return Case::one(Step::new(BIG[o], ty, 0).num(a).num(b));
    }
    match r.below(12)
    {
        0 => { let mut a = gen::any(r, t, W); trim(&mut a); let n = { let max = if r.chance(1, 30) { 20_000 } else { 1500 }; gen::shift(r, t, a.len() * t.bits, max) }; Case::one(Step::new("shl", ty, 0).num(a).int(n as u64)) },
        1 => { let mut a = gen::any(r, t, W); trim(&mut a); let n = gen::shift(r, t, a.len() * t.bits, 20_000); Case::one(Step::new("shr", ty, 0).num(a).int(n as u64)) },
        2 => { let (a, e) = power(r, t); Case::one(Step::new("pow", ty, 0).num(a).int(e)) },
        3 | 4 | 5 | 6 => {
            // scalar right operand
            let v = if r.chance(1, 2) { gen::digit(r, t) } else { gen::prim(r, t) };
            let mut a = gen::any(r, t, W);
            if r.chance(1, 3) { let lx = r.below(3); let mut x = gen::num(r, t, lx); x.resize(lx, 0); a = add(&from_u128(v as u128, t.base), &x, t.base); if r.chance(1, 3) { a = sub(&a, &[1], t.base).unwrap_or_default(); } }
            trim(&mut a);
            Case::one(Step::new(DIG[o], ty, 0).num(a).int(v))
        },
        _ => {
            let (mut a, mut b) = match o
            {
                2 => gen::factors(r, t, W),
                3 | 4 => { let (n, d) = gen::dividend(r, t, W); if r.chance(1, 20) { (n, vec![]) } else { (n, d) } },
                _ => {
                    let a = gen::any(r, t, W);
                    let b = match r.below(3) { 0 => gen::any(r, t, W), 1 => gen::related(r, t, &a), _ => gen::at_most(r, t, &a) };
                    (a, b)
                }
            };
            trim(&mut a);
            trim(&mut b);
            Case::one(Step::new(BIG[o], ty, 0).num(a).num(b))
        }
    }
}

/// `Ok(digits)` or refusal
type Res = Result<Vec<u64>, String>;

fn agree(w: &str, first: &(String, Res), this: &(String, Res)) -> Result<(), String>
{
    match (&first.1, &this.1)
    {
        (Ok(x), Ok(y)) if x == y => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        (Ok(x), Ok(y)) => Err(differ(&format!("{}: form `{}` against form `{}`", w, this.0, first.0), y, x)),
        (Ok(_), Err(m)) => Err(format!("{}: form `{}` is refused ({}), form `{}` is not", w, this.0, m, first.0)),
        (Err(m), Ok(_)) => Err(format!("{}: form `{}` is refused ({}), form `{}` is not", w, first.0, m, this.0))
    }
}

const BIG_NAMES: [&str; 6] = ["x op= y", "x op= &y", "x op y", "x op &y", "&x op y", "&x op &y"];
const DIG_NAMES: [&str; 6] = ["x op= digit", "x op digit", "&x op digit", "x op= primitive", "x op primitive", "&x op primitive"];

fn check_forms(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 || st.nums.is_empty() || !st.nums.iter().all(|x| is_canonical(x, t.base)) { return Verdict::Invalid; }
    let w = format!("{} {}", t.name, st.op);
    let a = &st.nums[0];
    let r: Result<(bool, usize), String> = with_ty!(st.ty, U, (|| {
        let mut all: Vec<(String, Res)> = vec![];
        let keep = |name: &str, x: Option<U>, want: &[u64]| match x { None => Ok(()), Some(x) => same(&format!("{}: operand after form `{}`", w, name), &x, want) };
        match &*st.op
        {
            "shl" | "shr" | "pow" => {
                let n = st.ints[0] as usize;
                if st.op == "shl" && n > 100_000 || st.op == "pow" && n > 0 && !a.is_empty() && *a != [1] && n as u64 > max_exponent(a) { return Err("invalid".into()); }
                let (names, forms): (&[&str], usize) = if st.op == "pow" { (&["x.pow(e)", "(&x).pow(e)"], 2) } else { (&["x op= n", "x op n", "&x op n"], 3) };
                for f in 0..forms
                {
                    let x = U::mk(a);
                    match attempt(|| match &*st.op { "shl" => U::shl(x, f, n), "shr" => U::shr(x, f, n), _ => U::pow(x, f, n) })
                    {
                        Ok((y, k)) => { keep(names[f], k, a)?; all.push((names[f].to_string(), Ok(y.raw()))); },
                        Err(m) => all.push((names[f].to_string(), Err(m)))
                    }
                }
                if st.op == "pow" && n == 2
                {
                    let x = U::mk(a);
                    all.push(("x.square()".into(), attempt(|| x.square().raw())));
                    all.push(("x * x".into(), attempt(|| U::big(Op::Mul, 5, x.clone(), x.clone()).0.raw())));
                }
            },
            o if o.ends_with("_prim") => {
                if !well_formed(st) { return Err("invalid".into()); }
                let op = op_of(st);
                let v = st.ints[0];
                let b = from_u128(v as u128, t.base);
                let (x, y) = (U::mk(a), U::mk(&b));
                all.push(("&x op &y".into(), attempt(|| U::big(op, 5, x, y).0.raw())));
                let lo = if (v as u128) < t.base { 0 } else { 3 };
                for f in lo..6
                {
                    let x = U::mk(a);
                    match attempt(|| U::dig(op, f, x, v))
                    {
                        Ok((y, k)) => { keep(DIG_NAMES[f], k, a)?; all.push((DIG_NAMES[f].to_string(), Ok(y.raw()))); },
                        Err(m) => all.push((DIG_NAMES[f].to_string(), Err(m)))
                    }
                }
            },
            _ => {
                if !well_formed(st) { return Err("invalid".into()); }
                let op = op_of(st);
                let b = &st.nums[1];
                for f in 0..6
                {
                    let (x, y) = (U::mk(a), U::mk(b));
                    match attempt(|| U::big(op, f, x, y))
                    {
                        Ok((z, ka, kb)) => { keep(BIG_NAMES[f], ka, a)?; keep(BIG_NAMES[f], kb, b)?; all.push((BIG_NAMES[f].to_string(), Ok(z.raw()))); },
                        Err(m) => all.push((BIG_NAMES[f].to_string(), Err(m)))
                    }
                }
                if op == Op::Div || op == Op::Rem
                {
                    let (mut x, y) = (U::mk(a), U::mk(b));
                    let res = attempt(|| { let r = x.try_div(&y); (x, r, y) });
                    match res
                    {
                        Ok((x, Ok(r), y)) => { keep("x.try_div(&y)", Some(y), b)?; all.push(("x.try_div(&y)".into(), Ok(if op == Op::Div { x.raw() } else { r.raw() }))); },
                        Ok((_, Err(m), _)) => all.push(("x.try_div(&y)".into(), Err(m))),
                        Err(m) => all.push(("x.try_div(&y)".into(), Err(m)))
                    }
                    let (mut x, y) = (U::mk(a), U::mk(b));
                    if op == Op::Rem
                    {
                        match attempt(|| { let r = x.try_rem(&y); (x, r, y) })
                        {
                            Ok((x, Ok(()), y)) => { keep("x.try_rem(&y)", Some(y), b)?; all.push(("x.try_rem(&y)".into(), Ok(x.raw()))); },
                            Ok((_, Err(m), _)) => all.push(("x.try_rem(&y)".into(), Err(m))),
                            Err(m) => all.push(("x.try_rem(&y)".into(), Err(m)))
                        }
                    }
                }
                if a == b
                {
                    let x = U::mk(a);
                    all.push(("&x op &x".into(), attempt(|| U::itself(op, &x).raw())));
                    keep("&x op &x", Some(x), a)?;
                }
                if b.len() == 1
                {
                    for f in 0..6
                    {
                        let x = U::mk(a);
                        match attempt(|| U::dig(op, f, x, b[0]))
                        {
                            Ok((y, k)) => { keep(DIG_NAMES[f], k, a)?; all.push((DIG_NAMES[f].to_string(), Ok(y.raw()))); },
                            Err(m) => all.push((DIG_NAMES[f].to_string(), Err(m)))
                        }
                    }
                }
            }
        }
        for x in &all[1..] { agree(&w, &all[0], x)?; }
        Ok((all[0].1.is_err(), all.len()))
    })());
    match r
    {
        Err(m) if m == "invalid" => Verdict::Invalid,
        Err(m) => fail(m),
        Ok((refused, n)) => {
            let mut cl = vec![t.name, if st.op.ends_with("_prim") { "scalar right operand" } else if st.op.len() > 3 || st.op.starts_with('s') && st.op != "sub" || st.op == "pow" { "shift or power" } else { "big right operand" }];
            if refused { cl.push("refused in every form"); }
            if n >= 9 { cl.push("nine or more forms compared"); }
            Verdict::Ok(!a.is_empty(), cl)
        }
    }
}

pub const C17: Prop = Prop
{
    id: "C17", quick: 16_000_000, thorough: 80_000_000,
    rule: "one operation on one pair of operands through all its forms (six operator forms, fallible division, three digit and three primitive forms when the operand allows, compared with the big form; all shift and power forms), refusals included, operands passed by reference checked afterwards; every pair of lengths up to 180 for each operation among them; non-trivial = left operand not zero",
    gen: gen_forms, check: check_forms
};
