//! C19: algebraic laws, at sizes the reference arithmetic does not have to follow

use super::*;
use crate::api::*;
use crate::case::*;
use crate::engine::*;
use crate::gen::{self, Rng};
use crate::with_ty;

const LAWS: [&str; 12] = ["add_comm", "add_assoc", "mul_comm", "mul_assoc", "distrib", "add_sub", "mul_div", "mul_add_div",
    "shl_mul", "shr_div", "square_sum", "div_split"];

fn gen_law(r: &mut Rng, i: usize) -> Case
{
    let ty = r.below(8);
    let t = ty_of(ty);
    let k = r.below(LAWS.len());
    let law = LAWS[k];
    let large = i % 16 == 0;
    let max = if !large { 90 } else if r.big { 6000 } else if i % 1024 == 0 { 4500 } else { 1500 };
    // products of three numbers cost more
    let max = if law == "mul_assoc" || law == "distrib" { max * 2 / 3 } else { max };
    let size = |r: &mut Rng| match r.below(5) { 0 if !large => r.below(8), 0 => r.range(1, 130), 1 => r.range(max / 2, max), 2 => r.range(max / 8, max / 2), 3 => { let e = [383usize, 384, 385, 768, 769, 1152, 126, 127, 128, 255, 256, 257][r.below(12)]; e.min(max) }, _ => r.range(1, max) };
    let (na, nb, nc) = (size(r), size(r), size(r));
    let num = |r: &mut Rng, n: usize| { let mut v = if r.chance(1, 4) && n > 0 { gen::parts(r, t, n) } else { gen::num(r, t, n) }; trim(&mut v); v };
    let a = num(r, na);
    let b = if r.chance(1, 6) { gen::related(r, t, &a) } else { num(r, nb) };
    let c = if r.chance(1, 6) { gen::related(r, t, &b) } else { num(r, nc) };
    let st = Step::new(law, ty, r.below(6));
    Case::one(match law
    {
        "shl_mul" | "shr_div" => { let n = match r.below(3) { 0 => r.below(4 * t.bits), 1 => t.bits * r.below(max / 4 + 1), _ => r.below(max * t.bits / 4 + 1) }; st.num(a).int(if t.dec { n.min(6000) } else { n } as u64) },
        "add_comm" | "mul_comm" | "add_sub" | "mul_div" | "square_sum" => st.num(a).num(b),
        _ => st.num(a).num(b).num(c)
    })
}

fn check_law(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 || st.nums.is_empty() || !st.nums.iter().all(|x| is_canonical(x, t.base)) { return Verdict::Invalid; }
    let f = st.form;
    let get = |i: usize| st.nums.get(i).cloned().unwrap_or_default();
    let (a, b, d) = (get(0), get(1), get(2));
    let n = st.ints.first().copied().unwrap_or(0) as usize;
    if n > 2_000_000 { return Verdict::Invalid; }
    let lens = format!("{} {} (form {}) on {}, {}, {} digits", t.name, st.op, f, a.len(), b.len(), d.len());
    let r: Result<bool, String> = with_ty!(st.ty, U, (|| {
        let (x, y, z) = (U::mk(&a), U::mk(&b), U::mk(&d));
        let run = |op: Op, l: &U, r: &U| attempt(|| U::big(op, f, l.clone(), r.clone()).0).map_err(|m| format!("{}: {} panicked: {}", lens, op_name(op), m));
        use Op::*;
        match &*st.op
        {
            "add_comm" => equal(&format!("{}: b+a against a+b", lens), &run(Add, &y, &x)?, &run(Add, &x, &y)?)?,
            "add_assoc" => equal(&format!("{}: a+(b+c) against (a+b)+c", lens), &run(Add, &x, &run(Add, &y, &z)?)?, &run(Add, &run(Add, &x, &y)?, &z)?)?,
            "mul_comm" => equal(&format!("{}: b*a against a*b", lens), &run(Mul, &y, &x)?, &run(Mul, &x, &y)?)?,
            "mul_assoc" => equal(&format!("{}: a*(b*c) against (a*b)*c", lens), &run(Mul, &x, &run(Mul, &y, &z)?)?, &run(Mul, &run(Mul, &x, &y)?, &z)?)?,
            "distrib" => equal(&format!("{}: a*(b+c) against a*b+a*c", lens), &run(Mul, &x, &run(Add, &y, &z)?)?, &run(Add, &run(Mul, &x, &y)?, &run(Mul, &x, &z)?)?)?,
            "add_sub" => {
                let s = run(Add, &x, &y)?;
                equal(&format!("{}: (a+b)-b against a", lens), &run(Sub, &s, &y)?, &x)?;
                equal(&format!("{}: (a+b)-a against b", lens), &run(Sub, &s, &x)?, &y)?;
            },
            "mul_div" => {
                if b.is_empty() { return Ok(false); }
                let p = run(Mul, &x, &y)?;
                equal(&format!("{}: (a*b)/b against a", lens), &run(Div, &p, &y)?, &x)?;
                equal(&format!("{}: (a*b)%b against 0", lens), &run(Rem, &p, &y)?, &U::mk(&[]))?;
            },
            "mul_add_div" => {
                // a*b + r with r < b divided by b
                if b.is_empty() { return Ok(false); }
                let rem = run(Rem, &z, &y)?;
                if cmp(&rem.raw(), &b) != std::cmp::Ordering::Less { return Err(format!("{}: c%b is not smaller than b", lens)); }
                let p = run(Add, &run(Mul, &x, &y)?, &rem)?;
                equal(&format!("{}: (a*b+c%b)/b against a", lens), &run(Div, &p, &y)?, &x)?;
                equal(&format!("{}: (a*b+c%b)%b against c%b", lens), &run(Rem, &p, &y)?, &rem)?;
            },
            "shl_mul" => {
                let p = attempt(|| U::pow(U::mk(&[2]), f % 2, n).0).map_err(|m| format!("{}: power of two panicked: {}", lens, m))?;
                let s = attempt(|| U::shl(x.clone(), f % 3, n).0).map_err(|m| format!("{}: shift panicked: {}", lens, m))?;
                equal(&format!("{}: a<<{} against a*2^{}", lens, n, n), &s, &run(Mul, &x, &p)?)?;
                let back = attempt(|| U::shr(s, f % 3, n).0).map_err(|m| format!("{}: shift back panicked: {}", lens, m))?;
                equal(&format!("{}: (a<<{})>>{} against a", lens, n, n), &back, &x)?;
            },
            "shr_div" => {
                let p = attempt(|| U::pow(U::mk(&[2]), f % 2, n).0).map_err(|m| format!("{}: power of two panicked: {}", lens, m))?;
                let s = attempt(|| U::shr(x.clone(), f % 3, n).0).map_err(|m| format!("{}: shift panicked: {}", lens, m))?;
                equal(&format!("{}: a>>{} against a/2^{}", lens, n, n), &s, &run(Div, &x, &p)?)?;
            },
            "square_sum" => {
                // (a+b)^2 = a^2 + 2ab + b^2, squares against products
                let sq = |v: &U| attempt(|| v.square()).map_err(|m| format!("{}: square panicked: {}", lens, m));
                let ab = run(Mul, &x, &y)?;
                let want = run(Add, &run(Add, &sq(&x)?, &run(Add, &ab, &ab)?)?, &sq(&y)?)?;
                equal(&format!("{}: (a+b)^2 against a^2+2ab+b^2", lens), &sq(&run(Add, &x, &y)?)?, &want)?;
            },
            _ => {
                // a = (a/b)*b + a%b, with the fallible division
                if b.is_empty() { return Ok(false); }
                let mut q = run(Mul, &x, &z)?;
                let whole = q.clone();
                let rem = attempt(|| { let r = q.try_div(&y); r.map(|r| (q, r)) }).map_err(|m| format!("{}: division panicked: {}", lens, m))?;
                let (q, rem) = rem.map_err(|m| format!("{}: division failed: {}", lens, m))?;
                if cmp(&rem.raw(), &b) != std::cmp::Ordering::Less { return Err(format!("{}: remainder is not smaller than the divisor", lens)); }
                equal(&format!("{}: ((a*c)/b)*b + (a*c)%b against a*c", lens), &run(Add, &run(Mul, &q, &y)?, &rem)?, &whole)?;
            }
        }
        Ok(true)
    })());
    match r
    {
        Err(m) => fail(m),
        Ok(applied) => {
            let m = a.len().max(b.len()).max(d.len());
            let mut cl = vec![t.name, LAWS[LAWS.iter().position(|l| *l == st.op).unwrap_or(0)]];
            cl.push(size_class(m));
            if m >= 1000 { cl.push("length 1000 or more"); }
            Verdict::Ok(applied && !a.is_empty() && (n > 0 || !b.is_empty()), cl)
        }
    }
}

pub const C19: Prop = Prop
{
    id: "C19", quick: 4_000_000, thorough: 8_000_000,
    rule: "one algebraic law (commutativity, associativity, distributivity, cancellation of + by - and of * by / and %, division identity, square of a sum, shifts against powers of two) instantiated in one type and operator form with numbers of up to 1500 (thorough 6000) digits; non-trivial = the law applies and its operands (and shift distance) are not zero",
    gen: gen_law, check: check_law
};
