//! C10: comparison; C18: construction and identities

use super::*;
use crate::api::*;
use crate::case::*;
use crate::engine::*;
use crate::gen::{self, Rng};
use crate::with_ty;
use std::cmp::Ordering;

const W: [usize; 4] = [20, 9, 2, 1];

// ---- C10 ----------------------------------------------------------------------------------

fn gen_cmp(r: &mut Rng, i: usize) -> Case
{
    let ty = r.below(8);
    let t = ty_of(ty);
    if let Some(k) = gen::sweep(i, 96)
    {
        let a = gen::exact(r, t, k % 500 + 1);
        let b = gen::exact_related(r, t, &a, k / 500 % 500 + 1);
        let form = r.below(49);
        return Case::one(Step::new("cmp", ty, form).num(a).num(b));
    }
    let mut a = gen::any_linear(r, t, W);
    trim(&mut a);
    let b = if r.chance(5, 6) { gen::related(r, t, &a) } else { let mut b = gen::any_linear(r, t, W); trim(&mut b); b };
    let form = r.below(49);
    let st = Step::new("cmp", ty, form);
    Case::one(if r.chance(1, 2) { st.num(a).num(b) } else { st.num(b).num(a) })
}

/// A number equal to `a`, obtained in one of several ways
fn obtain<U: Big>(a: &N, how: usize, t: &Ty) -> Result<U, String>
{
    let x = U::mk(a);
    let k: N = vec![3, 1, (a.len() % 5) as u64 + 1];
    attempt(|| match how
    {
        0 => x,
        1 => { let mut d = a.clone(); d.extend([0, 0, 0]); U::mk(&d) },
        2 => { let y = U::mk(&k); U::big(Op::Sub, 3, U::big(Op::Add, 3, x, y).0, U::mk(&k)).0 },
        3 => { let y = U::mk(&k); U::big(Op::Div, 3, U::big(Op::Mul, 5, x, y).0, U::mk(&k)).0 },
        4 => U::parse(&to_string(a, t.base, true)).unwrap(),
        5 => U::shr(U::shl(x, 1, 13).0, 1, 13).0,
        _ => U::parse(&format!("0x00{}", to_string(a, t.base, false))).unwrap()
    })
}

fn check_cmp(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 || st.nums.len() != 2 || !st.nums.iter().all(|x| is_canonical(x, t.base)) { return Verdict::Invalid; }
    let long = st.nums[0].len() > 100 || st.nums[1].len() > 100;
    let (ha, hb) = if long { (st.form % 2, st.form / 7 % 2) } else { (st.form % 7, st.form / 7 % 7) };
    let (a, b) = (&st.nums[0], &st.nums[1]);
    with_ty!(st.ty, U, {
        // how a number was obtained is exercised here; whether the arithmetic used for that is
        // right is the business of other properties, so the expected order is that of the values
        // the two numbers actually have
        let (x, y) = match (obtain::<U>(a, ha, t), obtain::<U>(b, hb, t))
        {
            (Ok(x), Ok(y)) => (x, y),
            _ => return Verdict::Ok(false, vec!["operand not obtained"])
        };
        let (mut va, mut vb) = (x.raw(), y.raw());
        trim(&mut va);
        trim(&mut vb);
        let o = cmp(&va, &vb);
        let w = format!("{} comparing {} (obtained {}) and {} (obtained {})", t.name, show(&va), ha, show(&vb), hb);
        match attempt(|| (U::compare(&x, &y), U::compare(&y, &x)))
        {
            Err(m) => return fail(format!("{} panicked: {}", w, m)),
            Ok((f, g)) => for (r, o, side) in [(f, o, ""), (g, o.reverse(), " reversed")]
            {
                let e = [o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater, o != Ordering::Less, o == Ordering::Equal, o != Ordering::Equal];
                if r.0 != o { return fail(format!("{}{}: cmp gives {:?}, expected {:?}", w, side, r.0, o)); }
                if r.1 != Some(o) { return fail(format!("{}{}: partial_cmp gives {:?}, expected {:?}", w, side, r.1, o)); }
                if r.2 != e { return fail(format!("{}{}: [<, <=, >, >=, ==, !=] give {:?}, expected {:?}", w, side, r.2, e)); }
            }
        }
        match attempt(|| (U::compare(&x, &x), U::clamp_to(x.clone(), y.clone())))
        {
            Err(m) => return fail(format!("{}: comparing the first with itself, or clamping it, panicked: {}", w, m)),
            Ok((f, c)) => {
                if f != (Ordering::Equal, Some(Ordering::Equal), [false, true, false, true, true, false]) { return fail(format!("{}: the first compared with itself gives {:?}", w, f)); }
                let mut vc = c.raw();
                trim(&mut vc);
                if vc != vb { return fail(format!("{}: the first clamped to the second gives {}", w, show(&vc))); }
            }
        }
        match attempt(|| U::max_min(x.clone(), y.clone()))
        {
            Err(m) => return fail(format!("{}: max/min panicked: {}", w, m)),
            Ok((mx, mn)) => {
                let (mut vx, mut vn) = (mx.raw(), mn.raw());
                trim(&mut vx);
                trim(&mut vn);
                let (ex, en) = if o == Ordering::Less { (&vb, &va) } else { (&va, &vb) };
                if vx != *ex || vn != *en { return fail(format!("{}: max/min give {} and {}", w, show(&vx), show(&vn))); }
            }
        }
        let mut cl = vec![t.name, size_class(va.len())];
        cl.push(match o { Ordering::Less => "less", Ordering::Equal => "equal", Ordering::Greater => "greater" });
        let nontrivial = va.len() == vb.len() && !va.is_empty();
        if nontrivial && va != vb
        {
            cl.push("equal lengths, different values");
            if va.last() == vb.last() { cl.push("leading digits equal"); }
        }
        Verdict::Ok(nontrivial, cl)
    })
}

pub const C10: Prop = Prop
{
    id: "C10", quick: 24_000_000, thorough: 160_000_000,
    rule: "one pair of numbers compared with cmp, partial_cmp, the six operators, max, min and clamp, in both directions and with itself; the second is mostly derived from the first (one digit changed, equal high or low parts, off by one, equal); each is obtained by construction, with leading zeros, by arithmetic that cancels, by shifting, or by parsing; every pair of lengths up to 500 among them; non-trivial = equal, non-zero lengths",
    gen: gen_cmp, check: check_cmp
};

// ---- C18 ----------------------------------------------------------------------------------

const NEW_OPS: [&str; 5] = ["new", "from_prim", "identity", "split", "set"];

fn gen_new(r: &mut Rng, i: usize) -> Case
{
    let ty = r.below(8);
    let t = ty_of(ty);
    if let Some(k) = gen::sweep(i, 256)
    {
        // every length with every number of leading zeros
        let mut a = gen::exact(r, t, k % 300);
        a.resize(k % 300 + k / 300 % 500, 0);
        return Case::one(Step::new(NEW_OPS[0], ty, 0).num(a));
    }
    match r.below(10)
    {
        0 | 1 | 2 | 3 => {
            let mut a = gen::any_linear(r, t, W);
            let z = if r.chance(1, 500) { gen::giant_len(r) } else { match r.below(4) { 0 => 0, 1 => 1, 2 => r.below(4), _ => r.below(40) } };
            a.extend(std::iter::repeat(0).take(z));
            if r.chance(1, 4) { for _ in 0..r.below(4) { a.insert(0, 0); } }
            Case::one(Step::new(NEW_OPS[0], ty, 0).num(a))
        },
        4 | 5 => { let v = gen::prim(r, t); Case::one(Step::new(NEW_OPS[1], ty, 0).int(v)) },
        6 => { let v = gen::prim(r, t); Case::one(Step::new(NEW_OPS[3], 4 + ty % 4, 0).int(v & TYPES[4 + ty % 4].max_prim())) },
        7 => {
            let (mut a, mut b) = (gen::any_linear(r, t, W), gen::any(r, t, W));
            trim(&mut a);
            trim(&mut b);
            if r.chance(1, 3) { b = gen::related(r, t, &a); trim(&mut b); }
            Case::one(Step::new(NEW_OPS[4], ty, 0).num(a).num(b))
        },
        _ => { let mut a = if r.chance(1, 3) { let mut v = vec![r.below(3) as u64; r.below(3)]; trim(&mut v); v } else { gen::any_linear(r, t, W) }; trim(&mut a); let form = r.below(6); Case::one(Step::new(NEW_OPS[2], ty, form).num(a)) }
    }
}

fn check_new(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 { return Verdict::Invalid; }
    let w = format!("{} {}", t.name, st.op);
    let r: Result<bool, String> = with_ty!(st.ty, U, (|| match &*st.op
    {
        "new" => {
            let raw = &st.nums[0];
            let mut want = raw.clone();
            trim(&mut want);
            let x = attempt(|| U::mk(raw)).map_err(|m| format!("{} panicked: {}", w, m))?;
            same(&w, &x, &want)?;
            if x.nr() != want.len() { return Err(format!("{}: nr_digits is {}, expected {}", w, x.nr(), want.len())); }
            if x.is_zero() != want.is_empty() { return Err(format!("{}: is_zero is {} for {}", w, x.is_zero(), show(&want))); }
            if x.is_one() != (want == [1]) { return Err(format!("{}: is_one is {} for {}", w, x.is_one(), show(&want))); }
            Ok(raw.last() == Some(&0) || want.len() > 1)
        },
        "from_prim" => {
            let v = st.ints[0];
            let want = from_u128(v as u128, t.base);
            let x = attempt(|| U::from_prim(v)).map_err(|m| format!("{} {} panicked: {}", w, v, m))?;
            same(&format!("{} {}", w, v), &x, &want)?;
            Ok(v > 1)
        },
        "split" => {
            let v = st.ints[0];
            if let Some((fits, (h, l))) = attempt(|| U::dig_split(v)).map_err(|m| format!("{} {} panicked: {}", w, v, m))?
            {
                if fits != ((v as u128) < t.base) { return Err(format!("{}: fits_single({}) is {}", w, v, fits)); }
                if (h as u128, l as u128) != (v as u128 / t.base, v as u128 % t.base) { return Err(format!("{}: split({}) is {}, {}", w, v, h, l)); }
            }
            Ok(v as u128 >= t.base)
        },
        "set" => {
            let mut x = U::mk(&st.nums[0]);
            let y = x.clone();
            same("clone", &y, &st.nums[0])?;
            if let Some(b) = st.nums.get(1)
            {
                if !is_canonical(b, t.base) { return Ok(false); }
                let mut z = U::mk(b);
                attempt(|| z.copy_from(&x)).map_err(|m| format!("clone_from panicked: {}", m))?;
                same("clone_from", &z, &st.nums[0])?;
                equal("clone_from", &z, &x)?;
                same("original after clone_from", &x, &st.nums[0])?;
            }
            attempt(|| { x.set_zero(); }).map_err(|m| format!("set_zero panicked: {}", m))?;
            same("set_zero", &x, &[])?;
            if !x.is_zero() || x.is_one() { return Err("set_zero: not recognised as zero".into()); }
            let mut x = y.clone();
            attempt(|| { x.set_one(); }).map_err(|m| format!("set_one panicked: {}", m))?;
            same("set_one", &x, &[1])?;
            if x.is_zero() || !x.is_one() { return Err("set_one: not recognised as one".into()); }
            same("clone after the original was changed", &y, &st.nums[0])?;
            Ok(st.nums[0].len() > 1)
        },
        _ => {
            let a = &st.nums[0];
            let f = st.form;
            let (z, o) = (U::zero(), U::one());
            same("zero()", &z, &[])?;
            same("one()", &o, &[1])?;
            if !z.is_zero() || z.is_one() || o.is_zero() || !o.is_one() { return Err(format!("{}: zero or one not recognised", t.name)); }
            let x = U::mk(a);
            if x.is_zero() != a.is_empty() || x.is_one() != (*a == [1]) { return Err(format!("{}: is_zero/is_one wrong for {}", t.name, show(a))); }
            let run = |op: Op, l: &U, r: &U| attempt(|| U::big(op, f, l.clone(), r.clone()).0).map_err(|m| format!("{} {} with an identity panicked: {}", t.name, op_name(op), m));
            same("x + 0", &run(Op::Add, &x, &z)?, a)?;
            same("0 + x", &run(Op::Add, &z, &x)?, a)?;
            same("x - 0", &run(Op::Sub, &x, &z)?, a)?;
            same("x * 1", &run(Op::Mul, &x, &o)?, a)?;
            same("1 * x", &run(Op::Mul, &o, &x)?, a)?;
            same("x * 0", &run(Op::Mul, &x, &z)?, &[])?;
            same("0 * x", &run(Op::Mul, &z, &x)?, &[])?;
            same("x / 1", &run(Op::Div, &x, &o)?, a)?;
            same("x % 1", &run(Op::Rem, &x, &o)?, &[])?;
            let d = |op: Op, v: u64, f: usize| attempt(|| U::dig(op, f, x.clone(), v).0).map_err(|m| format!("{} {} with an identity digit or primitive panicked: {}", t.name, op_name(op), m));
            same("x + digit 0", &d(Op::Add, 0, f)?, a)?;
            same("x - digit 0", &d(Op::Sub, 0, f)?, a)?;
            same("x * digit 1", &d(Op::Mul, 1, f)?, a)?;
            same("x * digit 0", &d(Op::Mul, 0, f)?, &[])?;
            same("x / digit 1", &d(Op::Div, 1, f)?, a)?;
            same("x % digit 1", &d(Op::Rem, 1, f)?, &[])?;
            let s = |l: bool| attempt(|| if l { U::shl(x.clone(), f % 3, 0).0 } else { U::shr(x.clone(), f % 3, 0).0 }).map_err(|m| format!("{} shift by zero panicked: {}", t.name, m));
            same("x << 0", &s(true)?, a)?;
            same("x >> 0", &s(false)?, a)?;
            Ok(!a.is_empty() && *a != [1])
        }
    })());
    match r
    {
        Err(m) => fail(m),
        Ok(nt) => {
            let cl = match &*st.op { "new" => "from digits", "from_prim" => "from a primitive", "split" => "primitive split into digits", "set" => "set to zero and one", _ => "identities" };
            Verdict::Ok(nt, vec![t.name, cl])
        }
    }
}

pub const C18: Prop = Prop
{
    id: "C18", quick: 40_000_000, thorough: 200_000_000,
    rule: "one construction (from digits with leading zeros, from a primitive, primitive split into decimal digits, reset to zero or one, copied afresh and over another number) or one number put through all identities of zero and one in one operator form; non-trivial = leading zeros or several digits, a primitive over one, one that needs two digits, or a number other than zero and one",
    gen: gen_new, check: check_new
};
