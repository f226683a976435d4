//! C16: the same program in all eight number types

use super::*;
use crate::api::*;
use crate::case::*;
use crate::engine::*;
use crate::gen::{self, Rng};
use std::cmp::Ordering;

const REGS: usize = 4;
const B: u128 = 1 << 64;
/// Longest number in bits, unless the program starts with a longer one
const CAP: usize = 6000;

const OPS: [(&str, usize); 18] = [
    ("load", 5), ("add", 8), ("sub", 9), ("mul", 8), ("div", 8), ("rem", 6), ("divrem", 5), ("square", 3), ("pow", 2),
    ("shl", 5), ("shr", 5), ("small_add", 2), ("small_sub", 3), ("small_mul", 4), ("small_div", 4), ("small_rem", 3), ("parse", 3), ("cmp", 4)
];

fn gen_program(r: &mut Rng, _: usize) -> Case
{
    let total: usize = OPS.iter().map(|o| o.1).sum();
    let t = &TYPES[3];
    let mut c = Case::default();
    let n = if r.big || r.chance(1, 20) { r.range(3, 30) } else { r.range(3, 14) };
    let long = r.chance(1, if r.big { 60 } else { 200 });
    for i in 0..n
    {
        let mut x = r.below(total);
        let mut k = 0;
        while x >= OPS[k].1 { x -= OPS[k].1; k += 1; }
        let op = if i < 2 { "load" } else { OPS[k].0 };
        let (d, s, s2) = (r.below(REGS) as u64, r.below(REGS) as u64, r.below(REGS) as u64);
        let d = if i < 2 { i as u64 } else if r.chance(1, 3) { s } else { d };
        let form = r.below(6);
        let mut st = Step::new(op, 3, form).int(d).int(s).int(s2);
        match op
        {
            "load" => {
                // numbers that are special in one of the bases
                let src = TYPES[r.below(8)];
                let bits = if long { r.range(1000, 9000) } else { match r.below(8) { 0 => r.range(1, 2500), 1 | 2 => r.range(1, 800), _ => r.range(1, 260) } };
                let n = (bits / src.bits).max(1);
                let mut a = gen::num(r, &src, n);
                trim(&mut a);
                st = st.num(convert(&a, src.base, t.base));
            },
            "pow" => { let e = if r.chance(1, 4) { r.below(200) } else { r.below(7) }; st.ints[2] = e as u64; },
            "shl" | "shr" => { let n = match r.below(3) { 0 => r.below(130), 1 => 8 * r.below(40), _ => r.below(1200) }; st.ints[2] = n as u64; },
            o if o.starts_with("small") => { st.ints[2] = if r.chance(1, 3) { r.below(100) as u64 } else { let k = r.below(8); gen::prim(r, &TYPES[k]) }; },
            "parse" => {
                let ten = r.chance(1, 2);
                let l = if r.chance(1, 20) { r.range(60, 700) } else { r.range(1, 60) };
                let mut s: String = (0..l).map(|_| { let k = r.below(if ten { 10 } else { 16 }); char::from_digit(k as u32, 16).unwrap() }).collect();
                if r.chance(1, 4) { let at = r.below(l); let n = r.range(1, l - at); s.replace_range(at..at + n, &"0".repeat(n)); }
                if r.chance(1, 4) { let at = r.below(s.len() + 1); s.insert(at, r.pick(&['+', '-', '_', ' ', 'g', '.'])); }
                if !ten { s.insert_str(0, "0x"); }
                st = st.str(s);
            },
            _ => {}
        }
        c.steps.push(st);
    }
    c
}

fn two_operands(op: &str) -> bool { matches!(op, "add" | "sub" | "mul" | "div" | "rem" | "divrem") }

struct Machine<U> { regs: Vec<U> }

#[derive(PartialEq)]
enum Seen { Refused, Values(Vec<N>), Order(Ordering, bool) }

fn describe(s: &Seen) -> String
{
    match s { Seen::Refused => "refused".into(), Seen::Values(v) => v.iter().map(|x| format!("0x{}", to_string(x, B, false))).collect::<Vec<_>>().join(" and "), Seen::Order(o, e) => format!("{:?} (== {})", o, e) }
}

impl<U: Big> Machine<U>
{
    fn new() -> Self { Machine { regs: (0..REGS).map(|_| U::zero()).collect() } }

    fn step(&mut self, st: &Step) -> Seen
    {
        let t = ty_of(U::TY);
        let g = |i: usize| st.ints[i] as usize % REGS;
        let v = st.ints[2];
        let f = st.form;
        if st.op == "cmp"
        {
            return match attempt(|| U::compare(&self.regs[g(1)], &self.regs[g(2)])) { Ok(r) => Seen::Order(r.0, r.2[4]), Err(_) => Seen::Refused };
        }
        // an operand that is replaced by the result is used up itself, with whatever it carries
        // along, the others are copied; a refusal leaves the register as it was
        let saved = self.regs[g(0)].clone();
        let y = if two_operands(&st.op) && g(0) == g(2) && g(0) != g(1) { std::mem::replace(&mut self.regs[g(0)], U::zero()) } else { self.regs[g(2)].clone() };
        let x = if g(0) == g(1) { std::mem::replace(&mut self.regs[g(0)], U::zero()) } else { self.regs[g(1)].clone() };
        let res = attempt(|| -> Result<(U, Option<U>), String> { Ok(match &*st.op
        {
            "load" => (U::mk(&convert(&st.nums[0], B, t.base)), None),
            "add" | "sub" | "mul" | "div" | "rem" => (U::big(op_from(&st.op), f % 6, x, y).0, None),
            "divrem" => { let mut x = x; let r = x.try_div(&y)?; (x, Some(r)) },
            "square" => (x.square(), None),
            "pow" => (U::pow(x, f % 2, v as usize).0, None),
            "shl" => (U::shl(x, f % 3, v as usize).0, None),
            "shr" => (U::shr(x, f % 3, v as usize).0, None),
            "parse" => (U::parse(&st.strs[0])?, None),
            o => {
                // a digit, a primitive or a big number, whatever holds the value in this type
                let op = op_from(o.split('_').nth(1).unwrap());
                if f % 6 < 3 && (v as u128) < t.base { (U::dig(op, f % 6, x, v).0, None) }
                else if v <= t.max_prim() { (U::dig(op, 3 + f % 3, x, v).0, None) }
                else { (U::big(op, f % 6, x, U::mk(&from_u128(v as u128, t.base))).0, None) }
            }
        }) });
        match res
        {
            Ok(Ok((a, b))) => {
                let value = |z: &U| { let mut v = z.raw(); trim(&mut v); convert(&v, t.base, B) };
                let mut seen = vec![value(&a)];
                if let Some(b) = b
                {
                    seen.push(value(&b));
                    self.regs[(g(0) + 1) % REGS] = b;
                }
                self.regs[g(0)] = a;
                Seen::Values(seen)
            },
            _ => { self.regs[g(0)] = saved; Seen::Refused }
        }
    }

    fn bits(&self, i: usize) -> usize { let t = ty_of(U::TY); self.regs[i % REGS].nr() * t.bits }

    fn texts(&self) -> Vec<String>
    {
        self.regs.iter().map(|x| if x.nr() * ty_of(U::TY).bits > 3000 { String::new() } else { attempt(|| x.decimal()).unwrap_or_else(|m| format!("panic: {}", m)) }).collect()
    }
}

fn check_program(c: &Case) -> Verdict
{
    if c.steps.is_empty() || c.steps.iter().any(|s| s.ints.len() < 3) { return Verdict::Invalid; }
    let mut m0 = Machine::<babs::UBigBin64>::new();
    let mut m1 = Machine::<babs::UBigBin8>::new();
    let mut m2 = Machine::<babs::UBigBin16>::new();
    let mut m3 = Machine::<babs::UBigBin32>::new();
    let mut m4 = Machine::<babs::UBigDec8>::new();
    let mut m5 = Machine::<babs::UBigDec16>::new();
    let mut m6 = Machine::<babs::UBigDec32>::new();
    let mut m7 = Machine::<babs::UBigDec64>::new();
    let (mut refused, mut values) = (0, 0);
    let first = c.steps[0].nums.first().map_or(0, |n| n.len() * 64);
    let cap = CAP.max(3 * first).min(60_000);
    for (i, st) in c.steps.iter().enumerate()
    {
        // keep sizes in bounds (judged by one of the machines)
        let (s, s2, v) = (st.ints[1] as usize, st.ints[2] as usize, st.ints[2] as usize);
        let skip = match &*st.op
        {
            "mul" => m0.bits(s) + m0.bits(s2) > cap,
            "square" => 2 * m0.bits(s) > cap,
            "pow" => v > 200 || m0.bits(s) * v > cap,
            "shl" => m0.bits(s) + v > cap,
            "load" => st.nums.is_empty(),
            "parse" => st.strs.is_empty(),
            _ => false
        };
        if skip { continue; }
        let r0 = m0.step(st);
        let all = [("bin8", m1.step(st)), ("bin16", m2.step(st)), ("bin32", m3.step(st)), ("dec8", m4.step(st)), ("dec16", m5.step(st)), ("dec32", m6.step(st)), ("dec64", m7.step(st))];
        for (name, x) in &all
        {
            if *x != r0 { return fail(format!("step {} ({} form {}): bin64 gives {}, {} gives {}", i + 1, st.op, st.form, describe(&r0), name, describe(x))); }
        }
        match r0 { Seen::Refused => refused += 1, _ => if st.op != "load" { values += 1 } }
    }
    let t0 = m0.texts();
    for (name, t) in [("bin8", m1.texts()), ("bin16", m2.texts()), ("bin32", m3.texts()), ("dec8", m4.texts()), ("dec16", m5.texts()), ("dec32", m6.texts()), ("dec64", m7.texts())]
    {
        for i in 0..REGS
        {
            if !t[i].is_empty() && !t0[i].is_empty() && t[i] != t0[i] { return fail(format!("number {} is displayed as {} by bin64 and as {} by {}", i, t0[i], t[i], name)); }
        }
    }
    let mut cl = vec!["programs"];
    if refused > 0 { cl.push("some operation refused in all types"); }
    if values >= 5 { cl.push("five or more results compared"); }
    Verdict::Ok(values >= 2, cl)
}

pub const C16: Prop = Prop
{
    id: "C16", quick: 1_400_000, thorough: 4_000_000,
    rule: "one program of 3 to 14 (rarely, and in the thorough tier, 30) operations on four registers run in all eight number types in lockstep, an operand that is overwritten by the result being used up itself; after every step the values (converted to a common base), orders and refusals are compared, and at the end the decimal renderings; non-trivial = at least two operations besides loading gave results",
    gen: gen_program, check: check_program
};
