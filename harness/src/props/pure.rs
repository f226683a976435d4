//! C20: the outcome of an operation depends on nothing but its operands

use super::*;
use crate::api::*;
use crate::case::*;
use crate::engine::*;
use crate::gen::{self, Rng};
use crate::with_ty;
use std::any::Any;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Instant;

const OPS: [(&str, usize); 23] = [
    ("add", 4), ("sub", 6), ("mul", 9), ("div", 8), ("rem", 6), ("divrem", 6), ("square", 6), ("pow", 3), ("shl", 5), ("shr", 5),
    ("add_prim", 2), ("sub_prim", 3), ("mul_prim", 3), ("div_prim", 3), ("rem_prim", 3), ("decimal", 6), ("hex", 2),
    ("convert", 4), ("parse", 4), ("cmp", 3), ("cut", 4), ("burst", 2), ("nested", 3)
];
const THREADS: usize = 4;
const CAP: usize = 1000;

#[derive(PartialEq, Debug, Clone)]
enum Out { Refused, Numbers(Vec<N>), Text(String), Order(Ordering, bool) }

fn brief(o: &Out) -> String
{
    match o
    {
        Out::Numbers(v) => v.iter().map(|x| show(x)).collect::<Vec<_>>().join(" and "),
        Out::Text(s) if s.len() > 80 => format!("{}... ({} characters)", &s[..60], s.len()),
        o => format!("{:?}", o)
    }
}

fn fresh_computation(r: &mut Rng) -> Step
{
    let total: usize = OPS.iter().map(|o| o.1).sum();
    let mut x = r.below(total);
    let mut k = 0;
    while x >= OPS[k].1 { x -= OPS[k].1; k += 1; }
    let ty = r.below(8);
    let t = ty_of(ty);
    let op = OPS[k].0;
    let w = if r.chance(1, 12) { [0, 1, 2, 0] } else if r.chance(1, 3) { [1, 3, 0, 0] } else { [1, 0, 0, 0] };
    let (mut a, mut b) = match op
    {
        "mul" => gen::factors(r, t, w),
        "div" | "rem" | "divrem" => gen::dividend(r, t, w),
        _ => { let a = gen::any(r, t, w); let b = gen::related(r, t, &a); (a, b) }
    };
    if op == "sub" && r.chance(4, 5) && cmp(&a, &b) == Ordering::Less { std::mem::swap(&mut a, &mut b); }
    trim(&mut a);
    trim(&mut b);
    let v = match op
    {
        "pow" => (r.below(12)).min(CAP / a.len().max(1)) as u64,
        "shl" | "shr" => { let n = a.len() * t.bits; gen::shift(r, t, n, 2000) as u64 },
        o if o.ends_with("_prim") => gen::prim(r, t),
        "cut" | "burst" => r.below(2 + 3 * a.len()) as u64,
        _ => 0
    };
    let form = r.below(7);
    Step::new(op, ty, form).num(a).num(b).int(v)
}

/// A computation that has something to do with an earlier one, so that whatever could be left
/// behind by the one could be mistaken for something of the other
fn neighbour(r: &mut Rng, s: &Step) -> Step
{
    let mut n = s.clone();
    let t = ty_of(s.ty);
    let i = r.below(2);
    match r.below(11)
    {
        // the same lengths and other digits
        0 | 1 => { let l = n.nums[i].len(); if l > 0 { let j = r.below(l); n.nums[i][j] = gen::digit(r, t); } },
        2 => { let l = n.nums[i].len(); n.nums[i] = gen::num(r, t, l); },
        3 => { let x = n.nums[i].clone(); n.nums[i] = gen::related(r, t, &x); },
        // other lengths
        4 => { let l = n.nums[i].len(); n.nums[i].truncate(r.below(l + 1)); },
        5 => { let l = r.below(2 * n.nums[i].len() + 2).min(450); let mut x = gen::num(r, t, l); std::mem::swap(&mut x, &mut n.nums[i]); },
        // another type
        6 | 7 => { n.ty = r.below(8); let m = ty_of(n.ty).max_digit(); for x in n.nums.iter_mut() { for d in x.iter_mut() { *d = (*d).min(m); } } for v in n.ints.iter_mut() { *v = (*v).min(ty_of(n.ty).max_prim()); } },
        // another operation
        8 => { let f = fresh_computation(r); n.op = f.op; n.form = f.form; },
        9 => n.nums.swap(0, 1),
        // something refused
        _ => { if r.chance(1, 2) { n.nums[1] = vec![]; if n.op == "mul" { n.op = "div".into(); } } else { n.ints[0] = r.below(3) as u64; n.form = r.below(7); } }
    }
    for x in n.nums.iter_mut() { trim(x); }
    if n.op == "pow" { n.ints[0] = n.ints[0].min((CAP / n.nums[0].len().max(1)) as u64).min(40); }
    if n.op == "shl" || n.op == "shr" { n.ints[0] = n.ints[0].min(2000); }
    n
}

fn gen_pure(r: &mut Rng, _: usize) -> Case
{
    let mut c = Case::default();
    let k = r.range(2, 6);
    for i in 0..k
    {
        let s = if i > 0 && r.chance(4, 5) { let j = r.below(i); let b = c.steps[j].clone(); neighbour(r, &b) } else { fresh_computation(r) };
        c.steps.push(s);
    }
    let threads = if r.chance(1, 6) { r.range(2, THREADS) } else { 1 };
    let n = if r.chance(1, 2) { r.range(k, 2 * k) } else { r.range(2 * k, 4 * k) };
    for _ in 0..n
    {
        let (i, t) = (r.below(k), r.below(threads));
        c.steps.push(Step::new("turn", 0, t).int(i as u64));
    }
    // some of them tens of thousands of times in a row
    if r.chance(1, 6000)
    {
        let l = c.steps.len();
        let i = if threads > 1 { l - r.range(2, n.min(threads)).min(n) } else { l - 1 };
        let times = r.pick(&[300, 5000, 20_000, 70_000, 70_000]) as u64;
        for s in c.steps[i..].iter_mut() { s.ints.extend([0, times]); }
        return c;
    }
    // the last of them while its thread is winding up
    if r.chance(1, 25) { if let Some(s) = c.steps.last_mut() { s.ints.push(1); } }
    c
}

/// An operand that several threads look at
struct Shared(Box<dyn Any>);
// the numbers are plain vectors of digits; if they ever are more than that, this is the point
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

struct Computation<'a> { st: &'a Step, a: Shared, b: Shared }

impl Computation<'_>
{
    fn new(st: &Step) -> Computation<'_>
    {
        with_ty!(st.ty, U, Computation { st, a: Shared(Box::new(U::mk(&st.nums[0]))), b: Shared(Box::new(U::mk(&st.nums[1]))) })
    }

    fn outcome(&self) -> Out
    {
        with_ty!(self.st.ty, U, outcome::<U>(self.st, self.a.0.downcast_ref::<U>().unwrap(), self.b.0.downcast_ref::<U>().unwrap()))
    }

    fn unchanged(&self) -> bool
    {
        with_ty!(self.st.ty, U, self.a.0.downcast_ref::<U>().unwrap().raw() == self.st.nums[0] && self.b.0.downcast_ref::<U>().unwrap().raw() == self.st.nums[1])
    }
}

fn outcome<U: Big>(st: &Step, a: &U, b: &U) -> Out
{
    let v = st.ints[0];
    let f = st.form;
    let num = |x: U| Ok(Out::Numbers(vec![x.raw()]));
    let r = attempt(|| -> Result<Out, String> { match &*st.op
    {
        "add" | "sub" | "mul" | "div" | "rem" => {
            let op = op_from(&st.op);
            num(if f >= 6 { U::by_ref(op, a, b) } else { U::big(op, f, a.clone(), b.clone()).0 })
        },
        "divrem" => { let mut x = a.clone(); let r = x.try_div(b)?; Ok(Out::Numbers(vec![x.raw(), r.raw()])) },
        "square" => num(a.square()),
        "pow" => num(U::pow(a.clone(), f % 2, v as usize).0),
        "shl" => num(U::shl(a.clone(), f % 3, v as usize).0),
        "shr" => num(U::shr(a.clone(), f % 3, v as usize).0),
        "decimal" => Ok(Out::Text(a.decimal())),
        "cut" => {
            // a writer with room for so many bytes
            let mut w = Limited { left: v as usize, text: String::new() };
            match a.fmt_into(&mut w, if ty_of(U::TY).dec { 0 } else { f % 3 }, 0, 0) { Some(true) => Ok(Out::Text(w.text)), _ => Ok(Out::Refused) }
        },
        "burst" => {
            // the same, and the writer panics
            let mut w = Bursting(Limited { left: v as usize, text: String::new() });
            match a.fmt_into(&mut w, if ty_of(U::TY).dec { 0 } else { f % 3 }, 0, 0) { Some(true) => Ok(Out::Text(w.0.text)), _ => Ok(Out::Refused) }
        },
        "nested" => {
            // a writer that works with other numbers while it is written to
            let dec = ty_of(U::TY).dec;
            let inner = || format!("{} {} {}", b.decimal(), b.fmt_hex(false, 0, 0).unwrap_or_default(), b.square().raw().len());
            let mut w = Inquisitive { inner: &inner, text: String::new(), seen: vec![] };
            match a.fmt_into(&mut w, if dec { 0 } else { f % 3 }, 0, 0)
            {
                Some(true) if !w.seen.is_empty() && w.seen.iter().all(|s| *s == w.seen[0]) => Ok(Out::Text(format!("{} in {}", w.seen[0], w.text))),
                _ => Ok(Out::Refused)
            }
        },
        "hex" => Ok(Out::Text(a.fmt_hex(f % 2 == 1, 2, 0).unwrap_or_default())),
        "convert" => Ok(Out::Numbers(vec![a.decimal_digits().map_or(vec![], |x| x.1)])),
        "parse" => num(U::parse(&text(&st.nums[0], &ty_of(U::TY), f))?),
        "cmp" => { let (o, _, e) = U::compare(a, b); Ok(Out::Order(o, e[4])) },
        o => num(U::dig(op_from(o.split('_').next().unwrap()), 3 + f % 3, a.clone(), v).0)
    } });
    match r { Ok(Ok(o)) => o, _ => Out::Refused }
}

struct Bursting(Limited);
impl std::fmt::Write for Bursting
{
    fn write_str(&mut self, s: &str) -> std::fmt::Result
    {
        if self.0.write_str(s).is_err() { panic!("the writer gives up"); }
        Ok(())
    }
}

struct Inquisitive<'a> { inner: &'a dyn Fn() -> String, text: String, seen: Vec<String> }
impl std::fmt::Write for Inquisitive<'_>
{
    fn write_str(&mut self, s: &str) -> std::fmt::Result
    {
        self.text.push_str(s);
        self.seen.push((self.inner)());
        Ok(())
    }
}

/// The denotation that is parsed
fn text(a: &N, t: &Ty, f: usize) -> String
{
    let ten = f % 2 == 0;
    let s = to_string(a, t.base, ten);
    if ten { if f == 6 { format!("{}+", s) } else { s } } else { format!("0x{}", s) }
}

fn expected(st: &Step) -> Out
{
    let t = ty_of(st.ty);
    let b = t.base;
    let (x, y) = (&st.nums[0], &st.nums[1]);
    let v = st.ints[0];
    let vn = from_u128(v as u128, b);
    let one = |x: Option<N>| x.map_or(Out::Refused, |x| Out::Numbers(vec![x]));
    let division = |y: &N| if y.is_empty() { None } else { Some(super::history::quick_div(x, y, b)) };
    match &*st.op
    {
        "add" => one(Some(add(x, y, b))),
        "sub" => one(sub(x, y, b)),
        "mul" => one(Some(mul(x, y, b))),
        "div" => one(division(y).map(|q| q.0)),
        "rem" => one(division(y).map(|q| q.1)),
        "divrem" => division(y).map_or(Out::Refused, |(q, r)| Out::Numbers(vec![q, r])),
        "square" => one(Some(mul(x, x, b))),
        "pow" => one(Some(pow(x, v as usize, b))),
        "shl" => one(Some(shl(x, v as usize, b))),
        "shr" => one(Some(shr(x, v as usize, b))),
        "decimal" => Out::Text(to_string(x, b, true)),
        "nested" => {
            let s = if t.dec || st.form % 3 == 0 { to_string(x, b, true) } else { to_string(x, b, false) };
            let s = if !t.dec && st.form % 3 == 2 { s.to_uppercase() } else { s };
            Out::Text(format!("{} {} {} in {}", to_string(y, b, true), if t.dec { String::new() } else { to_string(y, b, false) }, mul(y, y, b).len(), s))
        },
        "cut" | "burst" => {
            let s = if t.dec || st.form % 3 == 0 { to_string(x, b, true) } else { to_string(x, b, false) };
            if s.len() as u64 > v { Out::Refused } else { Out::Text(if !t.dec && st.form % 3 == 2 { s.to_uppercase() } else { s }) }
        },
        "hex" => Out::Text(if t.dec { String::new() } else { let s = to_string(x, b, false); format!("0x{}", if st.form % 2 == 1 { s.to_uppercase() } else { s }) }),
        "convert" => Out::Numbers(vec![if t.dec { vec![] } else { convert(x, b, TYPES[st.ty + 4].base) }]),
        "parse" => if st.form == 6 { Out::Refused } else { one(Some(x.clone())) },
        "cmp" => Out::Order(cmp(x, y), x == y),
        "add_prim" => one(Some(add(x, &vn, b))),
        "sub_prim" => one(sub(x, &vn, b)),
        "mul_prim" => one(Some(mul(x, &vn, b))),
        "div_prim" => one(division(&vn).map(|q| q.0)),
        _ => one(division(&vn).map(|q| q.1))
    }
}

type Later = (usize, usize, &'static Computation<'static>, Arc<Mutex<Vec<(usize, usize, Out)>>>);
struct Late(Vec<Later>);
impl Drop for Late
{
    fn drop(&mut self)
    {
        for (k, i, c, out) in self.0.drain(..) { let o = c.outcome(); out.lock().unwrap().push((k, i, o)); }
    }
}
thread_local! { static LATE: RefCell<Late> = const { RefCell::new(Late(vec![])) }; }

/// Set to 1 in a process that was started for one case, and to 2 when a saved case is replayed
pub const OWN: &str = "BABS_CHECK_OWN_PROCESS";

/// Repeat a computation until it has been carried out `times` times or gives something else; at
/// most three seconds are spent on that, except when a case is replayed
fn again(c: &Computation, times: u64, first: &Out) -> Option<Out>
{
    let start = Instant::now();
    let limit = if std::env::var_os(OWN).map_or(false, |v| v == "1") { 3 } else { 3600 };
    for i in 1..times
    {
        let o = c.outcome();
        if o != *first { return Some(o); }
        if i % 64 == 0 && start.elapsed().as_secs() >= limit { break; }
    }
    None
}

fn turn(ready: &[Computation], k: usize, i: usize, times: u64, got: &mut Vec<(usize, usize, Out)>)
{
    let o = ready[i].outcome();
    let other = if times > 1 { again(&ready[i], times, &o) } else { None };
    got.push((k, i, o));
    if let Some(o) = other { got.push((k, i, o)); }
}

/// Run this program again in a process of its own
fn process(what: &str, c: &Case) -> (Option<i32>, String)
{
    let run = || -> std::io::Result<(Option<i32>, String)> {
        let mut p = Command::new(std::env::current_exe()?).args([what, "-"]).env(OWN, "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
        p.stdin.take().unwrap().write_all(c.render("C20").as_bytes())?;
        let o = p.wait_with_output()?;
        Ok((o.status.code(), String::from_utf8_lossy(&o.stdout).into_owned()))
    };
    run().unwrap_or_else(|e| { eprintln!("cannot start a process: {}", e); std::process::exit(2) })
}

/// The outcome of the first computation of a case when there is nothing else (for `process`)
pub fn alone(c: &Case) -> String { let k = Computation::new(&c.steps[0]); format!("{:?}", k.outcome()) }

fn well_formed(s: &Step) -> bool
{
    let t = ty_of(s.ty);
    OPS.iter().any(|o| o.0 == s.op) && s.nums.len() == 2 && s.ints.len() == 1 && s.nums.iter().all(|x| is_canonical(x, t.base) && x.len() <= 3000)
        && match &*s.op { "pow" => s.ints[0] as usize * s.nums[0].len() <= CAP && s.ints[0] <= CAP as u64, "shl" | "shr" => s.ints[0] <= 5000, o if o.ends_with("_prim") => s.ints[0] <= t.max_prim(), _ => true }
}

fn check_pure(c: &Case) -> Verdict
{
    let (turns, comps): (Vec<&Step>, Vec<&Step>) = c.steps.iter().partition(|s| s.op == "turn");
    if comps.is_empty() || turns.is_empty() || !comps.iter().all(|s| well_formed(s)) || turns.iter().any(|s| s.ints.is_empty()) { return Verdict::Invalid; }
    let marathon = turns.iter().any(|s| s.ints.len() > 2 && s.ints[2] > 1);
    if shrinking() || marathon && std::env::var_os(OWN).is_none()
    {
        // what earlier cases left behind in this process must not decide
        return match process("replay", c) { (Some(0), _) => Verdict::Ok(marathon, if marathon { vec!["up to tens of thousands of times in a row"] } else { vec![] }), (Some(1), m) => fail(m.lines().skip(1).collect::<Vec<_>>().join(" ").trim().to_string()), _ => Verdict::Invalid };
    }
    let ready: Vec<Computation> = comps.iter().map(|&s| Computation::new(s)).collect();
    let mut plan: Vec<Vec<(usize, usize, bool, u64)>> = vec![vec![]; THREADS];
    for (k, s) in turns.iter().enumerate() { plan[s.form % THREADS].push((k, s.ints[0] as usize % comps.len(), s.ints.get(1) == Some(&1), s.ints.get(2).map_or(1, |t| *t))); }
    let winding_up = plan.iter().flatten().any(|p| p.2);
    plan.retain(|p| !p.is_empty());
    let mut got: Vec<(usize, usize, Out)> = vec![];
    if plan.len() == 1 && !winding_up { for &(k, i, _, times) in &plan[0] { turn(&ready, k, i, times, &mut got); } }
    else
    {
        let here = AtomicUsize::new(0);
        let all = plan.len();
        let (ready, here) = (&ready, &here);
        got = std::thread::scope(|s| {
            let hs: Vec<_> = plan.iter().map(|p| std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, move || {
                here.fetch_add(1, SeqCst);
                while here.load(SeqCst) < all { std::thread::yield_now(); }
                let _ = attempt(|| panic!("so that what records panics is there until after the thread's last computation"));
                let late = Arc::new(Mutex::new(vec![]));
                for &(k, i, ..) in p.iter().filter(|p| p.2)
                {
                    // SAFETY: a thread is joined after its last destructors have run, and the
                    // computation outlives the scope in which it is joined
                    let c: &'static Computation<'static> = unsafe { &*(&ready[i] as *const Computation<'_> as *const Computation<'static>) };
                    LATE.with(|l| l.borrow_mut().0.push((k, i, c, late.clone())));
                }
                let mut got = vec![];
                for &(k, i, _, times) in p.iter().filter(|p| !p.2) { turn(ready, k, i, times, &mut got); }
                (got, late)
            }).expect("thread")).collect();
            hs.into_iter().flat_map(|h| h.join().map_or(vec![], |(mut v, late)| { v.append(&mut late.lock().unwrap()); v })).collect()
        });
    }
    for (i, k) in ready.iter().enumerate()
    {
        if !k.unchanged() { return fail(format!("an operand of computation {} ({} {}) has changed, though only copies of it and references to it were used", i, ty_of(k.st.ty).name, k.st.op)); }
    }
    let want: Vec<Out> = comps.iter().map(|s| expected(s)).collect();
    for i in 0..comps.len()
    {
        let mut mine = got.iter().filter(|g| g.1 == i);
        let first = match mine.next() { Some(g) => g, None => continue };
        let w = format!("{} {} form {}", ty_of(comps[i].ty).name, comps[i].op, comps[i].form);
        if let Some(g) = mine.find(|g| g.2 != first.2)
        {
            return fail(format!("computation {} ({}) gave {} at turn {} and {} at turn {}", i, w, brief(&first.2), first.0, brief(&g.2), g.0));
        }
        if first.2 != want[i]
        {
            // wrong, but is it always? Then this is not the property that is violated.
            let (rc, alone) = process("alone", &Case::one(comps[i].clone()));
            if rc == Some(0) && alone.trim_end() != format!("{:?}", first.2)
            {
                return fail(format!("computation {} ({}) gave {} at turn {}, and something else ({}) in a process of its own", i, w, brief(&first.2), first.0, &alone.trim_end()[..alone.trim_end().len().min(200)]));
            }
        }
    }
    let mut cl = vec![if plan.len() > 1 { "several threads" } else { "one thread" }];
    if got.iter().any(|g| g.2 == Out::Refused) { cl.push("some computation refused"); }
    let n = got.len();
    if winding_up { cl.push("computation as a thread ends"); }
    if n > 2 * comps.len() { cl.push("more than two turns a computation"); }
    Verdict::Ok(comps.len() >= 2 && n > comps.len(), cl)
}

pub const C20: Prop = Prop
{
    id: "C20", quick: 700_000, thorough: 4_000_000,
    rule: "two to six computations, most of them related to an earlier one (same lengths and other digits, same digits in another type, other lengths, other operation, refused), carried out again and again in a generated order, one case in six by two to four threads at once on shared operands, one in twenty-five with a computation during the last moments of a thread; one in 6000 (in a process of its own) repeats computations up to 70 000 times; text is also written into writers that fail, that panic, or that compute with other numbers meanwhile; all outcomes of one computation have to be the same, also the same as in a process of its own where the reference model finds them wrong, and operands have to keep their values; non-trivial = two or more computations and more turns than computations",
    gen: gen_pure, check: check_pure
};
