mod arith;
mod compare;
mod forms;
mod history;
mod laws;
mod programs;
pub mod pure;
mod shift;
mod text;

use crate::api::Big;
use crate::engine::{Prop, Verdict};
use crate::model::*;

pub static ALL: [Prop; 20] = [
    arith::C01, arith::C02, arith::C03, arith::C04, arith::C05, arith::C06, arith::C07,
    shift::C08, shift::C09, compare::C10, history::C11, text::C12, text::C13, text::C14, text::C15,
    programs::C16, forms::C17, compare::C18, laws::C19, pure::C20
];

pub fn show(d: &[u64]) -> String
{
    if d.len() <= 12 { format!("{:?}", d) }
    else { format!("[{}, {}, {}, ... {}, {}, {}] ({} digits)", d[0], d[1], d[2], d[d.len() - 3], d[d.len() - 2], d[d.len() - 1], d.len()) }
}

pub fn fail(s: impl Into<String>) -> Verdict { Verdict::Fail(s.into()) }

/// Are these digits the canonical digits `want`?
pub fn same<U: Big>(what: &str, got: &U, want: &[u64]) -> Result<(), String>
{
    let g = got.raw();
    if g == want { Ok(()) } else { Err(differ(what, &g, want)) }
}

pub fn differ(what: &str, got: &[u64], want: &[u64]) -> String
{
    let at = (0..got.len().min(want.len())).find(|&i| got[i] != want[i]).unwrap_or(got.len().min(want.len()));
    format!("{}: got digits {}, expected {}, first difference at digit {}", what, show(got), show(want), at)
}

/// Two numbers are the same number in the same form
pub fn equal<U: Big>(what: &str, a: &U, b: &U) -> Result<(), String>
{
    let (x, y) = (a.raw(), b.raw());
    if x == y { Ok(()) } else { Err(differ(what, &x, &y)) }
}

pub fn ty_of(i: usize) -> &'static Ty { &TYPES[i] }

/// Length class of a pair of lengths (for the class counts)
pub fn size_class(n: usize) -> &'static str
{
    match n
    {
        0 => "length 0",
        1 => "length 1",
        2..=6 => "length 2-6",
        7..=30 => "length 7-30",
        31..=128 => "length 31-128",
        129..=384 => "length 129-384",
        _ => "length over 384"
    }
}
