//! The public interface of the crate under test, made uniform over its eight number types. Only
//! public items are used, and every operator form is a separate call, so that each `impl` block
//! is exercised by name.

use num_traits::{One, Pow, Zero};
use std::cmp::Ordering;
use std::fmt::Write;
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op { Add, Sub, Mul, Div, Rem }

pub const OPS: [Op; 5] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem];

pub fn op_name(op: Op) -> &'static str
{
    match op { Op::Add => "add", Op::Sub => "sub", Op::Mul => "mul", Op::Div => "div", Op::Rem => "rem" }
}

pub fn op_from(s: &str) -> Op
{
    *OPS.iter().find(|&&o| op_name(o) == s).expect("operation")
}

/// Operator forms for a big right operand:
/// 0 `x op= y`, 1 `x op= &y`, 2 `x op y`, 3 `x op &y`, 4 `&x op y`, 5 `&x op &y`.
/// Operator forms for a digit (0 `x op= D`, 1 `x op D`, 2 `&x op D`) or primitive
/// (3 `x op= t`, 4 `x op t`, 5 `&x op t`) right operand.

/// Format specifications: sign / alternate / zero flags, fill and alignment
pub const NR_SPECS: usize = 30;

pub trait Big: Clone + Sized + 'static
{
    const TY: usize;
    fn mk(d: &[u64]) -> Self;
    fn raw(&self) -> Vec<u64>;
    fn nr(&self) -> usize;
    /// Returns the result and the operands after the call (as far as they still exist)
    fn big(op: Op, form: usize, a: Self, b: Self) -> (Self, Option<Self>, Option<Self>);
    /// Both operands the same object
    fn itself(op: Op, a: &Self) -> Self;
    /// Operands that are not ours
    fn by_ref(op: Op, a: &Self, b: &Self) -> Self;
    fn dig(op: Op, form: usize, a: Self, d: u64) -> (Self, Option<Self>);
    fn square(&self) -> Self;
    fn pow(a: Self, form: usize, e: usize) -> (Self, Option<Self>);
    fn shl(a: Self, form: usize, n: usize) -> (Self, Option<Self>);
    fn shr(a: Self, form: usize, n: usize) -> (Self, Option<Self>);
    fn try_div(&mut self, d: &Self) -> Result<Self, String>;
    fn try_rem(&mut self, d: &Self) -> Result<(), String>;
    fn parse(s: &str) -> Result<Self, String>;
    fn from_str(s: &str) -> Result<Self, String>;
    fn from_prim(t: u64) -> Self;
    fn zero() -> Self;
    fn one() -> Self;
    fn set_zero(&mut self);
    fn set_one(&mut self);
    /// Overwrite with a copy
    fn copy_from(&mut self, o: &Self);
    fn is_zero(&self) -> bool;
    fn is_one(&self) -> bool;
    /// cmp, partial_cmp, <, <=, >, >=, ==, !=
    fn compare(a: &Self, b: &Self) -> (Ordering, Option<Ordering>, [bool; 6]);
    fn max_min(a: Self, b: Self) -> (Self, Self);
    fn clamp_to(a: Self, b: Self) -> Self;
    fn decimal(&self) -> String;
    fn fmt_dec(&self, spec: usize, w: usize) -> String;
    fn fmt_hex(&self, upper: bool, spec: usize, w: usize) -> Option<String>;
    /// Format (kind 0 decimal, 1 and 2 hexadecimal) into a writer that may fail
    fn fmt_into(&self, out: &mut dyn Write, kind: usize, spec: usize, w: usize) -> Option<bool>;
    /// Digits and type of the decimal conversion
    fn decimal_digits(&self) -> Option<(usize, Vec<u64>)>;
    fn dig_split(t: u64) -> Option<(bool, (u64, u64))>;
}

macro_rules! forms {
    ($op:tt, $opa:tt, $form:expr, $a:expr, $b:expr) => {{
        let (mut a, b) = ($a, $b);
        match $form
        {
            0 => { a $opa b; (a, None, None) },
            1 => { a $opa &b; (a, None, Some(b)) },
            2 => (a $op b, None, None),
            3 => (a $op &b, None, Some(b)),
            4 => { let r = &a $op b; (r, Some(a), None) },
            _ => { let r = &a $op &b; (r, Some(a), Some(b)) }
        }
    }}
}

macro_rules! dforms {
    ($op:tt, $opa:tt, $form:expr, $a:expr, $d:expr, $D:ident, $t:ty) => {{
        let mut a = $a;
        let t = $d as $t;
        match $form
        {
            0 => { a $opa babs::$D(t); (a, None) },
            1 => (a $op babs::$D(t), None),
            2 => { let r = &a $op babs::$D(t); (r, Some(a)) },
            3 => { a $opa t; (a, None) },
            4 => (a $op t, None),
            _ => { let r = &a $op t; (r, Some(a)) }
        }
    }}
}

macro_rules! spec_write {
    ($out:expr, $x:expr, $spec:expr, $w:expr, $k:literal) => {
        match $spec % NR_SPECS
        {
            0 => write!($out, concat!("{:", $k, "}"), $x),
            1 => write!($out, concat!("{:+", $k, "}"), $x),
            2 => write!($out, concat!("{:#", $k, "}"), $x),
            3 => write!($out, concat!("{:+#", $k, "}"), $x),
            4 => write!($out, concat!("{:w$", $k, "}"), $x, w = $w),
            5 => write!($out, concat!("{:<w$", $k, "}"), $x, w = $w),
            6 => write!($out, concat!("{:>w$", $k, "}"), $x, w = $w),
            7 => write!($out, concat!("{:^w$", $k, "}"), $x, w = $w),
            8 => write!($out, concat!("{:_<w$", $k, "}"), $x, w = $w),
            9 => write!($out, concat!("{:*>w$", $k, "}"), $x, w = $w),
            10 => write!($out, concat!("{:é^w$", $k, "}"), $x, w = $w),
            11 => write!($out, concat!("{:0w$", $k, "}"), $x, w = $w),
            12 => write!($out, concat!("{:+0w$", $k, "}"), $x, w = $w),
            13 => write!($out, concat!("{:#0w$", $k, "}"), $x, w = $w),
            14 => write!($out, concat!("{:+#0w$", $k, "}"), $x, w = $w),
            15 => write!($out, concat!("{:+w$", $k, "}"), $x, w = $w),
            16 => write!($out, concat!("{:#w$", $k, "}"), $x, w = $w),
            17 => write!($out, concat!("{:0<w$", $k, "}"), $x, w = $w),
            18 => write!($out, concat!("{:->+#w$", $k, "}"), $x, w = $w),
            19 => write!($out, concat!("{:<#w$", $k, "}"), $x, w = $w),
            // integers ignore a precision and the minus flag
            20 => write!($out, concat!("{:.2", $k, "}"), $x),
            21 => write!($out, concat!("{:+.0", $k, "}"), $x),
            22 => write!($out, concat!("{:w$.1", $k, "}"), $x, w = $w),
            23 => write!($out, concat!("{:-", $k, "}"), $x),
            24 => write!($out, concat!("{:-w$", $k, "}"), $x, w = $w),
            25 => write!($out, concat!("{:_^+w$", $k, "}"), $x, w = $w),
            26 => write!($out, concat!("{:*<#0w$", $k, "}"), $x, w = $w),
            27 => write!($out, concat!("{:^#w$", $k, "}"), $x, w = $w),
            28 => write!($out, concat!("{:☃>+#0w$.w$", $k, "}"), $x, w = $w),
            _ => write!($out, concat!("{:>+w$.3", $k, "}"), $x, w = $w)
        }
    }
}

macro_rules! spec_fmt {
    ($x:expr, $spec:expr, $w:expr, $k:literal) => {{
        let mut s = String::new();
        spec_write!(s, $x, $spec, $w, $k).expect("formatting into a string failed");
        s
    }}
}

/// A writer that fails when it is given more than `left` bytes altogether
pub struct Limited { pub left: usize, pub text: String }
impl std::fmt::Write for Limited
{
    fn write_str(&mut self, s: &str) -> std::fmt::Result
    {
        if s.len() > self.left { self.left = 0; return Err(std::fmt::Error); }
        self.left -= s.len();
        self.text.push_str(s);
        Ok(())
    }
}

/// A number rendered by the formatting machinery of the standard library for integers, from its
/// expected digits: this is what "as for primitive integers" means.
pub struct Reference<'a> { pub dec: &'a str, pub hex: &'a str, pub hex_upper: &'a str }
impl std::fmt::Display for Reference<'_>
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad_integral(true, "", self.dec) }
}
impl std::fmt::LowerHex for Reference<'_>
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad_integral(true, "0x", self.hex) }
}
impl std::fmt::UpperHex for Reference<'_>
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad_integral(true, "0x", self.hex_upper) }
}
impl Reference<'_>
{
    pub fn fmt_dec(&self, spec: usize, w: usize) -> String { spec_fmt!(self, spec, w, "") }
    pub fn fmt_hex(&self, upper: bool, spec: usize, w: usize) -> String
    {
        if upper { spec_fmt!(self, spec, w, "X") } else { spec_fmt!(self, spec, w, "x") }
    }
}
/// The same for a primitive, to cross-check the reference
pub fn fmt_u128(v: u128, kind: usize, spec: usize, w: usize) -> String
{
    match kind { 0 => spec_fmt!(v, spec, w, ""), 1 => spec_fmt!(v, spec, w, "x"), _ => spec_fmt!(v, spec, w, "X") }
}

/// How much longer than necessary the allocation of a number is: some always, some often, decided by
/// its digits so that a case stays the same case
fn spare(d: &[u64]) -> usize
{
    let h = d.iter().take(2).chain(d.last()).fold(d.len() as u64, |h, &x| (h ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29));
    match h % 8 { 0 => 1, 1 => 2, 2 => d.len(), 3 => 4 * d.len() + 7, _ => 0 }
}

macro_rules! impl_big {
    ($U:ident, $D:ident, $t:ty, $ty:expr, hex = $hex:tt) => {
        impl Big for babs::$U
        {
            const TY: usize = $ty;
            fn mk(d: &[u64]) -> Self
            {
                let mut v = Vec::with_capacity(d.len() + spare(d));
                v.extend(d.iter().map(|&x| babs::$D(x as $t)));
                babs::$U::new(v)
            }
            fn raw(&self) -> Vec<u64> { self.digits().iter().map(|d| d.0 as u64).collect() }
            fn nr(&self) -> usize { self.nr_digits() }
            fn big(op: Op, form: usize, a: Self, b: Self) -> (Self, Option<Self>, Option<Self>)
            {
                match op
                {
                    Op::Add => forms!(+, +=, form, a, b),
                    Op::Sub => forms!(-, -=, form, a, b),
                    Op::Mul => forms!(*, *=, form, a, b),
                    Op::Div => forms!(/, /=, form, a, b),
                    Op::Rem => forms!(%, %=, form, a, b)
                }
            }
            fn itself(op: Op, a: &Self) -> Self
            {
                match op { Op::Add => a + a, Op::Sub => a - a, Op::Mul => a * a, Op::Div => a / a, Op::Rem => a % a }
            }
            fn by_ref(op: Op, a: &Self, b: &Self) -> Self
            {
                match op { Op::Add => a + b, Op::Sub => a - b, Op::Mul => a * b, Op::Div => a / b, Op::Rem => a % b }
            }
            fn dig(op: Op, form: usize, a: Self, d: u64) -> (Self, Option<Self>)
            {
                match op
                {
                    Op::Add => dforms!(+, +=, form, a, d, $D, $t),
                    Op::Sub => dforms!(-, -=, form, a, d, $D, $t),
                    Op::Mul => dforms!(*, *=, form, a, d, $D, $t),
                    Op::Div => dforms!(/, /=, form, a, d, $D, $t),
                    Op::Rem => dforms!(%, %=, form, a, d, $D, $t)
                }
            }
            fn square(&self) -> Self { babs::$U::square(self) }
            fn pow(a: Self, form: usize, e: usize) -> (Self, Option<Self>)
            {
                if form == 0 { (Pow::pow(a, e), None) } else { let r = Pow::pow(&a, e); (r, Some(a)) }
            }
            fn shl(mut a: Self, form: usize, n: usize) -> (Self, Option<Self>)
            {
                match form { 0 => { a <<= n; (a, None) }, 1 => (a << n, None), _ => { let r = &a << n; (r, Some(a)) } }
            }
            fn shr(mut a: Self, form: usize, n: usize) -> (Self, Option<Self>)
            {
                match form { 0 => { a >>= n; (a, None) }, 1 => (a >> n, None), _ => { let r = &a >> n; (r, Some(a)) } }
            }
            fn try_div(&mut self, d: &Self) -> Result<Self, String>
            {
                babs::$U::div_assign_big(self, d).map_err(|e| format!("{:?}", e))
            }
            fn try_rem(&mut self, d: &Self) -> Result<(), String>
            {
                babs::$U::rem_assign_big(self, d).map_err(|e| format!("{:?}", e))
            }
            fn parse(s: &str) -> Result<Self, String> { s.parse::<babs::$U>().map_err(|e| format!("{:?}", e)) }
            fn from_str(s: &str) -> Result<Self, String> { <babs::$U as FromStr>::from_str(s).map_err(|e| format!("{:?}", e)) }
            fn from_prim(t: u64) -> Self { babs::$U::from(t as $t) }
            fn zero() -> Self { <babs::$U as Zero>::zero() }
            fn one() -> Self { <babs::$U as One>::one() }
            fn set_zero(&mut self) { Zero::set_zero(self) }
            fn set_one(&mut self) { One::set_one(self) }
            fn copy_from(&mut self, o: &Self) { self.clone_from(o) }
            fn is_zero(&self) -> bool { Zero::is_zero(self) }
            fn is_one(&self) -> bool { One::is_one(self) }
            fn compare(a: &Self, b: &Self) -> (Ordering, Option<Ordering>, [bool; 6])
            {
                (a.cmp(b), a.partial_cmp(b), [a < b, a <= b, a > b, a >= b, a == b, a != b])
            }
            fn clamp_to(a: Self, b: Self) -> Self { a.clamp(b.clone(), b) }
            fn max_min(a: Self, b: Self) -> (Self, Self)
            {
                (std::cmp::max(a.clone(), b.clone()), std::cmp::min(a, b))
            }
            fn decimal(&self) -> String { self.to_string() }
            fn fmt_dec(&self, spec: usize, w: usize) -> String { spec_fmt!(self, spec, w, "") }
            impl_big!(@hex $hex, $D, $t, $ty);
        }
    };
    (@hex true, $D:ident, $t:ty, $ty:expr) => {
        fn fmt_hex(&self, upper: bool, spec: usize, w: usize) -> Option<String>
        {
            Some(if upper { spec_fmt!(self, spec, w, "X") } else { spec_fmt!(self, spec, w, "x") })
        }
        fn fmt_into(&self, out: &mut dyn Write, kind: usize, spec: usize, w: usize) -> Option<bool>
        {
            Some(match kind
            {
                0 => spec_write!(out, self, spec, w, ""),
                1 => spec_write!(out, self, spec, w, "x"),
                _ => spec_write!(out, self, spec, w, "X")
            }.is_ok())
        }
        fn decimal_digits(&self) -> Option<(usize, Vec<u64>)>
        {
            let d = babs::UBig::to_decimal(self);
            Some(($ty + 4, d.digits().iter().map(|d| d.0 as u64).collect()))
        }
        fn dig_split(_: u64) -> Option<(bool, (u64, u64))> { None }
    };
    (@hex false, $D:ident, $t:ty, $ty:expr) => {
        fn fmt_hex(&self, _: bool, _: usize, _: usize) -> Option<String> { None }
        fn fmt_into(&self, out: &mut dyn Write, kind: usize, spec: usize, w: usize) -> Option<bool>
        {
            if kind > 0 { return None; }
            Some(spec_write!(out, self, spec, w, "").is_ok())
        }
        fn decimal_digits(&self) -> Option<(usize, Vec<u64>)> { None }
        fn dig_split(t: u64) -> Option<(bool, (u64, u64))>
        {
            let fits = babs::DecimalDigit::<$t>::fits_single(t as $t);
            let (h, l) = babs::DecimalDigit::<$t>::split(t as $t);
            Some((fits, (h.0 as u64, l.0 as u64)))
        }
    };
}

impl_big!(UBigBin8,  BinaryDigit,  u8,  0, hex = true);
impl_big!(UBigBin16, BinaryDigit,  u16, 1, hex = true);
impl_big!(UBigBin32, BinaryDigit,  u32, 2, hex = true);
impl_big!(UBigBin64, BinaryDigit,  u64, 3, hex = true);
impl_big!(UBigDec8,  DecimalDigit, u8,  4, hex = false);
impl_big!(UBigDec16, DecimalDigit, u16, 5, hex = false);
impl_big!(UBigDec32, DecimalDigit, u32, 6, hex = false);
impl_big!(UBigDec64, DecimalDigit, u64, 7, hex = false);

/// Run a generic block with `$U` bound to number type `$ty`
#[macro_export]
macro_rules! with_ty {
    ($ty:expr, $U:ident, $body:expr) => {
        match $ty
        {
            0 => { type $U = babs::UBigBin8; $body },
            1 => { type $U = babs::UBigBin16; $body },
            2 => { type $U = babs::UBigBin32; $body },
            3 => { type $U = babs::UBigBin64; $body },
            4 => { type $U = babs::UBigDec8; $body },
            5 => { type $U = babs::UBigDec16; $body },
            6 => { type $U = babs::UBigDec32; $body },
            _ => { type $U = babs::UBigDec64; $body }
        }
    }
}

