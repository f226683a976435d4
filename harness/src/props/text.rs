//! C12-C15: parsing, formatting, decimal conversion

use super::*;
use crate::api::*;
use crate::case::*;
use crate::engine::*;
use crate::gen::{self, Rng};
use crate::with_ty;

/// A string of decimal or hexadecimal digits (without prefix)
fn digits(r: &mut Rng, ten: bool, n: usize) -> String
{
    let table: &[u8] = if ten { b"0123456789" } else { b"0123456789abcdefABCDEF" };
    let mut s = String::with_capacity(n);
    let mode = r.below(6);
    let case_fixed = r.below(3);
    while s.len() < n
    {
        let l = if mode < 2 { n } else if r.chance(1, 8) { r.range(1, n) } else { 1 + r.below(25) }.min(n - s.len());
        match if mode < 2 { 3 } else { r.below(5) }
        {
            0 => for _ in 0..l { s.push('0') },
            1 => for _ in 0..l { s.push(if ten { '9' } else if r.chance(1, 2) { 'f' } else { 'F' }) },
            2 => { let c = table[r.below(table.len())] as char; for _ in 0..l { s.push(c) } },
            _ => for _ in 0..l { s.push(table[r.below(table.len())] as char) }
        }
    }
    match case_fixed { 0 => s.to_ascii_lowercase(), 1 => s.to_ascii_uppercase(), _ => s }
}

/// String lengths around the number of places per digit of each type
fn places(r: &mut Rng, t: &Ty) -> usize
{
    let per = [2usize, 4, 9, 16, 19, 7, 15, 1, 3, 8, t.places, t.places, t.places][r.below(13)];
    if r.chance(1, 250_000) { return r.range(65_530, 70_000); }
    if r.chance(1, 3000) { return r.range(700, if r.big { 20_000 } else { 6000 }); }
    match r.below(6)
    {
        0 => r.range(1, 4),
        1 | 2 => (per * r.range(1, 5) + r.below(3)).saturating_sub(1).max(1),
        3 => r.range(1, 80),
        4 => r.range(1, 40),
        _ => if r.chance(1, 4) { r.range(80, if r.big { 3000 } else { 700 }) } else { r.range(20, 200) }
    }
}

// ---- C12 ----------------------------------------------------------------------------------

fn gen_parse(r: &mut Rng, i: usize) -> Case
{
    if let Some(k) = gen::sweep(i, 480)
    {
        let n = k / 16 % 3000 + 1;
        let mut s = digits(r, k / 8 % 2 == 0, n);
        if k / 8 % 2 == 1 { s.insert_str(0, "0x"); }
        let form = r.below(2);
        return Case::one(Step::new("parse", k % 8, form).str(s));
    }
    let ty = r.below(8);
    let t = ty_of(ty);
    let ten = r.chance(1, 2);
    let n = places(r, t);
    if r.chance(1, 300_000)
    {
        // more digits (not only characters) than sixteen bits can count, where one character makes
        // up a fixed part of a digit
        let per = if !t.dec { t.bits / 4 } else { t.places };
        let n = per * r.range(65_530, 66_000) - r.below(per);
        let mut s = digits(r, t.dec, n);
        if r.chance(1, 4) { let z = r.range(n / 2, n); s = "0".repeat(z) + &s[z..]; }
        if !t.dec { s.insert_str(0, "0x"); }
        return Case::one(Step::new("parse", ty, r.below(2)).str(s));
    }
    let mut s = if r.chance(1, 3)
    {
        // the rendering of a number of the type or of another base, near powers
        let src = TYPES[r.below(8)];
        let mut a = gen::any(r, &src, [6, 1, 0, 0]);
        trim(&mut a);
        to_string(&a, src.base, ten)
    } else { digits(r, ten, n) };
    if r.chance(1, 4) { let z = if r.chance(1, 2) { r.below(5) } else { r.below(60) }; s.insert_str(0, &"0".repeat(z)); }
    if r.chance(1, 40) { let z = r.range(1, 50); s = "0".repeat(z); }
    if !ten { s.insert_str(0, "0x"); }
    let form = r.below(2);
    Case::one(Step::new("parse", ty, form).str(s))
}

/// Notation and digits of a valid denotation
fn denotation(s: &str) -> Option<(bool, &str)>
{
    let (ten, d) = match s.strip_prefix("0x") { Some(d) => (false, d), None => (true, s) };
    let ok = d.bytes().all(|c| if ten { c.is_ascii_digit() } else { c.is_ascii_hexdigit() });
    if ok && !d.is_empty() { Some((ten, d)) } else { None }
}

fn parse_with<U: Big>(s: &str, form: usize) -> Result<Result<U, String>, String>
{
    attempt(|| if form % 2 == 0 { U::parse(s) } else { U::from_str(s) })
}

fn check_parse(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 || st.strs.len() != 1 { return Verdict::Invalid; }
    let (ten, d) = match denotation(&st.strs[0]) { Some(x) => x, None => return Verdict::Invalid };
    let want = from_string(d, ten, t.base);
    let w = format!("{} parsing {:?}", t.name, if st.strs[0].len() > 120 { &st.strs[0][..120] } else { &st.strs[0] });
    with_ty!(st.ty, U, match parse_with::<U>(&st.strs[0], st.form)
    {
        Err(m) => return fail(format!("{} panicked: {}", w, m)),
        Ok(Err(m)) => return fail(format!("{} failed: {}", w, m)),
        Ok(Ok(x)) => if let Err(m) = same(&w, &x, &want) { return fail(m); }
    });
    let mut cl = vec![t.name, if ten { "decimal" } else { "hexadecimal" }];
    if d.len() > 1 && d.starts_with('0') { cl.push("leading zeros"); }
    if want.len() > 1 { cl.push("two digits or more"); }
    if d.len() > 100 { cl.push("over 100 places"); }
    Verdict::Ok(!want.is_empty() && d.len() > 1, cl)
}

pub const C12: Prop = Prop
{
    id: "C12", quick: 24_000_000, thorough: 120_000_000,
    rule: "one valid decimal or 0x-hexadecimal string of 1 to 700, rarely 6000 (thorough 20000) or 65530 to 70000, places in one type, lengths around multiples of the places per digit of each type, runs of zeros and nines, leading zeros, mixed case, and every length up to 3000 in each notation and type; non-trivial = two or more places and value not zero",
    gen: gen_parse, check: check_parse
};

// ---- C13 ----------------------------------------------------------------------------------

const BAD: [char; 58] = ['+', '-', '+', '-', '_', ' ', '\t', '\n', '\r', '.', ',', '\'', '/', ':', '@', '`', 'g', 'G', 'x', 'X', 'z', 'Z', 'o', 'b', 'e', 'E', 'a', 'f', 'A', 'F', 'h', 'L', '\0', '"', '#', '(',
    '\u{b9}', '\u{660}', '\u{ff11}', '\u{1d7d9}', '\u{a0}', '\u{2212}', '\u{e9}', '\u{7f}', '\u{ff21}', '~',
    '\u{feff}', '\u{200b}', '\u{3000}', '\u{2028}', '\u{85}', '\u{b}', '\u{c}', '\u{202f}', '\u{2009}', 'u', 'n', 'k'];

const SUFFIXES: [&str; 40] = ["u8", "u16", "u32", "u64", "u128", "usize", "_u32", "n", "N", "L", "UL", "ull", "h", "H", "\n", "\r\n", " \n", "\t", "\0", ".0", ".", ".00", "e0", "E0", "e5", "E+5", "e-0", "_",
    "k", "%", "/1", "+0", "-0", "*1", "<<1", " 0", "p0", "0x", ";", "d"];
const PREFIXES: [&str; 44] = ["0X", "0b", "0o", "x", "X", "00x", "#", "$", "&h", "-0x", "+0x", " 0x", "0x0x", "0x+", "0x-", "+", "-", " ", "\\x", "1x", "0 x", "\u{660}x", "0B", "0O", "0d", "0D", "b", "o", "0h", "h'", "16#", "10#", "2r", "0x_", "_", "0_", "\u{feff}", "\u{feff}0x",
    "\u{200b}", "\n", "\t0x", "0x 0x", "--", "++"];

/// A foreign character: mostly those somebody could want to allow, otherwise any
fn bad_char(r: &mut Rng) -> char
{
    match r.below(12)
    {
        0 => loop { let c = r.below(128) as u8 as char; if !c.is_ascii_hexdigit() { return c; } },
        1 => loop { if let Some(c) = char::from_u32({ let top = if r.chance(1, 2) { 0x3000 } else { 0x110000 }; r.below(top) as u32 }) { if !c.is_ascii_hexdigit() { return c; } } },
        _ => BAD[r.below(BAD.len())]
    }
}

/// Digits in groups, separated from each other
fn grouped(r: &mut Rng, s: &str) -> String
{
    let k = r.pick(&[1usize, 2, 3, 3, 3, 4, 4, 8]);
    let sep = r.pick(&["_", ",", " ", "'", ".", "\u{a0}", "\u{2009}", "\u{202f}", "__", ":", "-", "\n", "\\\n"]);
    let c: Vec<char> = s.chars().collect();
    let mut o: Vec<String> = if r.chance(3, 4) { c.rchunks(k).rev().map(|x| x.iter().collect()).collect() } else { c.chunks(k).map(|x| x.iter().collect()).collect() };
    // sometimes only a few of them
    while r.chance(1, 3) && o.len() > 2 { let i = r.below(o.len() - 1); let x = o.remove(i + 1); o[i].push_str(&x); }
    o.join(sep)
}

fn gen_bad(r: &mut Rng, i: usize) -> Case
{
    if let Some(k) = gen::sweep(i, 200)
    {
        // every length with every position of one foreign character
        let (ten, p) = (k / 8 % 2 == 0, k / 16 % 8385);
        let mut n = 1;
        let mut at = p;
        while at >= n { at -= n; n += 1; }
        let s = digits(r, ten, n);
        let s = format!("{}{}{}{}", if ten { "" } else { "0x" }, &s[..at], bad_char(r), &s[at + 1..]);
        let form = r.below(2);
        return Case::one(Step::new("parse_bad", k % 8, form).str(s));
    }
    let ty = r.below(8);
    let t = ty_of(ty);
    let ten = r.chance(1, 2);
    let max = if r.chance(1, 20_000) { 70_000 } else if r.chance(1, 60) { 6000 } else { 300 };
    let n = if r.chance(1, 30) { 0 } else if max > 300 && r.chance(1, 2) { r.range(300, max) } else { places(r, t).min(max) };
    let mut body = digits(r, ten, n);
    // what could be meant for binary or octal
    if r.chance(1, 12) { let m = r.pick(&[2u32, 8]); body = body.chars().map(|c| char::from_digit(c.to_digit(16).unwrap() % m, 16).unwrap()).collect(); }
    let mut s = if ten { body.clone() } else { format!("0x{}", body) };
    match r.below(12)
    {
        0 => s = format!("{}{}", PREFIXES[r.below(PREFIXES.len())], body),
        1 => s.push(bad_char(r)),
        2 => match r.below(5)
        {
            0 | 1 => s.push_str(SUFFIXES[r.below(SUFFIXES.len())]),
            2 => { let b = r.pick(&[('"', '"'), ('(', ')'), ('[', ']'), ('\'', '\''), (' ', ' '), ('\t', '\n'), ('<', '>')]); s = format!("{}{}{}", b.0, s, b.1); },
            // a digit and a power of ten, a fraction, a second number
            _ => { let m = r.range(1, 4); let x = digits(r, true, m); s = format!("{}{}{}", s, r.pick(&["e", "E", "e+", ".", ".", "/", " ", ",", "^", "x", "**"]), x); }
        },
        3 => s = if ten { grouped(r, &body) } else { format!("0x{}", grouped(r, &body)) },
        _ => {
            for _ in 0..(if r.chance(1, 6) { r.range(1, 3) } else { 1 })
            {
                let ch: Vec<char> = s.chars().collect();
                // positions counted from the right, often at a group boundary
                let per = [2usize, 4, 9, 16, 19, 1, 3, 15, 7, t.places, t.places][r.below(11)];
                let from_right = match r.below(4) { 0 => r.below(ch.len() + 1), 1 => ch.len(), _ => per * r.below(ch.len() / per + 1) + r.below(2) };
                let at = ch.len().saturating_sub(from_right);
                let b = bad_char(r);
                let replace = r.chance(1, 2);
                let mut o: String = ch[..at].iter().collect();
                o.push(b);
                if replace && at < ch.len() { o.extend(&ch[at + 1..]); } else { o.extend(&ch[at..]); }
                s = o;
            }
        }
    }
    let form = r.below(2);
    Case::one(Step::new("parse_bad", ty, form).str(s))
}

/// Does the string contain a character that is not a digit of its notation?
fn malformed(s: &str) -> bool
{
    let (ten, d) = match s.strip_prefix("0x") { Some(d) => (false, d), None => (true, s) };
    d.chars().any(|c| !(if ten { c.is_ascii_digit() } else { c.is_ascii_hexdigit() }))
}

fn check_bad(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 || st.strs.len() != 1 { return Verdict::Invalid; }
    let s = &st.strs[0];
    if !malformed(s) { return Verdict::Invalid; }
    let w = format!("{} parsing {:?}", t.name, s.chars().take(120).collect::<String>());
    with_ty!(st.ty, U, match parse_with::<U>(s, st.form)
    {
        Err(m) => return fail(format!("{} panicked: {}", w, m)),
        Ok(Err(m)) => if !m.contains("InvalidNumber") { return fail(format!("{} failed with {} instead of an invalid-number error", w, m)); },
        Ok(Ok(x)) => return fail(format!("{} was accepted as {}", w, show(&x.raw())))
    });
    let mut cl = vec![t.name];
    if !s.is_ascii() { cl.push("non-ASCII"); }
    if s.contains(['+', '-']) { cl.push("sign"); }
    if s.starts_with("0x") { cl.push("hexadecimal"); } else { cl.push("decimal"); }
    let good = s.chars().filter(|c| c.is_ascii_hexdigit()).count();
    Verdict::Ok(good > 0, cl)
}

pub const C13: Prop = Prop
{
    id: "C13", quick: 30_000_000, thorough: 200_000_000,
    rule: "one string with one to three foreign characters (signs, separators, white space, control, letters just outside the alphabet, hexadecimal letters in decimal numbers, non-ASCII digits) inserted or replacing at any position, often where digit groups meet, or with a foreign prefix, suffix, quotes, exponent or separators between groups of digits, and one at every position of every length up to 129; it has to be rejected as an invalid number; non-trivial = the string also contains valid digits",
    gen: gen_bad, check: check_bad
};

// ---- C14 ----------------------------------------------------------------------------------

fn gen_fmt(r: &mut Rng, i: usize) -> Case
{
    if let Some(k) = gen::sweep(i, 1500)
    {
        let (ty, n) = (k % 8, k / 8 % 1000 + 1);
        let t = ty_of(ty);
        let kind = if t.dec { 0 } else { r.below(3) };
        let spec = r.below(NR_SPECS);
        return Case::one(Step::new(["fmt_dec", "fmt_hex", "fmt_hex_upper"][kind], ty, spec).num(gen::exact(r, t, n)).int(0));
    }
    let ty = r.below(8);
    let t = ty_of(ty);
    let kind = if t.dec { 0 } else { r.below(3) };
    let w = if i % 2048 == 8 { [0, 0, 3, 2] } else if i % 8 == 0 { [0, 8, if r.big { 2 } else { 1 }, 0] } else { [8, 1, 0, 0] };
    let mut a = match r.below(8) { _ if i % 4096 == 9 && (t.dec || kind != 0) => { let n = gen::giant_len(r); gen::num(r, t, n) }, 0 => vec![], 1 => decimal_ish(r, t), _ => gen::any(r, t, w) };
    trim(&mut a);
    let spec = r.below(NR_SPECS);
    let places = (a.len() as f64 * (t.base as f64).log(if kind == 0 { 10.0 } else { 16.0 })) as usize;
    let width = match r.below(4) { 0 => r.below(12), 1 => places + r.below(12), 2 => (places + 6).saturating_sub(r.below(12)), _ => if r.chance(1, 100) { r.below(5000) } else { r.below(60) } }.min(60_000);
    let la = a.len();
    let st = Step::new(["fmt_dec", "fmt_hex", "fmt_hex_upper"][kind], ty, spec).num(a).int(width as u64);
    // into a writer that fails at some point, or just does not
    if r.chance(1, 10) { let limit = match r.below(4) { 0 => r.below(4), 1 => places + 6 - r.below(7), 2 => places.max(width) + 4 - r.below(5), _ => r.below(places + width + 4) }; return Case::one(st.int(limit as u64)); }
    // or into one that fails once and then goes on taking what it is given
    if r.chance(1, 12)
    {
        let mode = r.range(1, 2);
        let limit = match r.below(3) { 0 => r.below(4), 1 => r.below(la + 3), _ => r.below(places.max(width) + 6) };
        return Case::one(st.int(limit as u64).int(mode as u64));
    }
    Case::one(st)
}

/// A number close to a multiple of a power of ten
fn decimal_ish(r: &mut Rng, t: &Ty) -> N
{
    let tens = TYPES[7];
    let kx = r.below(10);
    let mut v: N = vec![0; kx];
    v.push(10u64.pow(r.below(19) as u32) * r.range(1, 9) as u64 % 10_000_000_000_000_000_000);
    trim(&mut v);
    if r.chance(1, 3) { v = add(&v, &[r.below(100) as u64], tens.base); trim(&mut v); }
    if r.chance(1, 4) { v = sub(&v, &[1], tens.base).unwrap_or_default(); }
    convert(&v, tens.base, t.base)
}

/// A writer that fails when it is given a piece that it has no room for but takes smaller ones after
/// it (`atomic`), or that fails in one write and takes all others. Only what was written before the
/// first failure is kept.
struct Faltering { atomic: bool, left: usize, text: String, failed: bool }
impl std::fmt::Write for Faltering
{
    fn write_str(&mut self, s: &str) -> std::fmt::Result
    {
        let ok = if self.atomic { self.left >= s.len() } else { self.left > 0 || self.failed };
        if !ok { self.failed = true; return Err(std::fmt::Error); }
        self.left = self.left.saturating_sub(if self.atomic { s.len() } else { 1 });
        if !self.failed { self.text.push_str(s); }
        Ok(())
    }
}

fn check_fmt(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 || st.nums.len() != 1 || !(1..=3).contains(&st.ints.len()) || !is_canonical(&st.nums[0], t.base) { return Verdict::Invalid; }
    let a = &st.nums[0];
    let width = st.ints[0] as usize;
    if width > 60_000 { return Verdict::Invalid; }
    let spec = st.form;
    let kind = match &*st.op { "fmt_dec" => 0, "fmt_hex" => 1, _ => 2 };
    let (dec, hex) = if kind == 0 { (to_string(a, t.base, true), String::new()) } else { (String::new(), to_string(a, t.base, false)) };
    let up = hex.to_ascii_uppercase();
    let reference = Reference { dec: &dec, hex: &hex, hex_upper: &up };
    let want = if kind == 0 { reference.fmt_dec(spec, width) } else { reference.fmt_hex(kind == 2, spec, width) };
    let plain = match kind { 0 => dec.clone(), 1 => format!("0x{}", hex), _ => format!("0x{}", up) };
    if a.len() * t.bits <= 64
    {
        // the reference has to agree with what primitive integers do
        let v = a.iter().rev().fold(0u128, |acc, &d| acc * t.base + d as u128);
        assert_eq!(fmt_u128(v, kind, spec, width), want, "reference formatting disagrees with primitives");
    }
    let w = format!("{} {} spec {} width {} of {}", t.name, st.op, spec, width, show(a));
    let cut = |s: &str| if s.chars().count() > 200 { format!("{}...", s.chars().take(200).collect::<String>()) } else { s.to_string() };
    let r: Result<(), String> = with_ty!(st.ty, U, (|| {
        let x = U::mk(a);
        if let (Some(&limit), Some(&mode)) = (st.ints.get(1), st.ints.get(2))
        {
            let mut out = Faltering { atomic: mode == 2, left: limit as usize, text: String::new(), failed: false };
            if let Some(ok) = attempt(|| x.fmt_into(&mut out, kind, spec, width)).map_err(|m| format!("{} into a writer that fails once panicked: {}", w, m))?
            {
                if ok == out.failed { return Err(format!("{} into a writer that {} (mode {}, {}): reported {}", w, if out.failed { "failed once" } else { "did not fail" }, mode, limit, if ok { "success" } else { "failure" })); }
                if !want.starts_with(&out.text) || ok && want != out.text { return Err(format!("{} into a writer that fails once: wrote {:?}, expected {:?}", w, cut(&out.text), cut(&want))); }
            }
        }
        else if let Some(&limit) = st.ints.get(1)
        {
            // a writer that fails: that has to be reported, and what arrived is the start of the rendering
            let mut out = Limited { left: limit as usize, text: String::new() };
            if let Some(ok) = attempt(|| x.fmt_into(&mut out, kind, spec, width)).map_err(|m| format!("{} into a writer of {} bytes panicked: {}", w, limit, m))?
            {
                if ok != (want.len() as u64 <= limit) { return Err(format!("{} ({} bytes) into a writer of {} bytes: reported {}", w, want.len(), limit, if ok { "success" } else { "failure" })); }
                if !want.starts_with(&out.text) || ok && want != out.text { return Err(format!("{} into a writer of {} bytes: wrote {:?}, expected {:?}", w, limit, cut(&out.text), cut(&want))); }
            }
        }
        let got = attempt(|| if kind == 0 { Some(x.fmt_dec(spec, width)) } else { x.fmt_hex(kind == 2, spec, width) }).map_err(|m| format!("{} panicked: {}", w, m))?;
        if let Some(g) = got
        {
            if g != want { return Err(format!("{}: got {:?}, expected {:?}", w, cut(&g), cut(&want))); }
        }
        // and back
        let text = attempt(|| if kind == 0 { Some(x.decimal()) } else { x.fmt_hex(kind == 2, 2, 0) }).map_err(|m| format!("{} panicked: {}", w, m))?;
        if let Some(s) = text
        {
            if s != plain { return Err(format!("{}: rendered as {:?}, expected {:?}", w, cut(&s), cut(&plain))); }
            match attempt(|| U::parse(&s))
            {
                Ok(Ok(y)) => equal(&format!("{}: parsing its rendering", w), &y, &x)?,
                Ok(Err(m)) => return Err(format!("{}: its rendering does not parse: {}", w, m)),
                Err(m) => return Err(format!("{}: parsing its rendering panicked: {}", w, m))
            }
        }
        Ok(())
    })());
    if let Err(m) = r { return fail(m); }
    let mut cl = vec![t.name, ["Display", "LowerHex", "UpperHex"][kind], size_class(a.len())];
    if want.len() > plain.len() { cl.push("padded"); }
    if st.ints.len() == 3 { cl.push("writer that fails once"); }
    else if let Some(&limit) = st.ints.get(1) { cl.push(if (limit as usize) < want.len() { "writer that fails" } else { "writer with a limit" }); }
    if a.len() > 1 && a[..a.len() - 1].iter().any(|&d| d < t.max_digit() / 10) { cl.push("inner digits with leading zeros"); }
    Verdict::Ok(a.len() > 1, cl)
}

pub const C14: Prop = Prop
{
    id: "C14", quick: 24_000_000, thorough: 120_000_000,
    rule: "one number rendered in decimal or lower- or upper-case hexadecimal under one of 30 format specifications (sign, alternate, zero, width, precision, fill, alignment), one in ten into a writer that fails after some bytes, one in twelve into one that fails once, compared with the standard library's integer formatting of the expected digits, then parsed back; values include zero, powers of ten and of the base, inner digits with leading zeros, every length up to 1000 digits; non-trivial = two digits or more",
    gen: gen_fmt, check: check_fmt
};

// ---- C15 ----------------------------------------------------------------------------------

fn gen_dec(r: &mut Rng, i: usize) -> Case
{
    if let Some(k) = gen::sweep(i, 1500)
    {
        let n = k / 4 % 1600 + 1;
        return Case::one(Step::new("to_decimal", k % 4, 0).num(gen::exact(r, ty_of(k % 4), n)));
    }
    let ty = r.below(4);
    let t = ty_of(ty);
    let heavy = i % 8 == 0;
    if i % 400_000 == 16
    {
        let t8 = r.below(2);
        let n = r.range(65_530, 65_800);
        return Case::one(Step::new("to_decimal", t8, 0).num({ let mut a = gen::num(r, ty_of(t8), n); trim(&mut a); a }));
    }
    if i % 8192 == 24
    {
        // lengths around the powers of two of bits, round in one base or the other
        let bits = [16384, 32768, 65536][r.below(3)] + r.below(300) - 64;
        let n = (bits / t.bits).max(1);
        let mut a = match r.below(4)
        {
            0 => gen::num(r, t, n),
            1 => { let mut v = vec![0; n - 1]; v.push(gen::digit(r, t).max(1)); v },
            2 => { let l = r.range(1, 40); let mut v = vec![0; n - l]; v.extend(gen::num(r, t, l)); v },
            _ => { let l = n * t.bits / 64; let k = r.range(1, 20); let mut d = vec![0; l - k]; d.extend(gen::num(r, &TYPES[7], k)); trim(&mut d); convert(&d, TYPES[7].base, t.base) }
        };
        trim(&mut a);
        return Case::one(Step::new("to_decimal", ty, 0).num(a));
    }
    if i % 4096 == 8
    {
        let n = r.range(260, if r.big { 4000 } else { 2000 } / (t.bits / 8).min(4));
        let mut a = if r.chance(1, 2) { gen::num(r, t, n) } else { let d = gen::num(r, &TYPES[7], n * t.bits / 63); convert(&d, TYPES[7].base, t.base) };
        trim(&mut a);
        return Case::one(Step::new("to_decimal", ty, 0).num(a));
    }
    let mut a = match r.below(6)
    {
        0 | 1 => {
            // decimal digits with long runs of zeros (or nines)
            let max = if heavy { (if r.big { 900 } else { 250 }) * t.bits / 64 + 4 } else { 4 };
            let n = r.range(1, max);
            let mut d = vec![0u64; n];
            let m = r.below(4);
            for _ in 0..m { let k = r.below(n); d[k] = if r.chance(1, 2) { 10u64.pow(r.below(19) as u32) } else { r.below_u64(10_000_000_000_000_000_000) }; }
            d[n - 1] = 10u64.pow(r.below(19) as u32) * r.range(1, 9) as u64;
            let b = TYPES[7].base;
            match r.below(4) { 0 => { d = sub(&d, &[1 + r.below(100) as u64], b).unwrap_or_default(); }, 1 => { let v = r.u64() >> 1; d = add(&d, &[v], b); }, _ => {} }
            trim(&mut d);
            convert(&d, b, t.base)
        },
        2 => { let n = r.range(10, 40); gen::num(r, t, n) },
        3 => { let n = r.below(if heavy { 4000 } else { 900 } * t.bits / 64 + 10); let mut v = shl(&[1], n, t.base); if r.chance(1, 2) { v = sub(&v, &[r.below(3) as u64], t.base).unwrap_or_default(); } v },
        _ => if heavy { let n = r.range(16, if r.big { 900 } else { 260 }); gen::num(r, t, n) } else { let n = r.range(1, 24); gen::num(r, t, n) }
    };
    trim(&mut a);
    if r.chance(1, 200) { a.clear(); }
    Case::one(Step::new("to_decimal", ty, 0).num(a))
}

fn check_dec(c: &Case) -> Verdict
{
    let st = &c.steps[0];
    let t = ty_of(st.ty);
    if c.steps.len() != 1 || st.nums.len() != 1 || t.dec || !is_canonical(&st.nums[0], t.base) { return Verdict::Invalid; }
    let a = &st.nums[0];
    let td = ty_of(st.ty + 4);
    let want = convert(a, t.base, td.base);
    let w = format!("{} to_decimal of {}", t.name, show(a));
    let r: Result<(), String> = with_ty!(st.ty, U, (|| {
        let x = U::mk(a);
        let (_, d) = match attempt(|| x.decimal_digits()).map_err(|m| format!("{} panicked: {}", w, m))? { Some(y) => y, None => return Ok(()) };
        if d != want { return Err(differ(&w, &d, &want)); }
        same(&format!("{}: number after the conversion", w), &x, a)?;
        let s = attempt(|| x.decimal()).map_err(|m| format!("{}: display panicked: {}", w, m))?;
        let text = to_string(&want, td.base, true);
        if s != text { return Err(format!("{}: displayed as {} characters, expected {} characters, first difference at {:?}", w, s.len(), text.len(), s.bytes().zip(text.bytes()).position(|(a, b)| a != b))); }
        Ok(())
    })());
    if let Err(m) = r { return fail(m); }
    let mut cl = vec![t.name, size_class(a.len())];
    if a.len() >= 16 { cl.push("16 digits or more (divide and conquer)"); }
    let z = want.windows(2).filter(|w| w[0] == 0 && w[1] == 0).count();
    if z > 0 { cl.push("two adjacent decimal digits zero"); }
    Verdict::Ok(want.len() > 1, cl)
}

pub const C15: Prop = Prop
{
    id: "C15", quick: 10_000_000, thorough: 20_000_000,
    rule: "one binary number converted to decimal and displayed: random, near powers of two, and numbers whose decimal digits have long runs of zeros or nines, up to 260 (thorough 900), rarely 2000 (4000), in bin8 and bin16 very rarely over 65536, digits, and in all types now and then around 2^14, 2^15 and 2^16 bits, many of these round in either base, and every length up to 1600 digits in each type; non-trivial = two or more decimal digits of the result type",
    gen: gen_dec, check: check_dec
};
