//! A case is a list of steps; it is what is generated, checked, shrunk and written to a replay
//! file.

use crate::model::{trim, N, TYPES};
use std::borrow::Cow;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Step
{
    pub op: Cow<'static, str>,
    pub ty: usize,
    pub form: usize,
    pub nums: Vec<N>,
    pub ints: Vec<u64>,
    pub strs: Vec<String>
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Case { pub steps: Vec<Step> }

impl Step
{
    pub fn new(op: &'static str, ty: usize, form: usize) -> Step
    {
        Step { op: Cow::Borrowed(op), ty, form, nums: vec![], ints: vec![], strs: vec![] }
    }
    pub fn num(mut self, n: N) -> Step { self.nums.push(n); self }
    pub fn int(mut self, n: u64) -> Step { self.ints.push(n); self }
    pub fn str(mut self, s: String) -> Step { self.strs.push(s); self }
}

impl Case
{
    pub fn one(s: Step) -> Case { Case { steps: vec![s] } }

    pub fn render(&self, prop: &str) -> String
    {
        let mut s = format!("property {}\n", prop);
        for st in &self.steps
        {
            s.push_str(&format!("step op={} type={} form={}\n", st.op, TYPES[st.ty].name, st.form));
            for n in &st.nums
            {
                let d: Vec<String> = n.iter().map(|d| d.to_string()).collect();
                s.push_str(&format!("  digits {}\n", d.join(" ")));
            }
            for i in &st.ints { s.push_str(&format!("  int {}\n", i)); }
            for t in &st.strs { s.push_str(&format!("  str {}\n", t.chars().flat_map(|c| c.escape_default()).collect::<String>())); }
        }
        s
    }

    pub fn parse(text: &str) -> Option<(String, Case)>
    {
        let mut prop = String::new();
        let mut c = Case::default();
        for line in text.lines()
        {
            let l = line.trim_start();
            if l.starts_with('#') || l.is_empty() { continue; }
            let (k, rest) = match l.split_once(' ') { Some(x) => x, None => (l, "") };
            match k
            {
                "property" => prop = rest.trim().to_string(),
                "step" => {
                    let mut st = Step::new("", 0, 0);
                    for kv in rest.split_whitespace()
                    {
                        let (a, b) = kv.split_once('=')?;
                        match a
                        {
                            "op" => st.op = Cow::Owned(b.to_string()),
                            "type" => st.ty = TYPES.iter().position(|t| t.name == b)?,
                            "form" => st.form = b.parse().ok()?,
                            _ => return None
                        }
                    }
                    c.steps.push(st);
                },
                "digits" => { let v: Option<Vec<u64>> = rest.split_whitespace().map(|d| d.parse().ok()).collect(); c.steps.last_mut()?.nums.push(v?); },
                "int" => c.steps.last_mut()?.ints.push(rest.trim().parse().ok()?),
                "str" => c.steps.last_mut()?.strs.push(unescape(rest)?),
                _ => return None
            }
        }
        Some((prop, c))
    }

    pub fn summary(&self) -> String
    {
        let mut s = String::new();
        for (i, st) in self.steps.iter().enumerate()
        {
            if i == 12 { s.push_str(&format!(" ... ({} steps)", self.steps.len())); break; }
            if i > 0 { s.push_str("; "); }
            s.push_str(&format!("{} {} form {}", TYPES[st.ty].name, st.op, st.form));
            for n in &st.nums
            {
                if n.len() <= 8 { s.push_str(&format!(" {:?}", n)); }
                else { s.push_str(&format!(" [{}, {}, ... {}, {}] ({} digits)", n[0], n[1], n[n.len() - 2], n[n.len() - 1], n.len())); }
            }
            for i in &st.ints { s.push_str(&format!(" {}", i)); }
            for t in &st.strs
            {
                let e: String = t.chars().flat_map(|c| c.escape_default()).collect();
                if e.len() <= 60 { s.push_str(&format!(" \"{}\"", e)); } else { s.push_str(&format!(" \"{}...\" ({} chars)", &e[..50], t.chars().count())); }
            }
        }
        s
    }

    pub fn weight(&self) -> u64
    {
        self.steps.iter().map(|s| 1 + s.nums.iter().map(|n| 2 * n.len() as u64).sum::<u64>() + s.strs.iter().map(|t| t.len() as u64).sum::<u64>()).sum()
    }
}

fn unescape(s: &str) -> Option<String>
{
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next()
    {
        if c != '\\' { out.push(c); continue; }
        match it.next()?
        {
            't' => out.push('\t'), 'r' => out.push('\r'), 'n' => out.push('\n'),
            '\\' => out.push('\\'), '\'' => out.push('\''), '"' => out.push('"'),
            'u' => {
                if it.next()? != '{' { return None; }
                let mut h = String::new();
                loop { let c = it.next()?; if c == '}' { break; } h.push(c); }
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            },
            _ => return None
        }
    }
    Some(out)
}

/// Simpler variants of a case, most drastic first. `raw` keeps leading zeros in numbers.
pub fn simpler(c: &Case) -> Vec<Case>
{
    let mut out = vec![];
    let n = c.steps.len();
    // fewer steps
    let mut k = n / 2;
    while k >= 1
    {
        let mut i = 0;
        while i + k <= n
        {
            if n > k { let mut d = c.clone(); d.steps.drain(i..i + k); out.push(d); }
            i += k;
        }
        k /= 2;
    }
    for si in 0..n
    {
        let st = &c.steps[si];
        let keep_zeros = st.op == "new";
        let mut push = |f: &dyn Fn(&mut Step)| {
            let mut d = c.clone();
            f(&mut d.steps[si]);
            if !keep_zeros { for x in d.steps[si].nums.iter_mut() { trim(x); } }
            if d != *c { out.push(d); }
        };
        for ni in 0..st.nums.len()
        {
            let l = st.nums[ni].len();
            let mut k = l;
            while k >= 1
            {
                let mut i = 0;
                while i < l
                {
                    let e = (i + k).min(l);
                    push(&|s| { s.nums[ni].drain(i..e); });
                    i += k;
                }
                k /= 2;
                if l > 64 && k < l / 32 { break; }
            }
            let mut k = l;
            while k >= 1
            {
                let mut i = 0;
                while i < l
                {
                    let e = (i + k).min(l);
                    if st.nums[ni][i..e].iter().any(|&d| d != 0) { push(&|s| { s.nums[ni][i..e].fill(0); }); }
                    i += k;
                }
                k /= 2;
                if l > 64 && k < l / 32 { break; }
            }
            if l <= 64
            {
                for i in 0..l
                {
                    let d = st.nums[ni][i];
                    if d > 1 { push(&|s| s.nums[ni][i] = 1); push(&|s| s.nums[ni][i] = d / 2); push(&|s| s.nums[ni][i] = d - 1); }
                }
            }
        }
        for ii in 0..st.ints.len()
        {
            let v = st.ints[ii];
            for w in [0, 1, v / 2, v.saturating_sub(1)] { if w < v { push(&|s| s.ints[ii] = w); } }
        }
        for ii in 0..st.strs.len()
        {
            let ch: Vec<char> = st.strs[ii].chars().collect();
            let l = ch.len();
            let mut k = l;
            while k >= 1
            {
                let mut i = 0;
                while i < l
                {
                    let e = (i + k).min(l);
                    let t: String = ch[..i].iter().chain(&ch[e..]).collect();
                    push(&|s| s.strs[ii] = t.clone());
                    i += k;
                }
                k /= 2;
                if l > 64 && k < l / 32 { break; }
            }
            if l <= 64
            {
                for i in 0..l
                {
                    for z in ['0', '1']
                    {
                        if ch[i].is_ascii_alphanumeric() && ch[i] != z && !(z == '1' && ch[i] == '0')
                        {
                            let t: String = ch.iter().enumerate().map(|(j, &c)| if j == i { z } else { c }).collect();
                            push(&|s| s.strs[ii] = t.clone());
                        }
                    }
                }
            }
        }
    }
    out
}
