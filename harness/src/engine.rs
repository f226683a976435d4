//! Runs a property over generated cases: eight workers over a fixed number of cases, each case a
//! pure function of (seed, property, profile, index); the failing case of lowest index is shrunk.

use crate::case::{simpler, Case};
use crate::gen::Rng;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Verdict
{
    /// Holds: non-trivial or not, and the classes the case falls in
    Ok(bool, Vec<&'static str>),
    Fail(String),
    /// Not in the domain of the property (only met while shrinking)
    Invalid
}

pub struct Prop
{
    pub id: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub gen: fn(&mut Rng, usize) -> Case,
    pub check: fn(&Case) -> Verdict
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

pub fn quiet_panics()
{
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(m + &at));
    }));
}

/// Run a piece of the code under test; a panic is returned as its message
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String>
{
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| PANIC.try_with(|p| p.borrow_mut().take()).ok().flatten().unwrap_or_else(|| "panic".to_string()))
}

pub fn judge(p: &Prop, c: &Case) -> Verdict
{
    match attempt(|| (p.check)(c))
    {
        Ok(v) => v,
        // a panic outside `attempt` in a check: nothing in the code under test is called there
        Err(m) => Verdict::Fail(format!("panicked: {}", m))
    }
}

fn hash(c: &Case) -> u64
{
    let mut h = DefaultHasher::new();
    c.hash(&mut h);
    h.finish()
}

#[derive(Default)]
pub struct Tally
{
    pub evaluations: u64,
    /// hashes of the non-trivial cases; sorted and without duplicates at the end of the run
    pub nontrivial: Vec<u64>,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<(usize, String)>
}

pub struct Outcome
{
    pub tally: Tally,
    pub failure: Option<(Case, Case, String, u64)>,
    pub regress: u64
}

pub struct Options
{
    pub seed: u64,
    pub thorough: bool,
    pub stream: u64,
    pub cases: usize,
    pub threads: usize,
    pub regress: Vec<Case>,
    pub trace: Option<String>,
    /// Give up when one case takes longer than this (0: never)
    pub stuck: Duration
}

pub fn make(p: &Prop, o: &Options, i: usize) -> Case
{
    let mut r = Rng::new(o.seed, o.stream, i as u64);
    r.big = o.thorough;
    (p.gen)(&mut r, i)
}

fn trace_writer(path: &str, w: usize) -> std::fs::File
{
    std::fs::OpenOptions::new().create(true).write(true).truncate(true)
        .open(format!("{}.{}", path, w)).expect("trace file")
}

type Best = Arc<Mutex<(Case, String, u64)>>;

static SHRINKING: AtomicBool = AtomicBool::new(false);
pub fn shrinking() -> bool { SHRINKING.load(SeqCst) }

/// Greedy shrinking, bounded in evaluations (and, for pathological cases, in time: this affects
/// only how small the reproduction gets).
fn shrink_into(p: &Prop, out: &Best)
{
    let start = Instant::now();
    let mut best = out.lock().unwrap().0.clone();
    let mut n = 0u64;
    'outer: loop
    {
        let w = best.weight();
        for d in simpler(&best)
        {
            if n >= 20_000 || start.elapsed() > Duration::from_secs(40) { break 'outer; }
            if d.weight() > w { continue; }
            n += 1;
            if let Verdict::Fail(m) = judge(p, &d)
            {
                *out.lock().unwrap() = (d.clone(), m, n);
                best = d;
                continue 'outer;
            }
        }
        break;
    }
    out.lock().unwrap().2 = n;
}

/// A failure that needs what earlier cases left behind in this process (only C20 tells) makes a poor
/// reproduction: look for a case that fails from a clean start.
fn standing_alone(p: &'static Prop, o: &Options, c: Case, m: String) -> (Case, String)
{
    if p.id != "C20" { return (c, m); }
    SHRINKING.store(true, SeqCst);
    let start = Instant::now();
    if let Verdict::Fail(m) = judge(p, &c) { return (c, m); }
    for i in 0..o.cases
    {
        if start.elapsed() > Duration::from_secs(60) { break; }
        let d = make(p, o, i);
        if let Verdict::Fail(m) = judge(p, &d) { return (d, m); }
    }
    (c, format!("(only after other cases in the same process) {}", m))
}

/// Shrink in a thread of its own: one of the simpler cases may never return
pub fn shrink(p: &'static Prop, c: &Case, msg: &str) -> (Case, String, u64)
{
    let best: Best = Arc::new(Mutex::new((c.clone(), msg.to_string(), 0)));
    SHRINKING.store(true, SeqCst);
    let b = best.clone();
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || shrink_into(p, &b)).expect("thread");
    let start = Instant::now();
    while !t.is_finished() && start.elapsed() < Duration::from_secs(60) { std::thread::sleep(Duration::from_millis(2)); }
    let r = best.lock().unwrap().clone();
    r
}

/// What each worker is at: the index of its case (None: a saved case) and when it started on it. A case that does not come back ends the run with status 4.
struct Watch(Vec<Mutex<Option<(Option<usize>, Instant)>>>);

impl Watch
{
    fn over(&self, limit: Duration) -> Option<Option<usize>>
    {
        self.0.iter().find_map(|m| m.lock().unwrap().as_ref().and_then(|(i, t)| if t.elapsed() > limit { Some(*i) } else { None }))
    }
}

pub const STUCK: i32 = 4;

pub fn run(p: &'static Prop, o: Options) -> Outcome
{
    quiet_panics();
    let o = Arc::new(o);
    // one more place than workers, for the saved cases
    let watch = Arc::new(Watch((0..=o.threads).map(|_| Mutex::new(None)).collect()));
    let failed = Arc::new(AtomicU64::new(u64::MAX));
    if !o.stuck.is_zero()
    {
        let (watch, limit, failed) = (watch.clone(), o.stuck, failed.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            if failed.load(SeqCst) != u64::MAX { return; }
            if let Some(i) = watch.over(limit)
            {
                println!("STUCK {}", i.map_or("saved".to_string(), |i| format!("index={}", i)));
                std::process::exit(STUCK);
            }
        });
    }
    // saved cases first
    let mut regress = 0;
    for c in &o.regress
    {
        *watch.0[o.threads].lock().unwrap() = Some((None, Instant::now()));
        regress += 1;
        let v = judge(p, c);
        *watch.0[o.threads].lock().unwrap() = None;
        if let Verdict::Fail(m) = v
        {
            failed.store(0, SeqCst);
            let (s, m, n) = shrink(p, c, &m);
            return Outcome { tally: Tally { evaluations: regress, ..Tally::default() }, failure: Some((c.clone(), s, m, n)), regress };
        }
    }

    const CHUNK: usize = 64;
    let next = Arc::new(AtomicUsize::new(0));
    let first: Arc<Mutex<Option<(usize, Case, String)>>> = Arc::new(Mutex::new(None));
    let total: Arc<Mutex<Tally>> = Arc::new(Mutex::new(Tally::default()));
    let done = Arc::new(AtomicUsize::new(0));
    let quit = Arc::new(AtomicBool::new(false));
    for w in 0..o.threads
    {
        let (watch, o, next, failed, first, total, done, quit) =
            (watch.clone(), o.clone(), next.clone(), failed.clone(), first.clone(), total.clone(), done.clone(), quit.clone());
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut t = Tally::default();
            let mut trace = o.trace.as_ref().map(|f| trace_writer(f, w));
            'work: loop
            {
                let a = next.fetch_add(CHUNK, SeqCst);
                if a >= o.cases || quit.load(SeqCst) { break; }
                for i in a..(a + CHUNK).min(o.cases)
                {
                    if i as u64 > failed.load(SeqCst) { break 'work; }
                    if let Some(f) = trace.as_mut()
                    {
                        f.seek(SeekFrom::Start(0)).unwrap();
                        f.write_all(format!("{:020}", i).as_bytes()).unwrap();
                    }
                    let c = match attempt(|| make(p, &o, i))
                    {
                        Ok(c) => c,
                        Err(m) => { eprintln!("generator for case {} panicked: {}", i, m); std::process::exit(2) }
                    };
                    t.evaluations += 1;
                    *watch.0[w].lock().unwrap() = Some((Some(i), Instant::now()));
                    let v = judge(p, &c);
                    *watch.0[w].lock().unwrap() = None;
                    match v
                    {
                        Verdict::Ok(nontrivial, classes) => {
                            if nontrivial { t.nontrivial.push(hash(&c)); }
                            for k in classes { *t.classes.entry(k).or_insert(0) += 1; }
                            // samples spread over the run, at indices fixed in advance
                            if i < 4 || (i.is_power_of_two() && i > 64) { t.samples.push((i, c.summary())); }
                        },
                        Verdict::Invalid => { *t.classes.entry("outside the domain (not counted as non-trivial)").or_insert(0) += 1; },
                        Verdict::Fail(m) => {
                            let mut f = first.lock().unwrap();
                            if f.as_ref().map_or(true, |x| i < x.0) { *f = Some((i, c, m)); }
                            failed.fetch_min(i as u64, SeqCst);
                            break 'work;
                        }
                    }
                }
            }
            if let Some(f) = trace.as_mut()
            {
                f.seek(SeekFrom::Start(0)).unwrap();
                f.write_all(format!("{:>20}", "-").as_bytes()).unwrap();
            }
            let mut g = total.lock().unwrap();
            g.evaluations += t.evaluations;
            g.nontrivial.append(&mut t.nontrivial);
            for (k, v) in t.classes { *g.classes.entry(k).or_insert(0) += v; }
            g.samples.extend(t.samples);
            drop(g);
            done.fetch_add(1, SeqCst);
        }).expect("thread");
    }
    // Once a failure is known the other workers only finish what has a lower index; a worker
    // that never comes back must not keep the failure from being reported.
    let mut since: Option<Instant> = None;
    while done.load(SeqCst) < o.threads
    {
        std::thread::sleep(Duration::from_millis(5));
        if failed.load(SeqCst) != u64::MAX
        {
            let s = *since.get_or_insert_with(Instant::now);
            if s.elapsed() > Duration::from_secs(30) { break; }
        }
    }
    quit.store(true, SeqCst);
    let mut tally = std::mem::take(&mut *total.lock().unwrap());
    tally.samples.sort();
    tally.nontrivial.sort_unstable();
    tally.nontrivial.dedup();
    let f = first.lock().unwrap().take();
    let failure = f.map(|(_, c, m)| {
        let (c, m) = standing_alone(p, &o, c, m);
        let (s, m, n) = shrink(p, &c, &m);
        (c, s, m, n)
    });
    Outcome { tally, failure, regress }
}
