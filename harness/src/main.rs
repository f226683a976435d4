mod api;
mod case;
mod engine;
mod gen;
mod model;
mod props;

use case::Case;
use engine::{Options, Prop, Verdict};
use std::collections::HashMap;

fn esc(s: &str) -> String
{
    let mut o = String::from("\"");
    for c in s.chars()
    {
        match c
        {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c)
        }
    }
    o.push('"');
    o
}

fn find(id: &str) -> &'static Prop
{
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) })
}

fn usage() -> !
{
    eprintln!("usage: babs-check run|case|replay|list ...");
    std::process::exit(2)
}

fn options(p: &Prop, a: &HashMap<String, String>) -> Options
{
    let get = |k: &str, d: &str| a.get(k).cloned().unwrap_or_else(|| d.to_string());
    let thorough = get("tier", "quick") == "thorough";
    let profile: u64 = if get("profile", "checked") == "checked" { 0 } else { 1 };
    let nr: u64 = p.id[1..].parse().unwrap();
    let scale: f64 = get("scale", "1").parse().unwrap();
    let n = if thorough { p.thorough } else { p.quick };
    let mut regress = vec![];
    if let Some(d) = a.get("regress")
    {
        let mut files: Vec<_> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
        files.sort();
        for f in files
        {
            if let Ok(t) = std::fs::read_to_string(&f)
            {
                match Case::parse(&t)
                {
                    Some((id, c)) => if id == p.id { regress.push(c) },
                    None => { eprintln!("cannot parse {}", f.display()); std::process::exit(2) }
                }
            }
        }
    }
    Options
    {
        seed: get("seed", "1").parse().unwrap_or(1),
        thorough,
        stream: 2 * nr + profile,
        cases: a.get("cases").map(|c| c.parse().unwrap()).unwrap_or((n as f64 * scale) as usize),
        threads: get("threads", "8").parse().unwrap(),
        regress,
        trace: a.get("trace").cloned(),
        stuck: std::time::Duration::from_secs(get("stuck", "60").parse().unwrap())
    }
}

fn main()
{
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() { usage(); }
    match args[0].as_str()
    {
        "list" => for p in props::ALL.iter() { println!("{} quick={} thorough={}", p.id, p.quick, p.thorough); },
        "replay" | "alone" => {
            let text = if args[1] == "-" { std::io::read_to_string(std::io::stdin()) } else { std::fs::read_to_string(&args[1]) };
            let text = text.unwrap_or_else(|e| { eprintln!("{}: {}", args[1], e); std::process::exit(2) });
            let (id, c) = Case::parse(&text).unwrap_or_else(|| { eprintln!("cannot parse {}", args[1]); std::process::exit(2) });
            let p = find(&id);
            engine::quiet_panics();
            if args[1] != "-" { std::env::set_var(props::pure::OWN, "2"); }
            if args[0] == "alone" { println!("{}", props::pure::alone(&c)); return; }
            match engine::judge(p, &c)
            {
                Verdict::Ok(..) => println!("OK property={} {}", id, c.summary()),
                Verdict::Invalid => println!("INVALID property={} {}", id, c.summary()),
                Verdict::Fail(m) => {
                    println!("FAIL property={} {}\n  {}", id, c.summary(), m);
                    std::process::exit(1);
                }
            }
        },
        "run" | "case" => {
            let p = find(args.get(1).map(|s| s.as_str()).unwrap_or(""));
            let mut kv = HashMap::new();
            for a in &args[2..]
            {
                match a.split_once('=') { Some((k, v)) => { kv.insert(k.trim_start_matches('-').to_string(), v.to_string()); }, None => usage() }
            }
            let o = options(p, &kv);
            if args[0] == "case"
            {
                let i: usize = kv["index"].parse().unwrap();
                let c = engine::make(p, &o, i);
                print!("{}", c.render(p.id));
                if kv.contains_key("dry") { return; }
                engine::quiet_panics();
                if let Verdict::Fail(m) = engine::judge(p, &c) { println!("# FAIL {}", m); std::process::exit(1); }
                return;
            }
            let start = std::time::Instant::now();
            let cases = o.cases;
            let seed = o.seed;
            let res = engine::run(p, o);
            let mut json = String::from("{\n");
            json.push_str(&format!(" \"property\": {},\n \"planned\": {},\n \"seed\": {},\n", esc(p.id), cases, seed));
            json.push_str(&format!(" \"evaluations\": {},\n \"distinct_nontrivial\": {},\n \"saved_cases\": {},\n", res.tally.evaluations, res.tally.nontrivial.len(), res.regress));
            json.push_str(&format!(" \"rule\": {},\n", esc(p.rule)));
            json.push_str(" \"classes\": {");
            json.push_str(&res.tally.classes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
            json.push_str("},\n \"samples\": [");
            json.push_str(&res.tally.samples.iter().map(|(i, s)| esc(&format!("#{}: {}", i, s))).collect::<Vec<_>>().join(",\n  "));
            json.push_str("],\n");
            let mut fail = false;
            if let Some((orig, small, msg, n)) = &res.failure
            {
                fail = true;
                let mut t = format!("# {}\n# shrunk in {} evaluations from: {}\n", msg.replace('\n', " "), n, orig.summary().replace('\n', " "));
                t.push_str(&small.render(p.id));
                if let Some(f) = kv.get("replay") { std::fs::write(f, &t).expect("replay file"); }
                println!("FAIL property={} {}\n  {}", p.id, small.summary(), msg);
                json.push_str(&format!(" \"failure\": {},\n \"failing_case\": {},\n", esc(msg), esc(&small.render(p.id))));
            }
            json.push_str(&format!(" \"wall_s\": {:.3}\n}}\n", start.elapsed().as_secs_f64()));
            if let Some(f) = kv.get("out") { std::fs::write(f, &json).expect("result file"); } else { print!("{}", json); }
            // workers that never return are left behind
            std::process::exit(if fail { 1 } else { 0 });
        },
        _ => usage()
    }
}
