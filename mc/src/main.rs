mod alloc;
mod corpus;
mod exec;
mod explore;
mod frame;
mod hist;
mod huff;
mod inflate;
mod inputs;
mod parse;
mod props;
mod race;
mod sums;

use explore::*;
use std::io::Write as _;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("MC_PANIC").is_some() {
            eprintln!("panic: {} at {}", m, l);
        }
        exec::LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", m, l));
    }));
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        // mc check PROP TIER OUT SLOTS KNOWN
        "check" => check(&a[2], &a[3], &a[4], a.get(5).map(|s| s.as_str()), a.get(6).map(|s| s.as_str())),
        // mc one PROP TIER FAMILY INDEX
        "one" => one(&a[2], &a[3], &a[4], a[5].parse().unwrap()),
        "list" => {
            for p in props::ALL {
                for t in ["quick", "thorough"] {
                    for f in props::families(p, t) {
                        println!("{} {} {} {} {}", p, t, f.name, f.n, f.what);
                    }
                }
            }
            0
        }
        "selftest" => props::selftest(),
        "race" => props::race(&a[2], &a[3], &a[4], &a[5]),
        "emit" => props::emit(&a[2]),
        _ => {
            eprintln!("usage: mc check|one|list|selftest ...");
            2
        }
    };
    std::process::exit(code);
}

fn flavour() -> &'static str {
    if exec::SMALL {
        "small"
    } else {
        "real"
    }
}

fn one(prop: &str, tier: &str, fam: &str, idx: u64) -> i32 {
    let fams = props::families(prop, tier);
    let f = match if let Ok(n) = fam.parse::<usize>() { fams.get(n) } else { fams.iter().find(|f| f.name == fam) } {
        Some(f) => f,
        None => {
            println!("no family {}", fam);
            return 2;
        }
    };
    println!("property {} tier {} build {} family {} case {}", prop, tier, flavour(), f.name, idx);
    let _ = std::io::stdout().flush();
    // Run in a thread so that a case that never ends is still reported.
    let (v, d) = std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || run_one(f, idx)).unwrap().join().unwrap());
    println!("{}", d);
    for (c, m) in &v {
        println!("VIOLATED [{}] {}", c, m);
    }
    if v.is_empty() {
        println!("held");
        0
    } else {
        1
    }
}

fn check(prop: &str, tier: &str, out: &str, slots: Option<&str>, known: Option<&str>) -> i32 {
    let t0 = std::time::Instant::now();
    let fams = props::families(prop, tier);
    let slots = slots.map(|s| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(s).unwrap());
    // Known findings: lines "<build> <family> <index> <clause>".
    let known: Vec<(String, String, u64, String)> = known
        .and_then(|k| std::fs::read_to_string(k).ok())
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let p: Vec<&str> = l.split_whitespace().collect();
            if p.len() == 4 {
                Some((p[0].into(), p[1].into(), p[2].parse().ok()?, p[3].into()))
            } else {
                None
            }
        })
        .collect();
    let is_known = |f: &str, i: u64, c: &str, _m: &str| known.iter().any(|k| k.0 == flavour() && k.1 == f && k.2 == i && k.3 == c);
    let out_s = out.to_string();
    let prop_s = prop.to_string();
    let on_hang = move |f: &str, i: u64| {
        let s = format!("{{\"hang\":{{\"property\":{},\"family\":{},\"index\":{}}}}}", jstr(&prop_s), jstr(f), i);
        let _ = std::fs::write(&out_s, s);
        std::process::exit(3);
    };
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16);
    let limit = std::env::var("MC_CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 60 } else { 180 });
    let mut tot = Total::default();
    let mut found: Vec<Finding> = vec![];
    let mut known_hit: Vec<Finding> = vec![];
    let o = Opts { threads, slots, case_limit: limit, is_known: &is_known, on_hang: &on_hang };
    for (fi, f) in fams.iter().enumerate() {
        let (v, k) = run_family(fi, f, &o, &mut tot);
        known_hit.extend(k);
        if !v.is_empty() {
            found.extend(v);
            break;
        }
    }
    // Determinism of the machinery: the last case of each family twice gives the same description.
    let mut s = String::from("{");
    s += &format!("\"build\":{},\"states\":{},\"transitions\":{},\"traces\":{},\"outcomes\":{},\"capped\":{},\"cases\":{},\"wall_s\":{:.3},", jstr(flavour()), tot.states.len(), tot.transitions, tot.traces, tot.outcomes.len(), tot.capped, tot.cases, t0.elapsed().as_secs_f64());
    s += &format!("\"counters\":{{{}}},", tot.counters.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect::<Vec<_>>().join(","));
    s += &format!("\"samples\":[{}],", tot.samples.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
    s += &format!(
        "\"families\":[{}],",
        tot.families.iter().map(|(n, w, c, t)| format!("{{\"name\":{},\"what\":{},\"cases\":{},\"wall_s\":{:.2}}}", jstr(n), jstr(w), c, t)).collect::<Vec<_>>().join(",")
    );
    let ff = |v: &Vec<Finding>| {
        v.iter()
            .map(|f| format!("{{\"family\":{},\"index\":{},\"clause\":{},\"msg\":{},\"desc\":{}}}", jstr(&f.family), f.index, jstr(&f.clause), jstr(&f.msg), jstr(&f.desc)))
            .collect::<Vec<_>>()
            .join(",")
    };
    s += &format!("\"violations\":[{}],\"known\":[{}]}}", ff(&found), ff(&known_hit));
    std::fs::write(out, s).unwrap();
    if found.is_empty() {
        0
    } else {
        1
    }
}
