//! Worker: runs numbered histories of one property's workload under its monitors.
//!   monitor run --prop C01 --seed S --from A --to B --tier 0|1 --threads N --cap SECONDS --out FILE --state FILE
//!   monitor one --prop C01 --seed S --index I --tier 0|1 [--trace FILE]     replay of one history
//!   monitor capacity                                                        (C04) one very large tree
mod big;
mod capacity;
mod elem;
mod engine;
mod leak;
mod lean;
mod memory;
mod ops;
mod ord;
mod reads;
mod rng;
mod rope;
mod shared;
mod slices;
mod snap;
mod wide;

use elem::*;
use engine::*;
use rng::*;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[cfg(not(feature = "plain-alloc"))]
#[global_allocator]
static GLOBAL: leak::Counting = leak::Counting;

pub struct Outcome {
    pub findings: Vec<Finding>,
    pub st: Stats,
    pub log: Vec<String>,
}
type Triple = (Vec<Finding>, Stats, Vec<String>);

fn run_tree<B: TreeKind>(rng: Rng, cfg: Cfg) -> Triple {
    let mut e = Eng::<B>::new(rng, cfg);
    let r = guarded(|| e.history());
    if let Err(m) = r {
        e.find(&["HARNESS"], format!("the monitor itself failed: {m}"));
    }
    let Eng { findings, st, log, tree, shadow, .. } = e;
    if !findings.is_empty() {
        std::mem::forget((tree, shadow));
    }
    (findings, st, log.0)
}
fn run_rope(rng: Rng, bounds: bool, tier: usize) -> Triple {
    let mut e = rope::RopeEng::new(rng, bounds, tier);
    let r = guarded(|| e.history());
    if let Err(m) = r {
        e.findings.push(Finding { tags: vec!["HARNESS"], msg: format!("the monitor itself failed: {m}") });
    }
    (std::mem::take(&mut e.findings), std::mem::take(&mut e.st), std::mem::take(&mut e.log.0))
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Tree,
    Rope,
    RopeBounds,
    Ord,
    OrdBig,
    Slices,
    Lean,
    Wide,
    Memory,
    Big,
    Shared,
}
fn kind_of(prop: &str, rng: &mut Rng) -> Kind {
    use Kind::*;
    if prop <= "C19" && !matches!(prop, "C04" | "C06" | "C18") && rng.chance(1, 25) {
        return Wide;
    }
    if matches!(prop, "C01" | "C02" | "C05" | "C07" | "C08" | "C09" | "C12" | "C13" | "C14" | "C15" | "C19") && rng.chance(1, 150) {
        return Big;
    }
    match prop {
        "C20" => {
            if rng.chance(1, 60) {
                OrdBig
            } else {
                Ord
            }
        }
        "C21" => Rope,
        "C22" => RopeBounds,
        "C23" => Slices,
        "C02" | "C03" => {
            if rng.chance(1, 6) {
                RopeBounds
            } else {
                Tree
            }
        }
        "C04" => match rng.below(80) {
            0 | 40 => OrdBig,
            41 => Big,
            1..=10 => Ord,
            _ => Tree,
        },
        "C18" => {
            if rng.chance(1, 5) {
                Ord
            } else {
                Tree
            }
        }
        "C26" => Memory,
        "C24" => *rng.pick(&[Tree, Tree, Lean, Lean, Rope, Ord, Slices]),
        _ => Tree,
    }
}

pub fn run_history(prop: &'static str, seed: u64, tier: usize) -> Outcome {
    let mut rng = Rng::new(seed);
    let kind = if prop == "C27" { Kind::Shared } else if tier == 2 { Kind::Lean } else { kind_of(prop, &mut rng) };
    let (findings, st, log) = match kind {
        Kind::Rope => run_rope(rng, false, tier),
        Kind::RopeBounds => run_rope(rng, true, tier),
        Kind::Ord => ord::run(rng, tier, false),
        Kind::OrdBig => ord::run(rng, tier, true),
        Kind::Slices => slices::run(rng),
        Kind::Shared => shared::run_history(rng, tier),
        Kind::Big => big::run(rng, tier),
        Kind::Memory => memory::run(rng, tier),
        Kind::Wide => {
            let n = rng.range(20, 160);
            wide::run(rng, n, prop)
        }
        Kind::Lean => {
            let n = if tier == 2 { 60 } else { rng.range(20, 600) };
            lean::run(rng, n)
        }
        Kind::Tree => {
            let cfg = make_cfg(prop, &mut rng, tier);
            let k = match prop {
                "C09" | "C10" | "C08" => rng.weighted(&[5, 4, 1, 2, 2]),
                _ => rng.weighted(&[4, 4, 3, 1, 1]),
            };
            match k {
                0 => run_tree::<SumDiff>(rng, cfg),
                1 => run_tree::<SumRecalc>(rng, cfg),
                3 => run_tree::<LenDiff>(rng, cfg),
                4 => run_tree::<LenRecalc>(rng, cfg),
                _ => run_tree::<ExtRecalc>(rng, cfg),
            }
        }
    };
    Outcome { findings, st, log }
}

/// C24: everything a history allocated is gone when the history (tree, monitors, log) is dropped.
fn run_counted(prop: &'static str, seed: u64, tier: usize) -> Outcome {
    forget_panic();
    let a = leak::level();
    let mut o = run_history(prop, seed, tier);
    if !o.findings.is_empty() {
        return o;
    }
    let (hold, n_ops): (Vec<String>, u64) = (std::mem::take(&mut o.log), o.st.ops.values().sum());
    drop(hold);
    let small = Stats { histories: 1, states: o.st.states, max_leaves: o.st.max_leaves, ..Stats::default() };
    let (shapes, cases): (Vec<u64>, Vec<u64>) = (o.st.shapes.iter().copied().collect(), o.st.cases.iter().copied().collect());
    let held = ((shapes.capacity() + cases.capacity()) * 8) as i64;
    let heldn = (shapes.capacity() > 0) as i64 + (cases.capacity() > 0) as i64;
    let ops = std::mem::take(&mut o.st.ops);
    let ops_v: [(&'static str, u64); 24] = {
        let mut v = [("", 0u64); 24];
        for (i, (k, n)) in ops.iter().take(24).enumerate() {
            v[i] = (k, *n);
        }
        v
    };
    drop(ops);
    drop(o);
    forget_panic();
    let b = leak::level();
    let mut st = small;
    st.shapes.extend(shapes);
    st.cases.extend(cases);
    for (k, n) in ops_v {
        if n > 0 {
            st.ops.insert(k, n);
        }
    }
    st.read("allocations balanced at the end of a history");
    st.work_max("allocator calls in one history", b.2 - a.2);
    let mut findings = vec![];
    if b.0 - a.0 != held || b.1 - a.1 != heldn {
        findings.push(Finding {
            tags: vec!["C24"],
            msg: format!("after {n_ops} operations and dropping everything, {} bytes in {} blocks are still allocated", b.0 - a.0 - held, b.1 - a.1 - heldn),
        });
    }
    Outcome { findings, st, log: vec![] }
}

const PROPS: [&str; 27] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
    "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap<V: std::fmt::Display>(m: &mut dyn Iterator<Item = (String, V)>) -> String {
    let mut v: Vec<String> = m.map(|(k, v)| format!("{}: {v}", js(&k))).collect();
    v.sort();
    format!("{{{}}}", v.join(", "))
}
fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "))
}
fn clip(v: &[String], n: usize) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    let k = v.len();
    for (i, l) in v.iter().enumerate() {
        if k > 2 * n && i >= n && i < k - n {
            if i == n {
                o.push(format!("... {} more ...", k - 2 * n));
            }
            continue;
        }
        o.push(l.chars().take(300).collect());
    }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or(d.to_string())
    };
    let num = |k: &str, d: &str| -> u64 { get(k, d).parse().unwrap_or_else(|_| panic!("bad {k}")) };
    let mode = args.get(1).cloned().unwrap_or_default();
    if mode == "capacity" {
        install_hook();
        capacity::run(num("--leaves", "23000000") as usize);
        return;
    }
    let prop = get("--prop", "C01");
    let prop = *PROPS.iter().find(|p| **p == prop).expect("unknown property");
    let seed = num("--seed", "1");
    let tier = num("--tier", "0") as usize;
    install_hook();
    let counted = prop == "C24" && !cfg!(feature = "plain-alloc");
    let hist = move |i: u64| if counted { run_counted(prop, mix(seed, i), tier) } else { run_history(prop, mix(seed, i), tier) };
    if mode == "one" {
        let i = num("--index", "0");
        let tr = get("--trace", "");
        if !tr.is_empty() {
            set_trace(&tr);
        }
        let mut o = hist(i);
        if counted {
            if o.findings.is_empty() {
                o = hist(i); // warm
            }
            o.log = run_history(prop, mix(seed, i), tier).log;
        }
        for l in &o.log {
            println!("  {l}");
        }
        for f in &o.findings {
            println!("=> {} {}", f.tags.join(","), f.msg);
        }
        std::process::exit(if o.findings.iter().any(|f| f.tags.contains(&prop)) { 1 } else { 0 });
    }
    assert_eq!(mode, "run", "usage: monitor run|one|capacity ...");
    let from = num("--from", "0");
    let to = num("--to", "1000");
    let threads = num("--threads", "8") as usize;
    let cap: f64 = get("--cap", "600").parse().unwrap();
    let out = get("--out", "");
    let state = get("--state", "");
    let state = if state.is_empty() { None } else { Some(std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(&state).unwrap()) };
    let next = AtomicU64::new(from);
    let total = Mutex::new(Stats::default());
    let bad = Mutex::new(Vec::<(u64, Outcome)>::new());
    let samples = Mutex::new(Vec::<(u64, Vec<String>)>::new());
    let stop = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let t0 = Instant::now();
    let show = args.iter().any(|a| a == "--show");
    let worker = |w: usize| {
        // warm the thread's own buffers, so that allocation counts start level
        if counted && tier != 2 {
            for i in [u64::MAX - 1, u64::MAX - 2] {
                if let Some(f) = &state {
                    let _ = f.write_at(&i.to_le_bytes(), w as u64 * 8);
                }
                let _ = run_history(prop, mix(seed, i), tier);
            }
        }
        loop {
            let i = next.fetch_add(1, Ordering::Relaxed);
            if i >= to || t0.elapsed().as_secs_f64() > cap || stop.load(Ordering::Relaxed) > 3 {
                if let Some(f) = &state {
                    let _ = f.write_at(&u64::MAX.to_le_bytes(), w as u64 * 8);
                }
                break;
            }
            if let Some(f) = &state {
                let _ = f.write_at(&i.to_le_bytes(), w as u64 * 8);
            }
            let mut o = hist(i);
            if counted && o.findings.iter().any(|f| f.msg.contains("still allocated")) {
                // a buffer of the harness may have grown: only what repeats is a leak
                o = hist(i);
            }
            done.fetch_add(1, Ordering::Relaxed);
            total.lock().unwrap().merge(&o.st);
            if i < from + 2 {
                samples.lock().unwrap().push((i, clip(&o.log, 12)));
            }
            if !o.findings.is_empty() {
                if o.findings.iter().any(|f| f.tags.contains(&prop)) {
                    stop.fetch_add(1, Ordering::Relaxed);
                }
                bad.lock().unwrap().push((i, o));
            }
        }
    };
    if threads == 1 && cfg!(miri) {
        worker(0);
    } else {
        std::thread::scope(|s| {
            for w in 0..threads {
                let worker = &worker;
                s.spawn(move || worker(w));
            }
        });
    }
    let st = total.into_inner().unwrap();
    let mut b = bad.into_inner().unwrap();
    b.sort_by_key(|x| x.0);
    let own = b.iter().find(|(_, o)| o.findings.iter().any(|f| f.tags.contains(&prop)));
    let mut foreign = std::collections::BTreeMap::<String, u64>::new();
    let mut keys = std::collections::BTreeMap::<String, (u64, u64)>::new();
    for (i, o) in &b {
        for f in &o.findings {
            let k = format!("{} {}", f.tags.join(","), f.msg.chars().filter(|c| !c.is_ascii_digit()).take(64).collect::<String>());
            keys.entry(k.clone()).or_insert((0, *i)).0 += 1;
            if !f.tags.contains(&prop) {
                *foreign.entry(k).or_default() += 1;
            }
        }
    }
    let mut sm = samples.into_inner().unwrap();
    sm.sort();
    let mut j = String::from("{\n");
    j += &format!("\"requested\": {}, \"completed\": {}, \"wall_s\": {:.2},\n", to - from, done.load(Ordering::Relaxed), t0.elapsed().as_secs_f64());
    j += &format!("\"states\": {}, \"shapes\": {}, \"cases\": {}, \"handles\": {}, \"max_size\": {}, \"max_depth\": {}, \"callbacks\": {},\n", st.states, st.shapes.len(), st.cases.len(), st.handles_checked, st.max_leaves, st.max_depth, st.contract_calls);
    j += &format!("\"ops\": {},\n", jmap(&mut st.ops.iter().map(|(k, v)| (k.to_string(), *v))));
    j += &format!("\"reads\": {},\n", jmap(&mut st.reads.iter().map(|(k, v)| (k.to_string(), *v))));
    j += &format!("\"work\": {},\n", jmap(&mut st.max_work.iter().map(|(k, v)| (k.to_string(), *v))));
    j += &format!("\"foreign\": {},\n", jmap(&mut foreign.iter().map(|(k, v)| (k.to_string(), *v))));
    j += &format!("\"samples\": [{}]", sm.iter().map(|(i, l)| format!("{{\"history\": {i}, \"log\": {}}}", jlist(l))).collect::<Vec<_>>().join(",\n"));
    if let Some((i, o)) = own {
        let f: Vec<String> = o.findings.iter().filter(|f| f.tags.contains(&prop)).map(|f| f.msg.clone()).collect();
        j += &format!(",\n\"violation\": {{\"index\": {i}, \"messages\": {}, \"log\": {}}}", jlist(&f), jlist(&clip(&o.log, 400)));
    }
    j += "\n}\n";
    if !out.is_empty() {
        std::fs::write(&out, &j).unwrap();
        let mut raw = Vec::with_capacity(st.cases.len() * 8);
        for c in &st.cases {
            raw.extend(c.to_le_bytes());
        }
        std::fs::write(format!("{out}.cases"), &raw).unwrap();
    }
    if out.is_empty() || show {
        println!("histories {} of {} states {} shapes {} cases {} handles {} max_size {} depth {} work {:?} time {:.1}", done.load(Ordering::Relaxed), to - from, st.states, st.shapes.len(), st.cases.len(), st.handles_checked, st.max_leaves, st.max_depth, st.max_work, t0.elapsed().as_secs_f64());
        if show {
            println!("ops {:?}\nreads {:?}", st.ops, st.reads);
        }
        for (k, v) in &keys {
            println!("FINDING x{} first={} {k}", v.0, v.1);
        }
    }
}
