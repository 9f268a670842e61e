mod flash; mod fmt; mod util; mod map_eng; mod queue_eng; mod extra; mod combos; mod buffered; mod codec; mod golden;
use map_eng::{MapCase, MMode};
use queue_eng::{QCase, QMode};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};
use util::*;

const ENGINES: &[&str] = &["map-plain", "map-crash", "map-soft", "map-multi", "map-twin", "map-corrupt", "map-image", "q-plain", "q-crash", "q-soft", "q-multi", "q-twin", "q-corrupt", "q-image", "ring", "buffered", "shared", "codec", "cfg", "fit", "golden"];

/// engines of a property with relative weights (cases per round)
fn plan(prop: &str) -> Vec<(&'static str, u64)> {
    match prop {
        "C01" => vec![("map-plain", 6), ("map-soft", 1), ("map-twin", 1)],
        "C02" => vec![("map-plain", 6), ("map-crash", 1)],
        "C03" => vec![("map-crash", 4), ("map-soft", 4), ("map-multi", 4)],
        "C04" => vec![("map-plain", 4), ("map-soft", 4), ("map-crash", 1)],
        "C05" => vec![("q-plain", 6), ("q-soft", 1)],
        "C06" => vec![("q-plain", 1)],
        "C07" => vec![("q-crash", 4), ("q-soft", 4), ("q-multi", 4)],
        "C08" => vec![("q-plain", 20), ("fit", 1)],
        "C09" => vec![("map-plain", 3), ("q-plain", 3), ("map-crash", 1), ("q-crash", 1), ("map-image", 3), ("q-image", 3), ("map-soft", 1), ("q-soft", 1)],
        "C10" => vec![("map-plain", 3), ("q-plain", 3), ("map-crash", 2), ("q-crash", 2), ("map-soft", 2), ("q-soft", 2), ("map-multi", 2), ("q-multi", 2)],
        "C11" => vec![("map-plain", 1), ("q-plain", 1)],
        "C12" => vec![("golden", 1), ("map-plain", 60), ("q-plain", 60)],
        "C13" => vec![("map-corrupt", 3), ("q-corrupt", 3), ("map-plain", 1)],
        "C14" => vec![("map-twin", 3), ("q-twin", 3), ("map-soft", 2), ("q-soft", 2)],
        "C15" => vec![("ring", 5), ("shared", 1)],
        "C16" => vec![("buffered", 3), ("shared", 3), ("ring", 1)],
        "C17" => vec![("codec", 1)],
        "C18" => vec![("cfg", 1), ("map-plain", 20), ("q-plain", 20)],
        "C19" => vec![("map-image", 4), ("q-image", 4), ("map-corrupt", 1), ("q-corrupt", 1), ("map-plain", 1), ("q-plain", 1)],
        _ => ENGINES.iter().map(|e| (*e, 1)).collect(),
    }
}
struct Reg { maps: Vec<combos::MapCombo>, queues: Vec<combos::QCombo> }

fn map_case(rng: &mut Rng, mode: MMode, engine: &str) -> MapCase {
    let crash = mode == MMode::Crash;
    let pages = match rng.below(10) { 0..=3 => 2, 4..=6 => 3, 7 => 4, 8 => 5, _ => 8 };
    MapCase { pages, base_pages: rng.below(3), nkeys: match rng.below(4) { 0 => 2, 1 => 3, 2 => 5, _ => 9 }, nops: match engine { "map-corrupt" => 4 + rng.below(40), "map-image" => 12, "map-twin" => 80, "map-multi" => 60, _ => if crash { 10 + rng.below(30) } else { 120 } },
        mode, removal: match rng.below(3) { 0 => 0, 1 => 10, _ => 25 }, big: rng.chance(30), crash_budget: match rng.below(4) { 0 => 1000, _ => 60 } }
}
fn q_case(rng: &mut Rng, mode: QMode, engine: &str) -> QCase {
    let pages = match rng.below(10) { 0 | 1 => 1, 2..=4 => 2, 5..=7 => 3, 8 => 4, _ => 8 };
    QCase { pages, base_pages: rng.below(3), nops: match engine { "q-corrupt" => 4 + rng.below(40), "q-image" => 12, "q-twin" => 80, "q-multi" => 60, _ => if mode == QMode::Crash { 10 + rng.below(30) } else { 120 } }, mode, big: rng.chance(30), overwrite: match rng.below(3) { 0 => 0, 1 => 50, _ => 100 }, pops: match rng.below(4) { 0 => 5, 1 => 20, 2 => 35, _ => 50 }, crash_budget: match rng.below(4) { 0 => 1000, _ => 60 } }
}
fn run_one(reg: &Reg, engine: &str, seed: u64, idx: u64, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    let ei = ENGINES.iter().position(|e| *e == engine).unwrap() as u64;
    let rng = &mut Rng::new(seed, ei, idx);
    let m = &reg.maps[idx as usize % reg.maps.len()];
    let q = &reg.queues[idx as usize % reg.queues.len()];
    match engine {
        "map-plain" => { let c = map_case(rng, MMode::Plain, engine); (m.run)(rng, &c, tr, st) }
        "map-crash" => { let c = map_case(rng, MMode::Crash, engine); (m.run)(rng, &c, tr, st) }
        "map-soft" => { let c = map_case(rng, MMode::Soft, engine); (m.run)(rng, &c, tr, st) }
        "map-multi" => { let c = map_case(rng, MMode::Multi, engine); (m.run)(rng, &c, tr, st) }
        "map-twin" => { let md = if idx % 4 == 0 { MMode::Plain } else { MMode::Soft }; let c = map_case(rng, md, engine); (m.twin)(rng, &c, tr, st) }
        "map-corrupt" => { let c = map_case(rng, MMode::Plain, engine); (m.corrupt)(rng, &c, tr, st) }
        "map-image" => { let c = map_case(rng, MMode::Plain, engine); (m.image)(rng, &c, tr, st) }
        "q-plain" => { let c = q_case(rng, QMode::Plain, engine); (q.run)(rng, &c, tr, st) }
        "q-crash" => { let c = q_case(rng, QMode::Crash, engine); (q.run)(rng, &c, tr, st) }
        "q-soft" => { let c = q_case(rng, QMode::Soft, engine); (q.run)(rng, &c, tr, st) }
        "q-multi" => { let c = q_case(rng, QMode::Multi, engine); (q.run)(rng, &c, tr, st) }
        "q-twin" => { let md = if idx % 4 == 0 { QMode::Plain } else { QMode::Soft }; let c = q_case(rng, md, engine); (q.twin)(rng, &c, tr, st) }
        "q-corrupt" => { let c = q_case(rng, QMode::Plain, engine); (q.corrupt)(rng, &c, tr, st) }
        "q-image" => { let c = q_case(rng, QMode::Plain, engine); (q.image)(rng, &c, tr, st) }
        "ring" => match idx % 9 { 0 => buffered::ring_case::<2>(rng, tr, st), 1 => buffered::ring_case::<3>(rng, tr, st), 2 => buffered::ring_case::<1>(rng, tr, st), 3 => buffered::ring_case::<16>(rng, tr, st), 4 => buffered::ring_case::<33>(rng, tr, st), 5 => buffered::ring_case::<64>(rng, tr, st), 6 => buffered::ring_case::<7>(rng, tr, st), 7 if idx % 90 == 7 => buffered::ring_case::<70000>(rng, tr, st), 7 => buffered::ring_case::<300>(rng, tr, st), _ => buffered::ring_case::<48>(rng, tr, st) },
        "buffered" => match idx % 3 { 0 => buffered::buffered_case::<64>(rng, tr, st), 1 => buffered::buffered_case::<40>(rng, tr, st), _ => buffered::buffered_case::<200>(rng, tr, st) },
        "shared" => match idx % 2 { 0 => buffered::shared_case::<32>(rng, tr, st), _ => buffered::shared_case::<60>(rng, tr, st) },
        "codec" => codec::codec_case(rng, tr, st),
        "cfg" => codec::cfg_case(rng, tr, st),
        "fit" => codec::fit_case(rng, tr, st),
        "golden" => codec::golden_case(tr, st),
        _ => panic!("unknown engine"),
    }
}
fn guarded_one(reg: &Reg, engine: &str, seed: u64, idx: u64, tr: &mut Trace, st: &mut Stats) -> Result<(), Fail> {
    match guarded(|| run_one(reg, engine, seed, idx, tr, st)) { Ok(r) => r, Err(p) => Err(Fail { props: vec!["C19"], msg: format!("panic outside a guarded call: {p}") }) }
}
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    std::panic::set_hook(Box::new(|i| util::PANIC_AT.with(|p| *p.borrow_mut() = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default())));
    let reg = Reg { maps: combos::maps(), queues: combos::queues() };
    util::PROP.set(get("--prop").unwrap_or("ALL".into())).unwrap();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    if let Some(c) = get("--case") {
        let p: Vec<&str> = c.split(':').collect();
        let (mut tr, mut st) = (Trace::new(), Stats::default());
        let r = guarded_one(&reg, p[0], p[1].parse().unwrap(), p[2].parse().unwrap(), &mut tr, &mut st);
        for l in &tr.lines { println!("{l}"); }
        match r { Ok(()) => println!("RESULT: contract held"), Err(f) => { println!("RESULT: BROKEN {:?}: {}", f.props, f.msg); std::process::exit(1); } }
        return;
    }
    let prop = get("--prop").unwrap_or("ALL".into());
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let max: u64 = get("--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let only = get("--engine");
    let mut sched: Vec<(&str, u64)> = plan(&prop);
    if let Some(o) = &only { sched = ENGINES.iter().filter(|e| *e == o).map(|e| (*e, 1)).collect(); }
    // engines whose result does not depend on the index run only a few times
    let threads = get("--threads").and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let ticket = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let distinct = Mutex::new(std::collections::HashSet::<u64>::new());
    let running: Vec<Mutex<Option<(String, u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let finished = AtomicU64::new(0);
    let total = Mutex::new(Stats::default());
    let per = Mutex::new(std::collections::BTreeMap::<String, u64>::new());
    let fails = Mutex::new(Vec::<(String, u64, Fail, Vec<String>)>::new());
    let other = Mutex::new(std::collections::BTreeMap::<String, u64>::new());
    let samples = Mutex::new(Vec::<String>::new());
    let round: u64 = sched.iter().map(|s| s.1).sum();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(secs);
    let (running_r, finished_r, prop_r) = (&running, &finished, &prop);
    std::thread::scope(|s| {
    // watchdog: an operation that never returns is a broken contract of every property that needs its result
    s.spawn(move || while finished_r.load(Ordering::Relaxed) < threads as u64 {
        std::thread::sleep(Duration::from_millis(100));
        for r in running_r { if let Some((e, i, t)) = &*r.lock().unwrap() { if t.elapsed() > Duration::from_secs(40) {
            println!("{{\"prop\":\"{prop_r}\",\"seed\":{seed},\"hang\":true,\"fails\":[{{\"case\":\"{e}:{seed}:{i}\",\"props\":\"C19/{prop_r}\",\"msg\":\"an operation does not return (40 s)\",\"trace\":\"\"}}]}}");
            std::process::exit(1);
        } } }
    });
    for w in 0..threads { let (running, finished) = (&running, &finished); let (stop, ticket, sched, total, per, fails, other, samples, distinct, reg, prop, get) = (&stop, &ticket, &sched, &total, &per, &fails, &other, &samples, &distinct, &reg, &prop, &get); s.spawn(move || { (|| loop {
        if stop.load(Ordering::Relaxed) || Instant::now() > deadline { return; }
        let t = ticket.fetch_add(1, Ordering::Relaxed);
        if t >= max { return; }
        let (mut k, rd) = (t % round, t / round);
        let mut eng = sched[0]; for e in sched { if k < e.1 { eng = *e; break; } k -= e.1; }
        let idx = rd * eng.1 + k;
        if eng.0 == "golden" && idx > 0 { continue; }
        let (mut tr, mut st) = (Trace::new(), Stats::default());
        *running[w].lock().unwrap() = Some((eng.0.to_string(), idx, Instant::now()));
        let r = guarded_one(reg, eng.0, seed, idx, &mut tr, &mut st);
        *running[w].lock().unwrap() = None;
        if st.checks > 0 && !tr.lines.is_empty() { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); eng.0.hash(&mut h); tr.lines.hash(&mut h); distinct.lock().unwrap().insert(h.finish()); }
        total.lock().unwrap().add(&st);
        *per.lock().unwrap().entry(eng.0.to_string()).or_default() += 1;
        if idx == 0 { samples.lock().unwrap().push(format!("{}:{seed}:{idx}: {}", eng.0, tr.lines.iter().take(8).cloned().collect::<Vec<_>>().join(" | "))); }
        if let Err(f) = r {
            if prop == "ALL" || f.props.iter().any(|p| *p == prop.as_str()) {
                let mut fl = fails.lock().unwrap();
                fl.push((eng.0.to_string(), idx, f, tr.lines));
                if fl.len() >= get("--fails").and_then(|s| s.parse().ok()).unwrap_or(1usize) { stop.store(true, Ordering::Relaxed); }
            } else { *other.lock().unwrap().entry(f.props.join("/")).or_default() += 1; }
        }
    })(); finished.fetch_add(1, Ordering::Relaxed); }); } });
    let st = total.into_inner().unwrap();
    let ncases: u64 = per.lock().unwrap().values().sum();
    let mut fails = fails.into_inner().unwrap();
    fails.sort_by_key(|f| f.3.len());
    println!("{{\"prop\":\"{prop}\",\"seed\":{seed},\"cases\":{},\"distinct\":{},\"ops\":{},\"checks\":{},\"crash_points\":{},\"faults\":{},\"wraps\":{},\"wall_s\":{:.2},\"per_engine\":{{{}}},\"other\":{{{}}},\"samples\":[{}],\"fails\":[{}]}}",
        ncases, distinct.into_inner().unwrap().len(), st.ops, st.checks, st.crash_points, st.faults, st.wraps, t0.elapsed().as_secs_f64(),
        per.into_inner().unwrap().iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","),
        other.into_inner().unwrap().iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","),
        samples.into_inner().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        fails.iter().map(|(e, i, f, t)| format!("{{\"case\":\"{e}:{seed}:{i}\",\"props\":\"{}\",\"msg\":\"{}\",\"trace\":\"{}\"}}", f.props.join("/"), esc(&f.msg), esc(&t.join("\n")))).collect::<Vec<_>>().join(","));
    if !fails.is_empty() { std::process::exit(1); }
}
