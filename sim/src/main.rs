//! Deterministic simulation of everything between a device's configuration space and the decoded
//! structures a user of `pcics` looks at.
#[macro_use]
mod obs;
mod alone;
mod bars;
mod classes;
mod engine;
mod errors;
mod evidence;
mod gen;
mod handles;
mod minimise;
mod plan;
mod poll;
mod profiles;
mod regs_ext1;
mod regs_ext2;
mod regs_hdr;
mod regs_std;
mod stats;
mod walk;
mod words;
mod procs;

use engine::Violation;
use plan::Plan;
use stats::Stats;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const VARIANT: &str = if cfg!(feature = "ea_real") { "ea_real" } else { "base" };

fn salt(prop: u8) -> u64 {
    0x5eed_0000 + prop as u64
}
fn make(seed: u64, prop: u8, i: u64) -> Plan {
    let mut r = gen::Rng::run(seed, salt(prop), i);
    gen::plan(&mut r, &profiles::profile(prop))
}

struct Batch {
    st: Stats,
    /// lowest violating run
    found: Option<(u64, Violation)>,
    broken: Option<(u64, String)>,
    hung: Option<u64>,
}

fn batch(seed: u64, prop: u8, from: u64, to: u64, workers: usize, limit: Option<Duration>) -> Batch {
    let t0 = Instant::now();
    let next = Arc::new(AtomicU64::new(from));
    let stop = Arc::new(AtomicU64::new(to));
    let found: Arc<Mutex<Option<(u64, Violation)>>> = Arc::new(Mutex::new(None));
    let broken: Arc<Mutex<Option<(u64, String)>>> = Arc::new(Mutex::new(None));
    let beats: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..workers).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect());
    let (tx, rx) = std::sync::mpsc::channel::<Stats>();
    for w in 0..workers {
        let (next, stop, found, broken, beats, tx) = (next.clone(), stop.clone(), found.clone(), broken.clone(), beats.clone(), tx.clone());
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let mut st = Stats::default();
                let trace = std::env::var_os(procs::TRACE).and_then(|f| std::fs::OpenOptions::new().write(true).open(f).ok());
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= stop.load(SeqCst) {
                        break;
                    }
                    beats[w].0.store(i, SeqCst);
                    if let Some(f) = &trace {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_all_at(format!("{:>15}\n", i).as_bytes(), w as u64 * 16);
                    }
                    beats[w].1.fetch_add(1, SeqCst);
                    let p = make(seed, prop, i);
                    let d = engine::execute(&p, prop, &mut st, i);
                    if let Some(b) = d.broken {
                        let mut g = broken.lock().unwrap();
                        if g.as_ref().map_or(true, |x| i < x.0) {
                            *g = Some((i, b));
                        }
                        stop.fetch_min(i, SeqCst);
                    } else if let Some(v) = d.viol {
                        let mut g = found.lock().unwrap();
                        if g.as_ref().map_or(true, |x| i < x.0) {
                            *g = Some((i, v));
                        }
                        stop.fetch_min(i, SeqCst);
                    }
                }
                beats[w].0.store(u64::MAX, SeqCst);
                let _ = tx.send(st);
            })
            .expect("thread");
    }
    drop(tx);
    let mut all = Stats::default();
    let mut hung = None;
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); workers];
    loop {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(s) => all.merge(s),
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
            Err(_) => {
                if limit.map_or(false, |l| t0.elapsed() > l) {
                    stop.store(0, SeqCst);
                }
                for w in 0..workers {
                    let (i, n) = (beats[w].0.load(SeqCst), beats[w].1.load(SeqCst));
                    if i == u64::MAX || n != seen[w].0 {
                        seen[w] = (n, Instant::now());
                    } else if seen[w].1.elapsed() > Duration::from_secs(30) {
                        hung = Some(hung.map_or(i, |h: u64| h.min(i)));
                    }
                }
                if hung.is_some() {
                    break;
                }
            }
        }
    }
    let f = found.lock().unwrap().take();
    let b = broken.lock().unwrap().take();
    Batch { st: all, found: f, broken: b, hung }
}

fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned())
}
fn prop_of(s: &str) -> Option<u8> {
    s.strip_prefix('P').and_then(|n| n.parse().ok()).filter(|p| profiles::title(*p).is_some())
}
fn usage() -> ! {
    eprintln!("pcisim check --prop Pnn [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--max-seconds N] --out DIR [--evidence FILE] [--also FILE]");
    eprintln!("pcisim replay FILE | selftest [--runs N] | show --prop Pnn --seed N --run I");
    std::process::exit(2)
}

fn replay_text(prop: u8, seed: u64, run: u64, v: &Violation, p: &Plan) -> String {
    format!(
        "# pcisim replay\n# property P{:02}\n# variant {}\n# seed {} run {}\n# class {}\n# {}\n{}",
        prop,
        VARIANT,
        seed,
        run,
        v.class,
        v.detail.replace('\n', " "),
        p.text()
    )
}

fn head<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    t.lines().find_map(|l| l.strip_prefix("# ").and_then(|l| l.strip_prefix(k)).map(|l| l.trim()))
}

/// A replay in a process of its own, so that a dead or endless one can be told.
fn replay(file: &str) -> i32 {
    let (what, class) = match procs::run(&["replay".into(), file.into()], None, Some(Duration::from_secs(60)), None) {
        procs::End::Code(c, _) => return c,
        procs::End::Killed(s) => (format!("killed by signal {}", s), "crash"),
        procs::End::Slow => ("does not finish".to_string(), "hang"),
        procs::End::None => return 2,
    };
    let t = std::fs::read_to_string(file).unwrap_or_default();
    println!("class: {}\n{}\n{}", class, what, if head(&t, "class") == Some(class) { "reproduced" } else { "violates in another way" });
    1
}

fn replay_here(file: &str) -> i32 {
    let Ok(t) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {}", file);
        return 2;
    };
    let (Some(p), Some(class)) = (head(&t, "property").and_then(prop_of), head(&t, "class")) else {
        eprintln!("not a replay file");
        return 2;
    };
    if head(&t, "variant") != Some(VARIANT) {
        eprintln!("this file is for the {:?} build", head(&t, "variant"));
        return 3;
    }
    if let Some(h) = head(&t, "history") {
        // what went wrong depends on the runs before it: all of them, in order
        let w: Vec<u64> = h.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let [seed, first, last] = w[..] else {
            eprintln!("not a replay file");
            return 2;
        };
        let mut st = Stats::default();
        for i in first..=last {
            if let Some(v) = engine::execute(&make(seed, p, i), p, &mut st, i).viol {
                println!("run {} after {} others\nclass: {}\n{}", i, i - first, v.class, v.detail);
                println!("{}", if v.class == class { "reproduced" } else { "violates in another way" });
                return 1;
            }
        }
        println!("no violation");
        return 0;
    }
    let body: String = t.lines().filter(|l| !l.starts_with('#')).map(|l| format!("{}\n", l)).collect();
    let plan = match Plan::parse(&body) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let mut st = Stats::default();
    let d = engine::execute(&plan, p, &mut st, 0);
    match (d.viol, d.broken) {
        (Some(v), _) => {
            println!("class: {}\n{}", v.class, v.detail);
            if v.class == class {
                println!("reproduced");
            } else {
                println!("violates, but the file says {}", class);
            }
            1
        }
        (None, Some(b)) => {
            eprintln!("harness error: {}", b);
            2
        }
        _ => {
            println!("no violation");
            0
        }
    }
}

/// A replay file, executed by a process of its own.
fn again(f: &str) -> Option<i32> {
    std::env::current_exe().ok().and_then(|e| std::process::Command::new(e).args(["replay", f]).output().ok()).and_then(|o| o.status.code())
}

fn history_text(prop: u8, seed: u64, first: u64, last: u64, v: &Violation) -> String {
    format!(
        "# pcisim replay\n# property P{:02}\n# variant {}\n# history {} {} {}\n# class {}\n# the last of these runs is fine alone, after the others it is not: {}\n",
        prop, VARIANT, seed, first, last, v.class, v.detail.replace('\n', " ")
    )
}

/// The library keeps something between runs: find a history that shows it again, one run after the other in a new process.
fn stateful(f: &str, prop: u8, seed: u64, runs: u64, run: u64, v: &Violation) {
    let exe = std::env::current_exe().map(|e| e.display().to_string()).unwrap_or_default();
    let o = std::process::Command::new(exe)
        .args(["sequence", "--prop", &format!("P{:02}", prop), "--seed", &seed.to_string(), "--runs", &runs.to_string()])
        .output();
    let text = o.map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
    let mut l = text.lines();
    let found = l.next().and_then(|x| x.parse::<u64>().ok());
    let (Some(last), Some(class)) = (found, l.next()) else {
        // shows up only with several threads at work: the run itself is all there is to write down
        let _ = std::fs::write(f, replay_text(prop, seed, run, v, &make(seed, prop, run)));
        return;
    };
    let v = Violation { class: class.into(), detail: l.next().unwrap_or("").into() };
    // as few runs before it as will do
    let mut back = 0u64;
    loop {
        let first = last.saturating_sub(back);
        let _ = std::fs::write(f, history_text(prop, seed, first, last, &v));
        if first == 0 || again(f) == Some(1) {
            break;
        }
        back = back * 2 + 1;
    }
    if back > 0 {
        return;
    }
    // none at all: shrink it, each attempt in a process of its own
    let tmp = format!("{}.try", f);
    let (m, _) = minimise::minimise(&make(seed, prop, last), Duration::from_secs(40), |q| {
        std::fs::write(&tmp, replay_text(prop, seed, last, &v, q)).is_ok()
            && std::process::Command::new(std::env::current_exe().unwrap_or_default())
                .args(["replay", &tmp])
                .output()
                .is_ok_and(|o| String::from_utf8_lossy(&o.stdout).contains("\nreproduced"))
    });
    let _ = std::fs::remove_file(&tmp);
    let _ = std::fs::write(f, replay_text(prop, seed, last, &v, &m));
}

/// Runs one after the other until one of them violates the property.
fn sequence() -> i32 {
    let (Some(p), Some(seed), Some(runs)) = (arg("--prop").as_deref().and_then(prop_of), arg("--seed").and_then(|s| s.parse().ok()), arg("--runs").and_then(|s| s.parse().ok())) else {
        usage()
    };
    let t0 = Instant::now();
    let mut st = Stats::default();
    for i in 0..runs {
        if t0.elapsed() > Duration::from_secs(150) {
            break;
        }
        if let Some(v) = engine::execute(&make(seed, p, i), p, &mut st, i).viol {
            println!("{}\n{}\n{}", i, v.class, v.detail.replace('\n', " "));
            return 1;
        }
    }
    0
}

const STALLED: i32 = 75;

/// Runs that seem to kill the process or not to end: each by itself. The first that does is shrunk and reported.
fn apart(prop: u8, seed: u64, runs: &[u64], out: &str, patience: Duration) -> Option<String> {
    let f = format!("{}/P{:02}-{}-{}.replay", out, prop, VARIANT, seed);
    let _ = std::fs::create_dir_all(out);
    for &i in runs {
        let v = |class: &str| Violation { class: class.into(), detail: if class == "hang" { "the run does not finish" } else { "the run kills the process" }.into() };
        let p = make(seed, prop, i);
        std::fs::write(&f, replay_text(prop, seed, i, &v("crash"), &p)).ok()?;
        let class = match procs::class_of(&f, patience) {
            Some(c) if c == "crash" || c == "hang" => c,
            _ => continue,
        };
        let v = v(&class);
        let tmp = format!("{}.try", f);
        let (m, tries) = minimise::minimise(&p, Duration::from_secs(60), |q| {
            std::fs::write(&tmp, replay_text(prop, seed, i, &v, q)).is_ok() && procs::class_of(&tmp, Duration::from_secs(3)).as_deref() == Some(&class)
        });
        let _ = std::fs::remove_file(&tmp);
        let _ = std::fs::write(&f, replay_text(prop, seed, i, &v, &m));
        println!("P{:02} seed {} run {}: {}", prop, seed, i, v.detail);
        println!("  {} events down to {} in {} executions", p.evs.len(), m.evs.len(), tries);
        println!("VIOLATION property=P{:02} replay={}", prop, f);
        return Some(class);
    }
    let _ = std::fs::remove_file(&f);
    None
}

/// The search in a process of its own: should it die, the run that kills it is found and reported.
fn supervised(args: &[String]) -> i32 {
    for attempt in 0..2 {
        match procs::run(args, None, None, None) {
            procs::End::Code(STALLED, _) => continue,
            procs::End::Code(c, _) => return c,
            procs::End::Killed(s) if s == 9 || s == 15 || s == 2 => return 2,
            procs::End::Killed(s) => {
                eprintln!("the search was killed by signal {}; looking for the run that does that (attempt {})", s, attempt + 1);
                let (Some(prop), seed) = (arg("--prop").as_deref().and_then(prop_of), arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1)) else { return 2 };
                let out = arg("--out").unwrap_or_else(|| "/verif/evidence/replay".into());
                let _ = std::fs::create_dir_all(&out);
                let trace = format!("{}/P{:02}-{}-{}.trace", out, prop, VARIANT, seed);
                let _ = std::fs::write(&trace, "");
                procs::run(args, Some(&trace), None, Some(&format!("{}.out", trace)));
                let text = std::fs::read(&trace).unwrap_or_default();
                let mut runs: Vec<u64> = String::from_utf8_lossy(&text).split_whitespace().filter_map(|x| x.trim_matches('\0').parse().ok()).collect();
                runs.sort();
                let _ = std::fs::remove_file(&trace);
                let _ = std::fs::remove_file(format!("{}.out", trace));
                if apart(prop, seed, &runs, &out, Duration::from_secs(30)).is_some() {
                    if let Some(f) = arg("--evidence") {
                        let mut st = Stats::default();
                        st.runs = runs.first().copied().unwrap_or(0);
                        let _ = std::fs::write(&f, evidence::json(prop, arg("--tier").as_deref() == Some("thorough"), seed, &st, 0.0, 1, 1, None));
                    }
                    return 1;
                }
            }
            procs::End::None | procs::End::Slow => return 2,
        }
    }
    eprintln!("the search was stopped and no run of it explains why");
    2
}

fn check() -> i32 {
    let Some(prop) = arg("--prop").as_deref().and_then(prop_of) else { usage() };
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let runs = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or_else(|| profiles::runs(prop, thorough));
    let runs = runs / arg("--share").and_then(|s| s.parse().ok()).filter(|n| *n > 0).unwrap_or(1u64);
    let workers = arg("--workers").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get()));
    let out = arg("--out").unwrap_or_else(|| "/verif/evidence/replay".into());
    // safety net for slow machines: no new runs are started after that
    let limit = arg("--max-seconds").and_then(|s| s.parse().ok()).map(Duration::from_secs_f64);
    let t0 = Instant::now();
    let b = batch(seed, prop, 0, runs, workers, limit);
    let wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if let Some((i, e)) = &b.broken {
        eprintln!("harness error in run {}: {}", i, e);
        return 2;
    }
    if let (Some(i), None) = (b.hung, &b.found) {
        match apart(prop, seed, &[i], &out, Duration::from_secs(30)) {
            Some(_) => code = 1,
            None => {
                // a stalled machine looks the same
                eprintln!("run {} did not go on for 30 s, but does finish alone", i);
                return STALLED;
            }
        }
    } else if let Some((i, v)) = &b.found {
        let p = make(seed, prop, *i);
        let (m, tries) = minimise::minimise(&p, Duration::from_secs(20), |q| minimise::violates(q, prop, &v.class));
        let mut st = Stats::default();
        let v2 = engine::execute(&m, prop, &mut st, 0).viol.unwrap_or_else(|| v.clone());
        let f = format!("{}/P{:02}-{}-{}.replay", out, prop, VARIANT, seed);
        let _ = std::fs::create_dir_all(&out);
        if let Err(e) = std::fs::write(&f, replay_text(prop, seed, *i, &v2, &m)) {
            eprintln!("cannot write {}: {}", f, e);
            return 2;
        }
        // does it stand on its own, in a process of its own?
        if again(&f) == Some(0) {
            stateful(&f, prop, seed, runs, *i, v);
        }
        println!("P{:02} seed {} run {}: {}", prop, seed, i, v2.detail);
        println!("  {} events down to {} in {} executions", p.evs.len(), m.evs.len(), tries);
        println!("VIOLATION property=P{:02} replay={}", prop, f);
        code = 1;
    }
    println!(
        "P{:02} [{}] seed {}: {} runs, {} events, {} captures, {} entries, {} checks, {:.1} s simulated, {:.1} s, digest {:016x}",
        prop, VARIANT, seed, b.st.runs, b.st.events, b.st.captures, b.st.entries, b.st.evals, b.st.sim_us as f64 / 1e6, wall, b.st.digest
    );
    if let Some(f) = arg("--evidence") {
        let also = arg("--also").and_then(|f| std::fs::read_to_string(f).ok());
        let t = evidence::json(prop, thorough, seed, &b.st, wall, (code == 1) as u32, workers, also.as_deref());
        if let Some(d) = std::path::Path::new(&f).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        if let Err(e) = std::fs::write(&f, t) {
            eprintln!("cannot write {}: {}", f, e);
            return 2;
        }
    }
    code
}

/// Same seeds, executed over and over with different numbers of workers, have to leave the same log.
fn selftest() -> i32 {
    let n: u64 = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or(3000);
    let mut bad = 0;
    for prop in 1..=16u8 {
        for seed in [1u64, 7, 0xdead_beef] {
            let r: Vec<(u64, u64, Option<u64>)> = [1usize, 8, 3]
                .iter()
                .map(|w| {
                    let b = batch(seed, prop, 0, n, *w, None);
                    (b.st.digest, b.st.evals, b.found.map(|f| f.0))
                })
                .collect();
            // with a violation only the run it is found in is comparable
            let same = if r[0].2.is_some() { r.iter().all(|x| x.2 == r[0].2) } else { r.iter().all(|x| *x == r[0]) };
            if !same {
                println!("P{:02} seed {}: {:x?}", prop, seed, r);
                bad += 1;
            }
            // a plan written down and read again is the same plan
            for i in 0..50 {
                let p = make(seed, prop, i);
                if Plan::parse(&p.text()).as_ref() != Ok(&p) {
                    println!("P{:02} seed {} run {}: text form is not faithful", prop, seed, i);
                    bad += 1;
                }
            }
        }
    }
    println!("selftest: {} differences", bad);
    (bad > 0) as i32
}

fn main() {
    engine::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if procs::inner() => check(),
        Some("check") => supervised(&a[1..]),
        Some("replay") if procs::inner() => replay_here(a.get(2).unwrap_or_else(|| usage())),
        Some("replay") => replay(a.get(2).unwrap_or_else(|| usage())),
        Some("sequence") => sequence(),
        Some("decode") => engine::decode_stdin(),
        Some("selftest") => selftest(),
        Some("show") => {
            let (Some(p), Some(s), Some(i)) = (arg("--prop").as_deref().and_then(prop_of), arg("--seed").and_then(|s| s.parse().ok()), arg("--run").and_then(|s| s.parse().ok())) else { usage() };
            print!("{}", make(s, p, i).text());
            0
        }
        _ => usage(),
    };
    std::process::exit(code)
}
