//! Harness core: deterministic case runner, observation counters, violations, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Args {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub only_case: Option<(String, u64)>,
    pub verif: std::path::PathBuf,
}

/// A violation: `sig` identifies the failing behaviour (used for known findings).
#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
}

pub type Res = Result<(), Violation>;

pub fn viol<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        sig: sig.into(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $sig:expr, $($fmt:tt)*) => {
        if !$cond {
            return Err($crate::core::Violation { sig: $sig.to_string(), detail: format!($($fmt)*) });
        }
    };
}

/// Per-case observations, merged into the run's evidence.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub fingerprint: Option<u64>,
    pub samples: Vec<String>,
    pub trace: Vec<String>,
    pub findings: Vec<Violation>,
}

const TRACE_MAX: usize = 4000;

impl Obs {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_default() += n;
    }
    pub fn inc(&mut self, k: &'static str) {
        self.add(k, 1)
    }
    /// Record a distinct non-trivial state/interleaving fingerprint.
    pub fn distinct<T: std::hash::Hash>(&mut self, t: T) {
        use std::hash::Hasher;
        // Fixed-key hasher so that fingerprints are stable between runs.
        let mut h = std::collections::hash_map::DefaultHasher::new();
        t.hash(&mut h);
        let x = h.finish();
        self.fingerprint = Some(mix(self.fingerprint.unwrap_or(0), x));
        self.distinct.insert(x);
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 3 {
            self.samples.push(s.into());
        }
    }
    pub fn trace(&mut self, s: impl Into<String>) {
        if self.trace.len() >= TRACE_MAX {
            self.trace.drain(..TRACE_MAX / 2);
        }
        self.trace.push(s.into());
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::env::var("VH_PANIC").is_ok() {
            eprintln!("panic: {msg} at {loc}");
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
    }));
}

/// Run code under test; a panic becomes a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => {
            let m = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "unknown panic".into());
            // Panics raised by the harness itself are harness faults, not findings.
            viol(format!("panic:{}", strip_line(&m)), format!("{what}: panicked: {m}"))
        }
    }
}

fn strip_line(m: &str) -> String {
    // Signature: file of the panic and message without numbers.
    let (msg, loc) = m.rsplit_once(" @ ").unwrap_or((m, ""));
    let file = loc.split(':').next().unwrap_or("");
    let msg: String = msg
        .lines()
        .next()
        .unwrap_or("")
        .chars()
        .filter(|c| !c.is_ascii_digit())
        .take(80)
        .collect();
    format!("{file}:{msg}")
}

/// A group of cases belonging to one property.
pub struct Group {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Worker threads (0: all cores).
    pub threads: usize,
    pub run: fn(&mut fastrand::Rng, &mut Obs, Tier) -> Res,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    pub groups: Vec<Group>,
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn case_seed(seed: u64, group: &str, case: u64) -> u64 {
    let mut h = mix(seed, 0x5eed);
    for b in group.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, case)
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Merged {
    obs: Obs,
    cases: u64,
    fingerprints: HashSet<u64>,
    viol: Option<(String, u64, Violation, Vec<String>)>,
    all: BTreeMap<String, (u64, u64, String)>,
}

fn load_known(verif: &std::path::Path, prop: &str) -> Vec<String> {
    // known_findings.txt: lines "finding: property=<id> sig=<signature> -- description"
    let s = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("finding: property="))
        .filter_map(|l| {
            let (id, rest) = l.split_once(" sig=")?;
            if id != prop {
                return None;
            }
            Some(rest.split(" -- ").next().unwrap_or(rest).to_string())
        })
        .collect()
}

pub fn run(args: &Args, prop: &Property) -> i32 {
    let t0 = Instant::now();
    let known = load_known(&args.verif, prop.id);
    let limit = match args.tier {
        Tier::Quick => Duration::from_secs(240),
        Tier::Thorough => Duration::from_secs(
            std::env::var("VH_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(7200),
        ),
    };
    let merged = Mutex::new(Merged {
        obs: Obs::default(),
        cases: 0,
        fingerprints: HashSet::new(),
        viol: None,
        all: BTreeMap::new(),
    });
    // Development aid: tally all violations instead of stopping at the first.
    let keep = std::env::var("VH_KEEP").is_ok();
    let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
    let mut per_group = Vec::new();
    let mut truncated = false;
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);

    for g in &prop.groups {
        let n = match args.tier {
            Tier::Quick => g.quick,
            Tier::Thorough => g.thorough,
        };
        let n = ((n as f64 * scale).ceil() as u64).max(1);
        let (from, to) = match &args.only_case {
            Some((name, c)) if name == g.name => (*c, *c + 1),
            Some(_) => continue,
            None => (0, n),
        };
        let next = AtomicUsize::new(from as usize);
        let stop = AtomicBool::new(false);
        let threads = if g.threads == 0 {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
        } else {
            g.threads
        };
        let done = AtomicUsize::new(0);
        let finished = AtomicBool::new(false);
        // What each worker is doing, for the hang monitor.
        let busy: Mutex<BTreeMap<u64, Instant>> = Mutex::new(BTreeMap::new());
        let workers = AtomicUsize::new(threads);
        std::thread::scope(|s| {
            let (busy, finished, merged, workers) = (&busy, &finished, &merged, &workers);
            s.spawn(move || {
                // A case normally takes well under a second of processor time.
                let max = Duration::from_secs(if args.tier == Tier::Quick { 150 } else { 600 });
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(5));
                    let b = busy.lock().unwrap();
                    if let Some((c, _)) = b.iter().find(|(_, t)| t.elapsed() > max) {
                        let v = Violation {
                            sig: "hang".into(),
                            detail: format!("no progress for {} s: the code under test loops", max.as_secs()),
                        };
                        let c = *c;
                        let mut m = merged.lock().unwrap();
                        m.viol = Some((g.name.to_string(), c, v.clone(), vec![]));
                        let evd = args.verif.join("evidence").join("replay");
                        std::fs::create_dir_all(&evd).ok();
                        let p = evd.join(format!("{}.txt", prop.id));
                        std::fs::write(&p, format!("property {}\ngroup {}\ncase {c}\nseed {}\nsignature hang\ndetail {}\n", prop.id, g.name, args.seed, v.detail)).ok();
                        println!("  group {} case {c}: [hang] {}", g.name, v.detail);
                        println!("VIOLATION property={} replay={}", prop.id, p.display());
                        std::process::exit(1);
                    }
                }
            });
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || { loop {
                        if stop.load(Ordering::Relaxed) || t0.elapsed() > limit {
                            break;
                        }
                        let c = next.fetch_add(1, Ordering::Relaxed) as u64;
                        if c >= to {
                            break;
                        }
                        let mut rng = fastrand::Rng::with_seed(case_seed(args.seed, g.name, c));
                        let mut obs = Obs::default();
                        let tier = args.tier;
                        busy.lock().unwrap().insert(c, Instant::now());
                        let r = match guard(g.name, || (g.run)(&mut rng, &mut obs, tier)) {
                            Ok(r) => r,
                            Err(v) => Err(v),
                        };
                        done.fetch_add(1, Ordering::Relaxed);
                        busy.lock().unwrap().remove(&c);
                        let mut m = merged.lock().unwrap();
                        m.cases += 1;
                        for (k, v) in &obs.counts {
                            *m.obs.counts.entry(k).or_default() += v;
                        }
                        m.fingerprints.extend(obs.fingerprint);
                        if m.obs.distinct.len() < 5_000_000 {
                            m.obs.distinct.extend(obs.distinct.iter());
                        }
                        if m.obs.samples.len() < 8 {
                            m.obs.samples.extend(obs.samples.drain(..));
                        }
                        if let Err(v) = r {
                            if keep {
                                let e = m.all.entry(v.sig.clone()).or_insert((0, c, v.detail.clone()));
                                e.0 += 1;
                            } else if known.contains(&v.sig) {
                                m.obs.findings.push(v);
                            } else {
                                let earlier = m.viol.as_ref().map_or(true, |(_, vc, _, _)| c < *vc);
                                if earlier {
                                    m.viol = Some((
                                        g.name.to_string(),
                                        c,
                                        v,
                                        std::mem::take(&mut obs.trace),
                                    ));
                                }
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    if workers.fetch_sub(1, Ordering::SeqCst) == 1 {
                        finished.store(true, Ordering::SeqCst);
                    } })
                    .expect("spawn worker");
            }
        });
        let d = done.load(Ordering::Relaxed) as u64;
        if d < to - from && !stop.load(Ordering::Relaxed) {
            truncated = true;
        }
        per_group.push(format!("{}: {}/{} cases", g.name, d, to - from));
        if merged.lock().unwrap().viol.is_some() {
            break;
        }
    }
    let m = merged.into_inner().unwrap();
    for f in &m.obs.findings {
        known_hit.entry(f.sig.clone()).or_insert_with(|| f.detail.clone());
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev_dir = args.verif.join("evidence");
    std::fs::create_dir_all(&ev_dir).ok();
    let tier = if args.tier == Tier::Quick { "quick" } else { "thorough" };
    let mut replay = String::new();
    if let Some((g, c, v, trace)) = &m.viol {
        std::fs::create_dir_all(ev_dir.join("replay")).ok();
        let p = ev_dir.join("replay").join(format!("{}.txt", prop.id));
        let mut s = format!(
            "property {}\ngroup {}\ncase {}\nseed {}\ntier {}\nsignature {}\ndetail {}\nreplay command: bash /verif/run.sh {} {} {}:{} (VERIF_SEED={})\n--- trace\n",
            prop.id, g, c, args.seed, tier, v.sig, v.detail, prop.id, tier, g, c, args.seed
        );
        for l in trace {
            s.push_str(l);
            s.push('\n');
        }
        std::fs::write(&p, s).ok();
        replay = p.display().to_string();
    }
    let mut samples: Vec<String> = m.obs.samples.iter().map(|s| json_str(s)).collect();
    for (k, v) in &m.obs.counts {
        samples.push(json_str(&format!("observed {k} = {v}")));
    }
    samples.push(json_str(&format!("observed distinct states (fingerprints of monitored state) = {}", m.obs.distinct.len())));
    for g in &per_group {
        samples.push(json_str(g));
    }
    let mut assumptions: Vec<String> = prop.assumptions.iter().map(|s| json_str(s)).collect();
    if truncated {
        assumptions.push(json_str("the wall-clock limit cut the run short; the number of cases run is given in samples"));
    }
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [\n   {}\n  ]\n }},\n \"wall_s\": {:.3},\n \"violations\": {},\n \"assumptions\": [{}]\n}}\n",
        json_str(prop.id),
        json_str(tier),
        args.seed,
        json_str(prop.level),
        m.cases,
        m.fingerprints.len(),
        json_str(prop.rule),
        samples.join(",\n   "),
        wall,
        m.viol.is_some() as u8,
        assumptions.join(", ")
    );
    std::fs::write(ev_dir.join(format!("{}.json", prop.id)), ev).ok();
    println!(
        "{} {}: {} cases ({} distinct), {} distinct states, {:.1}s {:?}",
        prop.id,
        tier,
        m.cases,
        m.fingerprints.len(),
        m.obs.distinct.len(),
        wall,
        per_group
    );
    for (k, v) in &m.obs.counts {
        println!("  {k}: {v}");
    }
    for (sig, (n, c, d)) in &m.all {
        println!("  {n} x [{sig}] e.g. case {c}: {}", d.chars().take(400).collect::<String>());
    }
    for (sig, _) in &known_hit {
        println!("KNOWN-FINDING: property={} {}", prop.id, sig);
    }
    if let Some((g, c, v, _)) = &m.viol {
        println!("  group {g} case {c}: [{}] {}", v.sig, v.detail);
        println!("VIOLATION property={} replay={}", prop.id, replay);
        return 1;
    }
    0
}
