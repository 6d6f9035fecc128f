//! The explorer: exhausts a family of cases in parallel, keeps the coverage counts, separates
//! listed findings from new violations, confirms and records violations, writes the evidence.
use crate::run::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn h64(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// What one worker observed.
#[derive(Default)]
pub struct Obs {
    pub states: HashSet<u64>,
    pub transitions: u64,
    pub outcomes: HashSet<u64>,
    pub checked: u64,
    pub counters: BTreeMap<String, u64>,
    pub note: Option<String>,
}

impl Obs {
    /// a state of the reference model was reached
    pub fn state(&mut self, s: &impl Hash) {
        self.states.insert(h64(s));
    }
    pub fn trans(&mut self, n: u64) {
        self.transitions += n;
    }
    /// an observed behaviour of the implementation (for anti-vacuity)
    pub fn outcome(&mut self, s: &impl Hash) {
        self.outcomes.insert(h64(s));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_default() += n;
    }
}

pub struct Viol {
    pub family: String,
    pub index: usize,
    pub id: String,
    pub msg: String,
    pub case: Option<Case>,
}

pub struct Finding {
    pub id: String,
    pub text: String,
}

pub struct Check {
    pub prop: String,
    pub tier: Tier,
    pub cfg: Config,
    pub seed: u64,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    start: Instant,
    budget: Duration,
    total: Obs,
    evals: u64,
    runs: u64,
    families: Vec<(String, u64, u64, u64, bool)>,
    samples: Vec<String>,
    viols: Vec<Viol>,
    known: Vec<Finding>,
    known_hit: Vec<(String, String)>,
    capped: bool,
    /// replay mode: only this case id
    pub only: Option<String>,
    pub nworkers: usize,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

impl Check {
    pub fn new(prop: &str, tier: Tier, cfg: Config, seed: u64) -> Check {
        let known = fs::read_to_string(cfg.verif.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let r = l.strip_prefix(&format!("finding: property={} id=", prop))?;
                let (id, text) = r.split_once(" :: ")?;
                Some(Finding { id: id.into(), text: text.into() })
            })
            .collect();
        let nworkers = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)).clamp(1, 16);
        let budget = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 420 } else { 3000 });
        Check {
            prop: prop.into(), tier, cfg, seed, level: "model_checking", rule: String::new(), assumptions: vec![], start: Instant::now(), budget: Duration::from_secs(budget), total: Obs::default(), evals: 0, runs: 0,
            families: vec![], samples: vec![], viols: vec![], known, known_hit: vec![], capped: false, only: None, nworkers,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// quick value or thorough value
    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    /// Evaluates every item of a family. `id` must name the item uniquely and stably.
    pub fn explore<T: Send + Sync>(&mut self, family: &str, items: impl Iterator<Item = T> + Send, id: impl Fn(&T) -> String + Sync, eval: impl Fn(&mut Worker, &T, &mut Obs) -> Result<(), String> + Sync) {
        let src = Mutex::new((items, 0usize));
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let bad = AtomicUsize::new(0);
        let res: Mutex<Vec<(Obs, u64, (u64, u64), Vec<Viol>, Vec<(usize, String)>, Vec<(String, String)>)>> = Mutex::new(vec![]);
        let crashed = AtomicBool::new(false);
        let fam_start = Instant::now();
        std::thread::scope(|sc| {
            for n in 0..self.nworkers {
                let (src, stop, capped, bad, res, id, eval, crashed) = (&src, &stop, &capped, &bad, &res, &id, &eval, &crashed);
                let (cfg, known, only, deadline) = (&self.cfg, &self.known, &self.only, self.start + self.budget);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut w = Worker::new(cfg, n);
                        let mut obs = Obs::default();
                        let (mut evals, mut viols, mut samples, mut hits) = (0u64, vec![], vec![], vec![]);
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if Instant::now() > deadline {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            let mut batch = vec![];
                            {
                                let mut g = match src.lock() {
                                    Ok(g) => g,
                                    Err(_) => break,
                                };
                                for _ in 0..4 {
                                    match g.0.next() {
                                        Some(t) => {
                                            let i = g.1;
                                            g.1 += 1;
                                            batch.push((i, t));
                                        }
                                        None => break,
                                    }
                                }
                            }
                            if batch.is_empty() {
                                break;
                            }
                            for (i, t) in batch {
                                let full = || format!("{}/{}", family, id(&t));
                                if let Some(o) = only {
                                    if *o != full() {
                                        continue;
                                    }
                                }
                                evals += 1;
                                let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval(&mut w, &t, &mut obs))) {
                                    Ok(r) => r,
                                    Err(_) => {
                                        eprintln!("machinery panic on {}", full());
                                        crashed.store(true, Ordering::Relaxed);
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                };
                                if samples.len() < 2 {
                                    samples.push((i, match obs.note.take() { Some(n) => format!("{}: {}", full(), n), None => full() }));
                                }
                                obs.note = None;
                                if let Err(m) = r {
                                    let f = full();
                                    if let Some(k) = known.iter().find(|k| k.id == f) {
                                        hits.push((f, k.text.clone()));
                                        continue;
                                    }
                                    let case = w.last.clone();
                                    // the same case must fail in the same way again
                                    w.forget_cache();
                                    let mut o2 = Obs::default();
                                    let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval(&mut w, &t, &mut o2)));
                                    match again {
                                        Ok(Err(_)) => {}
                                        _ => {
                                            eprintln!("machinery error: {} failed once ({}) but not when repeated", f, m);
                                            crashed.store(true, Ordering::Relaxed);
                                            stop.store(true, Ordering::Relaxed);
                                            break;
                                        }
                                    }
                                    viols.push(Viol { family: family.into(), index: i, id: f, msg: m, case });
                                    if bad.fetch_add(1, Ordering::Relaxed) + 1 >= std::env::var("MC_MAXVIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(12usize) {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                        let (runs, links) = (w.runs, w.links);
                        drop(w);
                        if let Ok(mut g) = res.lock() {
                            g.push((obs, evals, (runs, links), viols, samples, hits));
                        }
                    })
                    .unwrap();
            }
        });
        if crashed.load(Ordering::Relaxed) {
            eprintln!("check {} aborted: machinery failure, no verdict", self.prop);
            std::process::exit(3);
        }
        let (mut fe, mut fr, mut fl) = (0, 0, 0);
        let mut sm = vec![];
        for (o, e, r, v, s, h) in res.into_inner().unwrap() {
            self.total.states.extend(o.states);
            self.total.outcomes.extend(o.outcomes);
            self.total.transitions += o.transitions;
            for (k, n) in o.counters {
                *self.total.counters.entry(k).or_default() += n;
            }
            fe += e;
            fr += r.0;
            fl += r.1;
            self.viols.extend(v);
            self.known_hit.extend(h);
            sm.extend(s);
        }
        sm.sort();
        self.samples.extend(sm.into_iter().take(3).map(|s| s.1));
        self.evals += fe;
        self.runs += fr;
        let c = capped.load(Ordering::Relaxed);
        self.capped |= c || (stop.load(Ordering::Relaxed));
        self.families.push((family.into(), fe, fr, fl, !c));
        eprintln!("  [{}] {}: {} cases, {} dld runs, {} links, {:.1}s{}", self.prop, family, fe, fr, fl, fam_start.elapsed().as_secs_f64(), if c { " (CAPPED)" } else { "" });
    }

    pub fn finish(mut self) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        self.viols.sort_by(|a, b| (self.families.iter().position(|f| f.0 == a.family), a.index).cmp(&(self.families.iter().position(|f| f.0 == b.family), b.index)));
        let mut seen = HashSet::new();
        for (id, t) in &self.known_hit {
            if seen.insert(id.clone()) {
                println!("KNOWN-FINDING: property={} {} ({})", self.prop, id, t);
            }
        }
        let nviol = self.viols.len();
        if nviol > 0 {
            let base = self.cfg.verif.join("replays").join(&self.prop);
            let _ = fs::remove_dir_all(&base);
            for (n, v) in self.viols.iter().take(8).enumerate() {
                let d = base.join(format!("{:02}", n));
                let text = format!("property {} violated by case {}\n{}\nrepeat: ./run.sh replay {} '{}'", self.prop, v.id, v.msg, self.prop, v.id);
                if let Some(c) = &v.case {
                    write_replay(&self.cfg, &d, c, &text);
                } else {
                    let _ = fs::create_dir_all(&d);
                    let _ = fs::write(d.join("violation.txt"), &text);
                }
                println!("  {}: {}", v.id, v.msg);
            }
            println!("VIOLATION property={} replay={}", self.prop, base.join("00").display());
        }
        if self.only.is_some() {
            if self.evals == 0 {
                println!("no such case");
                return 2;
            }
            return if nviol > 0 { 1 } else { 0 };
        }
        let fams: Vec<String> = self.families.iter().map(|(n, e, r, l, c)| format!("{}: {{\"cases\": {}, \"runs\": {}, \"successful_links\": {}, \"complete\": {}}}", jstr(n), e, r, l, c)).collect();
        let counters: Vec<String> = self.total.counters.iter().map(|(k, n)| format!("{}: {}", jstr(k), n)).collect();
        let samples: Vec<String> = self.samples.iter().take(24).map(|s| jstr(s)).collect();
        let assumptions: Vec<String> = self.assumptions.iter().map(|s| jstr(s)).collect();
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n  \"families\": {{{}}},\n  \"counters\": {{{}}},\n  \"known_findings_seen\": {},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            jstr(&self.prop),
            jstr(if self.thorough() { "thorough" } else { "quick" }),
            self.seed,
            jstr(self.level),
            self.total.states.len(),
            self.total.transitions,
            self.runs,
            self.evals,
            self.total.outcomes.len(),
            jstr(&self.rule),
            !self.capped,
            fams.join(", "),
            counters.join(", "),
            seen.len(),
            samples.join(", "),
            assumptions.join(", "),
            wall,
            nviol
        );
        let p = self.cfg.verif.join("evidence").join(format!("{}.json", self.prop));
        let _ = fs::create_dir_all(p.parent().unwrap());
        fs::write(p, ev).expect("cannot write evidence");
        println!(
            "{} {}: {} cases, {} dld runs, {} model states, {} transitions, {} distinct outcomes, {:.1}s{}{}",
            self.prop,
            if nviol > 0 { "VIOLATED" } else { "held" },
            self.evals,
            self.runs,
            self.total.states.len(),
            self.total.transitions,
            self.total.outcomes.len(),
            wall,
            if self.capped { " (search capped)" } else { "" },
            if seen.is_empty() { String::new() } else { format!(", {} known findings", seen.len()) }
        );
        if nviol > 0 {
            1
        } else {
            0
        }
    }
}
