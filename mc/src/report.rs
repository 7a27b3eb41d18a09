//! Verdicts, evidence, replays, known findings.
use serde_json::{Value as J, json};
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Inner {
    evaluations: u64,
    states: u64,
    transitions: u64,
    traces: u64,
    programs: u64,
    rejected_ok: u64,
    distinct: HashSet<u64>,
    outcomes: HashSet<u64>,
    samples: Vec<J>,
    sample_tags: HashSet<String>,
    violations: Vec<(String, String, String)>,
    known_hit: BTreeMap<String, String>,
    counters: BTreeMap<String, u64>,
    caps: Vec<String>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    known: Vec<(String, String)>,
    i: Mutex<Inner>,
}

pub fn hash64<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::{DefaultHasher, Hasher};
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn root() -> std::path::PathBuf {
    std::env::var("MC_ROOT").map(|s| s.into()).unwrap_or_else(|_| std::path::PathBuf::from("/verif"))
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64) -> Ctx {
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(root().join("known_findings.jsonl")) {
            for l in s.lines() {
                if let Ok(j) = serde_json::from_str::<J>(l) {
                    if j["property"].as_str() == Some(prop) && j["status"].as_str() == Some("known") {
                        known.push((
                            j["key"].as_str().unwrap_or("").to_string(),
                            j["what"].as_str().unwrap_or("").to_string(),
                        ));
                    }
                }
            }
        }
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            start: Instant::now(),
            known,
            i: Mutex::new(Inner {
                evaluations: 0,
                states: 0,
                transitions: 0,
                traces: 0,
                programs: 0,
                rejected_ok: 0,
                distinct: HashSet::new(),
                outcomes: HashSet::new(),
                samples: vec![],
                sample_tags: HashSet::new(),
                violations: vec![],
                known_hit: BTreeMap::new(),
                counters: BTreeMap::new(),
                caps: vec![],
            }),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn evals(&self, n: u64) {
        self.i.lock().unwrap().evaluations += n;
    }
    pub fn states(&self, n: u64, t: u64, traces: u64) {
        let mut g = self.i.lock().unwrap();
        g.states += n;
        g.transitions += t;
        g.traces += traces;
    }
    pub fn programs(&self, n: u64) {
        self.i.lock().unwrap().programs += n;
    }
    pub fn rejected(&self, n: u64) {
        self.i.lock().unwrap().rejected_ok += n;
    }
    pub fn distinct(&self, h: u64) {
        self.i.lock().unwrap().distinct.insert(h);
    }
    pub fn outcome(&self, h: u64) {
        let mut g = self.i.lock().unwrap();
        if g.outcomes.len() < 5_000_000 {
            g.outcomes.insert(h);
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.i.lock().unwrap().counters.entry(k.into()).or_default() += n;
    }
    /// record that some bound was hit (so the run is not exhaustive below it)
    pub fn cap(&self, s: String) {
        self.i.lock().unwrap().caps.push(s);
    }
    pub fn sample(&self, tag: &str, j: impl FnOnce() -> J) {
        let mut g = self.i.lock().unwrap();
        if g.samples.len() < 12 && g.sample_tags.insert(tag.to_string()) {
            g.samples.push(j());
        }
    }
    pub fn n_violations(&self) -> usize {
        self.i.lock().unwrap().violations.len()
    }

    /// `key` identifies the specific failing input / call site / history.
    pub fn violation(&self, key: &str, what: &str, replay: J) {
        let mut g = self.i.lock().unwrap();
        if let Some((_, w)) = self.known.iter().find(|(k, _)| k == key) {
            g.known_hit.insert(key.to_string(), w.clone());
            return;
        }
        if g.violations.len() >= 200 || g.violations.iter().any(|v| v.0 == key) {
            return;
        }
        let n = g.violations.len();
        let dir = root().join("out/replays");
        let _ = std::fs::create_dir_all(&dir);
        let p = dir.join(format!("{}-{}.json", self.prop, n));
        let _ = std::fs::write(
            &p,
            serde_json::to_string_pretty(
                &json!({"property": self.prop, "key": key, "what": what, "replay": replay}),
            )
            .unwrap(),
        );
        g.violations.push((key.into(), what.into(), p.to_string_lossy().to_string()));
    }

    pub fn finish(self, level: &str, rule: &str, assumptions: &[&str], exhaustive: bool) -> i32 {
        let g = self.i.into_inner().unwrap();
        let wall = self.start.elapsed().as_secs_f64();
        let mut samples = g.samples.clone();
        if samples.is_empty() {
            samples.push(json!("no sample recorded"));
        }
        let mut cov = json!({
            "distinct_outcomes": g.outcomes.len(),
            "programs_with_several_outcomes": g.distinct.len(),
            "rule": rule,
            "samples": samples,
            "exhaustive": exhaustive && g.caps.is_empty(),
            "counters": g.counters,
            "caps": g.caps,
            "programs_rejected_as_required": g.rejected_ok,
            "known_findings_seen": g.known_hit.keys().cloned().collect::<Vec<_>>(),
        });
        if level == "model_checking" {
            cov["states"] = json!(g.states);
            cov["transitions"] = json!(g.transitions);
            // programs whose model was walked in lockstep with what the real compiler emitted (or
            // whose verdict was compared with the model's)
            cov["traces_validated_against_impl"] = json!(g.programs);
        } else {
            cov["evaluations"] = json!(g.evaluations);
            cov["distinct_nontrivial"] = json!(g.distinct.len());
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": g.violations.len(),
        });
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            dir.join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("write evidence");
        for w in g.known_hit.values() {
            println!("KNOWN-FINDING: property={} {}", self.prop, w);
        }
        println!(
            "{}: programs={} evaluations={} states={} transitions={} distinct={} outcomes={} rejected={} violations={} wall={:.1}s {}",
            self.prop,
            g.programs,
            g.evaluations,
            g.states,
            g.transitions,
            g.distinct.len(),
            g.outcomes.len(),
            g.rejected_ok,
            g.violations.len(),
            wall,
            g.counters.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
        if g.programs + g.evaluations + g.states == 0 {
            eprintln!("nothing was explored");
            return 3;
        }
        for (k, w, p) in g.violations.iter().take(10) {
            println!("VIOLATION property={} replay={}", self.prop, p);
            let short = |s: &str| s.chars().take(600).collect::<String>();
            println!("  key: {}", short(k));
            println!("  what: {}", short(w));
        }
        if g.violations.is_empty() { 0 } else { 1 }
    }
}
