//! Counting, reporting, evidence, replay files, known findings.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn root() -> PathBuf {
    std::env::var("MC_ROOT").map(PathBuf::from).unwrap_or_else(|_| "/verif".into())
}

#[derive(Clone)]
pub struct Viol {
    /// stable identification of the failing input, used to match known findings
    pub key: String,
    pub msg: String,
    pub replay: Value,
}

pub struct Check {
    pub prop: &'static str,
    pub tier: Tier,
    pub t0: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub completed: AtomicU64,
    pub refused: AtomicU64,
    pub aborted: AtomicU64,
    /// transitions whose outcome and post-state the model predicted and that were compared
    pub conform: AtomicU64,
    pub traces: AtomicU64,
    pub queries: AtomicU64,
    pub foreign: AtomicU64,
    pub viols: Mutex<Vec<Viol>>,
    pub samples: Mutex<Vec<Value>>,
    pub bounds: Mutex<Vec<String>>,
    pub kinds: Mutex<BTreeMap<String, u64>>,
    pub errors: Mutex<Vec<String>>,
    pub capped: AtomicBool,
}

pub const MAX_VIOLS: usize = 5;

impl Check {
    pub fn new(prop: &'static str, tier: Tier) -> Check {
        Check {
            prop,
            tier,
            t0: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            completed: AtomicU64::new(0),
            refused: AtomicU64::new(0),
            aborted: AtomicU64::new(0),
            conform: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            queries: AtomicU64::new(0),
            foreign: AtomicU64::new(0),
            viols: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
            kinds: Mutex::new(BTreeMap::new()),
            errors: Mutex::new(vec![]),
            capped: AtomicBool::new(false),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// picks the bound of the tier
    pub fn b<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn add(&self, c: &AtomicU64, n: u64) {
        c.fetch_add(n, Relaxed);
    }
    pub fn kind(&self, k: &str, n: u64) {
        *self.kinds.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn merge_kinds(&self, m: &BTreeMap<String, u64>) {
        let mut g = self.kinds.lock().unwrap();
        for (k, v) in m {
            *g.entry(k.clone()).or_insert(0) += v;
        }
    }
    pub fn bound(&self, s: impl Into<String>) {
        let s = s.into();
        let mut b = self.bounds.lock().unwrap();
        if !b.contains(&s) {
            b.push(s);
        }
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn viol(&self, v: Viol) {
        let mut g = self.viols.lock().unwrap();
        if g.len() < 200 && !g.iter().any(|x| x.key == v.key) {
            g.push(v);
        }
    }
    /// a violation found by enumeration; `case` identifies it in a replay
    pub fn viol_case(&self, case: impl Into<String>, msg: impl Into<String>) {
        let key: String = case.into();
        let msg: String = msg.into();
        self.viol(Viol {
            replay: json!({"kind": "case", "case": key}),
            key,
            msg,
        });
    }
    pub fn n_viols(&self) -> usize {
        self.viols.lock().unwrap().len()
    }
    pub fn error(&self, e: impl Into<String>) {
        self.errors.lock().unwrap().push(e.into());
    }
    pub fn secs(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }

    pub fn finish(&self, assumptions: &[&str]) -> i32 {
        let known = load_known(self.prop);
        let viols = self.viols.lock().unwrap().clone();
        let mut new = vec![];
        let mut seen_known = vec![];
        for v in &viols {
            if let Some(k) = known.iter().find(|k| k.0 == v.key) {
                seen_known.push(k.clone());
            } else {
                new.push(v.clone());
            }
        }
        let dir = root().join("replays");
        let mut paths = vec![];
        for (i, v) in new.iter().take(MAX_VIOLS).enumerate() {
            let _ = std::fs::create_dir_all(&dir);
            let p = dir.join(format!("{}-{}.json", self.prop, i));
            let mut r = v.replay.clone();
            r["property"] = json!(self.prop);
            r["tier"] = json!(if self.thorough() { "thorough" } else { "quick" });
            r["what"] = json!(v.msg);
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap());
            paths.push((p, v.clone()));
        }
        let errors = self.errors.lock().unwrap().clone();
        let l = |a: &AtomicU64| a.load(Relaxed);
        let ev = json!({
            "property": self.prop,
            "tier": if self.thorough() {"thorough"} else {"quick"},
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
            "level": "model_checking",
            "coverage": {
                "states": l(&self.states),
                "transitions": l(&self.transitions),
                "traces_validated_against_impl": l(&self.traces),
                "transitions_compared_with_model": l(&self.conform),
                "completed": l(&self.completed),
                "refused": l(&self.refused),
                "aborted": l(&self.aborted),
                "queries_judged": l(&self.queries),
                "discrepancies_of_other_properties": l(&self.foreign),
                "exhaustive": !self.capped.load(Relaxed) && errors.is_empty(),
                "bounds": *self.bounds.lock().unwrap(),
                "outcomes": *self.kinds.lock().unwrap(),
                "samples": *self.samples.lock().unwrap(),
            },
            "assumptions": assumptions,
            "wall_s": self.secs(),
            "violations": new.len(),
            "known_findings_seen": seen_known.len(),
            "errors": errors,
        });
        let _ = std::fs::create_dir_all(root().join("evidence"));
        std::fs::write(
            root().join("evidence").join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("evidence");
        for k in &seen_known {
            println!("KNOWN-FINDING: property={} {}", self.prop, k.1);
        }
        for (p, v) in &paths {
            println!("VIOLATION property={} replay={}", self.prop, p.display());
            println!("  {}", v.msg);
        }
        if new.len() > paths.len() {
            println!("  ({} further violations)", new.len() - paths.len());
        }
        println!(
            "{}: {} states, {} transitions ({} completed, {} refused, {} aborted), {} compared with the model, {} queries, {:.1} s",
            self.prop,
            l(&self.states),
            l(&self.transitions),
            l(&self.completed),
            l(&self.refused),
            l(&self.aborted),
            l(&self.conform),
            l(&self.queries),
            self.secs()
        );
        for e in &errors {
            eprintln!("ERROR {}: {}", self.prop, e);
        }
        if !new.is_empty() {
            1
        } else if !errors.is_empty() {
            2
        } else {
            0
        }
    }
}

/// (key, description) of the recorded findings of a property
pub fn load_known(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known-findings.txt")) {
        for line in s.lines() {
            let Some(rest) = line.strip_prefix("finding: ") else { continue };
            let Some(rest) = rest.strip_prefix(&format!("property={} key=", prop)) else { continue };
            if let Some((k, d)) = rest.split_once(' ') {
                v.push((k.to_string(), d.to_string()));
            }
        }
    }
    v
}
