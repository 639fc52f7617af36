//! Verdicts, evidence and known findings
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    /// stable, specific signature: oracle + failing input class
    pub sig: String,
    pub detail: String,
}

/// What one worker observed
#[derive(Default, Clone)]
pub struct Obs {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl Obs {
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn case<T: Hash>(&mut self, t: &T) {
        self.evals += 1;
        self.distinct.insert(h64(t));
    }
    pub fn nontrivial<T: Hash>(&mut self, t: &T) {
        self.distinct.insert(h64(t));
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
    pub fn inc(&mut self, k: &str) {
        self.count(k, 1)
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counters.entry(format!("max_{}", k)).or_default();
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            self.samples.push(s());
        }
    }
    pub fn violation(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let sig = sig.into();
        if self.violations.iter().filter(|v| v.sig == sig).count() < 2 {
            self.violations.push(Violation { sig, detail: detail.into() });
        }
        self.inc("violating_observations");
    }
    pub fn ensure(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violation(sig, detail());
        }
        ok
    }
    pub fn merge(&mut self, o: Obs) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            if k.starts_with("max_") {
                let e = self.counters.entry(k).or_default();
                *e = (*e).max(v);
            } else {
                *self.counters.entry(k).or_default() += v;
            }
        }
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s);
            }
        }
        self.violations.extend(o.violations);
    }
}

pub struct Run {
    pub property: String,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
}

impl Run {
    pub fn from_env(property: &str) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        Run { property: property.into(), seed, thorough, start: Instant::now() }
    }
    /// time budget of the workload
    pub fn budget(&self, quick: u64, thorough: u64) -> Duration {
        if let Some(s) = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()) {
            return Duration::from_secs(s);
        }
        Duration::from_secs(if self.thorough { thorough } else { quick })
    }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn left(&self, budget: Duration) -> bool {
        self.start.elapsed() < budget
    }

    /// Runs `n` independent jobs on all cores; a job's panic is a harness error (inconclusive)
    pub fn parallel<F: Fn(u64, &mut Obs) + Sync>(&self, n: u64, f: F) -> (Obs, Vec<String>) {
        let next = std::sync::atomic::AtomicU64::new(0);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
        let mut total = Obs::default();
        let mut errors = vec![];
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, || {
                        let mut out: Vec<(u64, Obs, Option<String>)> = vec![];
                        loop {
                            let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            if i >= n {
                                break;
                            }
                            let mut o = Obs::default();
                            let e = crate::catch(|| f(i, &mut o)).err();
                            out.push((i, o, e));
                        }
                        out
                    }).unwrap()
                })
                .collect();
            let mut all: Vec<(u64, Obs, Option<String>)> = vec![];
            for h in hs {
                all.extend(h.join().unwrap());
            }
            all.sort_by_key(|x| x.0);
            for (i, o, e) in all {
                total.merge(o);
                if let Some(e) = e {
                    errors.push(format!("job {}: {}", i, e));
                }
            }
        });
        (total, errors)
    }

    /// Prints the verdict, writes the evidence and returns the exit code
    pub fn finish(&self, verif: &str, obs: Obs, errors: Vec<String>, rule: &str, assumptions: &[&str], floors: &[(&str, u64)]) -> i32 {
        let known: Vec<(String, String)> = std::fs::read_to_string(format!("{}/known_findings.json", verif))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .map(|v| {
                v["findings"].as_array().cloned().unwrap_or_default().iter()
                    .filter(|f| f["property"] == self.property.as_str() && f["status"] == "known")
                    .map(|f| (f["signature"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()))
                    .collect()
            })
            .unwrap_or_default();
        let mut new: Vec<&Violation> = vec![];
        let mut seen_known: HashSet<String> = HashSet::new();
        for v in &obs.violations {
            if known.iter().any(|k| k.0 == v.sig) {
                seen_known.insert(v.sig.clone());
            } else {
                new.push(v);
            }
        }
        for (s, what) in &known {
            println!("KNOWN-FINDING: property={} {} [{}]{}", self.property, what, s, if seen_known.contains(s) { "" } else { " (not reached in this run)" });
        }
        let mut printed: HashSet<String> = HashSet::new();
        let dir = format!("{}/replays", verif);
        let _ = std::fs::create_dir_all(&dir);
        for v in &new {
            if printed.len() >= 8 || !printed.insert(v.sig.clone()) {
                continue;
            }
            let path = format!("{}/{}-{:016x}.txt", dir, self.property, h64(&v.sig));
            let _ = std::fs::write(&path, format!(
                "property: {}\nseed: {}\ntier: {}\nsignature: {}\nreplay: VERIF_SEED={} VERIF_TIER={} /verif/check.sh {}\n\n{}\n",
                self.property, self.seed, if self.thorough { "thorough" } else { "quick" }, v.sig, self.seed,
                if self.thorough { "thorough" } else { "quick" }, self.property, v.detail));
            println!("VIOLATION property={} replay={} :: {}", self.property, path, v.sig);
        }
        let mut missing = vec![];
        for (k, n) in floors {
            let got = match *k {
                "evaluations" => obs.evals,
                "distinct" => obs.distinct.len() as u64,
                k => obs.counters.get(k).copied().unwrap_or(0),
            };
            if got < *n {
                missing.push(format!("{} = {} < {}", k, got, n));
            }
        }
        let ev = json!({
            "property": self.property,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": obs.evals,
                "distinct_nontrivial": obs.distinct.len(),
                "rule": rule,
                "samples": if obs.samples.is_empty() { vec!["(none)".to_string()] } else { obs.samples.clone() },
                "observed": obs.counters,
            },
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": new.len(),
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
        std::fs::write(format!("{}/evidence/{}.json", verif, self.property), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        if !new.is_empty() {
            return 1;
        }
        if !errors.is_empty() {
            for e in errors.iter().take(5) {
                println!("INCONCLUSIVE property={} harness error: {}", self.property, e);
            }
            return 3;
        }
        if !missing.is_empty() {
            println!("INCONCLUSIVE property={} observed too little: {}", self.property, missing.join("; "));
            return 2;
        }
        println!("HELD property={} evaluations={} distinct={} wall={:.1}s", self.property, obs.evals, obs.distinct.len(), self.start.elapsed().as_secs_f64());
        0
    }
}
