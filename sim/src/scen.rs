//! Scenarios (the replayable schedule + fault trace), violations, statistics.

use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub op: String,
    pub a: Vec<u64>,
}

impl Step {
    pub fn new(op: &str, a: &[u64]) -> Self {
        Step {
            op: op.to_string(),
            a: a.to_vec(),
        }
    }
    pub fn arg(&self, i: usize) -> u64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub entropy: u64,
    pub params: BTreeMap<String, i64>,
    pub steps: Vec<Step>,
}

impl Scenario {
    pub fn new(prop: &str, seed: u64, entropy: u64) -> Self {
        Scenario {
            prop: prop.into(),
            seed,
            entropy,
            params: BTreeMap::new(),
            steps: vec![],
        }
    }
    pub fn p(&self, k: &str) -> i64 {
        self.params.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) -> &mut Self {
        self.params.insert(k.into(), v);
        self
    }
    pub fn push(&mut self, op: &str, a: &[u64]) {
        self.steps.push(Step::new(op, a));
    }
    pub fn to_text(&self) -> String {
        let mut s = format!("prop {}\nseed {}\nentropy {}\n", self.prop, self.seed, self.entropy);
        for (k, v) in &self.params {
            s += &format!("param {k} {v}\n");
        }
        for st in &self.steps {
            s += &format!("step {}", st.op);
            for a in &st.a {
                s += &format!(" {a}");
            }
            s += "\n";
        }
        s
    }
    pub fn parse(t: &str) -> Result<Self, String> {
        let mut s = Scenario::new("", 0, 0);
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first() {
                None => {}
                Some(x) if x.starts_with('#') => {}
                Some(&"prop") => s.prop = w[1].into(),
                Some(&"seed") => s.seed = w[1].parse().map_err(|_| "seed")?,
                Some(&"entropy") => s.entropy = w[1].parse().map_err(|_| "entropy")?,
                Some(&"param") => {
                    s.params.insert(w[1].into(), w[2].parse().map_err(|_| "param")?);
                }
                Some(&"step") => {
                    let a: Result<Vec<u64>, _> = w[2..].iter().map(|x| x.parse::<u64>()).collect();
                    s.steps.push(Step {
                        op: w[1].into(),
                        a: a.map_err(|_| "step")?,
                    });
                }
                Some(x) => return Err(format!("bad line {x}")),
            }
        }
        Ok(s)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// stable classification: property, place and kind of failure
    pub key: String,
    pub detail: String,
}

pub fn viol<T>(key: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> {
    Err(Violation {
        key: key.into(),
        detail: detail.into(),
    })
}

#[derive(Default, Clone)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    /// order-sensitive hash of everything observed in the run
    pub transcript: u64,
}

impl Stats {
    pub fn c(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.n.get_mut(k) {
            *x += n;
        } else {
            self.n.insert(k.to_string(), n);
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
    pub fn state(&mut self, h: u64) {
        self.states.insert(h);
    }
    pub fn t(&mut self, h: u64) {
        self.transcript = crate::rng::mix2(self.transcript, h);
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.n {
            self.add(k, *v);
        }
        if self.states.len() < 4_000_000 {
            self.states.extend(o.states.iter());
        }
    }
}
