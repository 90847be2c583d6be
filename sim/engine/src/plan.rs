//! A plan is one execution written down: configuration, then steps in schedule order. Running it
//! is a pure function of the plan and the code under test.
use crate::seams::Pre;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub client: u64,
    pub op: String,
    pub args: Vec<u64>,
    pub pre: Vec<Pre>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    pub cfg: BTreeMap<String, u64>,
    pub steps: Vec<Step>,
}

impl Plan {
    pub fn new(prop: &str, seed: u64, run: u64) -> Plan {
        Plan { prop: prop.into(), seed, run, cfg: BTreeMap::new(), steps: Vec::new() }
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.cfg.insert(k.to_string(), v);
    }
    pub fn get(&self, k: &str) -> u64 {
        self.cfg.get(k).copied().unwrap_or(0)
    }
    pub fn push(&mut self, client: u64, op: &str, args: Vec<u64>) -> &mut Step {
        self.steps.push(Step { client, op: op.into(), args, pre: Vec::new() });
        self.steps.last_mut().unwrap()
    }
    pub fn text(&self) -> String {
        let mut s = format!("gsim-plan 1\nproperty {}\nseed {} run {}\n", self.prop, self.seed, self.run);
        for (k, v) in &self.cfg {
            s += &format!("cfg {k} {v}\n");
        }
        for st in &self.steps {
            s += &format!("step {} {}", st.client, st.op);
            for a in &st.args {
                s += &format!(" {a}");
            }
            for p in &st.pre {
                s += &format!(" !{}:{}:{}", p.y, p.k, p.hold);
            }
            s.push('\n');
        }
        s
    }
    pub fn parse(t: &str) -> Result<Plan, String> {
        let mut p = Plan::new("", 0, 0);
        let mut lines = t.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty());
        if lines.next() != Some("gsim-plan 1") {
            return Err("not a gsim plan".into());
        }
        let num = |s: &str| s.parse::<u64>().map_err(|_| format!("bad number {s}"));
        for l in lines {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w[0] {
                "property" => p.prop = w[1].into(),
                "seed" => {
                    p.seed = num(w[1])?;
                    p.run = num(w[3])?;
                }
                "cfg" => p.set(w[1], num(w[2])?),
                "step" => {
                    let mut st = Step { client: num(w[1])?, op: w[2].into(), args: vec![], pre: vec![] };
                    for a in &w[3..] {
                        if let Some(r) = a.strip_prefix('!') {
                            let v: Vec<&str> = r.split(':').collect();
                            st.pre.push(Pre {
                                y: num(v[0])? as u32,
                                k: num(v[1])? as u32,
                                hold: num(v[2])? as u32,
                            });
                        } else {
                            st.args.push(num(a)?);
                        }
                    }
                    p.steps.push(st);
                }
                x => return Err(format!("unknown line {x}")),
            }
        }
        Ok(p)
    }
}

impl Step {
    pub fn a(&self, i: usize) -> u64 {
        self.args.get(i).copied().unwrap_or(0)
    }
}
