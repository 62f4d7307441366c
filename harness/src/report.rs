//! Verdict, evidence file, replay artefacts and known findings.
use crate::engine::{Mismatch, Report};
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn verif_dir() -> String {
    std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into())
}

fn known(property: &str) -> Vec<Value> {
    let p = format!("{}/known_findings.json", verif_dir());
    let v: Value = std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
    v["findings"].as_array().cloned().unwrap_or_default().into_iter().filter(|f| f["property"] == property).collect()
}

impl Report {
    pub fn finish(self) -> i32 {
        let id = &self.property;
        let dir = verif_dir();
        let out = format!("{dir}/out");
        let _ = std::fs::create_dir_all(&out);
        let harness_err: Vec<&Mismatch> = self.mismatches.iter().filter(|m| m.msgs.iter().any(|s| s.contains("panic: harness:"))).collect();
        if let Some(m) = harness_err.first() {
            eprintln!("HARNESS ERROR {:?}", m);
            // a violation that was seen all the same is still one
            if harness_err.len() == self.mismatches.len() {
                return 2;
            }
        }
        let kn = known(id);
        let mut seen_known = BTreeSet::new();
        let mut real: Vec<&Mismatch> = vec![];
        for m in self.mismatches.iter().filter(|m| !m.msgs.iter().any(|s| s.contains("panic: harness:"))) {
            match kn.iter().position(|k| k["space"] == m.space.as_str() && k["case"] == m.case.as_str()) {
                Some(i) => {
                    seen_known.insert(i);
                }
                None => real.push(m),
            }
        }
        for i in &seen_known {
            println!("KNOWN-FINDING: property={id} {}", kn[*i]["what"].as_str().unwrap_or(""));
        }
        if self.replay.is_some() {
            return if real.is_empty() { 0 } else { 1 };
        }
        let spaces: Vec<Value> = self
            .spaces
            .iter()
            .map(|s| {
                json!({"space": s.name, "deviation_bound": s.bound, "executions": s.runs, "distinct_cases": s.distinct,
                   "choice_edges": s.transitions, "comparisons": s.compared, "completed": !s.capped, "distinct_outcomes": s.outcomes.len(),
                   "outcomes": s.outcomes.iter().take(60).map(|(k, v)| (k.clone(), json!(v))).collect::<serde_json::Map<_, _>>(),
                   "wall_s": s.wall})
            })
            .collect();
        let samples: Vec<Value> = self
            .spaces
            .iter()
            .flat_map(|s| s.samples.iter().take(5).map(|(o, c)| json!({"space": s.name, "outcome": o, "case": c.chars().take(600).collect::<String>()})))
            .take(40)
            .collect();
        let states: u64 = self.spaces.iter().map(|s| s.distinct).sum();
        let runs: u64 = self.spaces.iter().map(|s| s.runs).sum();
        let trans: u64 = self.spaces.iter().map(|s| s.transitions).sum();
        let cmp: u64 = self.spaces.iter().map(|s| s.compared).sum();
        let exhaustive = self.spaces.iter().all(|s| !s.capped);
        let ev = json!({
            "property": id, "tier": self.tier, "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking",
            "coverage": {
                "states": states, "transitions": trans, "traces_validated_against_impl": states,
                "evaluations": runs, "comparisons_with_impl": cmp,
                "rule": "states: distinct cases (inputs, operation sequences or environments) reached in the bounded choice tree; transitions: edges of that tree walked; every case is executed on the real code and compared with the reference model",
                "exhaustive": exhaustive, "spaces": spaces, "samples": samples
            },
            "assumptions": ["the reference model in /verif/harness/src/r states the property", "bounds as listed per space"],
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": real.len()
        });
        let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
        std::fs::write(format!("{dir}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        if states == 0 {
            eprintln!("HARNESS ERROR: nothing explored");
            return 2;
        }
        if real.is_empty() {
            println!("OK property={id} states={states} executions={runs} comparisons={cmp} exhaustive={exhaustive}");
            return 0;
        }
        if let Ok(f) = std::env::var("MC_LIST") {
            let all: Vec<_> = real.iter().map(|m| json!({"property": id, "space": m.space, "case": m.case, "mismatch": m.msgs})).collect();
            let _ = std::fs::write(f, serde_json::to_string_pretty(&all).unwrap());
        }
        for (n, m) in real.iter().enumerate().take(5) {
            let path = format!("{out}/{id}-{n}.json");
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({"property": id, "space": m.space, "tier": self.tier, "bound": m.bound, "script": m.script, "case": m.case, "mismatch": m.msgs,
                    "how": format!("{dir}/check.sh replay {path}")}))
                .unwrap(),
            );
            println!("--- {} ---\n{}\n{}", m.space, m.case.chars().take(1500).collect::<String>(), m.msgs.join("\n").chars().take(1500).collect::<String>());
            println!("VIOLATION property={id} replay={path}");
        }
        println!("{} violating cases", real.len());
        1
    }
}
