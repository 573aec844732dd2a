//! Evidence, replay artefacts and known findings.
use crate::engine::{UnitReport, Violation};
use std::path::PathBuf;

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

/// The replay file: the property, the unit and the choice sequence, plus what it means.
pub fn write_replay(prop: &str, v: &Violation, idx: usize) -> String {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{idx}.json"));
    let text = format!(
        "{{\"property\":{},\"unit\":{},\"key\":{},\"message\":{},\"choices\":[{}],\"notes\":{},\n\"replay_with\":{}}}\n",
        esc(prop),
        esc(&v.unit),
        esc(&v.key),
        esc(&v.msg),
        v.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","),
        arr(&v.notes.iter().map(|n| esc(n)).collect::<Vec<_>>()),
        esc(&format!("cd /verif && ./run.sh replay {}", path.display())),
    );
    let _ = std::fs::write(&path, text);
    path.display().to_string()
}

/// Read a replay file: (property, unit, choices).
pub fn read_replay(path: &str) -> Option<(String, String, Vec<u16>)> {
    let t = std::fs::read_to_string(path).ok()?;
    let get = |k: &str| -> Option<String> {
        let p = t.find(&format!("\"{k}\":\""))? + k.len() + 4;
        let e = t[p..].find('"')?;
        Some(t[p..p + e].to_string())
    };
    let p = t.find("\"choices\":[")? + 11;
    let e = t[p..].find(']')?;
    let choices = t[p..p + e].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    Some((get("property")?, get("unit")?, choices))
}

/// Known findings: lines `finding: property=<id> unit=<unit> key=<key> :: <text>`.
pub fn known_findings(prop: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = vec![];
    for l in t.lines() {
        let Some(l) = l.strip_prefix("finding: ") else { continue };
        let Some((head, text)) = l.split_once(" :: ") else { continue };
        let Some(rest) = head.strip_prefix(&format!("property={prop} unit=")) else { continue };
        let Some((unit, key)) = rest.split_once(" key=") else { continue };
        out.push((unit.trim().into(), key.trim().into(), text.trim().into()));
    }
    out
}

pub struct Outcome {
    pub violations: usize,
}

pub fn finish(prop: &str, tier: &str, reports: &[UnitReport], wall: f64) -> Outcome {
    let known = known_findings(prop);
    let mut n = 0;
    for r in reports {
        for v in &r.violations {
            if let Some(k) = known.iter().find(|k| k.0 == v.unit && k.1 == v.key) {
                println!("KNOWN-FINDING: property={prop} {}", k.2);
                continue;
            }
            let path = write_replay(prop, v, n);
            n += 1;
            println!("{prop}/{}: [{}] {}", v.unit, v.key, v.msg);
            for note in v.notes.iter().take(40) {
                println!("    {note}");
            }
            println!("VIOLATION property={prop} replay={path}");
        }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let states: u64 = reports.iter().map(|r| r.inputs).sum();
    let edges: u64 = reports.iter().map(|r| r.edges).sum();
    let execs: u64 = reports.iter().map(|r| r.executions).sum();
    let outcomes: u64 = reports.iter().map(|r| r.outcomes).sum();
    let complete = reports.iter().all(|r| r.complete);
    let mut samples = vec![];
    for r in reports {
        for (c, notes) in &r.samples {
            let mut note = notes.join("; ");
            if note.len() > 600 {
                let mut e = 600;
                while !note.is_char_boundary(e) {
                    e -= 1;
                }
                note.truncate(e);
            }
            let cs: Vec<String> = c.iter().take(64).map(|c| c.to_string()).collect();
            samples.push(format!(
                "{{\"unit\":{},\"choices\":[{}],\"execution\":{}}}",
                esc(&r.name),
                cs.join(","),
                esc(&note)
            ));
        }
    }
    let units: Vec<String> = reports
        .iter()
        .map(|r| {
            format!(
                "{{\"unit\":{},\"what\":{},\"deviation_bound\":{},\"executions\":{},\"distinct_inputs\":{},\"distinct_outcomes\":{},\"choice_tree_edges\":{},\"operations_on_code_under_test\":{},\"complete\":{},\"secs\":{:.2}}}",
                esc(&r.name), esc(&r.what), r.bound, r.executions, r.inputs, r.outcomes, r.edges, r.ops, r.complete, r.secs
            )
        })
        .collect();
    let text = format!(
        "{{\n\"property\":{},\n\"tier\":{},\n\"seed\":{},\n\"level\":\"model_checking\",\n\"coverage\":{{\n\"states\":{},\n\"transitions\":{},\n\"traces_validated_against_impl\":{},\n\"distinct_observed_outcomes\":{},\n\"exhaustive\":{},\n\"explanation\":{},\n\"units\":[{}],\n\"samples\":[{}]\n}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{}\n}}\n",
        esc(prop),
        esc(tier),
        seed,
        states,
        edges,
        execs,
        outcomes,
        complete,
        esc("states = distinct concrete inputs/histories (by hash) given to the real code; transitions = edges of the choice tree explored; traces_validated_against_impl = complete executions, every one of which ran the real code and was compared with the reference model. Every choice sequence within each unit's deviation bound was executed when 'complete' is true for the unit."),
        units.join(",\n"),
        samples.join(",\n"),
        esc("bounded: values outside each unit's alphabet and deviation bound are not covered; the reference encoder/model in /verif/mc is trusted"),
        wall,
        n
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), text).expect("write evidence");
    for r in reports {
        println!(
            "{prop}/{}: {} executions, {} inputs, {} outcomes, {} edges, {:.1}s{}",
            r.name, r.executions, r.inputs, r.outcomes, r.edges, r.secs,
            if r.complete { "" } else { " (INCOMPLETE: time cap)" }
        );
    }
    Outcome { violations: n }
}
