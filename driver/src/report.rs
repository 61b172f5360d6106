//! The report as JSON.

use crate::targets::Done;

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(","))
}
fn map(v: impl Iterator<Item = (String, usize)>) -> String {
    format!("{{{}}}", v.map(|(k, n)| format!("{}:{n}", q(&k))).collect::<Vec<_>>().join(","))
}

pub fn json(ds: &[Done]) -> String {
    let one = |d: &Done| {
        let r = &d.rep;
        let viol = list(r.violations.iter().map(|v| {
            format!(
                "{{\"rule\":{},\"fn\":{},\"site\":{},\"detail\":{},\"phase\":{},\"trace\":{}}}",
                q(v.rule),
                q(&v.func),
                q(&v.site),
                q(&v.detail),
                q(v.phase),
                list(v.trace.iter().map(|t| q(t)))
            )
        }));
        let mut sites: std::collections::BTreeMap<String, usize> = Default::default();
        for (r, _) in &r.check_sites {
            *sites.entry(r.to_string()).or_default() += 1;
        }
        format!(
            "{{\"target\":{},\"violations\":{viol},\"unknowns\":{},\"checks\":{},\"check_sites\":{},\"functions\":{},\"call_sites\":{},\"assert_sites\":{},\"panic_sites\":{},\"loops\":{},\"reach\":{},\"notes\":{},\"states\":{},\"steps\":{},\"paths\":{},\"forks\":{},\"progress_nodes\":{},\"stall_edges\":{},\"stuck\":{}}}",
            q(&d.name),
            map(r.unknowns.iter().map(|(k, n)| (k.clone(), *n))),
            map(r.checks.iter().map(|(k, n)| (k.to_string(), *n))),
            map(sites.into_iter()),
            list(r.funcs.iter().map(|(n, f)| format!("[{},{}]", q(n), q(f)))),
            r.call_sites.len(),
            list(r.asserts.iter().map(|s| q(s))),
            list(r.panic_sites.iter().map(|s| q(s))),
            list(r.loops.iter().map(|s| q(s))),
            map(r.reach.iter().map(|(k, n)| (k.clone(), *n))),
            list(r.notes.iter().map(|s| q(s))),
            r.states,
            r.steps,
            r.paths,
            r.forks,
            d.graph.0,
            d.graph.1,
            match &d.stuck {
                None => "null".into(),
                Some(v) => list(v.iter().map(|s| q(s))),
            }
        )
    };
    format!("{{\"targets\":{}}}\n", list(ds.iter().map(one)))
}
