//! Source positions from the debug metadata of the module.
use crate::ll::Module;
use std::collections::HashSet;

fn field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
    let pat = format!("{}: ", key);
    let mut from = 0;
    loop {
        let k = s[from..].find(&pat)? + from;
        let prev = s[..k].chars().last();
        if matches!(prev, Some('(') | Some(' ')) {
            let r = &s[k + pat.len()..];
            if let Some(q) = r.strip_prefix('"') {
                return q.find('"').map(|e| &q[..e]);
            }
            let e = r.find(|c| c == ',' || c == ')').unwrap_or(r.len());
            return Some(&r[..e]);
        }
        from = k + pat.len();
    }
}
fn node<'a>(m: &'a Module, id: u32) -> Option<&'a str> {
    m.md.get(&id).map(|&(a, b)| &m.text[a..b])
}
fn refid(s: &str) -> Option<u32> {
    s.trim().strip_prefix('!')?.parse().ok()
}
/// (function name, file) of a scope
fn scope(m: &Module, mut id: u32) -> Option<(String, String)> {
    for _ in 0..50 {
        let n = node(m, id)?;
        if n.contains("DISubprogram(") {
            let f = field(n, "file").and_then(refid).and_then(|f| node(m, f)).and_then(|s| field(s, "filename")).unwrap_or("").to_string();
            let link = field(n, "linkageName").map(crate::ext::short);
            let nm = link.or(field(n, "name").map(|s| s.to_string())).unwrap_or_default();
            return Some((nm, f));
        }
        id = refid(field(n, "scope")?)?;
    }
    None
}
pub fn is_crate_file(f: &str) -> bool {
    !f.is_empty() && !f.contains("/rustc/") && !f.contains("/rust/deps") && !f.contains("/registry/") && !f.contains("/verif/") && !f.contains("/harness/") && f.contains("src/")
}
pub fn chain(m: &Module, dbg: u32) -> Vec<(String, String, String)> {
    let mut out = vec![];
    let mut id = dbg;
    for _ in 0..60 {
        let n = match node(m, id) {
            Some(n) => n,
            None => break,
        };
        let line = field(n, "line").unwrap_or("?").to_string();
        if let Some((f, file)) = field(n, "scope").and_then(refid).and_then(|s| scope(m, s)) {
            out.push((f, file, line));
        }
        match field(n, "inlinedAt").and_then(refid) {
            Some(i) => id = i,
            None => break,
        }
    }
    out
}
pub fn locate(m: &Module, dbg: u32, only_crate: bool) -> Option<String> {
    for (f, file, line) in chain(m, dbg) {
        if !only_crate || is_crate_file(&file) {
            return Some(format!("{} at {}:{}", f, file, line));
        }
    }
    None
}
/// functions of the crate executed, and how many source lines of them
pub fn coverage(m: &Module, seen: &HashSet<u32>) -> std::collections::BTreeMap<String, usize> {
    let mut lines: std::collections::BTreeMap<String, HashSet<String>> = Default::default();
    for &d in seen {
        for (f, file, line) in chain(m, d) {
            if is_crate_file(&file) {
                let short = file.rsplit("src/").next().unwrap_or(&file).to_string();
                lines.entry(format!("{} ({})", f, short)).or_default().insert(line);
            }
        }
    }
    lines.into_iter().map(|(k, v)| (k, v.len())).collect()
}
