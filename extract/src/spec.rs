//! Specification files: contracts, loop invariants and ghost code keyed by function.
use std::collections::BTreeMap;

#[derive(Clone, Default, Debug)]
pub struct FnSpec {
    pub key: String,
    pub opts: BTreeMap<String, String>,
    pub clauses: String,
    pub sections: Vec<(String, String, String)>, // kind, argument, text
}

impl FnSpec {
    pub fn get(&self, kind: &str, arg: &str) -> Option<&str> {
        self.sections.iter().find(|s| s.0 == kind && s.1 == arg).map(|s| s.2.as_str())
    }
    pub fn nloops(&self) -> usize {
        self.sections
            .iter()
            .filter(|s| s.0 == "loop")
            .map(|s| s.1.parse::<usize>().unwrap_or(0))
            .max()
            .unwrap_or(0)
    }
}

#[derive(Clone, Default, Debug)]
pub struct ModSpec {
    pub name: String,
    pub file: String,
    pub header: String,
    pub prelude: String,
    pub postlude: String,
    pub drops: BTreeMap<String, String>,
    pub ghost: BTreeMap<String, String>,
    pub attrs: BTreeMap<String, String>,
    pub derives: BTreeMap<String, Vec<String>>,
    pub fns: BTreeMap<String, FnSpec>,
    pub copydown: Vec<String>,
    pub inherent: BTreeMap<String, String>,
    pub where_drop: Vec<String>,
    pub ext: Vec<String>,
}

fn parse_opts(s: &str) -> BTreeMap<String, String> {
    // k=v separated by " ;; " or bare words
    let mut m = BTreeMap::new();
    for p in s.split(";;") {
        let p = p.trim();
        if p.is_empty() {
            continue;
        }
        if let Some((k, v)) = p.split_once('=') {
            m.insert(k.trim().to_string(), v.trim().to_string());
        } else {
            m.insert(p.to_string(), String::new());
        }
    }
    m
}

fn expand_foreach(text: &str, path: &str) -> Result<String, String> {
    let mut out = String::new();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        if let Some(rest) = lines[i].strip_prefix("%% foreach ") {
            let (names, rows) = rest.split_once('=').ok_or(format!("{path}: foreach"))?;
            let names: Vec<&str> = names.split_whitespace().collect();
            let mut depth = 1;
            let mut j = i + 1;
            while j < lines.len() {
                if lines[j].starts_with("%% foreach ") {
                    depth += 1;
                }
                if lines[j].starts_with("%% endforeach") {
                    depth -= 1;
                    if depth == 0 {
                        break;
                    }
                }
                j += 1;
            }
            let body = lines[i + 1..j].join("\n");
            let sep = if rows.contains(';') { ';' } else { ',' };
            for row in rows.split(sep) {
                let vals: Vec<&str> = row.split_whitespace().collect();
                if vals.len() != names.len() {
                    return Err(format!("{path}: foreach row {row}"));
                }
                let mut b = body.clone();
                for (n, v) in names.iter().zip(&vals) {
                    b = b.replace(&format!("@{n}@"), v);
                }
                out.push_str(&expand_foreach(&b, path)?);
            }
            i = j + 1;
        } else {
            out.push_str(lines[i]);
            out.push('\n');
            i += 1;
        }
    }
    Ok(out)
}

pub fn parse(path: &str, text: &str, mods: &mut Vec<ModSpec>) -> Result<(), String> {
    let text = expand_foreach(text, path)?;
    enum Cur {
        None,
        Header,
        Prelude,
        Postlude,
        Ghost(String),
        Fn(String),
    }
    let mut cur = Cur::None;
    for line in text.lines() {
        if let Some(d) = line.strip_prefix("%% ") {
            let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            if word == "module" {
                let (n, f) = rest.split_once(' ').unwrap_or((rest, ""));
                mods.push(ModSpec { name: n.into(), file: f.trim().into(), ..Default::default() });
                cur = Cur::None;
                continue;
            }
            let m = mods.last_mut().ok_or(format!("{path}: directive before module"))?;
            match word {
                "header" => cur = Cur::Header,
                "prelude" => cur = Cur::Prelude,
                "postlude" => cur = Cur::Postlude,
                "drop" => {
                    let (k, r) = rest.split_once(" : ").unwrap_or((rest, ""));
                    m.drops.insert(k.trim().into(), r.trim().into());
                    cur = Cur::None;
                }
                "ghost" => {
                    m.ghost.entry(rest.into()).or_default();
                    cur = Cur::Ghost(rest.into());
                }
                "attr" => {
                    let (k, r) = rest.split_once(" : ").unwrap_or((rest, ""));
                    m.attrs.insert(k.trim().into(), r.trim().into());
                    cur = Cur::None;
                }
                "derive" => {
                    let (k, r) = rest.split_once(" : ").unwrap_or((rest, ""));
                    m.derives.insert(k.trim().into(), r.split_whitespace().map(|s| s.to_string()).collect());
                    cur = Cur::None;
                }
                "copydown" => {
                    m.copydown.push(rest.into());
                    cur = Cur::None;
                }
                "inherent" => {
                    let (k, r) = rest.split_once(" : ").unwrap_or((rest, ""));
                    m.inherent.insert(k.trim().into(), r.trim().into());
                    cur = Cur::None;
                }
                "ext" => {
                    m.ext.push(rest.into());
                    cur = Cur::None;
                }
                "wheredrop" => {
                    m.where_drop.push(rest.into());
                    cur = Cur::None;
                }
                "fn" => {
                    let (k, o) = rest.split_once(" :: ").unwrap_or((rest, ""));
                    let k = k.trim().to_string();
                    if m.fns.contains_key(&k) {
                        return Err(format!("{path}: duplicate {k}"));
                    }
                    m.fns.insert(k.clone(), FnSpec { key: k.clone(), opts: parse_opts(o), ..Default::default() });
                    cur = Cur::Fn(k);
                }
                w => return Err(format!("{path}: directive {w}")),
            }
            continue;
        }
        let Some(m) = mods.last_mut() else { continue };
        match &cur {
            Cur::None => {
                if !line.trim().is_empty() && !line.starts_with("//") {
                    return Err(format!("{path}: stray line {line}"));
                }
            }
            Cur::Header => {
                m.header.push_str(line);
                m.header.push('\n');
            }
            Cur::Prelude => {
                m.prelude.push_str(line);
                m.prelude.push('\n');
            }
            Cur::Postlude => {
                m.postlude.push_str(line);
                m.postlude.push('\n');
            }
            Cur::Ghost(k) => {
                let e = m.ghost.get_mut(k).unwrap();
                e.push_str(line);
                e.push('\n');
            }
            Cur::Fn(k) => {
                let f = m.fns.get_mut(k).unwrap();
                if let Some(d) = line.strip_prefix("% ") {
                    let (w, a) = d.split_once(' ').unwrap_or((d, ""));
                    f.sections.push((w.to_string(), a.trim().to_string(), String::new()));
                } else if let Some(s) = f.sections.last_mut() {
                    s.2.push_str(line);
                    s.2.push('\n');
                } else {
                    f.clauses.push_str(line);
                    f.clauses.push('\n');
                }
            }
        }
    }
    Ok(())
}
