//! Reads a SHACL validation report written as RDF
use crate::sess;
use crate::shaclm::{Path, Res, component_name};
use crate::term::*;
use std::collections::BTreeSet;

pub fn list(g: &G, n: &T) -> Option<Vec<T>> {
    let mut o = Vec::new();
    let mut n = n.clone();
    while n != T::iri(rdf("nil")) {
        let (f, r) = (g.objs(&n, &rdf("first")), g.objs(&n, &rdf("rest")));
        if f.len() != 1 || r.len() != 1 || o.len() > 1000 {
            return None;
        }
        o.push(f[0].clone());
        n = r[0].clone();
    }
    Some(o)
}
pub fn path(g: &G, n: &T) -> Option<Path> {
    path_(g, n, 0)
}
fn path_(g: &G, n: &T, d: usize) -> Option<Path> {
    if d > 50 {
        return None;
    }
    if let T::Iri(i) = n {
        if *n != T::iri(rdf("nil")) {
            return Some(Path::P(i.clone()));
        }
    }
    let many = |v: Vec<T>| v.iter().map(|x| path_(g, x, d + 1)).collect::<Option<Vec<_>>>();
    if !g.objs(n, &rdf("first")).is_empty() {
        return Some(Path::Seq(many(list(g, n)?)?));
    }
    let one = |p: &str| g.objs(n, &sh(p)).first().cloned();
    if let Some(x) = one("alternativePath") {
        return Some(Path::Alt(many(list(g, &x)?)?));
    }
    if let Some(x) = one("inversePath") {
        return Some(Path::Inv(Box::new(path_(g, &x, d + 1)?)));
    }
    if let Some(x) = one("zeroOrMorePath") {
        return Some(Path::Star(Box::new(path_(g, &x, d + 1)?)));
    }
    if let Some(x) = one("oneOrMorePath") {
        return Some(Path::Plus(Box::new(path_(g, &x, d + 1)?)));
    }
    if let Some(x) = one("zeroOrOnePath") {
        return Some(Path::Opt(Box::new(path_(g, &x, d + 1)?)));
    }
    None
}
/// sh:conforms and the results
pub fn read(g: &G) -> Result<(bool, BTreeSet<Res>, usize), String> {
    let reps = g.subjs(&rdf("type"), &T::iri(sh("ValidationReport")));
    let [rep] = &reps[..] else { return Err(format!("{} reports", reps.len())) };
    let conf = match &g.objs(rep, &sh("conforms"))[..] {
        [T::Lit { lex, dt, .. }] if *dt == xsd("boolean") => lex == "true" || lex == "1",
        o => return Err(format!("sh:conforms {o:?}")),
    };
    let rs = g.objs(rep, &sh("result"));
    let mut o = BTreeSet::new();
    for r in &rs {
        if !g.objs(r, &rdf("type")).contains(&T::iri(sh("ValidationResult"))) {
            return Err("a result is not a sh:ValidationResult".into());
        }
        let one = |p: &str| -> Result<Option<T>, String> {
            let v = g.objs(r, &sh(p));
            if v.len() > 1 { Err(format!("several sh:{p}")) } else { Ok(v.into_iter().next()) }
        };
        let local = |t: T| match t {
            T::Iri(i) => i.strip_prefix("http://www.w3.org/ns/shacl#").map(|s| s.to_string()).unwrap_or(i),
            t => t.nt(),
        };
        o.insert(Res {
            focus: sess::key(&one("focusNode")?.ok_or("no sh:focusNode")?),
            path: match one("resultPath")? {
                Some(p) => Some(path(g, &p).ok_or("ill-formed sh:resultPath")?.canon()),
                None => None,
            },
            value: one("value")?.map(|v| sess::key(&v)),
            comp: match one("sourceConstraintComponent")?.ok_or("no sh:sourceConstraintComponent")? {
                T::Iri(i) => component_name(&i),
                t => t.nt(),
            },
            source: match one("sourceShape")? {
                Some(T::Iri(i)) => i,
                Some(_) => "_:".into(),
                None => "-".into(),
            },
            sev: local(one("resultSeverity")?.ok_or("no sh:resultSeverity")?),
        });
    }
    Ok((conf, o, rs.len()))
}
