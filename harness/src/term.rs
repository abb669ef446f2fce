//! The harness' own RDF model, independent of the code under test.
use crate::fw::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
pub const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
pub const RDFS: &str = "http://www.w3.org/2000/01/rdf-schema#";
pub const SH: &str = "http://www.w3.org/ns/shacl#";
pub const EX: &str = "http://e.x/";

pub fn xsd(s: &str) -> String {
    format!("{XSD}{s}")
}
pub fn rdf(s: &str) -> String {
    format!("{RDF}{s}")
}
pub fn sh(s: &str) -> String {
    format!("{SH}{s}")
}
pub fn ex(s: &str) -> String {
    format!("{EX}{s}")
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum T {
    Iri(String),
    B(String),
    Lit { lex: String, dt: String, lang: Option<String> },
}
impl T {
    pub fn iri(s: impl Into<String>) -> T {
        T::Iri(s.into())
    }
    pub fn ex(s: &str) -> T {
        T::Iri(ex(s))
    }
    pub fn b(s: &str) -> T {
        T::B(s.into())
    }
    pub fn lit(lex: &str, dt: &str) -> T {
        T::Lit { lex: lex.into(), dt: xsd(dt), lang: None }
    }
    pub fn str(lex: &str) -> T {
        T::lit(lex, "string")
    }
    pub fn int(n: i64) -> T {
        T::lit(&n.to_string(), "integer")
    }
    pub fn lang(lex: &str, l: &str) -> T {
        T::Lit { lex: lex.into(), dt: rdf("langString"), lang: Some(l.into()) }
    }
    pub fn is_iri(&self) -> bool {
        matches!(self, T::Iri(_))
    }
    pub fn is_b(&self) -> bool {
        matches!(self, T::B(_))
    }
    pub fn is_lit(&self) -> bool {
        matches!(self, T::Lit { .. })
    }
    pub fn nt(&self) -> String {
        match self {
            T::Iri(i) => format!("<{i}>"),
            T::B(b) => format!("_:{b}"),
            T::Lit { lex, dt, lang } => {
                let q = quote(lex);
                match lang {
                    Some(l) => format!("{q}@{l}"),
                    None if *dt == xsd("string") => q,
                    None => format!("{q}^^<{dt}>"),
                }
            },
        }
    }
    pub fn from_ox(t: &oxrdf::Term) -> T {
        match t {
            oxrdf::Term::NamedNode(n) => T::Iri(n.as_str().into()),
            oxrdf::Term::BlankNode(b) => T::B(b.as_str().into()),
            oxrdf::Term::Literal(l) => T::Lit {
                lex: l.value().into(),
                dt: l.datatype().as_str().into(),
                lang: l.language().map(|s| s.to_string()),
            },
            #[allow(unreachable_patterns)]
            _ => T::B("unsupported-term".into()),
        }
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub type Tr = (T, String, T);
#[derive(Clone, PartialEq, Eq, Debug, Default, PartialOrd, Ord)]
pub struct G {
    pub t: BTreeSet<Tr>,
}
impl G {
    pub fn new() -> G {
        G::default()
    }
    pub fn add(&mut self, s: T, p: &str, o: T) {
        self.t.insert((s, p.to_string(), o));
    }
    pub fn nt(&self) -> String {
        let mut s = String::new();
        for t in &self.t {
            s.push_str(&tr_nt(t));
        }
        s
    }
    /// N-Triples with statements in a random order
    pub fn nt_shuffled(&self, r: &mut Rng) -> String {
        let mut v: Vec<&Tr> = self.t.iter().collect();
        r.shuffle(&mut v);
        v.iter().map(|t| tr_nt(t)).collect()
    }
    pub fn out<'a>(&'a self, s: &'a T) -> impl Iterator<Item = &'a Tr> + 'a {
        // the triples are ordered by their subject
        self.t.range((s.clone(), String::new(), T::Iri(String::new()))..).skip_while(move |t| &t.0 < s).take_while(move |t| &t.0 == s)
    }
    pub fn objs(&self, s: &T, p: &str) -> Vec<T> {
        self.out(s).filter(|t| t.1 == p).map(|t| t.2.clone()).collect()
    }
    pub fn subjs(&self, p: &str, o: &T) -> Vec<T> {
        self.t.iter().filter(|t| &t.2 == o && t.1 == p).map(|t| t.0.clone()).collect()
    }
    pub fn nodes(&self) -> BTreeSet<T> {
        self.t.iter().flat_map(|t| [t.0.clone(), t.2.clone()]).collect()
    }
    pub fn len(&self) -> usize {
        self.t.len()
    }
    pub fn union(&self, o: &G) -> G {
        let mut g = self.clone();
        g.t.extend(o.t.iter().cloned());
        g
    }
}
pub fn tr_nt(t: &Tr) -> String {
    format!("{} <{}> {} .\n", t.0.nt(), t.1, t.2.nt())
}

/// Parses a serialised document with an RDF library used directly.
pub fn parse(doc: &[u8], fmt: oxrdfio::RdfFormat) -> Result<G, String> {
    let mut g = G::new();
    for q in oxrdfio::RdfParser::from_format(fmt).for_slice(doc) {
        let q = q.map_err(|e| e.to_string())?;
        let s = match &q.subject {
            oxrdf::NamedOrBlankNode::NamedNode(n) => T::Iri(n.as_str().into()),
            oxrdf::NamedOrBlankNode::BlankNode(b) => T::B(b.as_str().into()),
        };
        g.t.insert((s, q.predicate.as_str().into(), T::from_ox(&q.object)));
    }
    Ok(g)
}

/// Turtle rendering with prefixes, `;`/`,` grouping, `a`, short literals.
pub fn turtle(g: &G, prefixes: &[(&str, &str)], r: &mut Rng) -> String {
    let mut o = String::new();
    for (p, i) in prefixes {
        if r.chance(50) {
            o.push_str(&format!("@prefix {p}: <{i}> .\n"));
        } else {
            o.push_str(&format!("PREFIX {p}: <{i}>\n"));
        }
    }
    let sh_iri = |i: &str, r: &mut Rng| -> String {
        for (p, ns) in prefixes {
            if let Some(l) = i.strip_prefix(ns)
                && !l.is_empty()
                && l.chars().all(|c| c.is_ascii_alphanumeric())
                && r.chance(80)
            {
                return format!("{p}:{l}");
            }
        }
        format!("<{i}>")
    };
    let term = |t: &T, r: &mut Rng| -> String {
        match t {
            T::Iri(i) => sh_iri(i, r),
            T::Lit { lex, dt, lang: None }
                if *dt == xsd("integer") && !lex.is_empty() && lex.chars().all(|c| c.is_ascii_digit()) && r.chance(60) =>
            {
                lex.clone()
            },
            T::Lit { lex, dt, lang: None } if *dt == xsd("boolean") && (lex == "true" || lex == "false") => lex.clone(),
            t => t.nt(),
        }
    };
    let mut by: BTreeMap<&T, BTreeMap<&String, Vec<&T>>> = BTreeMap::new();
    for (s, p, ob) in &g.t {
        by.entry(s).or_default().entry(p).or_default().push(ob);
    }
    let mut subs: Vec<_> = by.into_iter().collect();
    r.shuffle(&mut subs);
    for (s, ps) in subs {
        o.push_str(&term(s, r));
        let mut first = true;
        for (p, os) in ps {
            o.push_str(if first { " " } else { " ;\n  " });
            first = false;
            if *p == rdf("type") && r.chance(70) {
                o.push('a');
            } else {
                o.push_str(&sh_iri(p, r));
            }
            let v: Vec<String> = os.iter().map(|x| term(x, r)).collect();
            o.push(' ');
            o.push_str(&v.join(" , "));
        }
        o.push_str(" .\n");
    }
    o
}

/// Graph isomorphism by refinement and backtracking; None when the budget ran out.
pub fn isomorphic(a: &G, b: &G) -> Option<bool> {
    if a.len() != b.len() {
        return Some(false);
    }
    let ca = colours(a);
    let cb = colours(b);
    let ba: Vec<String> = bnodes(a);
    let bb: Vec<String> = bnodes(b);
    if ba.len() != bb.len() {
        return Some(false);
    }
    let mut sa: Vec<u64> = ba.iter().map(|x| ca[x]).collect();
    let mut sb: Vec<u64> = bb.iter().map(|x| cb[x]).collect();
    sa.sort();
    sb.sort();
    if sa != sb {
        return Some(false);
    }
    let mut map = BTreeMap::new();
    let mut used = BTreeSet::new();
    let mut budget = 20000usize;
    fn rec(
        i: usize,
        ba: &[String],
        bb: &[String],
        ca: &BTreeMap<String, u64>,
        cb: &BTreeMap<String, u64>,
        a: &G,
        b: &G,
        map: &mut BTreeMap<String, String>,
        used: &mut BTreeSet<String>,
        budget: &mut usize,
    ) -> Option<bool> {
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        if i == ba.len() {
            let m = |t: &T| match t {
                T::B(x) => T::B(map[x].clone()),
                t => t.clone(),
            };
            return Some(a.t.iter().all(|t| b.t.contains(&(m(&t.0), t.1.clone(), m(&t.2)))));
        }
        for y in bb {
            if used.contains(y) || ca[&ba[i]] != cb[y] {
                continue;
            }
            map.insert(ba[i].clone(), y.clone());
            used.insert(y.clone());
            match rec(i + 1, ba, bb, ca, cb, a, b, map, used, budget) {
                Some(true) => return Some(true),
                None => return None,
                _ => {},
            }
            map.remove(&ba[i]);
            used.remove(y);
        }
        Some(false)
    }
    rec(0, &ba, &bb, &ca, &cb, a, b, &mut map, &mut used, &mut budget)
}
fn bnodes(g: &G) -> Vec<String> {
    let mut s = BTreeSet::new();
    for t in &g.t {
        for x in [&t.0, &t.2] {
            if let T::B(b) = x {
                s.insert(b.clone());
            }
        }
    }
    s.into_iter().collect()
}
fn colours(g: &G) -> BTreeMap<String, u64> {
    let bs = bnodes(g);
    let mut c: BTreeMap<String, u64> = bs.iter().map(|b| (b.clone(), 1)).collect();
    for _ in 0..bs.len().min(8) + 1 {
        let mut n = BTreeMap::new();
        for b in &bs {
            let me = T::B(b.clone());
            let mut parts: Vec<String> = Vec::new();
            let col = |t: &T| match t {
                T::B(x) => format!("b{}", c[x]),
                t => t.nt(),
            };
            for t in &g.t {
                if t.0 == me {
                    parts.push(format!("o {} {}", t.1, if t.2 == me { "self".into() } else { col(&t.2) }));
                }
                if t.2 == me {
                    parts.push(format!("i {} {}", t.1, if t.0 == me { "self".into() } else { col(&t.0) }));
                }
            }
            parts.sort();
            n.insert(b.clone(), crate::fw::hash(&parts.join("|")));
        }
        c = n;
    }
    c
}

pub fn opt_show<T: std::fmt::Debug>(x: &Option<T>) -> String {
    x.as_ref().map(|v| format!("{v:?}")).unwrap_or_else(|| "-".into())
}
