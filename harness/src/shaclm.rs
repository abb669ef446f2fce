//! SHACL Core: model, writer and reference evaluator written from the recommendation.
use crate::fw::Rng;
use crate::shexm::{dcmp, dec, is_num_dt, valid_lex};
use crate::term::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Path {
    P(String),
    Inv(Box<Path>),
    Seq(Vec<Path>),
    Alt(Vec<Path>),
    Star(Box<Path>),
    Plus(Box<Path>),
    Opt(Box<Path>),
}
impl Path {
    pub fn ttl(&self) -> String {
        let l = |v: &Vec<Path>| format!("( {} )", v.iter().map(|p| p.ttl()).collect::<Vec<_>>().join(" "));
        match self {
            Path::P(p) => format!("<{p}>"),
            Path::Inv(p) => format!("[ sh:inversePath {} ]", p.ttl()),
            Path::Seq(v) => l(v),
            Path::Alt(v) => format!("[ sh:alternativePath {} ]", l(v)),
            Path::Star(p) => format!("[ sh:zeroOrMorePath {} ]", p.ttl()),
            Path::Plus(p) => format!("[ sh:oneOrMorePath {} ]", p.ttl()),
            Path::Opt(p) => format!("[ sh:zeroOrOnePath {} ]", p.ttl()),
        }
    }
    /// SPARQL property path syntax
    pub fn sparql(&self) -> String {
        match self {
            Path::P(p) => format!("<{p}>"),
            Path::Inv(p) => format!("(^{})", p.sparql()),
            Path::Seq(v) => format!("({})", v.iter().map(|p| p.sparql()).collect::<Vec<_>>().join("/")),
            Path::Alt(v) => format!("({})", v.iter().map(|p| p.sparql()).collect::<Vec<_>>().join("|")),
            Path::Star(p) => format!("({}*)", p.sparql()),
            Path::Plus(p) => format!("({}+)", p.sparql()),
            Path::Opt(p) => format!("({}?)", p.sparql()),
        }
    }
    /// canonical form used to compare paths
    pub fn canon(&self) -> String {
        match self {
            Path::P(p) => format!("<{p}>"),
            Path::Inv(p) => format!("inv({})", p.canon()),
            Path::Seq(v) => format!("seq({})", v.iter().map(|p| p.canon()).collect::<Vec<_>>().join(",")),
            Path::Alt(v) => format!("alt({})", v.iter().map(|p| p.canon()).collect::<Vec<_>>().join(",")),
            Path::Star(p) => format!("star({})", p.canon()),
            Path::Plus(p) => format!("plus({})", p.canon()),
            Path::Opt(p) => format!("opt({})", p.canon()),
        }
    }
    /// All pairs related by the path among the given nodes
    pub fn pairs(&self, g: &G, nodes: &BTreeSet<T>) -> BTreeSet<(T, T)> {
        let compose = |a: &BTreeSet<(T, T)>, b: &BTreeSet<(T, T)>| -> BTreeSet<(T, T)> {
            let mut o = BTreeSet::new();
            for (x, y) in a {
                for (y2, z) in b {
                    if y == y2 {
                        o.insert((x.clone(), z.clone()));
                    }
                }
            }
            o
        };
        let closure = |a: BTreeSet<(T, T)>| -> BTreeSet<(T, T)> {
            let mut c = a;
            loop {
                let n: BTreeSet<_> = c.union(&compose(&c, &c)).cloned().collect();
                if n.len() == c.len() {
                    return c;
                }
                c = n;
            }
        };
        let id = || nodes.iter().map(|n| (n.clone(), n.clone())).collect::<BTreeSet<_>>();
        match self {
            Path::P(p) => g.t.iter().filter(|t| &t.1 == p).map(|t| (t.0.clone(), t.2.clone())).collect(),
            Path::Inv(p) => p.pairs(g, nodes).into_iter().map(|(a, b)| (b, a)).collect(),
            Path::Seq(v) => v.iter().skip(1).fold(v[0].pairs(g, nodes), |a, p| compose(&a, &p.pairs(g, nodes))),
            Path::Alt(v) => v.iter().flat_map(|p| p.pairs(g, nodes)).collect(),
            Path::Star(p) => closure(p.pairs(g, nodes)).union(&id()).cloned().collect(),
            Path::Plus(p) => closure(p.pairs(g, nodes)),
            Path::Opt(p) => p.pairs(g, nodes).union(&id()).cloned().collect(),
        }
    }
    pub fn values(&self, g: &G, n: &T) -> BTreeSet<T> {
        let mut nodes = g.nodes();
        nodes.insert(n.clone());
        self.pairs(g, &nodes).into_iter().filter(|(a, _)| a == n).map(|(_, b)| b).collect()
    }
}
pub fn gen_path(r: &mut Rng, preds: &[String], depth: usize) -> Path {
    if depth == 0 || r.chance(45) {
        return Path::P(r.pick(preds).clone());
    }
    let many = |r: &mut Rng| (0..2 + r.below(2)).map(|_| gen_path(r, preds, depth - 1)).collect::<Vec<_>>();
    match r.below(7) {
        0 | 1 => Path::Inv(Box::new(gen_path(r, preds, depth - 1))),
        2 => Path::Seq(many(r)),
        3 => Path::Alt(many(r)),
        4 => Path::Star(Box::new(gen_path(r, preds, depth - 1))),
        5 => Path::Plus(Box::new(gen_path(r, preds, depth - 1))),
        _ => Path::Opt(Box::new(gen_path(r, preds, depth - 1))),
    }
}

#[derive(Clone, Debug)]
pub enum Tgt {
    Node(T),
    Class(String),
    Subj(String),
    Obj(String),
    Implicit,
}
#[derive(Clone, Debug)]
pub enum C {
    Class(String),
    Dt(String),
    Kind(&'static str),
    MinCount(usize),
    MaxCount(usize),
    MinExc(T),
    MinInc(T),
    MaxExc(T),
    MaxInc(T),
    MinLen(usize),
    MaxLen(usize),
    Pat(String, String),
    LangIn(Vec<String>),
    UniqueLang(bool),
    Equals(String),
    Disjoint(String),
    LessThan(String),
    LessEq(String),
    Not(usize),
    And(Vec<usize>),
    Or(Vec<usize>),
    Xone(Vec<usize>),
    Node(usize),
    Prop(usize),
    Qual { s: usize, min: Option<usize>, max: Option<usize>, disj: bool },
    Closed(bool, Vec<String>),
    HasValue(T),
    In(Vec<T>),
}
#[derive(Clone, Debug)]
pub struct S {
    /// an IRI, or `_:label`
    pub name: String,
    pub path: Option<Path>,
    pub cs: Vec<C>,
    pub targets: Vec<Tgt>,
    pub sev: Option<&'static str>,
    pub deact: bool,
    pub msg: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct SG {
    pub shapes: Vec<S>,
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Res {
    pub focus: T,
    pub path: Option<String>,
    pub value: Option<T>,
    pub comp: String,
    pub source: String,
    pub sev: String,
}
impl Res {
    pub fn show(&self) -> String {
        format!(
            "{} path={} value={} {} source={} {}",
            self.focus.nt(),
            self.path.as_deref().unwrap_or("-"),
            self.value.as_ref().map(|v| v.nt()).unwrap_or("-".into()),
            self.comp,
            self.source,
            self.sev
        )
    }
}
impl S {
    fn id(&self) -> String {
        if self.name.starts_with("_:") { self.name.clone() } else { format!("<{}>", self.name) }
    }
}
impl SG {
    pub fn ttl(&self, r: &mut Rng) -> String {
        let mut o = String::from("@prefix sh: <http://www.w3.org/ns/shacl#> .\n@prefix rdfs: <http://www.w3.org/2000/01/rdf-schema#> .\n");
        let mut order: Vec<usize> = (0..self.shapes.len()).collect();
        r.shuffle(&mut order);
        for i in order {
            o.push_str(&self.shape_ttl(i, r));
        }
        o
    }
    fn shape_ttl(&self, i: usize, r: &mut Rng) -> String {
        let s = &self.shapes[i];
        let id = |k: &usize| self.shapes[*k].id();
        let list = |v: &Vec<usize>| format!("( {} )", v.iter().map(id).collect::<Vec<_>>().join(" "));
        let mut po: Vec<String> = Vec::new();
        // whether an untyped shape that is a class is an implicit target is left open
        let implicit = s.targets.iter().any(|t| matches!(t, Tgt::Implicit));
        let bn_typed = implicit || !s.name.starts_with("_:") || r.chance(50);
        match &s.path {
            Some(p) => {
                if implicit || bn_typed && r.chance(70) {
                    po.push("a sh:PropertyShape".into());
                }
                po.push(format!("sh:path {}", p.ttl()));
            },
            None => {
                if bn_typed {
                    po.push("a sh:NodeShape".into());
                }
            },
        }
        for t in &s.targets {
            po.push(match t {
                Tgt::Node(t) => format!("sh:targetNode {}", t.nt()),
                Tgt::Class(c) => format!("sh:targetClass <{c}>"),
                Tgt::Subj(c) => format!("sh:targetSubjectsOf <{c}>"),
                Tgt::Obj(c) => format!("sh:targetObjectsOf <{c}>"),
                Tgt::Implicit => "a rdfs:Class".into(),
            });
        }
        if let Some(v) = s.sev {
            po.push(format!("sh:severity sh:{v}"));
        }
        if s.deact {
            po.push("sh:deactivated true".into());
        }
        if let Some(m) = &s.msg {
            po.push(format!("sh:message {}", quote(m)));
        }
        for c in &s.cs {
            po.push(match c {
                C::Class(c) => format!("sh:class <{c}>"),
                C::Dt(d) => format!("sh:datatype <{d}>"),
                C::Kind(k) => format!("sh:nodeKind sh:{k}"),
                C::MinCount(n) => format!("sh:minCount {n}"),
                C::MaxCount(n) => format!("sh:maxCount {n}"),
                C::MinExc(t) => format!("sh:minExclusive {}", t.nt()),
                C::MinInc(t) => format!("sh:minInclusive {}", t.nt()),
                C::MaxExc(t) => format!("sh:maxExclusive {}", t.nt()),
                C::MaxInc(t) => format!("sh:maxInclusive {}", t.nt()),
                C::MinLen(n) => format!("sh:minLength {n}"),
                C::MaxLen(n) => format!("sh:maxLength {n}"),
                C::Pat(p, f) if f.is_empty() => format!("sh:pattern {}", quote(p)),
                C::Pat(p, f) => format!("sh:pattern {} ; sh:flags {}", quote(p), quote(f)),
                C::LangIn(v) => format!("sh:languageIn ( {} )", v.iter().map(|x| quote(x)).collect::<Vec<_>>().join(" ")),
                C::UniqueLang(b) => format!("sh:uniqueLang {b}"),
                C::Equals(p) => format!("sh:equals <{p}>"),
                C::Disjoint(p) => format!("sh:disjoint <{p}>"),
                C::LessThan(p) => format!("sh:lessThan <{p}>"),
                C::LessEq(p) => format!("sh:lessThanOrEquals <{p}>"),
                C::Not(k) => format!("sh:not {}", id(k)),
                C::And(v) => format!("sh:and {}", list(v)),
                C::Or(v) => format!("sh:or {}", list(v)),
                C::Xone(v) => format!("sh:xone {}", list(v)),
                C::Node(k) => format!("sh:node {}", id(k)),
                C::Prop(k) => format!("sh:property {}", id(k)),
                C::Qual { s, min, max, disj } => {
                    let mut x = format!("sh:qualifiedValueShape {}", id(s));
                    if let Some(n) = min {
                        x += &format!(" ; sh:qualifiedMinCount {n}");
                    }
                    if let Some(n) = max {
                        x += &format!(" ; sh:qualifiedMaxCount {n}");
                    }
                    if *disj {
                        x += " ; sh:qualifiedValueShapesDisjoint true";
                    }
                    x
                },
                C::Closed(b, ig) => {
                    let mut x = format!("sh:closed {b}");
                    if !ig.is_empty() {
                        x += &format!(" ; sh:ignoredProperties ( {} )", ig.iter().map(|p| format!("<{p}>")).collect::<Vec<_>>().join(" "));
                    }
                    x
                },
                C::HasValue(t) => format!("sh:hasValue {}", t.nt()),
                C::In(v) => format!("sh:in ( {} )", v.iter().map(|t| t.nt()).collect::<Vec<_>>().join(" ")),
            });
        }
        r.shuffle(&mut po);
        if po.is_empty() {
            return String::new();
        }
        format!("{} {} .\n", s.id(), po.join(" ;\n    "))
    }
    /// The reference result set; None when some needed comparison is left open by the recommendation
    pub fn report(&self, g: &G) -> Option<BTreeSet<Res>> {
        let ev = Ev { sg: self, g, undecided: false.into() };
        let mut out = Vec::new();
        for (i, s) in self.shapes.iter().enumerate() {
            let mut focus: BTreeSet<T> = BTreeSet::new();
            for t in &s.targets {
                match t {
                    Tgt::Node(n) => {
                        focus.insert(n.clone());
                    },
                    Tgt::Class(c) => focus.extend(ev.instances(c)),
                    Tgt::Implicit => focus.extend(ev.instances(&s.name)),
                    Tgt::Subj(p) => focus.extend(g.t.iter().filter(|t| &t.1 == p).map(|t| t.0.clone())),
                    Tgt::Obj(p) => focus.extend(g.t.iter().filter(|t| &t.1 == p).map(|t| t.2.clone())),
                }
            }
            for f in focus {
                ev.validate(i, &f, &mut out);
            }
        }
        if ev.undecided.get() { None } else { Some(out.into_iter().collect()) }
    }
}
struct Ev<'a> {
    sg: &'a SG,
    g: &'a G,
    undecided: std::cell::Cell<bool>,
}
impl Ev<'_> {
    fn instances(&self, c: &str) -> Vec<T> {
        let mut classes = BTreeSet::from([T::iri(c)]);
        loop {
            let n: Vec<T> = classes.iter().flat_map(|c| self.g.subjs(&format!("{RDFS}subClassOf"), c)).collect();
            let before = classes.len();
            classes.extend(n);
            if classes.len() == before {
                break;
            }
        }
        classes.iter().flat_map(|c| self.g.subjs(&rdf("type"), c)).collect()
    }
    fn conforms(&self, i: usize, n: &T) -> bool {
        let mut v = Vec::new();
        self.validate(i, n, &mut v);
        v.is_empty()
    }
    fn siblings(&self, q: usize, own: usize) -> BTreeSet<usize> {
        let mut o = BTreeSet::new();
        for s in &self.sg.shapes {
            if s.cs.iter().any(|c| matches!(c, C::Prop(k) if *k == q)) {
                for c in &s.cs {
                    if let C::Prop(k) = c {
                        for d in &self.sg.shapes[*k].cs {
                            if let C::Qual { s, .. } = d {
                                o.insert(*s);
                            }
                        }
                    }
                }
            }
        }
        o.remove(&own);
        o
    }
    fn validate(&self, i: usize, f: &T, out: &mut Vec<Res>) {
        let s = &self.sg.shapes[i];
        if s.deact {
            return;
        }
        let vals: BTreeSet<T> = match &s.path {
            None => BTreeSet::from([f.clone()]),
            Some(p) => p.values(self.g, f),
        };
        let path = s.path.as_ref().map(|p| p.canon());
        let res = |comp: &str, value: Option<&T>| Res {
            focus: f.clone(),
            path: path.clone(),
            value: value.cloned(),
            comp: comp.to_string(),
            source: s.name.clone(),
            sev: s.sev.unwrap_or("Violation").to_string(),
        };
        let und = |o: Option<bool>| -> bool {
            o.unwrap_or_else(|| {
                self.undecided.set(true);
                true
            })
        };
        for c in &s.cs {
            // per value node checks
            let each = |out: &mut Vec<Res>, comp: &str, ok: &dyn Fn(&T) -> bool| {
                for v in &vals {
                    if !ok(v) {
                        out.push(res(comp, Some(v)));
                    }
                }
            };
            match c {
                C::Class(c) => {
                    let ins = self.instances(c);
                    each(out, "Class", &|v| ins.contains(v));
                },
                C::Dt(d) => each(out, "Datatype", &|v| match v {
                    T::Lit { lex, dt, lang } => {
                        dt == d && lang.is_some() == (*d == rdf("langString")) && (lang.is_some() || !dt.starts_with(XSD) || und(valid_lex(dt, lex)))
                    },
                    _ => false,
                }),
                C::Kind(k) => each(out, "NodeKind", &|v| match v {
                    T::Iri(_) => k.contains("IRI"),
                    T::B(_) => k.contains("BlankNode"),
                    T::Lit { .. } => k.contains("Literal"),
                }),
                C::MinCount(n) => {
                    if vals.len() < *n {
                        out.push(res("MinCount", None));
                    }
                },
                C::MaxCount(n) => {
                    if vals.len() > *n {
                        out.push(res("MaxCount", None));
                    }
                },
                C::MinExc(b) => each(out, "MinExclusive", &|v| cmp(v, b).is_some_and(|o| o.is_gt())),
                C::MinInc(b) => each(out, "MinInclusive", &|v| cmp(v, b).is_some_and(|o| o.is_ge())),
                C::MaxExc(b) => each(out, "MaxExclusive", &|v| cmp(v, b).is_some_and(|o| o.is_lt())),
                C::MaxInc(b) => each(out, "MaxInclusive", &|v| cmp(v, b).is_some_and(|o| o.is_le())),
                C::MinLen(n) => each(out, "MinLength", &|v| strf(v).is_some_and(|x| x.chars().count() >= *n)),
                C::MaxLen(n) => each(out, "MaxLength", &|v| strf(v).is_some_and(|x| x.chars().count() <= *n)),
                C::Pat(p, fl) => {
                    let re = regex::RegexBuilder::new(p)
                        .case_insensitive(fl.contains('i'))
                        .dot_matches_new_line(fl.contains('s'))
                        .multi_line(fl.contains('m'))
                        .build()
                        .unwrap();
                    each(out, "Pattern", &|v| strf(v).is_some_and(|x| re.is_match(&x)))
                },
                C::LangIn(ls) => each(out, "LanguageIn", &|v| match v {
                    T::Lit { lang: Some(l), .. } => ls.iter().any(|x| {
                        let (l, x) = (l.to_lowercase(), x.to_lowercase());
                        l == x || l.starts_with(&format!("{x}-"))
                    }),
                    _ => false,
                }),
                C::UniqueLang(true) => {
                    let mut m: BTreeMap<String, usize> = BTreeMap::new();
                    for v in &vals {
                        if let T::Lit { lang: Some(l), .. } = v {
                            *m.entry(l.to_lowercase()).or_default() += 1;
                        }
                    }
                    // one result per language; they carry no value
                    if m.values().any(|n| *n > 1) {
                        out.push(res("UniqueLang", None));
                    }
                },
                C::UniqueLang(false) => {},
                C::Equals(p) => {
                    let o: BTreeSet<T> = self.g.objs(f, p).into_iter().collect();
                    for v in vals.symmetric_difference(&o) {
                        out.push(res("Equals", Some(v)));
                    }
                },
                C::Disjoint(p) => {
                    let o = self.g.objs(f, p);
                    each(out, "Disjoint", &|v| !o.contains(v));
                },
                C::LessThan(p) => {
                    for o in self.g.objs(f, p) {
                        each(out, "LessThan", &|v| self.lcmp(v, &o).is_some_and(|x| x.is_lt()));
                    }
                },
                C::LessEq(p) => {
                    for o in self.g.objs(f, p) {
                        each(out, "LessThanOrEquals", &|v| self.lcmp(v, &o).is_some_and(|x| x.is_le()));
                    }
                },
                C::Not(k) => each(out, "Not", &|v| !self.conforms(*k, v)),
                C::And(ks) => each(out, "And", &|v| ks.iter().all(|k| self.conforms(*k, v))),
                C::Or(ks) => each(out, "Or", &|v| ks.iter().any(|k| self.conforms(*k, v))),
                C::Xone(ks) => each(out, "Xone", &|v| ks.iter().filter(|k| self.conforms(**k, v)).count() == 1),
                C::Node(k) => each(out, "Node", &|v| self.conforms(*k, v)),
                C::Prop(k) => {
                    for v in &vals {
                        self.validate(*k, v, out);
                    }
                },
                C::Qual { s, min, max, disj } => {
                    let sib = if *disj { self.siblings(i, *s) } else { BTreeSet::new() };
                    let n = vals.iter().filter(|v| self.conforms(*s, v) && !sib.iter().any(|k| self.conforms(*k, v))).count();
                    if min.is_some_and(|m| n < m) {
                        out.push(res("QualifiedMinCount", None));
                    }
                    if max.is_some_and(|m| n > m) {
                        out.push(res("QualifiedMaxCount", None));
                    }
                },
                C::Closed(true, ig) => {
                    let mut allowed: BTreeSet<String> = ig.iter().cloned().collect();
                    for c in &s.cs {
                        if let C::Prop(k) = c
                            && let Some(Path::P(p)) = &self.sg.shapes[*k].path
                        {
                            allowed.insert(p.clone());
                        }
                    }
                    for v in &vals {
                        for t in self.g.out(v) {
                            if !allowed.contains(&t.1) {
                                let mut x = res("Closed", Some(&t.2));
                                x.path = Some(format!("<{}>", t.1));
                                out.push(x);
                            }
                        }
                    }
                },
                C::Closed(false, _) => {},
                C::HasValue(t) => {
                    if !vals.contains(t) {
                        out.push(res("HasValue", None));
                    }
                },
                C::In(ts) => each(out, "In", &|v| ts.contains(v)),
            }
        }
    }
}
fn strf(v: &T) -> Option<String> {
    match v {
        T::Iri(i) => Some(i.clone()),
        T::Lit { lex, .. } => Some(lex.clone()),
        T::B(_) => None,
    }
}
impl Ev<'_> {
    /// the order of strings in the same language is an extension of SPARQL
    fn lcmp(&self, a: &T, b: &T) -> Option<Ordering> {
        if let (T::Lit { lang: Some(x), .. }, T::Lit { lang: Some(y), .. }) = (a, b)
            && x.eq_ignore_ascii_case(y)
        {
            self.undecided.set(true);
        }
        // so is the one of literals of the same unsupported datatype, or ill-typed
        if let (T::Lit { dt: x, lang: None, .. }, T::Lit { dt: y, lang: None, .. }) = (a, b)
            && x == y
            && cmp(a, b).is_none()
        {
            self.undecided.set(true);
        }
        cmp(a, b)
    }
}
/// SPARQL `<`-comparability of two terms
pub fn cmp(a: &T, b: &T) -> Option<Ordering> {
    let (T::Lit { lex: la, dt: da, lang: None }, T::Lit { lex: lb, dt: db, lang: None }) = (a, b) else { return None };
    let (sa, sb) = (da.strip_prefix(XSD)?, db.strip_prefix(XSD)?);
    if is_num_dt(da) && is_num_dt(db) {
        if valid_lex(da, la) != Some(true) || valid_lex(db, lb) != Some(true) {
            return None;
        }
        return Some(dcmp(&dec(la)?, &dec(lb)?));
    }
    match (sa, sb) {
        ("string", "string") => Some(la.cmp(lb)),
        ("boolean", "boolean") => {
            let f = |x: &str| match x {
                "true" | "1" => Some(1),
                "false" | "0" => Some(0),
                _ => None,
            };
            Some(f(la)?.cmp(&f(lb)?))
        },
        // the workload only uses UTC with the same precision
        ("dateTime", "dateTime") if valid_lex(da, la) == Some(true) && valid_lex(db, lb) == Some(true) => Some(la.cmp(lb)),
        _ => None,
    }
}
pub fn component_name(iri: &str) -> String {
    iri.strip_prefix(SH).unwrap_or(iri).trim_end_matches("ConstraintComponent").to_string()
}
