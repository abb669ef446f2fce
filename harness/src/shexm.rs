//! ShEx model: generator target, ShExC / ShExJ writers and a reference evaluator
//! written from the ShEx 2.1 specification.
use crate::fw::Rng;
use crate::term::*;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum SE {
    And(Vec<SE>),
    Or(Vec<SE>),
    Not(Box<SE>),
    Ref(String),
    NC(NC),
    Shape(Sh),
    Any,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Sh {
    pub closed: bool,
    pub extra: Vec<String>,
    pub te: Option<TE>,
    pub extends: Vec<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct TC {
    pub inv: bool,
    pub pred: String,
    pub ve: Option<Box<SE>>,
    pub min: u32,
    pub max: Option<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum TE {
    TC(TC),
    Each(Vec<TE>, u32, Option<u32>),
    One(Vec<TE>, u32, Option<u32>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Iri,
    BNode,
    NonLit,
    Lit,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Facet {
    Len(usize),
    MinLen(usize),
    MaxLen(usize),
    Pat(String, String),
    /// lexical form of a decimal number
    MinInc(String),
    MinExc(String),
    MaxInc(String),
    MaxExc(String),
    Total(usize),
    Frac(usize),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Excl {
    pub val: String,
    pub stem: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum VV {
    Term(T),
    Lang(String),
    IriStem(String, Vec<Excl>),
    LitStem(String, Vec<Excl>),
    LangStem(String, Vec<Excl>),
    IriAny(Vec<Excl>),
    LitAny(Vec<Excl>),
    LangAny(Vec<Excl>),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct NC {
    pub kind: Option<Kind>,
    pub dt: Option<String>,
    pub values: Option<Vec<VV>>,
    pub facets: Vec<Facet>,
}
#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub shapes: Vec<(String, SE)>,
    pub start: Option<SE>,
    pub abstracts: BTreeSet<String>,
}

// ---------------------------------------------------------------- ShExC
pub struct Style<'a> {
    pub r: &'a mut Rng,
    /// use prefixed names
    pub prefixes: bool,
}
fn ci(i: &str, st: &mut Style) -> String {
    if st.prefixes {
        for (p, ns) in [("", EX), ("xsd", XSD), ("rdf", RDF)] {
            if let Some(l) = i.strip_prefix(ns)
                && !l.is_empty()
                && l.chars().all(|c| c.is_ascii_alphanumeric())
                && st.r.chance(70)
            {
                return format!("{p}:{l}");
            }
        }
    }
    format!("<{i}>")
}
fn cterm(t: &T, st: &mut Style) -> String {
    match t {
        T::Iri(i) => ci(i, st),
        T::Lit { lex, dt, lang: None } if *dt != xsd("string") => {
            if *dt == xsd("integer") && lex.chars().all(|c| c.is_ascii_digit()) && !lex.is_empty() && st.r.chance(50) {
                lex.clone()
            } else {
                format!("{}^^{}", quote(lex), ci(dt, st))
            }
        },
        t => t.nt(),
    }
}
fn excls(e: &[Excl], f: impl Fn(&str) -> String) -> String {
    e.iter().map(|x| format!(" - {}{}", f(&x.val), if x.stem { "~" } else { "" })).collect()
}
impl NC {
    pub fn is_empty(&self) -> bool {
        self.kind.is_none() && self.dt.is_none() && self.values.is_none() && self.facets.is_empty()
    }
    fn non_lit(&self) -> bool {
        self.dt.is_none()
            && self.values.is_none()
            && !matches!(self.kind, Some(Kind::Lit))
            && !self.facets.iter().any(|f| !matches!(f, Facet::Len(_) | Facet::MinLen(_) | Facet::MaxLen(_) | Facet::Pat(..)))
    }
    fn c(&self, st: &mut Style) -> String {
        let mut o = Vec::new();
        if let Some(k) = self.kind {
            o.push(match k {
                Kind::Iri => "IRI".to_string(),
                Kind::BNode => "BNODE".into(),
                Kind::NonLit => "NONLITERAL".into(),
                Kind::Lit => "LITERAL".into(),
            });
        }
        if let Some(d) = &self.dt {
            o.push(ci(d, st));
        }
        if let Some(vs) = &self.values {
            let items: Vec<String> = vs
                .iter()
                .map(|v| match v {
                    VV::Term(t) => cterm(t, st),
                    VV::Lang(l) => format!("@{l}"),
                    VV::IriStem(s, e) => format!("<{s}>~{}", excls(e, |x| format!("<{x}>"))),
                    VV::LitStem(s, e) => format!("{}~{}", quote(s), excls(e, quote)),
                    VV::LangStem(s, e) => format!("@{s}~{}", excls(e, |x| format!("@{x}"))),
                    VV::IriAny(e) => format!(".{}", excls(e, |x| format!("<{x}>"))),
                    VV::LitAny(e) => format!(".{}", excls(e, quote)),
                    VV::LangAny(e) => format!(".{}", excls(e, |x| format!("@{x}"))),
                })
                .collect();
            o.push(format!("[{}]", items.join(" ")));
        }
        for f in &self.facets {
            o.push(match f {
                Facet::Len(n) => format!("LENGTH {n}"),
                Facet::MinLen(n) => format!("MINLENGTH {n}"),
                Facet::MaxLen(n) => format!("MAXLENGTH {n}"),
                Facet::Pat(p, fl) => format!("/{}/{fl}", p.replace('/', "\\/")),
                Facet::MinInc(x) => format!("MININCLUSIVE {x}"),
                Facet::MinExc(x) => format!("MINEXCLUSIVE {x}"),
                Facet::MaxInc(x) => format!("MAXINCLUSIVE {x}"),
                Facet::MaxExc(x) => format!("MAXEXCLUSIVE {x}"),
                Facet::Total(n) => format!("TOTALDIGITS {n}"),
                Facet::Frac(n) => format!("FRACTIONDIGITS {n}"),
            });
        }
        o.join(" ")
    }
    fn j(&self) -> Value {
        let mut m = serde_json::Map::new();
        m.insert("type".into(), json!("NodeConstraint"));
        if let Some(k) = self.kind {
            m.insert(
                "nodeKind".into(),
                json!(match k {
                    Kind::Iri => "iri",
                    Kind::BNode => "bnode",
                    Kind::NonLit => "nonliteral",
                    Kind::Lit => "literal",
                }),
            );
        }
        if let Some(d) = &self.dt {
            m.insert("datatype".into(), json!(d));
        }
        let num = |x: &str| -> Value { serde_json::from_str(x).unwrap_or(json!(x)) };
        for f in &self.facets {
            let (k, v) = match f {
                Facet::Len(n) => ("length", json!(n)),
                Facet::MinLen(n) => ("minlength", json!(n)),
                Facet::MaxLen(n) => ("maxlength", json!(n)),
                Facet::Pat(p, fl) => {
                    if !fl.is_empty() {
                        m.insert("flags".into(), json!(fl));
                    }
                    ("pattern", json!(p))
                },
                Facet::MinInc(x) => ("mininclusive", num(x)),
                Facet::MinExc(x) => ("minexclusive", num(x)),
                Facet::MaxInc(x) => ("maxinclusive", num(x)),
                Facet::MaxExc(x) => ("maxexclusive", num(x)),
                Facet::Total(n) => ("totaldigits", json!(n)),
                Facet::Frac(n) => ("fractiondigits", json!(n)),
            };
            m.insert(k.into(), v);
        }
        if let Some(vs) = &self.values {
            let ex = |ty: &str, e: &[Excl]| -> Value {
                json!(e.iter().map(|x| if x.stem { json!({"type": ty, "stem": x.val}) } else { json!(x.val) }).collect::<Vec<_>>())
            };
            let range = |ty: &str, stem: Value, e: &[Excl]| -> Value {
                if e.is_empty() && stem.is_string() {
                    json!({"type": ty, "stem": stem})
                } else {
                    json!({"type": format!("{ty}Range"), "stem": stem, "exclusions": ex(ty, e)})
                }
            };
            let wild = json!({"type": "Wildcard"});
            let v: Vec<Value> = vs
                .iter()
                .map(|v| match v {
                    VV::Term(T::Iri(i)) => json!(i),
                    VV::Term(T::Lit { lex, lang: Some(l), .. }) => json!({"value": lex, "language": l}),
                    VV::Term(T::Lit { lex, dt, .. }) if *dt == xsd("string") => json!({"value": lex}),
                    VV::Term(T::Lit { lex, dt, .. }) => json!({"value": lex, "type": dt}),
                    VV::Term(T::B(_)) => json!(null),
                    VV::Lang(l) => json!({"type": "Language", "languageTag": l}),
                    VV::IriStem(s, e) => range("IriStem", json!(s), e),
                    VV::LitStem(s, e) => range("LiteralStem", json!(s), e),
                    VV::LangStem(s, e) => range("LanguageStem", json!(s), e),
                    VV::IriAny(e) => range("IriStem", wild.clone(), e),
                    VV::LitAny(e) => range("LiteralStem", wild.clone(), e),
                    VV::LangAny(e) => range("LanguageStem", wild.clone(), e),
                })
                .collect();
            m.insert("values".into(), json!(v));
        }
        Value::Object(m)
    }
}
fn card(min: u32, max: Option<u32>, r: &mut Rng) -> String {
    match (min, max) {
        (1, Some(1)) => if r.chance(85) { String::new() } else { "{1}".into() },
        (0, Some(1)) => if r.chance(70) { "?".into() } else { "{0,1}".into() },
        (0, None) => if r.chance(70) { "*".into() } else { "{0,}".into() },
        (1, None) => if r.chance(70) { "+".into() } else { "{1,*}".into() },
        (a, None) => format!("{{{a},}}"),
        (a, Some(b)) if a == b => format!("{{{a}}}"),
        (a, Some(b)) => format!("{{{a},{b}}}"),
    }
}
impl TE {
    fn c(&self, st: &mut Style) -> String {
        match self {
            TE::TC(t) => {
                let p = if t.pred == rdf("type") && st.r.chance(60) { "a".to_string() } else { ci(&t.pred, st) };
                let ve = match &t.ve {
                    None => ".".to_string(),
                    Some(e) => e.c_atom(st),
                };
                format!("{}{} {} {}", if t.inv { "^" } else { "" }, p, ve, card(t.min, t.max, st.r))
            },
            TE::Each(v, a, b) => {
                let items: Vec<String> = v.iter().map(|x| x.c_group(st)).collect();
                format!("({}){}", items.join(" ; "), card(*a, *b, st.r))
            },
            TE::One(v, a, b) => {
                let items: Vec<String> = v.iter().map(|x| x.c_group(st)).collect();
                format!("({}){}", items.join(" | "), card(*a, *b, st.r))
            },
        }
    }
    fn c_group(&self, st: &mut Style) -> String {
        self.c(st)
    }
    fn c_top(&self, st: &mut Style) -> String {
        match self {
            TE::Each(v, 1, Some(1)) if v.len() > 1 => {
                let items: Vec<String> = v.iter().map(|x| x.c_group(st)).collect();
                format!("{}{}", items.join(" ;\n    "), if st.r.chance(40) { " ;" } else { "" })
            },
            TE::One(v, 1, Some(1)) if v.len() > 1 => {
                let items: Vec<String> = v.iter().map(|x| x.c_group(st)).collect();
                items.join(" |\n    ")
            },
            t => t.c(st),
        }
    }
    fn j(&self) -> Value {
        let mut v = match self {
            TE::TC(t) => {
                let mut m = json!({"type": "TripleConstraint", "predicate": t.pred});
                if t.inv {
                    m["inverse"] = json!(true);
                }
                if let Some(e) = &t.ve {
                    m["valueExpr"] = e.j();
                }
                m
            },
            TE::Each(v, ..) => json!({"type": "EachOf", "expressions": v.iter().map(|x| x.j()).collect::<Vec<_>>()}),
            TE::One(v, ..) => json!({"type": "OneOf", "expressions": v.iter().map(|x| x.j()).collect::<Vec<_>>()}),
        };
        let (a, b) = self.card();
        if (a, b) != (1, Some(1)) {
            v["min"] = json!(a);
            v["max"] = json!(b.map(|x| x as i64).unwrap_or(-1));
        }
        v
    }
    pub fn card(&self) -> (u32, Option<u32>) {
        match self {
            TE::TC(t) => (t.min, t.max),
            TE::Each(_, a, b) | TE::One(_, a, b) => (*a, *b),
        }
    }
    pub fn tcs<'a>(&'a self, out: &mut Vec<&'a TC>) {
        match self {
            TE::TC(t) => out.push(t),
            TE::Each(v, ..) | TE::One(v, ..) => v.iter().for_each(|x| x.tcs(out)),
        }
    }
}
impl Sh {
    fn c(&self, st: &mut Style) -> String {
        let mut o = String::new();
        for e in &self.extends {
            o.push_str(&format!("EXTENDS @{} ", ci(e, st)));
        }
        if self.closed {
            o.push_str("CLOSED ");
        }
        if !self.extra.is_empty() {
            o.push_str("EXTRA ");
            for e in &self.extra {
                o.push_str(&ci(e, st));
                o.push(' ');
            }
        }
        match &self.te {
            None => o.push_str("{ }"),
            Some(t) => {
                o.push_str("{ ");
                o.push_str(&t.c_top(st));
                o.push_str(" }");
            },
        }
        o
    }
    fn j(&self) -> Value {
        let mut m = json!({"type": "Shape"});
        if self.closed {
            m["closed"] = json!(true);
        }
        if !self.extra.is_empty() {
            m["extra"] = json!(self.extra);
        }
        if !self.extends.is_empty() {
            m["extends"] = json!(self.extends);
        }
        if let Some(t) = &self.te {
            m["expression"] = t.j();
        }
        m
    }
}
impl SE {
    pub fn c(&self, st: &mut Style) -> String {
        match self {
            SE::And(v) => {
                // non-literal constraint followed by a shape may be juxtaposed
                if let [SE::NC(n), SE::Shape(s)] = &v[..]
                    && n.non_lit()
                    && !n.is_empty()
                    && s.extends.is_empty()
                    && st.r.chance(50)
                {
                    return format!("{} {}", n.c(st), s.c(st));
                }
                v.iter().map(|x| x.c_atom(st)).collect::<Vec<_>>().join(" AND ")
            },
            SE::Or(v) => v
                .iter()
                .map(|x| match x {
                    SE::And(_) if st.r.chance(50) => x.c(st),
                    x => x.c_atom(st),
                })
                .collect::<Vec<_>>()
                .join(" OR "),
            SE::Not(x) => format!("NOT {}", x.c_atom_no_not(st)),
            x => x.c_atom(st),
        }
    }
    fn c_atom_no_not(&self, st: &mut Style) -> String {
        match self {
            SE::Not(_) => format!("({})", self.c(st)),
            x => x.c_atom(st),
        }
    }
    fn c_atom(&self, st: &mut Style) -> String {
        match self {
            SE::And(_) | SE::Or(_) => format!("({})", self.c(st)),
            SE::Not(_) => {
                if st.r.chance(50) {
                    self.c(st)
                } else {
                    format!("({})", self.c(st))
                }
            },
            SE::Ref(l) => format!("@{}", ci(l, st)),
            SE::NC(n) => {
                // parenthesised so that a following cardinality or shape cannot be absorbed
                if n.facets.is_empty() { n.c(st) } else { format!("({})", n.c(st)) }
            },
            SE::Shape(s) => s.c(st),
            SE::Any => ".".into(),
        }
    }
    pub fn j(&self) -> Value {
        match self {
            SE::And(v) => json!({"type": "ShapeAnd", "shapeExprs": v.iter().map(|x| x.j()).collect::<Vec<_>>()}),
            SE::Or(v) => json!({"type": "ShapeOr", "shapeExprs": v.iter().map(|x| x.j()).collect::<Vec<_>>()}),
            SE::Not(x) => json!({"type": "ShapeNot", "shapeExpr": x.j()}),
            SE::Ref(l) => json!(l),
            SE::NC(n) => n.j(),
            SE::Shape(s) => s.j(),
            SE::Any => json!({"type": "Shape"}),
        }
    }
    fn refs(&self, neg: bool, out: &mut Vec<(String, bool)>) {
        match self {
            SE::And(v) | SE::Or(v) => v.iter().for_each(|x| x.refs(neg, out)),
            SE::Not(x) => {
                // either polarity: treated as a strict dependency
                let mut t = Vec::new();
                x.refs(neg, &mut t);
                out.extend(t.into_iter().map(|(l, _)| (l, true)));
            },
            SE::Ref(l) => out.push((l.clone(), neg)),
            SE::Shape(s) => {
                for e in &s.extends {
                    out.push((e.clone(), neg));
                }
                if let Some(t) = &s.te {
                    let mut v = Vec::new();
                    t.tcs(&mut v);
                    for tc in v {
                        if let Some(e) = &tc.ve {
                            e.refs(neg || s.extra.contains(&tc.pred), out);
                        }
                    }
                }
            },
            _ => {},
        }
    }
}
impl Schema {
    pub fn shexc(&self, r: &mut Rng) -> String {
        let prefixes = r.chance(70);
        let mut o = String::new();
        if prefixes {
            o.push_str(&format!("PREFIX : <{EX}>\nPREFIX xsd: <{XSD}>\nPREFIX rdf: <{RDF}>\n"));
        }
        let mut st = Style { r, prefixes };
        if let Some(s) = &self.start {
            o.push_str(&format!("start = {}\n", s.c(&mut st)));
        }
        for (l, e) in &self.shapes {
            if self.abstracts.contains(l) {
                o.push_str("ABSTRACT ");
            }
            o.push_str(&format!("{} {}\n", ci(l, &mut st), e.c(&mut st)));
        }
        o
    }
    pub fn shexj(&self) -> String {
        let shapes: Vec<Value> = self
            .shapes
            .iter()
            .map(|(l, e)| {
                let mut d = json!({"type": "ShapeDecl", "id": l, "shapeExpr": e.j()});
                if self.abstracts.contains(l) {
                    d["abstract"] = json!(true);
                }
                d
            })
            .collect();
        let mut m = json!({"@context": "http://www.w3.org/ns/shex.jsonld", "type": "Schema", "shapes": shapes});
        if let Some(s) = &self.start {
            m["start"] = s.j();
        }
        serde_json::to_string(&m).unwrap()
    }
    pub fn get(&self, l: &str) -> Option<&SE> {
        self.shapes.iter().find(|s| s.0 == l).map(|s| &s.1)
    }
}

// ------------------------------------------------------------ numbers
/// An exact decimal (sign, digits, scale)
pub type Dec = (bool, Vec<u8>, i32);
pub fn dec(s: &str) -> Option<Dec> {
    let (neg, b) = match s.strip_prefix('-') {
        Some(x) => (true, x),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let (mant, e) = match b.find(['e', 'E']) {
        Some(i) => (&b[..i], b[i + 1..].parse::<i32>().ok()?),
        None => (b, 0),
    };
    let (ip, fp) = mant.split_once('.').unwrap_or((mant, ""));
    if ip.is_empty() && fp.is_empty() || !ip.chars().chain(fp.chars()).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut d: Vec<u8> = ip.bytes().chain(fp.bytes()).map(|c| c - b'0').collect();
    let mut scale = fp.len() as i32 - e;
    while d.len() > 1 && d[0] == 0 {
        d.remove(0);
    }
    while d.len() > 1 && *d.last().unwrap() == 0 {
        d.pop();
        scale -= 1;
    }
    if d == [0] {
        return Some((false, d, 0));
    }
    Some((neg, d, scale))
}
pub fn dcmp(a: &Dec, b: &Dec) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    let za = a.1 == [0];
    let zb = b.1 == [0];
    let sg = |x: &Dec, z: bool| if z { 0 } else if x.0 { -1 } else { 1 };
    let (sa, sb) = (sg(a, za), sg(b, zb));
    if sa != sb {
        return sa.cmp(&sb);
    }
    if sa == 0 {
        return Equal;
    }
    let ma = a.1.len() as i32 - a.2;
    let mb = b.1.len() as i32 - b.2;
    let m = ma.cmp(&mb).then_with(|| {
        let n = a.1.len().max(b.1.len());
        let g = |x: &Dec, i: usize| x.1.get(i).copied().unwrap_or(0);
        for i in 0..n {
            let c = g(a, i).cmp(&g(b, i));
            if c != Equal {
                return c;
            }
        }
        Equal
    });
    if sa < 0 { m.reverse() } else { m }
}
const INTS: &[(&str, Option<i128>, Option<i128>)] = &[
    ("integer", None, None),
    ("long", Some(i64::MIN as i128), Some(i64::MAX as i128)),
    ("int", Some(i32::MIN as i128), Some(i32::MAX as i128)),
    ("short", Some(i16::MIN as i128), Some(i16::MAX as i128)),
    ("byte", Some(-128), Some(127)),
    ("nonNegativeInteger", Some(0), None),
    ("positiveInteger", Some(1), None),
    ("nonPositiveInteger", None, Some(0)),
    ("negativeInteger", None, Some(-1)),
    ("unsignedLong", Some(0), Some(u64::MAX as i128)),
    ("unsignedInt", Some(0), Some(u32::MAX as i128)),
    ("unsignedShort", Some(0), Some(65535)),
    ("unsignedByte", Some(0), Some(255)),
];
pub fn is_int_dt(dt: &str) -> bool {
    dt.strip_prefix(XSD).is_some_and(|l| INTS.iter().any(|x| x.0 == l))
}
pub fn is_num_dt(dt: &str) -> bool {
    is_int_dt(dt) || ["decimal", "double", "float"].iter().any(|x| dt == xsd(x))
}
/// XSD lexical validity; None for datatypes this oracle does not know
pub fn valid_lex(dt: &str, lex: &str) -> Option<bool> {
    let l = dt.strip_prefix(XSD)?;
    if let Some((_, lo, hi)) = INTS.iter().find(|x| x.0 == l) {
        let b = lex.strip_prefix(['-', '+']).unwrap_or(lex);
        if b.is_empty() || !b.chars().all(|c| c.is_ascii_digit()) {
            return Some(false);
        }
        if b.len() > 38 {
            return None;
        }
        if l.starts_with("unsigned") && lex.starts_with(['-', '+']) {
            return None; // XSD 1.0 and 1.1 differ
        }
        let d = dec(lex)?;
        let ge = lo.is_none_or(|x| dcmp(&d, &dec(&x.to_string()).unwrap()) != std::cmp::Ordering::Less);
        let le = hi.is_none_or(|x| dcmp(&d, &dec(&x.to_string()).unwrap()) != std::cmp::Ordering::Greater);
        return Some(ge && le);
    }
    Some(match l {
        "string" => true,
        "boolean" => matches!(lex, "true" | "false" | "1" | "0"),
        // how many digits are supported is up to each implementation
        "decimal" if lex.chars().filter(|c| c.is_ascii_digit()).count() > 28 => return None,
        "decimal" => !lex.contains(['e', 'E']) && dec(lex).is_some(),
        "double" | "float" => matches!(lex, "INF" | "-INF" | "NaN") || dec(lex).is_some(),
        "dateTime" => datetime_ok(lex)?,
        _ => return None,
    })
}
/// Conservative dateTime check: None when unsure
fn datetime_ok(s: &str) -> Option<bool> {
    let re = regex::Regex::new(r"^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(\.\d{1,9})?(Z|[+-]\d\d:\d\d)?$").unwrap();
    let Some(c) = re.captures(s) else {
        return if s.chars().any(|c| c.is_alphabetic() && c != 'T' && c != 'Z') || s.len() < 10 { Some(false) } else { None };
    };
    let n = |i: usize| c[i].parse::<u32>().unwrap();
    if n(1) == 0 || n(4) == 24 {
        return None;
    }
    let dim = match n(2) {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => if n(1) % 4 == 0 && (n(1) % 100 != 0 || n(1) % 400 == 0) { 29 } else { 28 },
        _ => return Some(false),
    };
    if n(3) < 1 || n(3) > dim || n(4) > 23 || n(5) > 59 || n(6) > 59 {
        return Some(false);
    }
    if let Some(z) = c.get(8)
        && z.as_str() != "Z"
        && (z.as_str()[1..3].parse::<u32>().unwrap() > 13 || z.as_str()[4..].parse::<u32>().unwrap() > 59)
    {
        return None;
    }
    Some(true)
}

// ---------------------------------------------------- node constraints
/// None: outside what the oracle decides
pub fn nc_sat(n: &T, c: &NC) -> Option<bool> {
    if let Some(k) = c.kind {
        let ok = match k {
            Kind::Iri => n.is_iri(),
            Kind::BNode => n.is_b(),
            Kind::NonLit => !n.is_lit(),
            Kind::Lit => n.is_lit(),
        };
        if !ok {
            return Some(false);
        }
    }
    if let Some(d) = &c.dt {
        match n {
            T::Lit { lex, dt, .. } => {
                if dt != d {
                    return Some(false);
                }
                if d.starts_with(XSD) {
                    match valid_lex(dt, lex) {
                        Some(true) => {},
                        x => return x,
                    }
                }
            },
            _ => return Some(false),
        }
    }
    let mut unknown = false;
    for f in &c.facets {
        match facet(n, f) {
            Some(true) => {},
            Some(false) => return Some(false),
            None => unknown = true,
        }
    }
    if let Some(vs) = &c.values
        && !vs.iter().any(|v| vv_sat(n, v))
    {
        return Some(false);
    }
    if unknown { None } else { Some(true) }
}
fn lexical(n: &T) -> &str {
    match n {
        T::Iri(i) => i,
        T::B(b) => b,
        T::Lit { lex, .. } => lex,
    }
}
fn facet(n: &T, f: &Facet) -> Option<bool> {
    use std::cmp::Ordering::*;
    let len = lexical(n).chars().count();
    if n.is_b() && matches!(f, Facet::Len(_) | Facet::MinLen(_) | Facet::MaxLen(_) | Facet::Pat(..)) {
        return None;
    }
    let num = || -> Option<Option<Dec>> {
        // Some(None): not a number; None: undecided
        match n {
            T::Lit { lex, dt, .. } if is_num_dt(dt) => {
                match valid_lex(dt, lex) {
                    Some(true) => {},
                    Some(false) => return Some(None),
                    None => return None,
                }
                if matches!(lex.as_str(), "INF" | "-INF" | "NaN") {
                    return None;
                }
                let d = dec(lex);
                // binary floating point and very long numbers are not exact decimals
                if (dt.ends_with("double") || dt.ends_with("float"))
                    && d.as_ref().is_some_and(|d| d.1.len() > 6 || d.2 > 6 || (-20..-6).contains(&d.2))
                {
                    return None;
                }
                Some(d)
            },
            _ => Some(None),
        }
    };
    let cmp = |b: &str, ok: fn(std::cmp::Ordering) -> bool| -> Option<bool> {
        if let T::Lit { lex, dt, .. } = n
            && ["double", "float"].iter().any(|x| *dt == xsd(x))
        {
            match lex.as_str() {
                "INF" => return Some(ok(Greater)),
                "-INF" => return Some(ok(Less)),
                "NaN" => return Some(false),
                _ => {},
            }
        }
        Some(match num()? {
            None => false,
            Some(d) => ok(dcmp(&d, &dec(b)?)),
        })
    };
    Some(match f {
        Facet::Len(k) => len == *k,
        Facet::MinLen(k) => len >= *k,
        Facet::MaxLen(k) => len <= *k,
        Facet::Pat(p, fl) => {
            let mut b = regex::RegexBuilder::new(p);
            for c in fl.chars() {
                match c {
                    'i' => {
                        b.case_insensitive(true);
                    },
                    's' => {
                        b.dot_matches_new_line(true);
                    },
                    'm' => {
                        b.multi_line(true);
                    },
                    'x' => {
                        b.ignore_whitespace(true);
                    },
                    _ => return None,
                }
            }
            b.build().ok()?.is_match(lexical(n))
        },
        Facet::MinInc(x) => cmp(x, |o| o != Less)?,
        Facet::MinExc(x) => cmp(x, |o| o == Greater)?,
        Facet::MaxInc(x) => cmp(x, |o| o != Greater)?,
        Facet::MaxExc(x) => cmp(x, |o| o == Less)?,
        Facet::Total(k) | Facet::Frac(k) => {
            let T::Lit { dt, .. } = n else { return Some(false) };
            if dt.ends_with("double") || dt.ends_with("float") {
                // defined on xsd:decimal and derived types only
                return if is_num_dt(dt) { Some(false) } else { Some(false) };
            }
            match num()? {
                None => false,
                Some(d) => {
                    let frac = d.2.max(0) as usize;
                    let total = if d.1 == [0] { 1 } else { (d.1.len() as i32 + (-d.2).max(0)).max(0) as usize };
                    if matches!(f, Facet::Frac(_)) {
                        frac <= *k
                    } else {
                        // 0.05 : leading fraction zeros are not significant; implementations differ
                        if d.2 as usize > d.1.len() || (d.2 > 0 && d.2 as usize == d.1.len()) {
                            return None;
                        }
                        total <= *k
                    }
                },
            }
        },
    })
}
fn lang_stem(stem: &str, tag: &str) -> bool {
    let (s, t) = (stem.to_ascii_lowercase(), tag.to_ascii_lowercase());
    s.is_empty() || t == s || t.starts_with(&format!("{s}-"))
}
pub fn vv_sat(n: &T, v: &VV) -> bool {
    let iri_ex = |i: &str, e: &[Excl]| e.iter().any(|x| if x.stem { i.starts_with(&x.val) } else { i == x.val });
    let lang_ex = |l: &str, e: &[Excl]| e.iter().any(|x| if x.stem { lang_stem(&x.val, l) } else { l.eq_ignore_ascii_case(&x.val) });
    match v {
        VV::Term(t) => match (n, t) {
            (T::Lit { lex: a, lang: Some(l), .. }, T::Lit { lex: b, lang: Some(m), .. }) => a == b && l.eq_ignore_ascii_case(m),
            _ => n == t,
        },
        VV::Lang(l) => matches!(n, T::Lit { lang: Some(m), .. } if m.eq_ignore_ascii_case(l)),
        VV::IriStem(s, e) => matches!(n, T::Iri(i) if i.starts_with(s) && !iri_ex(i, e)),
        VV::LitStem(s, e) => matches!(n, T::Lit { lex, .. } if lex.starts_with(s) && !iri_ex(lex, e)),
        VV::LangStem(s, e) => matches!(n, T::Lit { lang: Some(l), .. } if lang_stem(s, l) && !lang_ex(l, e)),
        VV::IriAny(e) => matches!(n, T::Iri(i) if !iri_ex(i, e)),
        VV::LitAny(e) => matches!(n, T::Lit { lex, .. } if !iri_ex(lex, e)),
        VV::LangAny(e) => matches!(n, T::Lit { lang: Some(l), .. } if !lang_ex(l, e)),
    }
}

// ------------------------------------------------------ schema semantics
pub struct Oracle<'a> {
    pub s: &'a Schema,
    pub g: &'a G,
    /// incoming arcs of inverse constraints must all be matched
    pub strict_inv: bool,
    typing: BTreeMap<(T, String), bool>,
    pub undecided: bool,
    pub steps: u64,
}
pub const MAX_ARCS: usize = 12;
impl<'a> Oracle<'a> {
    /// None when the schema is not stratified
    pub fn new(s: &'a Schema, g: &'a G, strict_inv: bool, extra_nodes: &[T]) -> Option<Oracle<'a>> {
        let mut o = Oracle { s, g, strict_inv, typing: BTreeMap::new(), undecided: false, steps: 0 };
        let mut nodes: BTreeSet<T> = g.nodes();
        nodes.extend(extra_nodes.iter().cloned());
        for scc in strata(s)? {
            for l in &scc {
                for n in &nodes {
                    o.typing.insert((n.clone(), l.clone()), true);
                }
            }
            loop {
                let mut changed = false;
                for l in &scc {
                    let e = s.get(l)?;
                    for n in &nodes {
                        let k = (n.clone(), l.clone());
                        if o.typing[&k] && !(o.decl(n, l, e)) {
                            o.typing.insert(k, false);
                            changed = true;
                        }
                    }
                }
                if !changed {
                    break;
                }
            }
        }
        Some(o)
    }
    pub fn verdict(&mut self, n: &T, l: &str) -> bool {
        match self.typing.get(&(n.clone(), l.to_string())) {
            Some(b) => *b,
            None => {
                let e = self.s.get(l).cloned();
                e.is_some_and(|e| self.decl(n, l, &e))
            },
        }
    }
    /// A node conforms to a declaration by its expression, unless it is abstract, or by a shape which extends it
    fn decl(&mut self, n: &T, l: &str, e: &SE) -> bool {
        if !self.s.abstracts.contains(l) && self.sat(n, e) {
            return true;
        }
        self.s.children(l).iter().any(|c| self.typing.get(&(n.clone(), c.to_string())).copied().unwrap_or(false))
    }
    pub fn sat(&mut self, n: &T, e: &SE) -> bool {
        self.steps += 1;
        match e {
            SE::Any => true,
            SE::And(v) => v.iter().all(|x| self.sat(n, x)),
            SE::Or(v) => v.iter().any(|x| self.sat(n, x)),
            SE::Not(x) => !self.sat(n, x),
            SE::Ref(l) => self.typing.get(&(n.clone(), l.clone())).copied().unwrap_or(false),
            SE::NC(c) => match nc_sat(n, c) {
                Some(b) => b,
                None => {
                    self.undecided = true;
                    false
                },
            },
            SE::Shape(s) if !s.extends.is_empty() => self.extended(n, s),
            SE::Shape(s) => {
                let outs: Vec<Tr> = self.g.out(n).cloned().collect();
                self.shape(n, s, outs)
            },
        }
    }
    /// A constraint of an extended shape: it sees the arcs which fall on that shape
    fn sat_on(&mut self, n: &T, e: &SE, outs: &[Tr]) -> bool {
        match e {
            SE::And(v) => v.iter().all(|x| self.sat_on(n, x, outs)),
            SE::Or(v) => v.iter().any(|x| self.sat_on(n, x, outs)),
            SE::Not(x) => !self.sat_on(n, x, outs),
            SE::Shape(s) if s.extends.is_empty() => self.shape(n, s, outs.to_vec()),
            SE::NC(_) | SE::Any => self.sat(n, e),
            SE::Ref(l) if self.s.children(l).is_empty() && matches!(self.s.get(l), Some(SE::Shape(_))) => {
                let e = self.s.get(l).cloned().unwrap();
                self.sat_on(n, &e, outs)
            },
            _ => {
                self.undecided = true;
                false
            },
        }
    }
    /// Shapes that extend others: some choice of the alternatives of the parents and some partition of
    /// the arcs among the shape's expression and those of the shapes above it
    fn extended(&mut self, n: &T, s: &Sh) -> bool {
        let sch = self.s;
        let mut sels = vec![Alt { buckets: vec![("own".to_string(), s)], constraints: vec![] }];
        for e in &s.extends {
            let mut path = Vec::new();
            sels = cross(&sels, &sch.alternatives(e, &mut path));
        }
        sels.iter().any(|a| self.selection(n, s, a))
    }
    fn selection(&mut self, n: &T, s: &Sh, a: &Alt) -> bool {
        let mut tcs = Vec::new();
        for (_, b) in &a.buckets {
            if let Some(t) = &b.te {
                t.tcs(&mut tcs);
            }
        }
        // predicates of the other conjuncts
        let mut more = Vec::new();
        for c in &a.constraints {
            let e = if let SE::Ref(l) = c.0 { self.s.get(l).unwrap_or(c.0) } else { c.0 };
            if let SE::Shape(Sh { te: Some(t), .. }) = e {
                t.tcs(&mut more);
            }
        }
        let mut arcs = Vec::new();
        let mut kept: Vec<Tr> = Vec::new();
        let outs: Vec<Tr> = self.g.out(n).cloned().collect();
        for t in &outs {
            let with: Vec<&TC> = tcs.iter().filter(|c| c.pred == t.1).copied().collect();
            if with.is_empty() {
                if s.closed {
                    if s.extra.contains(&t.1) || more.iter().any(|c| c.pred == t.1) {
                        self.undecided = true;
                    }
                    return false;
                }
                continue;
            }
            let some = with.iter().any(|c| match &c.ve {
                None => true,
                Some(e) => self.sat(&t.2, e),
            });
            if !some {
                if s.extra.contains(&t.1) {
                    continue;
                }
                // matched by a constraint only: which shape's arcs would it be one of?
                if a.buckets.iter().any(|b| b.1.extra.contains(&t.1)) || more.iter().any(|c| c.pred == t.1) {
                    self.undecided = true;
                }
                return false;
            }
            arcs.push((false, t.1.clone(), t.2.clone()));
            kept.push(t.clone());
        }
        if arcs.len() > MAX_ARCS {
            self.undecided = true;
            return false;
        }
        let all: u32 = (1u32 << arcs.len()) - 1;
        let mut masks = Vec::new();
        for (k, b) in &a.buckets {
            let m = match &b.te {
                None => [0].into(),
                Some(t) => self.te_masks(t, &arcs),
            };
            masks.push((k.clone(), m));
        }
        let mut chosen = Vec::new();
        self.assign(n, a, &masks, &mut chosen, 0, all, &kept)
    }
    #[allow(clippy::too_many_arguments)]
    fn assign(&mut self, n: &T, a: &Alt, masks: &[(String, BTreeSet<u32>)], chosen: &mut Vec<u32>, used: u32, all: u32, arcs: &[Tr]) -> bool {
        self.steps += 1;
        let i = chosen.len();
        if i == masks.len() {
            if used != all {
                return false;
            }
            for (e, scope) in &a.constraints {
                let m: u32 = masks.iter().zip(chosen.iter()).filter(|(k, _)| scope.contains(&k.0)).map(|(_, m)| *m).sum();
                let outs: Vec<Tr> = arcs.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, t)| t.clone()).collect();
                let ok = self.sat_on(n, e, &outs);
                if matches!(e, SE::Not(_) | SE::Or(_)) {
                    let whole: Vec<Tr> = self.g.out(n).cloned().collect();
                    if self.sat_on(n, e, &whole) != ok {
                        self.undecided = true;
                    }
                }
                if !ok {
                    return false;
                }
            }
            return true;
        }
        for m in &masks[i].1 {
            if m & used == 0 {
                chosen.push(*m);
                let ok = self.assign(n, a, masks, chosen, used | m, all, arcs);
                chosen.pop();
                if ok {
                    return true;
                }
            }
        }
        false
    }
    fn shape(&mut self, n: &T, s: &Sh, outs: Vec<Tr>) -> bool {
        let mut tcs = Vec::new();
        if let Some(t) = &s.te {
            t.tcs(&mut tcs);
        }
        let ins: Vec<Tr> = self.g.t.iter().filter(|t| &t.2 == n).cloned().collect();
        let mut arcs: Vec<(bool, String, T)> = Vec::new(); // (inverse, pred, other)
        for t in &outs {
            let with_pred: Vec<&TC> = tcs.iter().filter(|c| !c.inv && c.pred == t.1).copied().collect();
            if with_pred.is_empty() {
                if s.closed && !s.extra.contains(&t.1) {
                    return false;
                }
                if s.closed {
                    // predicate only mentioned in EXTRA: implementations differ
                    self.undecided = true;
                }
                continue;
            }
            let matches_some = with_pred.iter().any(|c| match &c.ve {
                None => true,
                Some(e) => self.sat(&t.2, e),
            });
            if !matches_some {
                if s.extra.contains(&t.1) {
                    continue;
                }
                return false;
            }
            arcs.push((false, t.1.clone(), t.2.clone()));
        }
        let mut opt: Vec<(bool, String, T)> = Vec::new();
        for t in &ins {
            if tcs.iter().any(|c| c.inv && c.pred == t.1) {
                if self.strict_inv {
                    arcs.push((true, t.1.clone(), t.0.clone()));
                } else {
                    opt.push((true, t.1.clone(), t.0.clone()));
                }
            }
        }
        if arcs.len() + opt.len() > MAX_ARCS {
            self.undecided = true;
            return false;
        }
        let must: u32 = (1u32 << arcs.len()) - 1;
        arcs.extend(opt);
        let Some(te) = &s.te else { return arcs.is_empty() };
        let set = self.te_masks(te, &arcs);
        set.iter().any(|m| m & must == must)
    }
    /// The set of arc subsets that match the expression
    fn te_masks(&mut self, te: &TE, arcs: &[(bool, String, T)]) -> BTreeSet<u32> {
        match te {
            TE::TC(c) => {
                let mut ok = Vec::new();
                for (i, a) in arcs.iter().enumerate() {
                    if a.0 == c.inv
                        && a.1 == c.pred
                        && match &c.ve {
                            None => true,
                            Some(e) => self.sat(&a.2, e),
                        }
                    {
                        ok.push(i);
                    }
                }
                let mut r = BTreeSet::new();
                for sub in 0u32..(1 << ok.len()) {
                    let k = sub.count_ones();
                    if k >= c.min && c.max.is_none_or(|m| k <= m) {
                        r.insert(ok.iter().enumerate().filter(|(b, _)| sub >> b & 1 == 1).map(|(_, i)| 1u32 << i).sum());
                    }
                }
                r
            },
            TE::Each(v, a, b) => {
                let mut cur: BTreeSet<u32> = [0].into();
                for x in v {
                    let m = self.te_masks(x, arcs);
                    cur = self.join(&cur, &m);
                }
                self.repeat(cur, *a, *b, arcs.len() as u32)
            },
            TE::One(v, a, b) => {
                let mut cur = BTreeSet::new();
                for x in v {
                    cur.extend(self.te_masks(x, arcs));
                }
                self.repeat(cur, *a, *b, arcs.len() as u32)
            },
        }
    }
    fn join(&mut self, a: &BTreeSet<u32>, b: &BTreeSet<u32>) -> BTreeSet<u32> {
        let mut r = BTreeSet::new();
        for x in a {
            for y in b {
                self.steps += 1;
                if x & y == 0 {
                    r.insert(x | y);
                }
            }
        }
        r
    }
    fn repeat(&mut self, m: BTreeSet<u32>, min: u32, max: Option<u32>, n: u32) -> BTreeSet<u32> {
        if (min, max) == (1, Some(1)) {
            return m;
        }
        let hi = max.unwrap_or(u32::MAX).min(min + n);
        let mut cur: BTreeSet<u32> = [0].into();
        let mut out = BTreeSet::new();
        for k in 0..=hi {
            if k >= min {
                out.extend(cur.iter().copied());
            }
            if k < hi {
                cur = self.join(&cur, &m);
                if cur.is_empty() {
                    break;
                }
            }
        }
        out
    }
}
/// One way to resolve an extended shape expression: the shapes among which arcs are divided, and the
/// other conjuncts with the shapes whose arcs they see
#[derive(Clone)]
pub struct Alt<'a> {
    pub buckets: Vec<(String, &'a Sh)>,
    pub constraints: Vec<(&'a SE, Vec<String>)>,
}
fn cross<'a>(l: &[Alt<'a>], r: &[Alt<'a>]) -> Vec<Alt<'a>> {
    let mut out = Vec::new();
    for a in l {
        for b in r {
            let mut x = a.clone();
            for (k, s) in &b.buckets {
                if !x.buckets.iter().any(|y| &y.0 == k) {
                    x.buckets.push((k.clone(), s));
                }
            }
            for (e, scope) in &b.constraints {
                match x.constraints.iter_mut().find(|c| std::ptr::eq(c.0, *e)) {
                    Some(c) => c.1.extend(scope.iter().cloned()),
                    None => x.constraints.push((e, scope.clone())),
                }
            }
            out.push(x);
        }
    }
    out
}
impl Schema {
    /// Labels of the declarations that extend one directly
    pub fn children(&self, l: &str) -> Vec<&str> {
        self.shapes.iter().filter(|(_, e)| main_shape(e).is_some_and(|s| s.extends.iter().any(|x| x == l))).map(|x| x.0.as_str()).collect()
    }
    fn alternatives<'a>(&'a self, l: &str, path: &mut Vec<String>) -> Vec<Alt<'a>> {
        if path.iter().any(|x| x == l) {
            return vec![];
        }
        path.push(l.to_string());
        let out = match self.get(l) {
            Some(e) => self.alts(e, l, path),
            None => vec![],
        };
        path.pop();
        out
    }
    fn alts<'a>(&'a self, e: &'a SE, key: &str, path: &mut Vec<String>) -> Vec<Alt<'a>> {
        match e {
            SE::Shape(s) => {
                let mut v = vec![Alt { buckets: vec![(key.to_string(), s)], constraints: vec![] }];
                for p in &s.extends {
                    v = cross(&v, &self.alternatives(p, path));
                }
                v
            },
            SE::Ref(l) => self.alternatives(l, path),
            SE::Or(v) => v.iter().enumerate().flat_map(|(i, x)| self.alts(x, &format!("{key}|{i}"), path)).collect(),
            SE::And(v) => {
                let mut main: Option<Vec<Alt>> = None;
                let mut rest = Vec::new();
                for (i, x) in v.iter().enumerate() {
                    if main.is_none() {
                        let a = self.alts(x, &format!("{key}&{i}"), path);
                        if a.iter().any(|a| !a.buckets.is_empty()) {
                            main = Some(a);
                            continue;
                        }
                    }
                    rest.push(x);
                }
                let mut main = main.unwrap_or_else(|| vec![Alt { buckets: vec![], constraints: vec![] }]);
                for a in &mut main {
                    let scope: Vec<String> = a.buckets.iter().map(|b| b.0.clone()).collect();
                    a.constraints.extend(rest.iter().map(|x| (*x, scope.clone())));
                }
                main
            },
            SE::Any => vec![Alt { buckets: vec![], constraints: vec![] }],
            e => vec![Alt { buckets: vec![], constraints: vec![(e, vec![])] }],
        }
    }
}
pub fn main_shape(e: &SE) -> Option<&Sh> {
    match e {
        SE::Shape(s) => Some(s),
        SE::And(v) => v.iter().find_map(|x| if let SE::Shape(s) = x { Some(s) } else { None }),
        _ => None,
    }
}
/// SCCs of the reference graph in dependency order; None if negation occurs inside one
pub fn strata(s: &Schema) -> Option<Vec<Vec<String>>> {
    let labels: Vec<String> = s.shapes.iter().map(|x| x.0.clone()).collect();
    let idx: BTreeMap<&String, usize> = labels.iter().enumerate().map(|(i, l)| (l, i)).collect();
    let n = labels.len();
    let mut reach = vec![vec![false; n]; n];
    let mut neg = vec![];
    for (i, (_, e)) in s.shapes.iter().enumerate() {
        let mut v = Vec::new();
        e.refs(false, &mut v);
        for (l, ng) in v {
            let Some(&j) = idx.get(&l) else { return None };
            reach[i][j] = true;
            if ng {
                neg.push((i, j));
            }
        }
        for c in s.children(&labels[i]) {
            reach[i][idx[&c.to_string()]] = true;
        }
    }
    for k in 0..n {
        for i in 0..n {
            if reach[i][k] {
                for j in 0..n {
                    if reach[k][j] {
                        reach[i][j] = true;
                    }
                }
            }
        }
    }
    if neg.iter().any(|&(i, j)| reach[j][i] || i == j) {
        return None;
    }
    let mut done = vec![false; n];
    let mut out = Vec::new();
    while out.iter().map(|v: &Vec<String>| v.len()).sum::<usize>() < n {
        for i in 0..n {
            if done[i] {
                continue;
            }
            let scc: Vec<usize> = (0..n).filter(|&j| j == i || (reach[i][j] && reach[j][i])).collect();
            let ready = scc.iter().all(|&a| (0..n).all(|b| !reach[a][b] || done[b] || scc.contains(&b)));
            if ready {
                for &a in &scc {
                    done[a] = true;
                }
                out.push(scc.iter().map(|&a| labels[a].clone()).collect());
            }
        }
    }
    Some(out)
}
