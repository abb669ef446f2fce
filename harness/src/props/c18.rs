//! Property graphs conform to PGSchema types exactly when the model of labels, records and values says so
use crate::fw::*;
use crate::sess;
use regex::Regex;
use rudof_lib::Rudof;
use rudof_lib::formats::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum V {
    S(String),
    I(i32),
    D(i32, u8, u8),
    B(bool),
}
impl V {
    fn text(&self) -> String {
        match self {
            V::S(s) => format!("\"{s}\""),
            V::I(i) => i.to_string(),
            V::D(y, m, d) => format!("DATE \"{y:04}-{m:02}-{d:02}\""),
            V::B(b) => if *b { "TRUE" } else { "FALSE" }.into(),
        }
    }
    fn kind(&self) -> K {
        match self {
            V::S(_) => K::S,
            V::I(_) => K::I,
            V::D(..) => K::D,
            V::B(_) => K::B,
        }
    }
}
type Vals = BTreeSet<V>;
type Rec = BTreeMap<String, Vals>;
#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    S,
    I,
    D,
    B,
    Any,
    /// CHECK without a type
    Check,
}
#[derive(Clone, Debug)]
enum C {
    T,
    F,
    Cmp(&'static str, V),
    Re(String),
    And(Vec<C>),
    Or(Vec<C>),
    Not(Box<C>),
}
impl C {
    fn text(&self) -> String {
        match self {
            C::T => "TRUE".into(),
            C::F => "FALSE".into(),
            C::Cmp(o, v) => format!("{o} {}", v.text()),
            C::Re(r) => format!("REGEX \"{r}\""),
            C::And(v) => v.iter().map(|c| c.inner()).collect::<Vec<_>>().join(" AND "),
            C::Or(v) => v.iter().map(|c| c.inner()).collect::<Vec<_>>().join(" OR "),
            C::Not(c) => format!("NOT {}", if matches!(**c, C::And(_) | C::Or(_) | C::Not(_)) { format!("({})", c.text()) } else { c.text() }),
        }
    }
    fn inner(&self) -> String {
        if matches!(self, C::And(_) | C::Or(_) | C::Not(_)) { format!("({})", self.text()) } else { self.text() }
    }
    /// None: the condition doesn't apply to the value.  `lenient`: three-valued logic
    fn eval(&self, v: &V, lenient: bool) -> Option<bool> {
        match self {
            C::T => Some(true),
            C::F => Some(false),
            C::Cmp("=", w) => Some(v == w),
            C::Cmp(o, w) => {
                if v.kind() != w.kind() || !matches!(v.kind(), K::I | K::D) {
                    return None;
                }
                Some(match *o {
                    ">" => v > w,
                    ">=" => v >= w,
                    "<" => v < w,
                    _ => v <= w,
                })
            },
            C::Re(r) => match v {
                V::S(s) => Some(Regex::new(r).unwrap().is_match(s)),
                _ => None,
            },
            C::And(c) => {
                let r: Vec<_> = c.iter().map(|c| c.eval(v, lenient)).collect();
                match lenient {
                    true if r.contains(&Some(false)) => Some(false),
                    _ if r.contains(&None) => None,
                    _ => Some(!r.contains(&Some(false))),
                }
            },
            C::Or(c) => {
                let r: Vec<_> = c.iter().map(|c| c.eval(v, lenient)).collect();
                match lenient {
                    true if r.contains(&Some(true)) => Some(true),
                    _ if r.contains(&None) => None,
                    _ => Some(r.contains(&Some(true))),
                }
            },
            C::Not(c) => c.eval(v, lenient).map(|b| !b),
        }
    }
}
#[derive(Clone, Debug)]
struct Simple {
    k: K,
    card: (usize, Option<usize>),
    check: Option<C>,
}
impl Simple {
    fn text(&self, r: &mut Rng) -> String {
        let mut t = match self.k {
            K::S => "STRING",
            K::I => "INTEGER",
            K::D => "DATE",
            K::B => "BOOL",
            K::Any => "ANY",
            K::Check => "",
        }
        .to_string();
        if !matches!(self.k, K::Any | K::Check) {
            let (n, m) = self.card;
            match (n, m) {
                (1, Some(1)) if r.chance(70) => {},
                (0, Some(1)) if r.chance(60) => t.push_str(" ?"),
                (0, None) if r.chance(60) => t.push_str(" *"),
                (1, None) if r.chance(60) => t.push_str(" +"),
                (n, Some(m)) => write!(t, " {{{n},{m}}}").unwrap(),
                (n, None) => write!(t, " {{{n},*}}").unwrap(),
            }
        }
        if let Some(c) = &self.check {
            write!(t, " CHECK {}", c.text()).unwrap();
        }
        t
    }
    fn ok(&self, v: &Vals, lenient: bool) -> bool {
        let base = match self.k {
            K::Any | K::Check => true,
            k => v.len() >= self.card.0 && self.card.1.is_none_or(|m| v.len() <= m) && v.iter().all(|x| x.kind() == k),
        };
        base && self.check.as_ref().is_none_or(|c| v.iter().all(|x| c.eval(x, lenient) == Some(true)))
    }
}
#[derive(Clone, Debug)]
enum VT {
    One(Simple),
    All(Vec<Simple>),
    Some_(Vec<Simple>),
    /// the same key described several times
    Both(Box<VT>, Box<VT>),
}
impl VT {
    fn text(&self, r: &mut Rng) -> String {
        let mut j = |v: &Vec<Simple>, sep: &str| v.iter().map(|s| s.text(r)).collect::<Vec<_>>().join(sep);
        match self {
            VT::One(s) => s.text(r),
            VT::All(v) => j(v, " & "),
            VT::Some_(v) => j(v, " | "),
            VT::Both(..) => unreachable!(),
        }
    }
    fn ok(&self, v: &Vals, l: bool) -> bool {
        match self {
            VT::One(s) => s.ok(v, l),
            VT::All(a) => a.iter().all(|s| s.ok(v, l)),
            VT::Some_(a) => a.iter().any(|s| s.ok(v, l)),
            VT::Both(a, b) => a.ok(v, l) && b.ok(v, l),
        }
    }
}
#[derive(Clone, Debug)]
enum P_ {
    Prop(String, VT, bool),
    Each(Vec<P_>),
    One(Vec<P_>),
}
type RT = BTreeMap<String, VT>;
fn both(a: &RT, b: &RT) -> RT {
    let mut r = a.clone();
    for (k, v) in b {
        let w = match a.get(k) {
            Some(x) => VT::Both(Box::new(x.clone()), Box::new(v.clone())),
            None => v.clone(),
        };
        r.insert(k.clone(), w);
    }
    r
}
impl P_ {
    fn text(&self, r: &mut Rng) -> String {
        match self {
            P_::Prop(k, t, opt) => format!("{}{k}{}: {}", if *opt { "OPTIONAL " } else { "" }, if r.chance(20) { " " } else { "" }, t.text(r)),
            P_::Each(v) => v.iter().map(|p| p.inner(r)).collect::<Vec<_>>().join(", "),
            P_::One(v) => v.iter().map(|p| p.inner(r)).collect::<Vec<_>>().join(" || "),
        }
    }
    fn inner(&self, r: &mut Rng) -> String {
        if matches!(self, P_::Prop(..)) { self.text(r) } else { format!("( {} )", self.text(r)) }
    }
    fn sem(&self) -> Vec<RT> {
        match self {
            P_::Prop(k, t, opt) => {
                let mut v = vec![RT::from([(k.clone(), t.clone())])];
                if *opt {
                    v.push(RT::new());
                }
                v
            },
            P_::Each(p) => p.iter().fold(vec![RT::new()], |acc, p| {
                let s = p.sem();
                acc.iter().flat_map(|a| s.iter().map(move |b| both(a, b))).collect()
            }),
            P_::One(p) => p.iter().flat_map(|p| p.sem()).collect(),
        }
    }
}
#[derive(Clone, Debug)]
enum L {
    Name(String),
    Ref(String),
    And(Vec<L>),
    Or(Vec<L>),
}
impl L {
    fn text(&self, r: &mut Rng) -> String {
        match self {
            L::Name(n) => n.clone(),
            L::Ref(n) => format!("@{n}"),
            L::And(v) => v.iter().map(|p| p.inner(r)).collect::<Vec<_>>().join(" & "),
            L::Or(v) => v.iter().map(|p| p.inner(r)).collect::<Vec<_>>().join(" | "),
        }
    }
    fn inner(&self, r: &mut Rng) -> String {
        if matches!(self, L::Name(_) | L::Ref(_)) {
            self.text(r)
        } else if r.chance(30) {
            format!("[ {} ]", self.text(r))
        } else {
            format!("({})", self.text(r))
        }
    }
}
type LS = BTreeSet<String>;
/// What a type describes: alternatives of labels and records (whether the union of two types pairs
/// their labels with their records is not settled, so both readings are kept)
#[derive(Clone, Default, Debug)]
struct Sem {
    pairs: Vec<(LS, RT)>,
    labels: Vec<LS>,
    recs: Vec<RT>,
}
#[derive(Clone, Debug)]
struct Spec {
    l: Option<L>,
    p: Option<P_>,
}
type Types = BTreeMap<String, Spec>;
fn sem_l(l: &L, t: &Types) -> Sem {
    match l {
        L::Name(n) => {
            let s = LS::from([n.clone()]);
            Sem { pairs: vec![(s.clone(), RT::new())], labels: vec![s], recs: vec![RT::new()] }
        },
        L::Ref(n) => sem(&t[n], t),
        L::And(v) => v.iter().map(|l| sem_l(l, t)).reduce(|a, b| and(&a, &b)).unwrap(),
        L::Or(v) => v.iter().map(|l| sem_l(l, t)).fold(Sem::default(), |mut a, b| {
            a.pairs.extend(b.pairs);
            a.labels.extend(b.labels);
            a.recs.extend(b.recs);
            a
        }),
    }
}
fn and(a: &Sem, b: &Sem) -> Sem {
    let mut s = Sem::default();
    for (l, r) in &a.pairs {
        for (m, q) in &b.pairs {
            s.pairs.push((l.union(m).cloned().collect(), both(r, q)));
        }
    }
    for l in &a.labels {
        for m in &b.labels {
            s.labels.push(l.union(m).cloned().collect());
        }
    }
    for r in &a.recs {
        for q in &b.recs {
            s.recs.push(both(r, q));
        }
    }
    s
}
fn sem(s: &Spec, t: &Types) -> Sem {
    let l = match &s.l {
        Some(l) => sem_l(l, t),
        None => Sem { pairs: vec![(LS::new(), RT::new())], labels: vec![LS::new()], recs: vec![RT::new()] },
    };
    match &s.p {
        None => l,
        Some(p) => {
            let r = p.sem();
            and(&l, &Sem { pairs: r.iter().map(|r| (LS::new(), r.clone())).collect(), labels: vec![LS::new()], recs: r })
        },
    }
}
fn rec_ok(t: &RT, r: &Rec, lenient: bool) -> bool {
    t.len() == r.len() && t.iter().all(|(k, vt)| r.get(k).is_some_and(|v| vt.ok(v, lenient)))
}
fn conforms(s: &Sem, l: &LS, r: &Rec) -> Option<bool> {
    let v: Vec<bool> = [false, true]
        .iter()
        .flat_map(|&len| [s.pairs.iter().any(|(a, b)| a == l && rec_ok(b, r, len)), s.labels.contains(l) && s.recs.iter().any(|b| rec_ok(b, r, len))])
        .collect();
    v.iter().all(|x| *x == v[0]).then_some(v[0])
}
const LABELS: [&str; 5] = ["A", "B", "C", "Person", "D1"];
const KEYS: [&str; 6] = ["k", "name", "age", "since", "x_1", "z"];
const STR: [&str; 10] = ["", "a", "abc", "b", "aab", "x y", "é", "日本", "A", "a\\\"b"];
const RE: [&str; 8] = ["a", "^a", "b$", "^a+b$", ".", "^$", "[a-b]c", "^(a|b)$"];
fn val(r: &mut Rng, k: K) -> V {
    match k {
        K::S => V::S(r.pick(&STR).to_string()),
        K::I => V::I(*r.pick(&[0, 1, 2, 3, 4, 10, 17, 18, 19, 2147483647])),
        K::D => {
            let (y, m, d) = *r.pick(&[(2020, 1, 1), (2020, 1, 2), (2019, 12, 31), (2020, 2, 29), (1, 1, 1), (2024, 10, 9)]);
            V::D(y, m, d)
        },
        K::B => V::B(r.chance(50)),
        _ => {
            let k = *r.pick(&[K::S, K::I, K::D, K::B]);
            val(r, k)
        },
    }
}
fn cond(r: &mut Rng, k: K, d: usize) -> C {
    match r.below(if d == 0 { 6 } else { 10 }) {
        0 => if r.chance(50) { C::T } else { C::F },
        1 => C::Cmp("=", val(r, k)),
        2..6 => match k {
            K::S => C::Re(r.pick(&RE).to_string()),
            K::B => C::Cmp("=", val(r, k)),
            _ => {
                let o = *r.pick(&[">", ">=", "<", "<="]);
                let k = if r.chance(95) { k } else { K::Any };
                C::Cmp(o, val(r, k))
            },
        },
        6 => C::Not(Box::new(cond(r, k, d - 1))),
        7 => C::And((0..2 + r.below(2)).map(|_| cond(r, k, d - 1)).collect()),
        _ => C::Or((0..2 + r.below(2)).map(|_| cond(r, k, d - 1)).collect()),
    }
}
fn simple(r: &mut Rng) -> Simple {
    let k = *r.pick(&[K::S, K::S, K::I, K::I, K::D, K::B, K::Any, K::Check]);
    let kc = if matches!(k, K::Any | K::Check) { *r.pick(&[K::S, K::I, K::D]) } else { k };
    let card = *r.pick(&[(1, Some(1)), (1, Some(1)), (1, Some(1)), (0, Some(1)), (0, None), (1, None), (1, Some(2)), (2, Some(3)), (2, None), (0, Some(0)), (0, Some(2)), (3, Some(10)), (2, Some(1)), (10, None)]);
    Simple { k, card, check: (k == K::Check || r.chance(30)).then(|| cond(r, kc, 2)) }
}
fn vt(r: &mut Rng) -> VT {
    match r.below(10) {
        0 | 1 => VT::Some_((0..2 + r.below(3)).map(|_| simple(r)).collect()),
        2 => {
            // several constraints of the same type, or they would never hold
            let a = simple(r);
            let mut v = vec![a.clone()];
            for _ in 0..1 + r.below(3) {
                let mut b = simple(r);
                if r.chance(80) {
                    b = Simple { k: if r.chance(60) { K::Check } else { a.k }, card: a.card, check: Some(cond(r, if a.k == K::Check { K::Any } else { a.k }, 1)) };
                }
                v.push(b);
            }
            VT::All(v)
        },
        _ => VT::One(simple(r)),
    }
}
fn props(r: &mut Rng, d: usize) -> P_ {
    if d > 0 && r.chance(50) {
        let v = (0..2 + r.below(2)).map(|_| props(r, d - 1)).collect();
        if r.chance(60) { P_::Each(v) } else { P_::One(v) }
    } else {
        P_::Prop(r.pick(&KEYS).to_string(), vt(r), r.chance(20))
    }
}
fn labels(r: &mut Rng, refs: &[String], d: usize) -> L {
    match r.below(if d == 0 { 5 } else { 10 }) {
        0 if !refs.is_empty() => L::Ref(r.pick(refs).clone()),
        0..7 => L::Name(r.pick(&LABELS).to_string()),
        7 | 8 => L::And((0..2 + r.below(2)).map(|_| labels(r, refs, d - 1)).collect()),
        _ => L::Or((0..2 + r.below(2)).map(|_| labels(r, refs, d - 1)).collect()),
    }
}
fn spec(r: &mut Rng, refs: &[String]) -> Spec {
    Spec { l: r.chance(93).then(|| labels(r, refs, 2)), p: r.chance(75).then(|| props(r, 2)) }
}
fn spec_text(s: &Spec, r: &mut Rng) -> String {
    let mut t = String::new();
    if let Some(l) = &s.l {
        write!(t, ": {} ", l.text(r)).unwrap();
    }
    if let Some(p) = &s.p {
        write!(t, "{{ {} }} ", p.text(r)).unwrap();
    }
    t
}
#[derive(Clone, Debug)]
struct El {
    labels: LS,
    rec: Rec,
}
fn el(s: &Sem, r: &mut Rng) -> El {
    if s.pairs.is_empty() {
        return El { labels: LS::from(["A".to_string()]), rec: Rec::new() };
    }
    let (l, rt) = r.pick(&s.pairs).clone();
    let mut l = l;
    if r.chance(10) {
        let x = r.pick(&LABELS).to_string();
        if !l.remove(&x) {
            l.insert(x);
        }
    }
    let mut rec = Rec::new();
    for (k, t) in &rt {
        let mut v = Vals::new();
        for _ in 0..if r.chance(92) { 60 } else { 1 } {
            let kinds = [K::S, K::I, K::D, K::B, K::Any];
            let kk = *r.pick(&kinds);
            let n = *r.pick(&[0, 1, 1, 1, 1, 2, 2, 3, 4, 11]);
            v = (0..n).map(|_| val(r, kk)).collect();
            if t.ok(&v, false) {
                break;
            }
        }
        rec.insert(k.clone(), v);
    }
    if r.chance(6) && !rec.is_empty() {
        let k = rec.keys().nth(r.below(rec.len())).unwrap().clone();
        rec.remove(&k);
    }
    if r.chance(6) {
        rec.insert(r.pick(&KEYS).to_string(), Vals::from([val(r, K::Any)]));
    }
    // `(n)` can't be written: the parser takes it for the start of an edge
    if l.is_empty() && rec.is_empty() {
        l.insert("A".into());
    }
    El { labels: l, rec }
}
fn el_text(e: &El, r: &mut Rng) -> String {
    let mut t = String::new();
    if !e.labels.is_empty() {
        let mut v: Vec<String> = e.labels.iter().map(|x| if r.chance(20) { format!("\"{x}\"") } else { x.clone() }).collect();
        r.shuffle(&mut v);
        write!(t, "{{ {} }} ", v.join(", ")).unwrap();
    }
    if !e.rec.is_empty() {
        let mut v: Vec<String> = Vec::new();
        for (k, vals) in &e.rec {
            let k = if r.chance(20) { format!("\"{k}\"") } else { k.clone() };
            let mut x: Vec<String> = vals.iter().map(V::text).collect();
            if !x.is_empty() && r.chance(10) {
                x.push(x[0].clone());
            }
            r.shuffle(&mut x);
            if x.len() == 1 && r.chance(70) {
                v.push(format!("{k}: {}", x[0]));
            } else if x.len() > 1 && r.chance(15) {
                // the values of a key can be spread
                let y = x.split_off(1);
                v.push(format!("{k}: {}", x[0]));
                v.push(format!("{k}: [{}]", y.join(", ")));
            } else {
                v.push(format!("{k}: [{}]", x.join(", ")));
            }
        }
        r.shuffle(&mut v);
        write!(t, "[ {} ]", v.join(", ")).unwrap();
    }
    t
}
/// A random schema, for the robustness monitor
pub fn schema(r: &mut Rng) -> String {
    let refs: Vec<String> = (0..4).map(|i| format!("T{i}")).collect();
    let mut t: Vec<String> = (0..1 + r.below(4)).map(|i| {
        let s = spec(r, &refs);
        format!("CREATE NODE TYPE (T{i} {})", spec_text(&s, r))
    }).collect();
    if r.chance(40) {
        let (a, e, b) = (spec(r, &refs), spec(r, &refs), spec(r, &refs));
        t.push(format!("CREATE EDGE TYPE ({})-[ E0 {}]->({})", spec_text(&a, r), spec_text(&e, r), spec_text(&b, r)));
    }
    t.join(";\n")
}
/// A random property graph, for the robustness monitor
pub fn graph(r: &mut Rng) -> String {
    let mut t = String::new();
    let mut e = || {
        let s = spec(r, &[]);
        let m = sem(&s, &Types::new());
        let e = el(&m, r);
        el_text(&e, r)
    };
    for i in [0, 1, 2, 0] {
        t.push_str(&format!("(n{i} {})\n", e()));
    }
    t.push_str(&format!("(n0) - (e0 {}) -> (n1)\n(n0 {})\n", e(), e()));
    t
}
fn results(s: &mut Rudof, ctx: &mut Ctx) -> R<(bool, Vec<(String, String, bool)>)> {
    let out = |f: ResultPgSchemaValidationFormat| {
        let mut o = Vec::new();
        s.serialize_pgschema_validation_results(&mut o).with_result_pg_schema_validation_format(&f).with_show_colors(false).execute().map_err(|e| Bad::Viol("results can't be written".into(), e.to_string()))?;
        String::from_utf8(o).map_err(|e| Bad::Viol("results aren't text".into(), e.to_string()))
    };
    let json = out(ResultPgSchemaValidationFormat::Json)?;
    let j: serde_json::Value = serde_json::from_str(&json).map_err(|e| Bad::Viol("JSON results aren't JSON".into(), format!("{e}\n{json}")))?;
    let valid = j["is_valid"].as_bool().ok_or_else(|| Bad::Viol("no validity".into(), json.clone()))?;
    let mut rows = Vec::new();
    for a in j["associations"].as_array().into_iter().flatten() {
        let conf = a["conforms"].as_bool();
        let left = a["details"].get("Left").is_some();
        if conf == Some(left) {
            return viol("details contradict the result", json.clone());
        }
        rows.push((a["node_id"].as_str().unwrap_or("?").to_string(), a["type_name"].as_str().unwrap_or("?").to_string(), conf == Some(true)));
    }
    let csv = out(ResultPgSchemaValidationFormat::Csv)?;
    let mut c = Vec::new();
    for rec in super::c12::csv_records(&csv).iter().skip(1) {
        if rec.len() != 4 {
            return viol("CSV results aren't CSV", format!("{rec:?}\n{csv}"));
        }
        c.push((rec[0].clone(), rec[1].clone(), rec[2] == "true"));
    }
    if c != rows {
        return viol("CSV and JSON results differ", format!("{csv}\n{json}"));
    }
    let text = out(ResultPgSchemaValidationFormat::Compact)?;
    let mut at = 0;
    for (n, t, ok) in &rows {
        let want = format!("{n}:{t}: {ok} ");
        match text[at..].find(&want) {
            Some(i) => at += i + want.len(),
            None => return viol("compact and JSON results differ", format!("{text}\n{json}")),
        }
    }
    if !text.contains(&format!("valid?: {valid}")) {
        return viol("compact and JSON validity differ", format!("{text}\n{json}"));
    }
    ctx.count("reports compared in three formats", 1);
    Ok((valid, rows))
}
fn case(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let mut types = Types::new();
    let mut order = Vec::new();
    let mut refs: Vec<String> = Vec::new();
    let mut text: Vec<String> = Vec::new();
    for i in 0..1 + r.below(5) {
        let s = spec(r, &refs);
        let n = format!("T{i}");
        text.push(format!("CREATE NODE TYPE ({n} {})", spec_text(&s, r)));
        if r.chance(10) {
            let u = spec(r, &refs);
            text.push(format!("CREATE NODE TYPE ({})", spec_text(&u, r)));
        }
        if s.l.is_some() && sem(&s, &{ let mut t = types.clone(); t.insert(n.clone(), s.clone()); t }).pairs.len() <= 6 {
            refs.push(n.clone());
        }
        types.insert(n.clone(), s);
        order.push(n);
    }
    let mut edges: BTreeMap<String, (Spec, Spec, Spec)> = BTreeMap::new();
    for i in 0..r.below(3) {
        let (a, e, b) = (spec(r, &refs), spec(r, &refs), spec(r, &refs));
        let n = format!("E{i}");
        let t = format!("CREATE EDGE TYPE ({})-[ {n} {}]->({})", spec_text(&a, r), spec_text(&e, r), spec_text(&b, r));
        text.push(t);
        edges.insert(n, (a, e, b));
    }
    // types can be used before they are declared
    if r.chance(30) {
        r.shuffle(&mut text);
    }
    let schema = text.join(if r.chance(20) { ";\n// a comment\n" } else { ";\n" });
    let sems: BTreeMap<String, Sem> = types.iter().map(|(n, s)| (n.clone(), sem(s, &types))).collect();
    let esems: BTreeMap<String, [Sem; 3]> = edges.iter().map(|(n, (a, e, b))| (n.clone(), [sem(a, &types), sem(e, &types), sem(b, &types)])).collect();
    if sems.values().chain(esems.values().flatten()).any(|s| s.pairs.len() > 300 || s.recs.len() > 300) {
        return inconclusive("schema with too many alternatives");
    }
    // the graph
    let mut nodes: Vec<(String, El)> = Vec::new();
    let mut es: Vec<(String, String, String, El)> = Vec::new();
    for i in 0..1 + r.below(5) {
        let n = &order[r.below(order.len())];
        nodes.push((format!("n{i}"), el(&sems[n], r)));
    }
    for (i, s) in esems.values().enumerate() {
        for j in 0..1 + r.below(2) {
            let mut ends = Vec::new();
            for k in [0, 2] {
                if r.chance(70) {
                    let id = format!("m{i}{j}{k}");
                    nodes.push((id.clone(), el(&s[k], r)));
                    ends.push(id);
                } else {
                    ends.push(r.pick(&nodes).0.clone());
                }
            }
            es.push((format!("e{i}{j}"), ends[0].clone(), ends[1].clone(), el(&s[1], r)));
        }
    }
    // one or several documents; a node can be described in several of them
    let ndocs = *r.pick(&[1, 1, 2, 3]);
    let mut docs = vec![String::new(); ndocs];
    let mut declared: Vec<BTreeSet<String>> = vec![BTreeSet::new(); ndocs];
    let mut spread = 0;
    for (id, e) in &nodes {
        let home = r.below(ndocs);
        let mut parts: Vec<El> = vec![El { labels: LS::new(), rec: Rec::new() }; ndocs];
        let split = ndocs > 1 && r.chance(30);
        for l in &e.labels {
            parts[if split { r.below(ndocs) } else { home }].labels.insert(l.clone());
        }
        for (k, v) in &e.rec {
            let d = if split { r.below(ndocs) } else { home };
            parts[d].rec.entry(k.clone()).or_default();
            for x in v {
                let d = if split && v.len() > 1 { r.below(ndocs) } else { d };
                parts[d].rec.entry(k.clone()).or_default().insert(x.clone());
            }
        }
        for (d, p) in parts.iter().enumerate() {
            // a key without values doesn't survive the merge with another document
            if (d == home && ndocs == 1) || !p.labels.is_empty() || !p.rec.is_empty() {
                docs[d].push_str(&format!("({id} {})\n", el_text(p, r)));
                declared[d].insert(id.clone());
                if d != home {
                    spread += 1;
                }
            }
        }
    }
    let mut known_edges = Vec::new();
    for (id, a, b, e) in &es {
        let d = r.below(ndocs);
        for n in [a, b] {
            if declared[d].insert(n.clone()) {
                let e = &nodes.iter().find(|x| x.0 == *n).unwrap().1;
                docs[d].push_str(&format!("({n} {})\n", el_text(e, r)));
            }
        }
        if r.chance(10) {
            docs[d].push_str(&format!("({a})-({})->({b})\n", el_text(e, r)));
        } else {
            docs[d].push_str(&format!("({a}) - ({id} {}) -> ({b})\n", el_text(e, r)));
            known_edges.push((id.clone(), a.clone(), b.clone(), e.clone()));
        }
    }
    docs.retain(|d| !d.is_empty());
    // empty lists are lost when documents are merged: not claimed
    let lossy: BTreeSet<String> = if docs.len() > 1 { nodes.iter().filter(|(_, e)| e.rec.values().any(|v| v.is_empty())).map(|x| x.0.clone()).collect() } else { BTreeSet::new() };
    // associations
    let mut map: Vec<(String, String, Option<bool>)> = Vec::new();
    let node: BTreeMap<&String, &El> = nodes.iter().map(|(i, e)| (i, e)).collect();
    for (id, e) in &nodes {
        for t in &order {
            if r.chance(60) {
                let want = if lossy.contains(id) { None } else { conforms(&sems[t], &e.labels, &e.rec) };
                map.push((id.clone(), t.clone(), want));
            }
        }
        if r.chance(5) {
            map.push((id.clone(), "Nowhere".into(), Some(false)));
        }
        if r.chance(5) && !edges.is_empty() {
            map.push((id.clone(), "E0".into(), Some(false)));
        }
    }
    for (id, a, b, e) in &known_edges {
        for (t, s) in &esems {
            if r.chance(80) {
                let parts = [(a, 0), (b, 2)].map(|(n, k)| if lossy.contains(n) { None } else { conforms(&s[k], &node[n].labels, &node[n].rec) });
                let own = conforms(&s[1], &e.labels, &e.rec);
                let all = [parts[0], own, parts[1]];
                let want = if all.contains(&Some(false)) { Some(false) } else if all.contains(&None) { None } else { Some(true) };
                map.push((id.clone(), t.clone(), want));
            }
        }
        if r.chance(5) {
            map.push((id.clone(), order[0].clone(), Some(false)));
        }
    }
    if map.is_empty() {
        return Ok(());
    }
    r.shuffle(&mut map);
    let missing = r.chance(4);
    if missing {
        let at = r.below(map.len() + 1);
        map.insert(at, ("nobody".into(), order[0].clone(), None));
    }
    let maptext = map.iter().map(|(n, t, _)| format!("{n}:{}{t}", if r.chance(30) { " " } else { "" })).collect::<Vec<_>>().join(",\n");
    ctx.input(format!("schema:\n{schema}\ndata:\n{}\nmap:\n{maptext}", docs.join("\n--\n")));
    let mut s = sess::new();
    let f = |what: &str, e: String| Bad::Viol(format!("{what} refused"), e);
    s.load_pg_schema(&InputSpec::Str(schema.clone())).execute().map_err(|e| f("schema", e.to_string()))?;
    if ctx.rng.chance(50) {
        let specs: Vec<InputSpec> = docs.iter().map(|d| InputSpec::Str(d.clone())).collect();
        s.load_data().with_data(&specs).with_data_format(&DataFormat::Pg).execute().map_err(|e| f("data", e.to_string()))?;
    } else {
        for d in &docs {
            sess::load(&mut s, d, DataFormat::Pg, true).map_err(|e| f("data", e))?;
        }
    }
    s.load_typemap(&InputSpec::Str(maptext)).execute().map_err(|e| f("type map", e.to_string()))?;
    let res = s.validate_pgschema().execute();
    if missing {
        ctx.count("associations of unknown elements", 1);
        if res.is_ok() {
            return viol("unknown element validated", "the type map mentions an element which isn't in the data");
        }
        return Ok(());
    }
    res.map_err(|e| f("validation", e.to_string()))?;
    let (valid, rows) = results(&mut s, ctx)?;
    if rows.len() != map.len() {
        return viol("number of results", format!("{} results for {} associations", rows.len(), map.len()));
    }
    if valid != rows.iter().all(|x| x.2) {
        return viol("validity", format!("is_valid {valid} but {rows:?}"));
    }
    let mut seen = [false; 2];
    for ((n, t, want), (gn, gt, got)) in map.iter().zip(&rows) {
        if n != gn || t != gt {
            return viol("order of the results", format!("{n}:{t} against {gn}:{gt}"));
        }
        match want {
            Some(w) if w == got => {
                ctx.count(if *w { "conforming pairs" } else { "nonconforming pairs" }, 1);
                if n.starts_with('e') && *w {
                    ctx.count("conforming edges", 1);
                }
                seen[*w as usize] = true;
            },
            Some(w) => return viol(format!("{} {}", if n.starts_with('e') { "edge" } else { "node" }, if *w { "refused" } else { "accepted" }), format!("{n} and {t}: expected {w}, got {got}")),
            None => ctx.count("pairs not decided", 1),
        }
    }
    if spread > 0 {
        ctx.count("nodes described in several documents", spread);
    }
    if seen[0] && seen[1] {
        ctx.nontrivial();
    }
    // validating again gives the same
    s.validate_pgschema().execute().map_err(|e| f("second validation", e.to_string()))?;
    if results(&mut s, ctx)? != (valid, rows) {
        return viol("second validation differs", "");
    }
    Ok(())
}
pub static P: Prop = Prop {
    id: "C18",
    case,
    probes: &[],
    quick: 20_000,
    thorough: 1_000_000,
    rule: "a case is non-trivial when it has a conforming and a nonconforming pair",
    assumptions: &[
        "operators of different kinds are always parenthesised (their precedence isn't documented)",
        "pairs are not decided when they depend on whether the union of two types pairs their labels with their records, or on whether a condition that does not apply to a value is false or an error",
        "no claim about expected failures (`!`) of type maps, which the library doesn't implement yet",
        "documents which are merged have no keys with empty lists, and names of elements are unique",
    ],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["conforming pairs", "nonconforming pairs", "conforming edges", "nodes described in several documents", "associations of unknown elements", "reports compared in three formats"],
    workers: 8,
};
