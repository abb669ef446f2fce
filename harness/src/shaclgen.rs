//! Random SHACL shapes graphs and data graphs
use crate::fw::Rng;
use crate::shaclm::*;
use crate::term::*;

pub const CLASSES: usize = 4;
pub fn class(i: usize) -> String {
    ex(&format!("C{i}"))
}
pub fn preds() -> Vec<String> {
    ["p", "q", "r"].iter().map(|x| ex(x)).collect()
}
pub fn literal(r: &mut Rng) -> T {
    match r.below(12) {
        0 | 1 => T::int(r.range(-2, 6)),
        2 => T::lit(r.pick(&["1.5", "2.0", "-0.5", "3"]), "decimal"),
        3 => T::lit(r.pick(&["1.5E0", "2", "4E0"]), "double"),
        4 => T::lit(r.pick(&["1", "7", "300", "2"]), r.pick(&["byte", "int", "long", "nonNegativeInteger", "short"])),
        5 => T::lit(r.pick(&["abc", "1.5", "", "12x"]), "integer"),
        6 => T::lit(r.pick(&["true", "false", "1", "0"]), "boolean"),
        7 => T::lang(r.pick(&["a", "b", "chat"]), r.pick(&["en", "fr", "en-us", "ens"])),
        8 => T::lit(r.pick(&["2020-01-01T00:00:00Z", "2021-06-01T12:00:00Z", "2020-01-01T00:00:01Z", "yesterday"]), "dateTime"),
        9 => T::Lit { lex: "a".into(), dt: ex("dt"), lang: None },
        10 if r.chance(40) => T::str(r.pick(&["a\rb", "a\"b", "a\\b", "a\nb", "\t", "😀", "a'b", "{a}", "a\u{1}", "aaaaaaaaaaaaaa", "?x"])),
        _ => T::str(r.pick(&["a", "b", "ab", "abc", "é", "日本", "", "x y", "A", "1"])),
    }
}
pub fn node(r: &mut Rng) -> T {
    match r.below(8) {
        0 => T::b("b0"),
        1 => T::b("b1"),
        _ => T::ex(&format!("n{}", r.below(5))),
    }
}
pub fn any(r: &mut Rng) -> T {
    if r.chance(55) { node(r) } else { literal(r) }
}
pub fn data(r: &mut Rng) -> G {
    let mut g = G::new();
    let n = 4 + r.below(14);
    let ps = preds();
    for _ in 0..n {
        let (s, o) = (node(r), any(r));
        g.add(s, r.pick(&ps), o);
    }
    for _ in 0..r.below(6) {
        g.add(node(r), &rdf("type"), T::iri(class(r.below(CLASSES))));
    }
    for _ in 0..r.below(4) {
        g.add(T::iri(class(r.below(CLASSES))), &format!("{RDFS}subClassOf"), T::iri(class(r.below(CLASSES))));
    }
    g
}
fn bound(r: &mut Rng) -> T {
    match r.below(6) {
        0 | 1 => T::int(r.range(-1, 4)),
        2 => T::lit(r.pick(&["1.5", "2.0", "0.25"]), "decimal"),
        3 => T::lit(r.pick(&["1.5E0", "2E0"]), "double"),
        4 => T::lit("2020-06-01T00:00:00Z", "dateTime"),
        _ => T::int(2),
    }
}
fn refs(r: &mut Rng, from: usize, n: usize, want: usize) -> Vec<usize> {
    (0..want).map(|_| from + r.below(n - from)).collect()
}
/// `ns`: indexes of node shapes after i; `ps`: of property shapes after i
fn constraint(r: &mut Rng, i: usize, n: usize, prop: bool, props: &[usize], sg: &[S]) -> Option<C> {
    let ps = preds();
    let later = i + 1 < n;
    let x = match r.below(30) {
        0 => C::Class(class(r.below(CLASSES))),
        1 => C::Dt(r.pick(&[xsd("integer"), xsd("string"), xsd("decimal"), xsd("boolean"), rdf("langString"), xsd("dateTime"), ex("dt"), xsd("byte")]).clone()),
        2 => C::Kind(r.pick(&["IRI", "BlankNode", "Literal", "BlankNodeOrIRI", "BlankNodeOrLiteral", "IRIOrLiteral"])),
        3 if prop => C::MinCount(r.below(4)),
        4 if prop => C::MaxCount(r.below(3)),
        5 => C::MinExc(bound(r)),
        6 => C::MinInc(bound(r)),
        7 => C::MaxExc(bound(r)),
        8 => C::MaxInc(bound(r)),
        9 => C::MinLen(r.below(4)),
        10 => C::MaxLen(*r.pick(&[0, 1, 2, 13, 14])),
        11 => C::Pat(r.pick(&["a", "^a", "b$", "^[a-z]+$", "n[0-3]$", "^.$", "x y", "^http", "\\\\d"]).replace("\\\\", "\\"), r.pick(&["", "", "i", "s"]).to_string()),
        12 => C::LangIn(r.subset(&["en".to_string(), "fr".into(), "en-us".into()], 50)),
        13 if prop => C::UniqueLang(r.chance(85)),
        14 => C::Equals(r.pick(&ps).clone()),
        15 => C::Disjoint(r.pick(&ps).clone()),
        16 if prop => C::LessThan(r.pick(&ps).clone()),
        17 if prop => C::LessEq(r.pick(&ps).clone()),
        18 if later => C::Not(refs(r, i + 1, n, 1)[0]),
        19 if later => C::And({ let k = 1 + r.below(3); refs(r, i + 1, n, k) }),
        20 if later => C::Or({ let k = 1 + r.below(3); refs(r, i + 1, n, k) }),
        21 if later => C::Xone({ let k = 1 + r.below(3); refs(r, i + 1, n, k) }),
        22 | 23 if later => {
            // sh:node refers to node shapes
            let v: Vec<usize> = (i + 1..n).filter(|k| sg[*k].path.is_none()).collect();
            if v.is_empty() {
                return None;
            }
            C::Node(*r.pick(&v))
        },
        24 | 25 => {
            let v: Vec<usize> = props.iter().cloned().filter(|k| *k > i).collect();
            if v.is_empty() {
                return None;
            }
            C::Prop(*r.pick(&v))
        },
        26 if prop && later => {
            let (min, max) = match r.below(3) {
                0 => (Some(r.below(3)), None),
                1 => (None, Some(r.below(3))),
                _ => (Some(r.below(3)), Some(r.below(3))),
            };
            C::Qual { s: refs(r, i + 1, n, 1)[0], min, max, disj: r.chance(50) }
        },
        27 if !prop => C::Closed(r.chance(85), {
            let mut v = r.subset(&ps, 30);
            if r.chance(40) {
                v.push(rdf("type"));
            }
            v
        }),
        28 => C::HasValue(loop {
            let t = any(r);
            if !t.is_b() {
                break t;
            }
        }),
        29 => C::In((0..1 + r.below(4)).map(|_| loop {
            let t = any(r);
            if !t.is_b() {
                break t;
            }
        }).collect()),
        _ => return None,
    };
    Some(x)
}
fn single(c: &C) -> bool {
    !matches!(c, C::Class(_) | C::Not(_) | C::And(_) | C::Or(_) | C::Xone(_) | C::Node(_) | C::Prop(_) | C::HasValue(_) | C::Equals(_) | C::Disjoint(_) | C::LessThan(_) | C::LessEq(_))
}
pub struct Opts {
    pub path_depth: usize,
    pub bnode_shapes: bool,
    pub literal_targets: bool,
}
fn plain(name: String, path: Option<Path>, cs: Vec<C>) -> S {
    S { name, path, cs, targets: vec![], sev: None, deact: false, msg: None }
}
/// a node shape with several property shapes with qualified value shapes: siblings of each other
fn siblings(r: &mut Rng, o: &Opts) -> SG {
    let ps = preds();
    let k = 2 + r.below(3);
    let leaves = 1 + r.below(k + 1);
    let n = 1 + k + leaves;
    let path = gen_path(r, &ps, o.path_depth);
    let mut v: Vec<S> = (0..n).map(|i| plain(ex(&format!("S{i}")), None, vec![])).collect();
    for i in 1 + k..n {
        let m = 1 + r.below(2);
        for _ in 0..m {
            loop {
                if let Some(c) = constraint(r, n, n, false, &[], &v) {
                    if !v[i].cs.iter().any(|x| std::mem::discriminant(x) == std::mem::discriminant(&c)) {
                        v[i].cs.push(c);
                        break;
                    }
                }
            }
        }
    }
    for i in 1..=k {
        v[i].path = Some(if r.chance(70) { path.clone() } else { gen_path(r, &ps, o.path_depth) });
        let (min, max) = *r.pick(&[(Some(1), None), (Some(2), None), (None, Some(0)), (None, Some(1)), (Some(1), Some(1)), (Some(3), None)]);
        let leaf = if r.chance(80) { 1 + k + (i - 1) % leaves } else { 1 + k + r.below(leaves) };
        v[i].cs.push(C::Qual { s: leaf, min, max, disj: r.chance(75) });
        v[0].cs.push(C::Prop(i));
    }
    for _ in 0..1 + r.below(3) {
        v[0].targets.push(match r.below(3) {
            0 => Tgt::Node(T::ex(&format!("n{}", r.below(5)))),
            1 => Tgt::Class(class(r.below(CLASSES))),
            _ => Tgt::Subj(r.pick(&ps).clone()),
        });
    }
    SG { shapes: v }
}
pub fn shapes(r: &mut Rng, o: &Opts) -> SG {
    if r.chance(10) {
        return siblings(r, o);
    }
    let n = 2 + r.below(5);
    let ps = preds();
    let mut v: Vec<S> = Vec::new();
    for i in 0..n {
        let prop = r.chance(50);
        let bn = o.bnode_shapes && i > 0 && r.chance(30);
        v.push(S {
            name: if bn { format!("_:s{i}") } else { ex(&format!("S{i}")) },
            path: prop.then(|| gen_path(r, &ps, o.path_depth)),
            cs: vec![],
            targets: vec![],
            sev: match r.below(8) {
                0 => Some("Warning"),
                1 => Some("Info"),
                2 => Some("Violation"),
                _ => None,
            },
            deact: r.chance(5),
            msg: if r.chance(15) { Some("custom message".into()) } else { None },
        });
    }
    let props: Vec<usize> = (0..n).filter(|i| v[*i].path.is_some()).collect();
    for i in (0..n).rev() {
        let k = 1 + r.below(4);
        let mut tries = 0;
        while v[i].cs.len() < k && tries < 40 {
            tries += 1;
            let prop = v[i].path.is_some();
            if let Some(c) = constraint(r, i, n, prop, &props, &v) {
                let d = std::mem::discriminant(&c);
                let dup = v[i].cs.iter().any(|x| format!("{x:?}") == format!("{c:?}"));
                if !(single(&c) && v[i].cs.iter().any(|x| std::mem::discriminant(x) == d)) && !dup {
                    v[i].cs.push(c);
                }
            }
        }
        if i == 0 || r.chance(35) {
            for _ in 0..1 + r.below(2) {
                let t = match r.below(6) {
                    0 | 1 => Tgt::Node(loop {
                        let t = if o.literal_targets && r.chance(20) { literal(r) } else { node(r) };
                        if !t.is_b() {
                            break t;
                        }
                    }),
                    2 => Tgt::Class(class(r.below(CLASSES))),
                    3 => Tgt::Subj(r.pick(&ps).clone()),
                    4 => Tgt::Obj(r.pick(&ps).clone()),
                    _ => {
                        if v[i].name.starts_with("_:") {
                            continue;
                        }
                        Tgt::Implicit
                    },
                };
                v[i].targets.push(t);
            }
        }
    }
    SG { shapes: v }
}
/// data where some nodes are instances of shapes that are implicit classes
pub fn link_implicit(g: &mut G, sg: &SG, r: &mut Rng) {
    for s in &sg.shapes {
        if s.targets.iter().any(|t| matches!(t, Tgt::Implicit)) {
            for _ in 0..r.below(3) {
                g.add(node(r), &rdf("type"), T::iri(s.name.clone()));
            }
            if r.chance(50) {
                g.add(T::iri(class(r.below(CLASSES))), &format!("{RDFS}subClassOf"), T::iri(s.name.clone()));
            }
        }
    }
}
