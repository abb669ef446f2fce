//! Random ShEx schemas, graphs and shape maps over a small vocabulary.
use crate::fw::Rng;
use crate::shexm::*;
use crate::term::*;

pub struct Opts {
    pub negation: bool,
    pub recursion: bool,
    pub inverse: bool,
    pub groups: bool,
    pub extra_refs: bool,
    pub nshapes: usize,
}
pub fn preds(n: usize) -> Vec<String> {
    ["p", "q", "r"].iter().take(n).map(|x| ex(x)).collect()
}
pub fn label(i: usize) -> String {
    ex(&format!("S{i}"))
}
pub fn node(i: usize) -> T {
    T::ex(&format!("n{i}"))
}

pub fn value_terms() -> Vec<T> {
    vec![
        T::int(1), T::int(2), T::int(5), T::str("a"), T::str("bc"), T::lang("a", "en"), T::ex("v1"), T::ex("v2"),
        T::lit("true", "boolean"), T::lit("1.5", "decimal"),
    ]
}
pub fn nc(r: &mut Rng) -> NC {
    let mut c = NC::default();
    match r.below(8) {
        0 => c.kind = Some(Kind::Iri),
        1 => c.kind = Some(Kind::Lit),
        2 => c.kind = Some(Kind::NonLit),
        3 => c.dt = Some(xsd("integer")),
        4 => c.dt = Some(xsd("string")),
        5 => {
            c.dt = Some(xsd("integer"));
            c.facets.push(if r.chance(50) { Facet::MinInc("2".into()) } else { Facet::MaxExc("5".into()) });
        },
        _ => {
            let v = value_terms();
            let k = 1 + r.below(3);
            c.values = Some((0..k).map(|_| VV::Term(r.pick(&v).clone())).collect());
        },
    }
    c
}
fn cardinality(r: &mut Rng) -> (u32, Option<u32>) {
    if r.chance(2) {
        // numbers that don't fit in a byte or in two
        return *r.pick(&[(256, None), (257, Some(257)), (0, Some(256)), (1, Some(300)), (65536, None), (0, Some(70000))]);
    }
    *r.pick(&[(1, Some(1)), (1, Some(1)), (1, Some(1)), (0, Some(1)), (0, None), (1, None), (2, Some(2)), (1, Some(2)), (0, Some(2)), (2, None), (2, Some(3))])
}
fn group_card(r: &mut Rng) -> (u32, Option<u32>) {
    if r.chance(60) { (1, Some(1)) } else { *r.pick(&[(0, Some(1)), (0, None), (1, None), (2, Some(2)), (1, Some(2)), (0, Some(2))]) }
}
pub fn value_expr(r: &mut Rng, o: &Opts, depth: usize) -> Option<SE> {
    Some(match r.below(12) {
        0..=2 => return None,
        3..=6 => SE::NC(nc(r)),
        7..=9 => SE::Ref(label(r.below(o.nshapes))),
        10 if depth > 0 => SE::Shape(shape(r, o, depth - 1)),
        11 if depth > 0 => {
            let a = SE::Ref(label(r.below(o.nshapes)));
            let b = SE::NC(nc(r));
            match r.below(if o.negation { 3 } else { 2 }) {
                0 => SE::And(vec![a, b]),
                1 => SE::Or(vec![a, b]),
                _ => SE::Not(Box::new(if r.chance(50) { a } else { b })),
            }
        },
        _ => SE::Ref(label(r.below(o.nshapes))),
    })
}
pub fn tc(r: &mut Rng, o: &Opts, depth: usize) -> TC {
    let (min, max) = cardinality(r);
    TC { inv: o.inverse && r.chance(12), pred: r.pick(&preds(3)).clone(), ve: value_expr(r, o, depth).map(Box::new), min, max }
}
pub fn te(r: &mut Rng, o: &Opts, depth: usize) -> TE {
    match r.below(10) {
        0..=2 => TE::TC(tc(r, o, depth)),
        3..=7 => {
            let n = 2 + r.below(2);
            let v = (0..n).map(|_| if o.groups && depth > 0 && r.chance(25) { te(r, o, depth - 1) } else { TE::TC(tc(r, o, depth)) }).collect();
            let (a, b) = if o.groups { group_card(r) } else { (1, Some(1)) };
            TE::Each(v, a, b)
        },
        _ => {
            let n = 2 + r.below(2);
            let v = (0..n).map(|_| if depth > 0 && r.chance(35) { te(r, o, depth - 1) } else { TE::TC(tc(r, o, depth)) }).collect();
            let (a, b) = if o.groups { group_card(r) } else { (1, Some(1)) };
            TE::One(v, a, b)
        },
    }
}
pub fn shape(r: &mut Rng, o: &Opts, depth: usize) -> Sh {
    if r.chance(4) {
        return Sh { closed: r.chance(30), ..Sh::default() };
    }
    let te = te(r, o, depth);
    let mut v = Vec::new();
    te.tcs(&mut v);
    let mut extra = Vec::new();
    if r.chance(30) {
        for c in v {
            let has_ref = c.ve.as_ref().is_some_and(|e| !matches!(**e, SE::NC(_)));
            if !c.inv && r.chance(60) && !extra.contains(&c.pred) && (o.extra_refs || !has_ref) {
                extra.push(c.pred.clone());
            }
        }
        if !o.extra_refs {
            let mut v = Vec::new();
            te.tcs(&mut v);
            extra.retain(|p| !v.iter().any(|c| &c.pred == p && c.ve.as_ref().is_some_and(|e| !matches!(**e, SE::NC(_)))));
        }
    }
    Sh { closed: r.chance(25), extra, te: Some(te), extends: vec![] }
}
pub fn shape_expr(r: &mut Rng, o: &Opts, depth: usize) -> SE {
    match r.below(12) {
        0 if depth > 0 => SE::And(vec![shape_expr(r, o, depth - 1), shape_expr(r, o, depth - 1)]),
        1 if depth > 0 => SE::Or(vec![shape_expr(r, o, depth - 1), shape_expr(r, o, depth - 1)]),
        2 if depth > 0 && o.negation => SE::Not(Box::new(shape_expr(r, o, depth - 1))),
        3 => SE::Ref(label(r.below(o.nshapes))),
        4 => SE::NC(nc(r)),
        5 => {
            let mut c = NC::default();
            c.kind = Some(*r.pick(&[Kind::Iri, Kind::NonLit]));
            SE::And(vec![SE::NC(c), SE::Shape(shape(r, o, depth))])
        },
        _ => SE::Shape(shape(r, o, depth.min(2))),
    }
}
/// A stratified schema
pub fn schema(r: &mut Rng, o: &Opts) -> Schema {
    for _ in 0..60 {
        let mut s = Schema::default();
        for i in 0..o.nshapes {
            let e = shape_expr(r, o, 2);
            s.shapes.push((label(i), e));
        }
        if trivially_cyclic(&s) {
            continue;
        }
        if let Some(st) = strata(&s) {
            if !o.recursion && st.iter().any(|x| x.len() > 1) {
                continue;
            }
            return s;
        }
    }
    let mut s = Schema::default();
    for i in 0..o.nshapes {
        s.shapes.push((label(i), SE::Shape(Sh { te: Some(TE::TC(TC { inv: false, pred: ex("p"), ve: None, min: 1, max: Some(1) })), ..Sh::default() })));
    }
    s
}
/// References that loop without passing through a triple constraint (forbidden by ShEx)
pub fn trivially_cyclic(s: &Schema) -> bool {
    fn direct(e: &SE, out: &mut Vec<String>) {
        match e {
            SE::And(v) | SE::Or(v) => v.iter().for_each(|x| direct(x, out)),
            SE::Not(x) => direct(x, out),
            SE::Ref(l) => out.push(l.clone()),
            _ => {},
        }
    }
    for (l, _) in &s.shapes {
        let mut todo = vec![l.clone()];
        let mut seen = std::collections::BTreeSet::new();
        while let Some(x) = todo.pop() {
            let mut v = Vec::new();
            if let Some(e) = s.get(&x) {
                direct(e, &mut v);
            }
            for y in v {
                if &y == l {
                    return true;
                }
                if seen.insert(y.clone()) {
                    todo.push(y);
                }
            }
        }
    }
    false
}
pub fn graph(r: &mut Rng, nnodes: usize, max_arcs: usize) -> G {
    let mut g = G::new();
    let vals = value_terms();
    let nodes: Vec<T> = (0..nnodes).map(|i| if i > 0 && r.chance(15) { T::b(&format!("b{i}")) } else { node(i) }).collect();
    for n in &nodes {
        let k = r.below(max_arcs + 1);
        for _ in 0..k {
            let p = if r.chance(7) { ex("z") } else { r.pick(&preds(3)).clone() };
            let o = if r.chance(45) { r.pick(&nodes).clone() } else { r.pick(&vals).clone() };
            g.add(n.clone(), &p, o);
        }
    }
    g
}
