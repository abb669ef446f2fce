//! Shapes that extend others, abstract shapes: verdicts against the reference evaluator
use crate::fw::*;
use crate::props::c01::compare;
use crate::shexgen::{self, label, node};
use crate::shexm::*;
use crate::term::*;
use rudof_lib::formats::*;

struct O {
    refs: bool,
    constraints: bool,
    alternatives: bool,
    groups: bool,
    /// a shape which several declarations have as a conjunct
    named: bool,
    /// a chain of extensions with conjuncts
    chain: bool,
    n: usize,
}
const PREDS: [&str; 4] = ["p", "q", "r", "s"];
fn nc(r: &mut Rng) -> NC {
    let mut c = NC::default();
    match r.below(6) {
        0 => c.kind = Some(Kind::Iri),
        1 => c.kind = Some(Kind::Lit),
        2 => c.dt = Some(xsd("integer")),
        3 => {
            c.dt = Some(xsd("integer"));
            c.facets.push(if r.chance(50) { Facet::MinInc("2".into()) } else { Facet::MaxExc("5".into()) });
        },
        _ => {
            let v = shexgen::value_terms();
            let k = 1 + r.below(3);
            c.values = Some((0..k).map(|_| VV::Term(r.pick(&v).clone())).collect());
        },
    }
    c
}
fn tc(r: &mut Rng, o: &O) -> TE {
    let ve = match r.below(10) {
        0..=2 => None,
        3..=4 if o.refs => Some(SE::Ref(label(r.below(o.n)))),
        _ => Some(SE::NC(nc(r))),
    };
    let (min, max) = *r.pick(&[(1, Some(1)), (1, Some(1)), (1, Some(1)), (0, Some(1)), (0, None), (1, None), (1, Some(2)), (2, Some(2))]);
    TE::TC(TC { inv: false, pred: ex(r.pick(&PREDS)), ve: ve.map(Box::new), min, max })
}
fn te(r: &mut Rng, o: &O) -> Option<TE> {
    Some(match r.below(12) {
        0 => return None,
        1..=5 => tc(r, o),
        6..=9 => TE::Each((0..2).map(|_| tc(r, o)).collect(), 1, Some(1)),
        _ if o.groups => {
            let (a, b) = *r.pick(&[(1, Some(1)), (0, Some(1)), (1, None), (0, None)]);
            if r.chance(60) { TE::One((0..2).map(|_| tc(r, o)).collect(), a, b) } else { TE::Each((0..2).map(|_| tc(r, o)).collect(), a, b) }
        },
        _ => tc(r, o),
    })
}
/// A conjunct besides the main shape
fn conjunct(r: &mut Rng, own: &Sh, before: &[(String, SE)]) -> SE {
    let mut c = NC::default();
    match r.below(3) {
        0 => {
            c.kind = Some(*r.pick(&[Kind::Iri, Kind::BNode, Kind::NonLit]));
            SE::NC(c)
        },
        _ => {
            let mut tcs = Vec::new();
            if let Some(t) = &own.te {
                t.tcs(&mut tcs);
            }
            // or one of a shape above it
            let mut above = own.extends.clone();
            while let Some(l) = above.pop() {
                let e = before.iter().find(|x| x.0 == l).map(|x| &x.1);
                let Some(s) = e.and_then(main_shape) else { continue };
                if r.chance(50) {
                    if let Some(t) = &s.te {
                        let mut v = Vec::new();
                        t.tcs(&mut v);
                        tcs = v;
                    }
                }
                above.extend(s.extends.iter().cloned());
            }
            let pred = tcs.first().map(|t| t.pred.clone()).unwrap_or(ex("p"));
            let (min, max) = *r.pick(&[(0, None), (0, None), (1, None), (1, Some(1))]);
            let mut one = |r: &mut Rng, min, max| SE::Shape(Sh { te: Some(TE::TC(TC { inv: false, pred: pred.clone(), ve: Some(Box::new(SE::NC(nc(r)))), min, max })), ..Sh::default() });
            match r.below(6) {
                0 => SE::Not(Box::new(one(r, 1, None))),
                1 => SE::Or(vec![one(r, min, max), one(r, 1, Some(1))]),
                _ => one(r, min, max),
            }
        },
    }
}
fn decl(r: &mut Rng, o: &O, i: usize, leaf: bool, before: &[(String, SE)]) -> SE {
    let mut ext = Vec::new();
    if i > 0 {
        if o.chain && r.chance(85) {
            ext.push(label(i - 1));
        }
        let k = if !ext.is_empty() { r.below(5) / 4 } else if o.named { 1 + r.below(3) } else { *r.pick(&[0, 1, 1, 1, 1, 2, 2]) };
        for _ in 0..k {
            let l = label(r.below(i));
            if !ext.contains(&l) {
                ext.push(l);
            }
        }
    }
    let mut t = te(r, o);
    let named = o.named && r.chance(30);
    if named && r.chance(60) {
        t = Some(TE::TC(TC { inv: false, pred: ex("p"), ve: None, min: 1, max: Some(1 + r.below(2) as u32) }));
    }
    let mut extra = Vec::new();
    if leaf && !o.refs && r.chance(25) {
        extra.push(ex(r.pick(&PREDS)));
    }
    let sh = Sh { closed: r.chance(if leaf { 30 } else { 10 }), extra, te: t, extends: ext };
    if o.alternatives && !leaf && r.chance(20) {
        let other = Sh { te: te(r, o), ..Sh::default() };
        return SE::Or(vec![SE::Shape(Sh { extends: vec![], ..sh }), SE::Shape(other)]);
    }
    if named {
        return SE::And(vec![SE::Shape(sh), SE::Ref(label(o.n))]);
    }
    if o.constraints && r.chance(if o.chain { 40 } else { 25 }) {
        let c = conjunct(r, &sh, before);
        return SE::And(if matches!(c, SE::NC(_)) && r.chance(60) { vec![c, SE::Shape(sh)] } else { vec![SE::Shape(sh), c] });
    }
    SE::Shape(sh)
}
/// Alternatives, and two shapes with a conjunct in common, above one shape
fn fanned(r: &mut Rng, o: &O, i: usize) -> SE {
    let any = |r: &mut Rng, p: &str| {
        let (min, max) = *r.pick(&[(1, Some(1)), (1, Some(2)), (0, None)]);
        TE::TC(TC { inv: false, pred: ex(p), ve: None, min, max })
    };
    let shape = |te: Option<TE>| Sh { te, ..Sh::default() };
    match i {
        0 => SE::Or(vec![SE::Shape(shape(Some(any(r, "q")))), SE::Shape(shape(te(r, o)))]),
        1 | 2 => {
            let t = any(r, "p");
            SE::And(vec![SE::Shape(shape(Some(t))), SE::Ref(label(o.n))])
        },
        _ => {
            let mut extends = vec![label(0), label(1), label(2)];
            r.shuffle(&mut extends);
            SE::Shape(Sh { extends, te: if r.chance(50) { te(r, o) } else { None }, ..Sh::default() })
        },
    }
}
fn value(r: &mut Rng, e: Option<&SE>, nn: usize) -> T {
    let vals = shexgen::value_terms();
    match e {
        Some(SE::NC(c)) => {
            let ok: Vec<&T> = vals.iter().filter(|t| nc_sat(t, c) == Some(true)).collect();
            if ok.is_empty() || r.chance(8) { r.pick(&vals).clone() } else { (*r.pick(&ok)).clone() }
        },
        Some(_) => node(r.below(nn)),
        None => r.pick(&vals).clone(),
    }
}
/// Nodes with arcs for the shapes of a hierarchy, with small deviations
fn graph(r: &mut Rng, s: &Schema, nn: usize) -> G {
    let mut g = G::new();
    for i in 0..nn {
        let mut todo = vec![r.pick(&s.shapes).0.clone()];
        let mut seen: Vec<String> = Vec::new();
        while let Some(l) = todo.pop() {
            if seen.contains(&l) {
                continue;
            }
            seen.push(l.clone());
            let shapes: Vec<&Sh> = match s.get(&l) {
                Some(SE::Or(v)) => match r.pick(v) {
                    SE::Shape(s) => vec![s],
                    _ => vec![],
                },
                Some(e) => main_shape(e).into_iter().collect(),
                None => vec![],
            };
            for sh in shapes {
                todo.extend(sh.extends.iter().cloned());
                let Some(t) = &sh.te else { continue };
                let mut tcs = Vec::new();
                if let TE::One(v, ..) = t {
                    r.pick(v).tcs(&mut tcs);
                } else {
                    t.tcs(&mut tcs);
                }
                for c in tcs {
                    let mut k = c.min + r.below(2) as u32;
                    if c.max.is_some_and(|m| k > m) || r.chance(20) {
                        k = c.min;
                    }
                    if r.chance(6) {
                        k = k.saturating_sub(1);
                    }
                    for _ in 0..k {
                        let v = value(r, c.ve.as_deref(), nn);
                        g.add(node(i), &c.pred, v);
                    }
                }
            }
        }
        if r.chance(15) {
            let p = if r.chance(40) { ex("z") } else { ex(r.pick(&PREDS)) };
            let v = value(r, None, nn);
            g.add(node(i), &p, v);
        }
    }
    g
}
fn case(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let mut o = O { refs: r.chance(35), constraints: r.chance(40), alternatives: r.chance(30), groups: r.chance(40), named: r.chance(35), chain: r.chance(30), n: 2 + r.below(4) };
    if o.chain {
        o.constraints = true;
        o.refs = false;
        o.n = o.n.max(4);
    }
    if o.named {
        o.alternatives = r.chance(70);
        o.n = o.n.max(4);
    }
    let fan = r.chance(60);
    let mut s = Schema::default();
    for i in 0..o.n {
        // referenced below as a parent or not is only known afterwards
        let leaf = i + 1 == o.n || !o.chain && r.chance(25);
        let e = if o.named && fan && i < 4 { fanned(r, &o, i) } else { decl(r, &o, i, leaf, &s.shapes) };
        s.shapes.push((label(i), e));
    }
    if o.named {
        let t = TC { inv: false, pred: ex("p"), ve: Some(Box::new(SE::NC(nc(r)))), min: 0, max: None };
        s.shapes.push((label(o.n), SE::Shape(Sh { te: Some(TE::TC(t)), ..Sh::default() })));
    }
    if r.chance(30) {
        let l = label(r.below(o.n));
        if !s.children(&l).is_empty() {
            s.abstracts.insert(l);
        }
    }
    if r.chance(40) {
        r.shuffle(&mut s.shapes);
    }
    let nn = 1 + r.below(3);
    let g = graph(r, &s, nn);
    let mut pairs = Vec::new();
    for i in 0..nn {
        for (l, _) in &s.shapes {
            if r.chance(85) {
                pairs.push((node(i), l.clone()));
            }
        }
    }
    if pairs.is_empty() {
        pairs.push((node(0), label(0)));
    }
    let json = r.chance(40);
    let doc = if json { s.shexj() } else { s.shexc(r) };
    let data = g.nt_shuffled(r);
    for (l, e) in &s.shapes {
        if main_shape(e).is_some_and(|s| !s.extends.is_empty()) {
            ctx.count("shapes that extend", 1);
        }
        if s.abstracts.contains(l) {
            ctx.count("abstract shapes", 1);
        }
    }
    compare(ctx, &g, &s, &pairs, &doc, if json { ShExFormat::ShExJ } else { ShExFormat::ShExC }, &data)?;
    ctx.nontrivial();
    Ok(())
}
pub static P: Prop = Prop {
    id: "C03",
    case,
    probes: &[],
    quick: 3000,
    thorough: 60000,
    rule: "distinct (schema, data, shape map) inputs for which the engine returned a verdict for every association and the reference evaluator decided",
    assumptions: &["EXTENDS as described in docs/src/internals/feasibility-model.md"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["expected_conformant", "expected_nonconformant", "shapes that extend", "abstract shapes"],
    workers: 8,
};
