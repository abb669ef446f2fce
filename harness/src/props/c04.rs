//! ShEx verdicts are independent of order, of other associations and of the session history
use crate::fw::*;
use crate::sess::{self, Verdicts};
use crate::shexgen::{self, Opts};
use crate::shexm::*;
use crate::term::*;
use rudof_lib::Rudof;
use rudof_lib::formats::*;

fn shuffle_se(e: &mut SE, r: &mut Rng) {
    match e {
        SE::And(v) | SE::Or(v) => {
            v.iter_mut().for_each(|x| shuffle_se(x, r));
            r.shuffle(v);
        },
        SE::Not(x) => shuffle_se(x, r),
        SE::Shape(s) => {
            r.shuffle(&mut s.extra);
            if let Some(t) = &mut s.te {
                shuffle_te(t, r);
            }
        },
        SE::NC(c) => {
            if let Some(v) = &mut c.values {
                r.shuffle(v);
            }
        },
        _ => {},
    }
}
fn shuffle_te(t: &mut TE, r: &mut Rng) {
    match t {
        TE::TC(c) => {
            if let Some(e) = &mut c.ve {
                shuffle_se(e, r);
            }
        },
        TE::Each(v, _, _) | TE::One(v, _, _) => {
            v.iter_mut().for_each(|x| shuffle_te(x, r));
            r.shuffle(v);
        },
    }
}
pub fn shuffled(s: &Schema, r: &mut Rng) -> Schema {
    let mut s = s.clone();
    s.shapes.iter_mut().for_each(|x| shuffle_se(&mut x.1, r));
    r.shuffle(&mut s.shapes);
    s
}
fn opts(r: &mut Rng) -> Opts {
    Opts {
        negation: r.chance(50),
        recursion: r.chance(85),
        inverse: r.chance(30),
        groups: r.chance(40),
        extra_refs: r.chance(40),
        nshapes: 1 + r.below(4),
    }
}
fn render(s: &Schema, r: &mut Rng) -> (String, ShExFormat) {
    if r.chance(40) { (s.shexj(), ShExFormat::ShExJ) } else { (s.shexc(r), ShExFormat::ShExC) }
}
fn differ(base: &Verdicts, other: &Verdicts, only: Option<&[(T, String)]>, what: &str, doc: &str) -> R {
    for (k, v) in other {
        match base.get(k) {
            Some(w) if w == v => {},
            w => return viol(format!("verdict changes: {what}"), format!("{} @ {}: {w:?} at first, {v} then\n{doc}", k.0.nt(), k.1)),
        }
    }
    let n = match only {
        Some(p) => p.iter().map(|(n, l)| (sess::key(n), l.clone())).collect::<std::collections::BTreeSet<_>>().len(),
        None => base.len(),
    };
    if other.len() != n {
        return viol(format!("associations lost: {what}"), format!("{} verdicts instead of {n}\n{doc}", other.len()));
    }
    Ok(())
}
fn ok<X>(x: Result<X, String>, what: &str) -> R<X> {
    x.or_else(|e| viol(format!("refused: {what}"), e))
}

fn case(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let o = opts(r);
    let s = shexgen::schema(r, &o);
    let nn = 2 + r.below(4);
    let g = shexgen::graph(r, nn, 4);
    let mut pairs: Vec<(T, String)> = Vec::new();
    for i in 0..nn {
        for (l, _) in &s.shapes {
            if r.chance(75) {
                pairs.push((shexgen::node(i), l.clone()));
            }
        }
    }
    if r.chance(20) {
        pairs.push((T::int(2), s.shapes[0].0.clone()));
    }
    if pairs.is_empty() {
        pairs.push((shexgen::node(0), s.shapes[0].0.clone()));
    }
    let (doc, f) = render(&s, r);
    let data = g.nt();
    ctx.input(format!("# data\n{data}\n# schema\n{doc}\n# shapemap\n{}", sess::smap(&pairs)));
    let r = &mut ctx.rng;
    let base = ok(sess::shex_once(&data, DataFormat::Turtle, &doc, f, &sess::smap(&pairs)), "first validation")?;
    let mut counts = [0u64; 4];
    // permutations of everything
    for _ in 0..2 {
        let (d2, f2) = render(&shuffled(&s, r), r);
        let mut p2 = pairs.clone();
        r.shuffle(&mut p2);
        let v = ok(sess::shex_once(&g.nt_shuffled(r), DataFormat::Turtle, &d2, f2, &sess::smap(&p2)), "permuted validation")?;
        differ(&base, &v, None, "permuted input", &d2)?;
        counts[0] += 1;
    }
    // one association at a time, each in a new session
    for _ in 0..4 {
        let p = vec![r.pick(&pairs).clone()];
        let v = ok(sess::shex_once(&data, DataFormat::Turtle, &doc, f, &sess::smap(&p)), "single association")?;
        differ(&base, &v, Some(&p), "association validated alone", &sess::smap(&p))?;
        counts[1] += 1;
    }
    // a session with a past
    let mut ses: Rudof = sess::new();
    for _ in 0..r.below(3) {
        let o2 = opts(r);
        let s2 = shexgen::schema(r, &o2);
        let g2 = shexgen::graph(r, nn, 4);
        let (d2, f2) = render(&s2, r);
        ok(sess::load(&mut ses, &g2.nt(), DataFormat::Turtle, false), "earlier data")?;
        ok(sess::load_shex(&mut ses, &d2, f2), "earlier schema")?;
        let p2: Vec<_> = (0..nn).map(|i| (shexgen::node(i), s2.shapes[0].0.clone())).collect();
        ok(sess::load_map(&mut ses, &sess::smap(&p2)), "earlier shape map")?;
        ok(sess::validate_shex(&mut ses), "earlier validation")?;
        counts[2] += 1;
    }
    let steps = if r.chance(50) { [0, 1, 2] } else { [1, 0, 2] };
    for st in steps {
        match st {
            0 => ok(sess::load(&mut ses, &data, DataFormat::Turtle, false), "data in a session with a past")?,
            1 => ok(sess::load_shex(&mut ses, &doc, f), "schema in a session with a past")?,
            _ => ok(sess::load_map(&mut ses, &sess::smap(&pairs)), "shape map in a session with a past")?,
        }
    }
    for k in 0..2 {
        let v = ok(sess::validate_shex(&mut ses), "validation in a session with a past")?;
        differ(&base, &v, None, if k == 0 { "session with a past" } else { "validated again" }, "")?;
    }
    for _ in 0..2 {
        let mut p = r.subset(&pairs, 50);
        r.shuffle(&mut p);
        if p.is_empty() {
            continue;
        }
        ok(sess::load_map(&mut ses, &sess::smap(&p)), "another shape map")?;
        let v = ok(sess::validate_shex(&mut ses), "validation of a subset")?;
        differ(&base, &v, Some(&p), "subset of the associations in the same session", &sess::smap(&p))?;
        counts[3] += 1;
    }
    ctx.count("permutations", counts[0]);
    ctx.count("single_associations", counts[1]);
    ctx.count("earlier_validations", counts[2]);
    ctx.count("subsets", counts[3]);
    for v in base.values() {
        ctx.count(if v == "conformant" { "conformant" } else { "nonconformant" }, 1);
    }
    ctx.nontrivial();
    Ok(())
}

pub static P: Prop = Prop {
    id: "C04",
    case,
    probes: &[],
    quick: 2500,
    thorough: 60000,
    rule: "distinct (schema, data, shape map) inputs whose verdict map was compared over permutations, single associations, subsets, repetitions and sessions with a past",
    assumptions: &[],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["permutations", "single_associations", "earlier_validations", "subsets", "conformant", "nonconformant"],
    workers: 8,
};
