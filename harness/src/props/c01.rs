//! ShEx verdicts against the reference evaluator
use crate::fw::*;
use crate::sess;
use crate::shexgen::{self, Opts};
use crate::shexm::*;
use crate::term::*;
use rudof_lib::formats::*;

pub fn compare(ctx: &mut Ctx, g: &G, s: &Schema, pairs: &[(T, String)], doc: &str, sf: ShExFormat, data: &str) -> R {
    let map = sess::smap(pairs);
    ctx.input(format!("# data\n{data}\n# schema\n{doc}\n# shapemap\n{map}"));
    let ns: Vec<T> = pairs.iter().map(|p| p.0.clone()).collect();
    let (Some(mut o1), Some(mut o2)) = (Oracle::new(s, g, true, &ns), Oracle::new(s, g, false, &ns)) else {
        return inconclusive("not stratified");
    };
    let got = match sess::shex_once(data, DataFormat::Turtle, doc, sf, &map) {
        Ok(v) => v,
        Err(e) => return viol("validation refused a legal input", e),
    };
    let mut seen = 0;
    for (n, l) in pairs {
        let Some(st) = got.get(&(sess::key(n), l.clone())) else {
            return viol("association without a verdict", format!("{} @ {l}; got {got:?}", n.nt()));
        };
        seen += 1;
        let (a, b) = (o1.verdict(n, l), o2.verdict(n, l));
        if o1.undecided || o2.undecided || a != b {
            ctx.count("oracle_undecided", 1);
            continue;
        }
        ctx.count(if a { "expected_conformant" } else { "expected_nonconformant" }, 1);
        let want = if a { "conformant" } else { "nonconformant" };
        if st != want {
            return viol(format!("verdict {st}, the semantics say {want}"), format!("{} @ <{l}>", n.nt()));
        }
        if a != b {
            unreachable!()
        }
    }
    if got.len() != seen {
        return viol("more verdicts than associations", format!("{got:?}"));
    }
    ctx.count("oracle_steps", o1.steps);
    Ok(())
}

fn case(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let o = Opts {
        negation: r.chance(50),
        recursion: r.chance(70),
        inverse: r.chance(30),
        groups: r.chance(50),
        extra_refs: false,
        nshapes: 1 + r.below(4),
    };
    let s = shexgen::schema(r, &o);
    let nn = 2 + r.below(3);
    let g = shexgen::graph(r, nn, 4);
    let mut pairs = Vec::new();
    for i in 0..nn {
        if r.chance(95) {
            for (l, _) in &s.shapes {
                if r.chance(80) {
                    pairs.push((shexgen::node(i), l.clone()));
                }
            }
        }
    }
    if r.chance(30) {
        pairs.push((T::int(2), s.shapes[0].0.clone()));
        pairs.push((T::lang("a", "en"), s.shapes[0].0.clone()));
    }
    if pairs.is_empty() {
        pairs.push((shexgen::node(0), s.shapes[0].0.clone()));
    }
    let json = r.chance(40);
    let doc = if json { s.shexj() } else { s.shexc(r) };
    let data = g.nt_shuffled(r);
    ctx.count(if json { "shexj" } else { "shexc" }, 1);
    compare(ctx, &g, &s, &pairs, &doc, if json { ShExFormat::ShExJ } else { ShExFormat::ShExC }, &data)?;
    ctx.nontrivial();
    Ok(())
}

pub static P: Prop = Prop {
    id: "C01",
    case,
    probes: &[],
    quick: 4000,
    thorough: 120000,
    rule: "distinct (schema, data, shape map) inputs for which the engine returned a verdict for every association and the reference evaluator decided",
    assumptions: &["reference evaluator written from the ShEx 2.1 specification", "greatest-fixpoint reading of recursion"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["expected_conformant", "expected_nonconformant", "shexc", "shexj"],
    workers: 8,
};
