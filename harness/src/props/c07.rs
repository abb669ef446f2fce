//! The SPARQL mode of the SHACL validator reports the same as the native mode
use super::c06::*;
use crate::fw::*;
use crate::shaclgen::*;
use shacl::ir::IRSchema;
use shacl::validator::ShaclValidationMode;

fn case(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let o = opts(r);
    let sg = shapes(r, &o);
    let mut g = data(r);
    link_implicit(&mut g, &sg, r);
    // the SPARQL engine accepts integers out of the range of their datatype, and doesn't order "0" and "1" as booleans
    const XSD: &str = "^^<http://www.w3.org/2001/XMLSchema#";
    let in_range = |s: String| {
        s.replace(&format!("\"300\"{XSD}byte>"), &format!("\"300\"{XSD}int>"))
            .replace(&format!("\"0\"{XSD}boolean>"), &format!("\"false\"{XSD}boolean>"))
            .replace(&format!("\"1\"{XSD}boolean>"), &format!("\"true\"{XSD}boolean>"))
    };
    let doc = in_range(sg.ttl(r));
    // boolean values are not ordered by the SPARQL engine: see the probe
    let ordered = doc.contains("lessThan");
    let in_range = |s: String| if ordered { in_range(s).replace(&format!("\"false\"{XSD}boolean>"), &format!("\"7\"{XSD}int>")).replace(&format!("\"true\"{XSD}boolean>"), &format!("\"8\"{XSD}int>")) } else { in_range(s) };
    let data = in_range(g.nt_shuffled(r));
    ctx.input(format!("# shapes\n{doc}\n# data\n{data}"));
    let Some(want) = sg.report(&g) else { return inconclusive("left open by the recommendation") };
    let ir = compile(&doc).map_err(|e| Bad::Inconclusive(format!("refused {e}")))?;
    compare(ctx, &ir, &data)?;
    for x in &want {
        ctx.count(&format!("result {}", x.comp), 1);
    }
    Ok(())
}
fn compare(ctx: &mut Ctx, ir: &IRSchema, data: &str) -> R {
    let native = match validate(ir, data, ShaclValidationMode::Native) {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("native: {e}")),
    };
    let sparql = match validate(ir, data, ShaclValidationMode::Sparql) {
        Ok(x) => x,
        Err(e) => return viol("SPARQL mode fails where the native mode succeeds", e),
    };
    let (n, s) = (results(&native), results(&sparql));
    if let Some((sig, d)) = diff(&n, &s) {
        return viol(sig, format!("in the SPARQL mode, with respect to the native mode:\n{d}"));
    }
    if native.conforms() != sparql.conforms() {
        return viol("conforms flag", format!("native {} sparql {}", native.conforms(), sparql.conforms()));
    }
    ctx.count("results compared", s.len() as u64);
    ctx.count(if s.is_empty() { "conforming reports" } else { "non-conforming reports" }, 1);
    if !s.is_empty() {
        ctx.nontrivial();
    }
    Ok(())
}
/// booleans are ordered values
fn probe_boolean_order(ctx: &mut Ctx) -> R {
    let doc = "@prefix sh: <http://www.w3.org/ns/shacl#> .\n<http://e.x/S> a sh:NodeShape ; sh:targetNode <http://e.x/n> ; sh:property [ sh:path <http://e.x/p> ; sh:lessThan <http://e.x/q> ] .";
    let data = "<http://e.x/n> <http://e.x/p> \"false\"^^<http://www.w3.org/2001/XMLSchema#boolean> .\n<http://e.x/n> <http://e.x/q> \"true\"^^<http://www.w3.org/2001/XMLSchema#boolean> .\n";
    ctx.input(format!("# shapes\n{doc}\n# data\n{data}"));
    let ir = compile(doc).map_err(Bad::Inconclusive)?;
    compare(ctx, &ir, data)
}
pub static P: Prop = Prop {
    id: "C07",
    case,
    probes: &[("boolean_order", probe_boolean_order)],
    quick: 15000,
    thorough: 400_000,
    rule: "a case is non-trivial when the report has at least one result",
    assumptions: &["shape references are acyclic", "reports are compared as sets of results; messages are not compared"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["results compared", "conforming reports", "non-conforming reports", "result Class", "result MinInclusive", "result Pattern", "result Closed", "result LessThan", "result Equals", "result Disjoint"],
    workers: 8,
};
