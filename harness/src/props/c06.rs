//! SHACL reports are those of the SHACL Core semantics
use crate::fw::*;
use crate::sess;
use crate::shaclgen::*;
use crate::shaclm::*;
use crate::term::*;
use rudof_rdf::rdf_core::{RDFFormat, SHACLPath};
use rudof_rdf::rdf_impl::{OxigraphInMemory, ReaderMode};
use shacl::ir::IRSchema;
use shacl::rdf::ShaclParser;
use shacl::validator::ShaclValidationMode;
use shacl::validator::processor::{GraphValidation, ShaclProcessor};
use shacl::validator::report::ValidationReport;
use shacl::validator::store::Graph;
use std::collections::BTreeSet;

pub fn graph(doc: &str, f: RDFFormat) -> Result<OxigraphInMemory, String> {
    OxigraphInMemory::from_str(doc, &f, None, &ReaderMode::Strict).map_err(sess::e)
}
pub fn compile(doc: &str) -> Result<IRSchema, String> {
    let ast = ShaclParser::new(graph(doc, RDFFormat::Turtle)?).parse().map_err(sess::e)?;
    IRSchema::compile(&ast).map_err(sess::e)
}
pub fn validate(ir: &IRSchema, data: &str, mode: ShaclValidationMode) -> Result<ValidationReport, String> {
    let g: Graph = graph(data, RDFFormat::NTriples)?.try_into().map_err(sess::e)?;
    let mut v: GraphValidation = g.into();
    ShaclProcessor::validate(&mut v, ir, &mode).map_err(sess::e)
}
pub fn canon(p: &SHACLPath) -> String {
    let l = |v: &Vec<SHACLPath>| v.iter().map(canon).collect::<Vec<_>>().join(",");
    match p {
        SHACLPath::Predicate { pred } => format!("<{}>", pred.as_str()),
        SHACLPath::Alternative { paths } => format!("alt({})", l(paths)),
        SHACLPath::Sequence { paths } => format!("seq({})", l(paths)),
        SHACLPath::Inverse { path } => format!("inv({})", canon(path)),
        SHACLPath::ZeroOrMore { path } => format!("star({})", canon(path)),
        SHACLPath::OneOrMore { path } => format!("plus({})", canon(path)),
        SHACLPath::ZeroOrOne { path } => format!("opt({})", canon(path)),
    }
}
/// blank shapes are not identified by their label
fn src(s: &str) -> String {
    if s.starts_with("_:") { "_:".into() } else { s.into() }
}
pub fn results(rep: &ValidationReport) -> BTreeSet<Res> {
    use shacl::types::Severity as V;
    rep.results()
        .iter()
        .map(|r| Res {
            focus: sess::key(&sess::obj(r.focus_node())),
            path: r.path().map(canon),
            value: r.value().map(|v| sess::key(&sess::obj(v))),
            comp: match sess::obj(r.constraint_component()) {
                T::Iri(i) => component_name(&i),
                t => t.nt(),
            },
            source: match r.source().map(sess::obj) {
                Some(T::Iri(i)) => i,
                Some(_) => "_:".into(),
                None => "-".into(),
            },
            sev: match r.severity() {
                V::Violation => "Violation".into(),
                V::Warning => "Warning".into(),
                V::Info => "Info".into(),
                v => format!("{v:?}"),
            },
        })
        .collect()
}
pub fn norm(s: BTreeSet<Res>) -> BTreeSet<Res> {
    s.into_iter()
        .map(|mut r| {
            r.source = src(&r.source);
            r
        })
        .collect()
}
pub fn diff(want: &BTreeSet<Res>, got: &BTreeSet<Res>) -> Option<(String, String)> {
    let miss: Vec<&Res> = want.difference(got).collect();
    let extra: Vec<&Res> = got.difference(want).collect();
    if miss.is_empty() && extra.is_empty() {
        return None;
    }
    let names = |v: &Vec<&Res>| v.iter().map(|r| r.comp.clone()).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(",");
    let mut sig = String::new();
    if !miss.is_empty() {
        sig += &format!("missing {} ", names(&miss));
    }
    if !extra.is_empty() {
        sig += &format!("unexpected {}", names(&extra));
    }
    let d = miss.iter().map(|r| format!("missing    {}", r.show())).chain(extra.iter().map(|r| format!("unexpected {}", r.show()))).collect::<Vec<_>>().join("\n");
    Some((sig.trim().to_string(), d))
}
pub fn opts(r: &mut Rng) -> Opts {
    Opts { path_depth: r.below(3), bnode_shapes: r.chance(40), literal_targets: r.chance(30) }
}
fn case(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let o = opts(r);
    let sg = shapes(r, &o);
    let mut g = data(r);
    link_implicit(&mut g, &sg, r);
    let doc = sg.ttl(r);
    let data = g.nt_shuffled(r);
    ctx.input(format!("# shapes\n{doc}\n# data\n{data}"));
    let Some(want) = sg.report(&g) else { return inconclusive("left open by the recommendation") };
    let want = norm(want);
    let ir = match compile(&doc) {
        Ok(x) => x,
        Err(e) => return viol("well-formed shapes graph refused", e),
    };
    let rep = match validate(&ir, &data, ShaclValidationMode::Native) {
        Ok(x) => x,
        Err(e) => return viol("validation fails", e),
    };
    let got = results(&rep);
    if let Some((s, d)) = diff(&want, &got) {
        return viol(s, d);
    }
    if rep.conforms() != want.is_empty() {
        return viol("conforms flag", format!("{}", rep.conforms()));
    }
    for x in &want {
        ctx.count(&format!("result {}", x.comp), 1);
    }
    ctx.count("results compared", want.len() as u64);
    ctx.count(if want.is_empty() { "conforming reports" } else { "non-conforming reports" }, 1);
    if !want.is_empty() {
        ctx.nontrivial();
    }
    Ok(())
}
pub static P: Prop = Prop {
    id: "C06",
    case,
    probes: &[],
    quick: 40000,
    thorough: 1_000_000,
    rule: "a case is non-trivial when the reference report has at least one result",
    assumptions: &["shape references are acyclic", "reports are compared as sets of results; messages are not compared", "path of results compared structurally"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["results compared", "conforming reports", "non-conforming reports", "result Class", "result Datatype", "result MinCount", "result Node", "result Closed", "result QualifiedMinCount", "result LessThan"],
    workers: 8,
};
