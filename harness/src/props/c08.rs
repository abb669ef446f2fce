//! SHACL shapes survive being written and read again
use super::c06::opts;
use crate::datagen;
use crate::fw::*;
use crate::sess;
use crate::shaclgen::*;
use crate::shaclm::*;
use crate::term::*;
use rudof_lib::Rudof;
const RDFS: &str = "http://www.w3.org/2000/01/rdf-schema#";
use rudof_lib::formats::*;
use std::collections::BTreeSet;

const FMT: [ShaclFormat; 7] =
    [ShaclFormat::Turtle, ShaclFormat::NTriples, ShaclFormat::RdfXml, ShaclFormat::TriG, ShaclFormat::N3, ShaclFormat::NQuads, ShaclFormat::JsonLd];
fn ox(f: &ShaclFormat) -> oxrdfio::RdfFormat {
    use oxrdfio::RdfFormat as F;
    match f {
        ShaclFormat::NTriples => F::NTriples,
        ShaclFormat::RdfXml => F::RdfXml,
        ShaclFormat::TriG => F::TriG,
        ShaclFormat::N3 => F::N3,
        ShaclFormat::NQuads => F::NQuads,
        ShaclFormat::JsonLd => F::JsonLd { profile: Default::default() },
        _ => F::Turtle,
    }
}
fn load(rud: &mut Rudof, doc: &str, f: &ShaclFormat) -> Result<(), String> {
    let i = InputSpec::Str(doc.to_string());
    rud.load_shacl_shapes().with_shacl_schema(&i).with_shacl_schema_format(f).execute().map_err(sess::e)
}
fn report(rud: &mut Rudof, mode: &ShaclValidationMode) -> Result<(bool, BTreeSet<Res>), String> {
    rud.validate_shacl().with_shacl_validation_mode(mode).execute().map_err(sess::e)?;
    let mut w = Vec::new();
    rud.serialize_shacl_validation_results(&mut w).with_result_shacl_validation_format(&ResultShaclValidationFormat::NTriples).execute().map_err(sess::e)?;
    let (c, r, _) = crate::rep::read(&parse(&w, oxrdfio::RdfFormat::NTriples)?)?;
    Ok((c, r))
}
/// the triples of a shapes graph whose presence matters: the class of a shape can be left implicit or be written
fn essence(g: &G) -> G {
    let mut o = G::new();
    let mut ignored: BTreeSet<T> = BTreeSet::new();
    for t in g.t.iter().filter(|t| t.1 == sh("ignoredProperties")) {
        let mut n = t.2.clone();
        while ignored.insert(n.clone()) {
            match g.objs(&n, &rdf("rest")).first() {
                Some(x) => n = x.clone(),
                None => break,
            }
        }
    }
    let mut live: BTreeSet<T> = g.t.iter().filter(|t| t.1 == rdf("type") && t.2 != T::iri(format!("{RDFS}Class")) || t.1.starts_with("http://www.w3.org/ns/shacl#target")).map(|t| t.0.clone()).collect();
    loop {
        let more: BTreeSet<T> = g.t.iter().filter(|t| live.contains(&t.0) && !t.1.starts_with("http://www.w3.org/ns/shacl#target")).map(|t| t.2.clone()).filter(|t| !live.contains(t)).collect();
        if more.is_empty() {
            break;
        }
        live.extend(more);
    }
    for (s, p, v) in &g.t {
        if !live.contains(s) {
            continue; // not used by any shape that is declared
        }
        if *p == sh("ignoredProperties") {
            // the order doesn't matter
            for x in crate::rep::list(g, v).unwrap_or_default() {
                o.add(s.clone(), &sh("ignoredProperties"), x);
            }
            continue;
        }
        if ignored.contains(s) {
            continue;
        }
        let class = *p == rdf("type") && (*v == T::iri(sh("NodeShape")) || *v == T::iri(sh("PropertyShape")));
        if !class {
            let v = match v {
                T::Lit { lex, dt, lang } if lex.eq_ignore_ascii_case("en-us") || lang.is_some() => {
                    let lex = if lex.eq_ignore_ascii_case("en-us") { "en-us".to_string() } else { lex.clone() };
                    T::Lit { lex, dt: dt.clone(), lang: lang.as_ref().map(|l| l.to_lowercase()) }
                },
                v => v.clone(),
            };
            o.add(s.clone(), p, v);
        }
    }
    o
}
fn text(r: &mut Rng) -> String {
    let v = ["a name", "", "it's \"so\"", "back\\slash", "two\nlines", "tab\t", "é 漢 𝒳", "{?this}", "a,b", " x ", "'''", "\"\"\"", "<b>&amp;", "@en"];
    quote(r.pick(&v))
}
fn langs(r: &mut Rng, p: &str) -> Vec<String> {
    let mut o = Vec::new();
    for l in r.subset(&["", "@en", "@es", "@en-gb"], 40) {
        o.push(format!("{p} {}{l}", text(r)));
    }
    o
}
/// declarations which have no effect in the results, or which are not in the random shapes
fn extras(r: &mut Rng, sg: &SG) -> String {
    let mut o = String::new();
    for (i, s) in sg.shapes.iter().enumerate() {
        if s.cs.is_empty() && s.targets.is_empty() && s.path.is_none() {
            continue;
        }
        let mut po: Vec<String> = Vec::new();
        if s.path.is_some() && r.chance(25) {
            po.extend(langs(r, "sh:name"));
        }
        if s.path.is_some() && r.chance(25) {
            po.extend(langs(r, "sh:description"));
        }
        if s.msg.is_none() && r.chance(25) {
            po.extend(langs(r, "sh:message"));
        }
        if s.path.is_some() && r.chance(20) {
            po.push(format!("sh:order {}", r.pick(&["1", "0", "2.5", "-3", "10.25"])));
        }
        if matches!(s.path, Some(Path::P(_))) && r.chance(20) && i + 1 < sg.shapes.len() {
            // shape references stay acyclic: they go to shapes with a greater index
            let k = i + 1 + r.below(sg.shapes.len() - i - 1);
            let t = &sg.shapes[k];
            if !t.name.starts_with("_:") && t.path.is_none() && !t.cs.is_empty() {
                po.push(format!("sh:reifierShape <{}>", t.name));
                if r.chance(50) {
                    po.push("sh:reificationRequired true".into());
                }
            }
        }
        if !po.is_empty() {
            let id = if s.name.starts_with("_:") { s.name.clone() } else { format!("<{}>", s.name) };
            o.push_str(&format!("{id} {} .\n", po.join(" ; ")));
        }
    }
    o
}
fn case(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let o = opts(r);
    let sg = shapes(r, &o);
    let mut g = data(r);
    link_implicit(&mut g, &sg, r);
    let mut ttl = sg.ttl(r);
    if r.chance(60) {
        ttl += &extras(r, &sg);
    }
    let data = g.nt_shuffled(r);
    let src = match parse(ttl.as_bytes(), oxrdfio::RdfFormat::Turtle) {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("the generator wrote {e}")),
    };
    let inf = if r.chance(40) { ShaclFormat::Turtle } else { r.pick(&FMT).clone() };
    let doc = if matches!(inf, ShaclFormat::Turtle) { ttl.clone() } else { datagen::ox_ser(&src, ox(&inf)).map_err(Bad::Inconclusive)? };
    let outf = r.pick(&FMT).clone();
    let mode = if r.chance(80) { ShaclValidationMode::Native } else { ShaclValidationMode::Sparql };
    ctx.input(format!("# shapes in {inf}, written in {outf}, validation {mode}\n{doc}\n# data\n{data}"));
    let mut a = sess::new();
    let from_data = ctx.rng.chance(15);
    if from_data {
        // the shapes graph is the data graph
        let df = match inf {
            ShaclFormat::NTriples => DataFormat::NTriples,
            ShaclFormat::RdfXml => DataFormat::RdfXml,
            ShaclFormat::TriG => DataFormat::TriG,
            ShaclFormat::N3 => DataFormat::N3,
            ShaclFormat::NQuads => DataFormat::NQuads,
            ShaclFormat::JsonLd => DataFormat::JsonLd,
            _ => DataFormat::Turtle,
        };
        sess::load(&mut a, &doc, df, false).map_err(|e| Bad::Inconclusive(format!("refused {e}")))?;
        if let Err(e) = a.load_shacl_shapes().execute() {
            return viol("shapes of the data are refused", e.to_string());
        }
        ctx.count("shapes taken from the data", 1);
    } else if let Err(e) = load(&mut a, &doc, &inf) {
        return if matches!(inf, ShaclFormat::Turtle) { inconclusive(format!("refused {e}")) } else { viol(format!("shapes refused in {inf}"), e) };
    }
    ctx.count(&format!("shapes read from {inf}"), 1);
    sess::load(&mut a, &data, DataFormat::NTriples, false).map_err(Bad::Inconclusive)?;
    let before = match report(&mut a, &mode) {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("no report {e}")),
    };
    if let Some(want) = sg.report(&g).filter(|_| matches!(mode, ShaclValidationMode::Native) && !ttl.contains("reif")) {
        let want = super::c06::norm(want);
        if let Some((s, d)) = super::c06::diff(&want, &before.1) {
            return viol(format!("shapes read from {inf}: {s}"), d);
        }
    }
    let mut w = Vec::new();
    if let Err(e) = a.serialize_shacl_shapes(&mut w).with_shacl_result_format(&outf).execute() {
        return viol(format!("shapes can't be written in {outf}"), e.to_string());
    }
    let out = String::from_utf8(w).map_err(|e| Bad::Inconclusive(e.to_string()))?;
    let back = match parse(out.as_bytes(), ox(&outf)) {
        Ok(x) => x,
        Err(e) => return viol(format!("shapes written in {outf} are not well formed"), format!("{e}\n{out}")),
    };
    let (x, y) = (essence(&src), essence(&back));
    // a node without a type, a target or a reference is a shape or not: it is not part of the comparison
    let all = src.t.iter().all(|t| x.t.iter().any(|u| u.0 == t.0) || t.1 == rdf("type") || t.1 == rdf("first") || t.1 == rdf("rest"));
    match if all { isomorphic(&x, &y) } else { None } {
        Some(true) => ctx.count("graphs equal", 1),
        None => ctx.count("isomorphism undecided", 1),
        Some(false) => {
            let ps = |a: &G, b: &G| {
                let n = |g: &G| g.t.iter().fold(std::collections::BTreeMap::new(), |mut m, t| {
                    let o = if t.2.is_b() { "[]".to_string() } else { t.2.nt() };
                    *m.entry(format!("{} {o}", t.1.replace("http://www.w3.org/ns/shacl#", "sh:"))).or_insert(0usize) += 1;
                    m
                });
                let (a, b) = (n(a), n(b));
                a.into_iter().filter(|(k, v)| b.get(k).copied().unwrap_or(0) < *v).map(|(k, _)| k).collect::<Vec<_>>()
            };
            let (lost, added) = (ps(&x, &y), ps(&y, &x));
            let short = |v: &Vec<String>| v.iter().map(|s| s.split(' ').next().unwrap_or("").to_string()).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(",");
            return viol(format!("lost {} added {}", short(&lost), short(&added)), format!("lost {lost:?}\nadded {added:?}\nwritten:\n{out}"));
        },
    }
    let mut b = sess::new();
    if let Err(e) = load(&mut b, &out, &outf) {
        return viol(format!("shapes written in {outf} are refused"), format!("{e}\n{out}"));
    }
    sess::load(&mut b, &data, DataFormat::NTriples, false).map_err(Bad::Inconclusive)?;
    let after = match report(&mut b, &mode) {
        Ok(x) => x,
        Err(e) => return viol("no report after reading the shapes again", format!("{e}\n{out}")),
    };
    if let Some((s, d)) = super::c06::diff(&before.1, &after.1) {
        return viol(format!("report changes: {s}"), format!("{d}\nwritten:\n{out}"));
    }
    if before.0 != after.0 {
        return viol("conforms changes", out);
    }
    ctx.count(&format!("shapes written in {outf}"), 1);
    ctx.count("results compared", after.1.len() as u64);
    for k in ["sh:reifierShape", "sh:order", "sh:message", "sh:name", "sh:closed", "sh:in ", "sh:languageIn", "sh:alternativePath", "sh:qualifiedValueShapesDisjoint", "sh:flags", "sh:deactivated"] {
        if ttl.contains(k) {
            ctx.count(&format!("round trips with {}", k.trim()), 1);
        }
    }
    if !after.1.is_empty() {
        ctx.nontrivial();
    }
    Ok(())
}
pub static P: Prop = Prop {
    id: "C08",
    case,
    probes: &[],
    quick: 8000,
    thorough: 200_000,
    rule: "a case is non-trivial when the report with the shapes that were read again has at least one result",
    assumptions: &["shape references are acyclic", "a shape can gain its rdf:type when it is written", "messages of results are not compared"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["graphs equal", "results compared", "shapes taken from the data", "shapes written in turtle", "round trips with sh:reifierShape", "round trips with sh:order"],
    workers: 8,
};
