//! The outcome of an operation depends on what the session holds and not on how it came to hold it:
//! after a history of operations, every outcome is compared with that of a fresh session
//! which is given only the inputs still in force.
use super::c06;
use super::c18;
use crate::datagen;
use crate::fw::*;
use crate::rep;
use crate::sess;
use crate::shaclgen;
use crate::shexgen;
use crate::term::*;
use rudof_lib::Rudof;
use rudof_lib::formats::*;
use std::collections::BTreeSet;

#[derive(Clone)]
enum Data {
    None,
    /// after a load which was refused
    Unknown,
    Rdf(Vec<(String, DataFormat)>),
    Pg(Vec<String>),
}
#[derive(Clone)]
enum MapOp {
    Load(String),
    Add(String, String),
}
#[derive(Clone)]
enum Shapes {
    Doc(String),
    FromData(Vec<(String, DataFormat)>),
}
#[derive(Clone)]
struct M {
    data: Data,
    shex: Option<(String, ShExFormat)>,
    map: Option<Vec<MapOp>>,
    shacl: Option<Shapes>,
    query: Option<String>,
    pgs: Option<String>,
    tm: Option<String>,
}
/// shapes are described in one document only, so that they stay well-formed
fn with_shapes_already(d: &Data) -> bool {
    match d {
        Data::Rdf(v) => v.iter().any(|x| x.0.contains("shacl#") || x.0.contains("sh:")),
        _ => false,
    }
}
fn spec(s: &str) -> InputSpec {
    InputSpec::Str(s.to_string())
}
fn again(what: &str, e: String) -> Bad {
    Bad::Viol(format!("{what} accepted by the session is refused by a fresh one"), e)
}
fn load_docs(s: &mut Rudof, v: &[(String, DataFormat)]) -> R {
    for (d, f) in v {
        sess::load(s, d, *f, true).map_err(|e| again("data", e))?;
    }
    Ok(())
}
/// A fresh session with what is in force
fn fresh(m: &M) -> R<Rudof> {
    let mut s = sess::new();
    if let Some(x) = &m.shacl {
        match x {
            Shapes::Doc(d) => load_shapes(&mut s, d).map_err(|e| again("shapes", e))?,
            Shapes::FromData(v) => {
                let mut t = sess::new();
                load_docs(&mut t, v)?;
                t.load_shacl_shapes().execute().map_err(|e| again("shapes from data", e.to_string()))?;
                s = t;
                s.reset_data().execute();
            },
        }
    }
    match &m.data {
        Data::None | Data::Unknown => {},
        Data::Rdf(v) => load_docs(&mut s, v)?,
        Data::Pg(v) => {
            for d in v {
                sess::load(&mut s, d, DataFormat::Pg, true).map_err(|e| again("property graph", e))?;
            }
        },
    }
    if let Some((d, f)) = &m.shex {
        sess::load_shex(&mut s, d, *f).map_err(|e| again("ShEx schema", e))?;
    }
    let ready = matches!(m.data, Data::Rdf(_)) && m.shex.is_some();
    for o in m.map.iter().flatten() {
        match o {
            MapOp::Load(t) => {
                let x = sess::load_map(&mut s, t);
                if ready {
                    x.map_err(|e| again("shape map", e))?;
                }
            },
            MapOp::Add(n, l) => {
                let x = add(&mut s, n, l);
                if ready {
                    x.map_err(|e| again("association", e))?;
                }
            },
        }
    }
    if let Some(q) = &m.query {
        s.load_sparql_query(&spec(q)).execute().map_err(|e| again("query", e.to_string()))?;
    }
    if let Some(d) = &m.pgs {
        s.load_pg_schema(&spec(d)).execute().map_err(|e| again("PGSchema", e.to_string()))?;
    }
    if let Some(d) = &m.tm {
        s.load_typemap(&spec(d)).execute().map_err(|e| again("type map", e.to_string()))?;
    }
    Ok(s)
}
fn load_shapes(s: &mut Rudof, d: &str) -> Result<(), String> {
    s.load_shacl_shapes().with_shacl_schema(&spec(d)).with_shacl_schema_format(&ShaclFormat::Turtle).execute().map_err(|e| e.to_string())
}
fn add(s: &mut Rudof, n: &str, l: &str) -> Result<(), String> {
    s.add_node_shape_to_shapemap(n).with_shape(l).execute().map_err(|e| e.to_string())
}
fn text<E: std::fmt::Display>(f: impl FnOnce(&mut Vec<u8>) -> Result<(), E>) -> Result<String, String> {
    let mut o = Vec::new();
    f(&mut o).map_err(|e| e.to_string())?;
    Ok(String::from_utf8_lossy(&o).into_owned())
}
fn blur(t: &T) -> String {
    if t.is_b() { "_:".into() } else { t.nt() }
}
fn shex_text(s: &Rudof) -> String {
    let mut v: Vec<String> = sess::verdicts(s).iter().map(|((n, l), c)| format!("{} {l} {c}", blur(n))).collect();
    v.sort();
    v.join("\n")
}
/// The outcome of an operation, where an error is an outcome too
type Out = Result<String, String>;
fn validate_shex(s: &mut Rudof) -> Out {
    s.validate_shex().execute().map_err(|e| e.to_string())?;
    Ok(shex_text(s))
}
fn validate_shacl(s: &mut Rudof, mode: ShaclValidationMode) -> Out {
    s.validate_shacl().with_shacl_validation_mode(&mode).execute().map_err(|e| e.to_string())?;
    let t = text(|o| s.serialize_shacl_validation_results(o).with_result_shacl_validation_format(&ResultShaclValidationFormat::NTriples).execute())?;
    let g = parse(t.as_bytes(), oxrdfio::RdfFormat::NTriples)?;
    let (c, rs, n) = rep::read(&g)?;
    let mut v: Vec<String> = rs
        .iter()
        .map(|r| {
            let mut r = r.clone();
            if r.focus.is_b() {
                r.focus = T::b("b");
            }
            if r.value.as_ref().is_some_and(|v| v.is_b()) {
                r.value = Some(T::b("b"));
            }
            r.show()
        })
        .collect();
    v.sort();
    Ok(format!("{c} {n}\n{}", v.join("\n")))
}
fn run_query(s: &mut Rudof) -> Out {
    s.run_query().execute().map_err(|e| e.to_string())?;
    let t = text(|o| s.serialize_query_results(o).with_result_query_format(&ResultQueryFormat::Json).execute())?;
    let j: serde_json::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    let mut v: Vec<String> = match j["solutions"].as_array() {
        Some(a) => a
            .iter()
            .map(|x| {
                let mut c: Vec<String> = x
                    .as_object()
                    .into_iter()
                    .flatten()
                    .map(|(k, v)| {
                        let v = v.as_str().unwrap_or("?");
                        format!("{k}={}", if v.starts_with("_:") { "_:" } else { v })
                    })
                    .collect();
                c.sort();
                c.join(" ")
            })
            .collect(),
        None => vec![t],
    };
    v.sort();
    Ok(v.join("\n"))
}
fn dump(s: &mut Rudof) -> Out {
    text(|o| s.serialize_data(o).with_result_data_format(&ResultDataFormat::NTriples).execute())
}
fn node_info(s: &mut Rudof, sel: &str, mode: &NodeInspectionMode, depth: usize) -> Out {
    let t = text(|o| s.show_node_info(sel, o).with_show_node_mode(mode).with_depth(depth).with_show_colors(false).with_show_hyperlinks(false).execute())?;
    let mut v: Vec<&str> = t.lines().map(|l| l.trim_start_matches([' ', '│', '├', '└', '─', '▶', '◀'])).collect();
    v.sort();
    Ok(v.join("\n"))
}
fn shex_json(s: &mut Rudof) -> Out {
    let t = text(|o| s.serialize_shex_schema(o).with_result_shex_format(&ShExFormat::ShExJ).execute())?;
    let j: serde_json::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    Ok(format!("{j:#}"))
}
fn pg_validate(s: &mut Rudof) -> Out {
    s.validate_pgschema().execute().map_err(|e| e.to_string())?;
    let t = text(|o| s.serialize_pgschema_validation_results(o).with_result_pg_schema_validation_format(&ResultPgSchemaValidationFormat::Json).with_show_colors(false).execute())?;
    let j: serde_json::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
    let v: Vec<String> = j["associations"].as_array().into_iter().flatten().map(|a| format!("{} {} {}", a["node_id"], a["type_name"], a["conforms"])).collect();
    Ok(format!("{} {v:?}", j["is_valid"]))
}
const SELECTORS: [&str; 6] = [
    "<http://e.x/n0>",
    "<http://e.x/n1>",
    "{FOCUS <http://e.x/p> _}",
    "{_ <http://e.x/p> FOCUS}",
    "{FOCUS <http://e.x/q> <http://e.x/v1>}",
    "SPARQL '''SELECT ?x WHERE { ?x <http://e.x/p> ?y }'''",
];
const QUERIES: [&str; 7] = [
    "SELECT * WHERE { ?s ?p ?o }",
    "SELECT ?s WHERE { ?s <http://e.x/p> ?o }",
    "SELECT ?s ?o WHERE { ?s <http://e.x/q> ?o . ?o <http://e.x/p> ?z }",
    "SELECT (COUNT(*) AS ?n) WHERE { ?s ?p ?o }",
    "PREFIX ex: <http://e.x/> SELECT DISTINCT ?p WHERE { ex:n0 ?p ?o }",
    "SELECT ?s WHERE { ?s ?p \"a\" } ORDER BY ?s",
    "SELECT ?s ?t WHERE { ?s <http://e.x/p> ?x OPTIONAL { ?x <http://e.x/q> ?t } }",
];
fn rdf_doc(r: &mut Rng, tag: &str, bnodes: bool, shapes: bool) -> Option<(String, DataFormat)> {
    let nn = 2 + r.below(3);
    let mut g = shexgen::graph(r, nn, 4);
    if r.chance(50) {
        g = g.union(&shaclgen::data(r));
    }
    let ren = |t: &T| match t {
        T::B(b) => T::b(&format!("{b}{tag}")),
        t => t.clone(),
    };
    let mut h = G::new();
    for (s, p, o) in &g.t {
        if bnodes || !(s.is_b() || o.is_b()) {
            h.add(ren(s), p, ren(o));
        }
    }
    if shapes {
        let mut o = c06::opts(r);
        o.bnode_shapes = false;
        let sg = shaclgen::shapes(r, &o);
        let d = sg.ttl(r);
        let sg = parse(d.as_bytes(), oxrdfio::RdfFormat::Turtle).ok()?;
        let mut k = G::new();
        for (s, p, o) in &sg.t {
            let ren = |t: &T| match t {
                T::B(b) => T::b(&format!("{b}{tag}s")),
                t => t.clone(),
            };
            k.add(ren(s), p, ren(o));
        }
        h = h.union(&k);
    }
    let f = *r.pick(&[DataFormat::Turtle, DataFormat::NTriples, DataFormat::JsonLd, DataFormat::TriG]);
    Some((datagen::doc(&h, f, false, r).ok()?, f))
}
fn shex_doc(r: &mut Rng) -> (String, ShExFormat) {
    let o = shexgen::Opts { negation: r.chance(40), recursion: r.chance(60), inverse: r.chance(30), groups: r.chance(50), extra_refs: false, nshapes: 1 + r.below(3) };
    let s = shexgen::schema(r, &o);
    if r.chance(70) { (s.shexc(r), ShExFormat::ShExC) } else { (s.shexj(), ShExFormat::ShExJ) }
}
fn map_doc(r: &mut Rng) -> String {
    (0..1 + r.below(4))
        .map(|_| {
            let n = if r.chance(70) { shexgen::node(r.below(4)).nt() } else { r.pick(&SELECTORS[2..5]).to_string() };
            format!("{n}@<{}>", shexgen::label(r.below(3)))
        })
        .collect::<Vec<_>>()
        .join(",\n")
}
fn spoil(d: &str, r: &mut Rng) -> String {
    let mut at = r.below(d.len() + 1);
    while !d.is_char_boundary(at) {
        at -= 1;
    }
    match r.below(3) {
        0 => format!("{d}\n}} ]] @@ <<"),
        1 => format!("{}\u{1}}}{{", &d[..at]),
        _ => format!("]}} {d}"),
    }
}
/// Makes a document which reads well but cannot be used
fn flaw(d: &str, kind: &str, r: &mut Rng) -> String {
    match kind {
        "shexc" => match r.below(3) {
            0 => format!("{d}\n<http://e.x/Zz> {{ <http://e.x/p> @<http://e.x/Missing> * }}\n"),
            1 => format!("{d}\n<http://e.x/Zz> {{ <http://e.x/p> NOT @<http://e.x/Zz> * }}\n"),
            _ => format!("{d}\n<http://e.x/Zz> @<http://e.x/Missing> AND IRI\n"),
        },
        "shexj" => d.replacen("\"shapes\":", "\"shapez\":", 1),
        "map" => format!("{d},\nundeclared:x@undeclared:y"),
        "shacl" => {
            let x = *r.pick(&[
                "sh:nodeKind <http://e.x/NoKind>",
                "sh:property [ sh:path 3 ]",
                "sh:or <http://e.x/nolist>",
                "sh:property [ sh:path <http://e.x/p> ; sh:minCount \"many\" ]",
                "sh:property [ sh:path <http://e.x/p> ; sh:datatype 5 ]",
            ]);
            format!("{d}\n@prefix zsh: <http://www.w3.org/ns/shacl#> .\n<http://e.x/Zz> a zsh:NodeShape ; zsh:targetNode <http://e.x/n0> ; {} .\n", x.replace("sh:", "zsh:"))
        },
        "pgs" => format!("{d}\nNODE Zz ("),
        _ => spoil(d, r),
    }
}
fn case(ctx: &mut Ctx) -> R {
    let bnodes = ctx.rng.chance(40);
    let pg_too = ctx.rng.chance(30);
    let mut s = sess::new();
    let mut m = M { data: Data::None, shex: None, map: None, shacl: None, query: None, pgs: None, tm: None };
    let mut log = String::new();
    // what the session is known to hold as results
    let mut last_shex: Option<String> = None;
    let mut compared = BTreeSet::new();
    let steps = 6 + ctx.rng.below(16);
    // most sessions begin with everything in place
    let begin: &[usize] = match ctx.rng.below(5) {
        0 => &[],
        1 if pg_too => &[7, 21],
        _ => &[0, 8, 11, 15, 19],
    };
    for step in 0..steps + begin.len() {
        let mut rng = ctx.rng.clone();
        ctx.rng.next();
        let r = &mut rng;
        let tag = format!("x{step}");
        let kind = if step < begin.len() { begin[step] } else { r.below(40) };
        match kind {
            // loads
            0..=5 => {
                let with_shapes = r.chance(25) && !with_shapes_already(&m.data);
                let Some((d, f)) = rdf_doc(r, &tag, bnodes, with_shapes) else { continue };
                let merge = r.chance(60) && !matches!(m.data, Data::Unknown);
                log.push_str(&format!("# load data {f} merge {merge}\n{d}\n"));
                ctx.input(log.clone());
                if let Err(e) = sess::load(&mut s, &d, f, merge) {
                    return viol("well-formed data refused", e);
                }
                m.data = match m.data {
                    Data::Rdf(mut v) if merge => {
                        v.push((d, f));
                        Data::Rdf(v)
                    },
                    _ => Data::Rdf(vec![(d, f)]),
                };
            },
            6 => {
                let Some((d, f)) = rdf_doc(r, &tag, bnodes, false) else { continue };
                let d = spoil(&d, r);
                let merge = r.chance(60) && !matches!(m.data, Data::Unknown);
                log.push_str(&format!("# load data {f} merge {merge}\n{d}\n"));
                ctx.input(log.clone());
                if sess::load(&mut s, &d, f, merge).is_ok() {
                    m.data = match m.data {
                        Data::Rdf(mut v) if merge => {
                            v.push((d, f));
                            Data::Rdf(v)
                        },
                        _ => Data::Rdf(vec![(d, f)]),
                    };
                } else {
                    m.data = Data::Unknown;
                    ctx.count("loads refused", 1);
                }
            },
            7 if pg_too => {
                let d = c18::graph(r);
                let merge = r.chance(50) && !matches!(m.data, Data::Unknown);
                log.push_str(&format!("# load property graph merge {merge}\n{d}\n"));
                ctx.input(log.clone());
                if let Err(e) = sess::load(&mut s, &d, DataFormat::Pg, merge) {
                    return viol("well-formed property graph refused", e);
                }
                m.data = match m.data {
                    Data::Pg(mut v) if merge => {
                        v.push(d);
                        Data::Pg(v)
                    },
                    _ => Data::Pg(vec![d]),
                };
                ctx.count("property graphs loaded", 1);
            },
            8..=10 => {
                let (mut d, f) = shex_doc(r);
                match r.below(10) {
                    0 => d = spoil(&d, r),
                    1 => d = flaw(&d, if f == ShExFormat::ShExC { "shexc" } else { "shexj" }, r),
                    _ => {},
                }
                log.push_str(&format!("# load ShEx schema {f}\n{d}\n"));
                ctx.input(log.clone());
                if sess::load_shex(&mut s, &d, f).is_ok() {
                    m.shex = Some((d, f));
                } else {
                    ctx.count("loads refused", 1);
                    if sess::load_shex(&mut sess::new(), &d, f).is_ok() {
                        return viol("ShEx schema refused by the session only", d);
                    }
                }
            },
            11..=13 => {
                let mut d = map_doc(r);
                match r.below(10) {
                    0 => d = spoil(&d, r),
                    1 => d = flaw(&d, "map", r),
                    _ => {},
                }
                log.push_str(&format!("# load shape map\n{d}\n"));
                ctx.input(log.clone());
                match sess::load_map(&mut s, &d) {
                    Ok(()) => m.map = Some(vec![MapOp::Load(d)]),
                    Err(_) => ctx.count("loads refused", 1),
                }
            },
            14 => {
                let n = if r.chance(70) { shexgen::node(r.below(4)).nt() } else { r.pick(&SELECTORS[2..5]).to_string() };
                let l = format!("<{}>", shexgen::label(r.below(3)));
                log.push_str(&format!("# add {n} @ {l}\n"));
                if add(&mut s, &n, &l).is_ok() {
                    m.map.get_or_insert_default().push(MapOp::Add(n, l));
                }
            },
            15..=17 => {
                let o = c06::opts(r);
                let sg = shaclgen::shapes(r, &o);
                let mut d = sg.ttl(r);
                match r.below(10) {
                    0 => d = spoil(&d, r),
                    1 => d = flaw(&d, "shacl", r),
                    _ => {},
                }
                log.push_str(&format!("# load SHACL shapes\n{d}\n"));
                ctx.input(log.clone());
                if load_shapes(&mut s, &d).is_ok() {
                    m.shacl = Some(Shapes::Doc(d));
                } else {
                    ctx.count("loads refused", 1);
                }
            },
            18 => {
                log.push_str("# SHACL shapes from the data\n");
                ctx.input(log.clone());
                let ok = s.load_shacl_shapes().execute().is_ok();
                match &m.data {
                    Data::Rdf(v) if ok => {
                        m.shacl = Some(Shapes::FromData(v.clone()));
                        ctx.count("shapes taken from the data", 1);
                    },
                    Data::Unknown if ok => {
                        s.reset_shacl_shapes().execute();
                        m.shacl = None;
                    },
                    Data::Rdf(_) | Data::Unknown => {},
                    _ if ok => return viol("shapes from data which isn't there", ""),
                    _ => {},
                }
            },
            19 | 20 => {
                let mut q = r.pick(&QUERIES).to_string();
                if r.chance(20) {
                    q = spoil(&q, r);
                }
                log.push_str(&format!("# load query\n{q}\n"));
                ctx.input(log.clone());
                if s.load_sparql_query(&spec(&q)).execute().is_ok() {
                    m.query = Some(q);
                } else {
                    ctx.count("loads refused", 1);
                }
            },
            21 if pg_too => {
                let mut d = c18::schema(r);
                if r.chance(15) {
                    d = flaw(&d, "pgs", r);
                }
                log.push_str(&format!("# load PGSchema\n{d}\n"));
                ctx.input(log.clone());
                if s.load_pg_schema(&spec(&d)).execute().is_ok() {
                    m.pgs = Some(d);
                }
                let mut d = (0..1 + r.below(3)).map(|_| format!("n{}:T{}", r.below(3), r.below(3))).collect::<Vec<_>>().join(",\n");
                if r.chance(15) {
                    d = spoil(&d, r);
                }
                log.push_str(&format!("# load type map\n{d}\n"));
                ctx.input(log.clone());
                if s.load_typemap(&spec(&d)).execute().is_ok() {
                    m.tm = Some(d);
                }
            },
            // resets
            22 => {
                let which = r.below(if pg_too { 14 } else { 10 });
                log.push_str(&format!("# reset {which}\n"));
                ctx.count("resets", 1);
                match which {
                    0 | 1 => {
                        s.reset_data().execute();
                        m.data = Data::None;
                    },
                    2 => {
                        s.reset_shex_schema().execute();
                        m.shex = None;
                    },
                    3 => {
                        s.reset_shapemap().execute();
                        m.map = None;
                    },
                    4 => {
                        s.reset_shex().execute();
                        m.shex = None;
                        m.map = None;
                        if s.shex_validation_results().is_some() {
                            return viol("results after reset_shex", "");
                        }
                        last_shex = None;
                    },
                    5 => {
                        s.reset_shacl_shapes().execute();
                        m.shacl = None;
                    },
                    6 => {
                        s.reset_shacl().execute();
                        m.shacl = None;
                        if text(|o| s.serialize_shacl_validation_results(o).execute()).is_ok() {
                            return viol("results after reset_shacl", "");
                        }
                    },
                    7 => {
                        s.reset_sparql_query().execute();
                        m.query = None;
                    },
                    8 => {
                        s.reset_query_results().execute();
                        m.query = None;
                        if text(|o| s.serialize_query_results(o).execute()).is_ok() {
                            return viol("results after reset_query_results", "");
                        }
                    },
                    9 => {
                        s.reset_all().execute();
                        m = M { data: Data::None, shex: None, map: None, shacl: None, query: None, pgs: None, tm: None };
                        last_shex = None;
                        let left = [
                            s.shex_validation_results().is_some(),
                            text(|o| s.serialize_shacl_validation_results(o).execute()).is_ok(),
                            text(|o| s.serialize_query_results(o).execute()).is_ok(),
                            text(|o| s.serialize_pgschema_validation_results(o).execute()).is_ok(),
                            s.data_stats().is_some(),
                            s.shacl_shapes().is_some(),
                            s.shex_schema().is_some(),
                            s.has_sparql_query(),
                            !s.prefixes().execute().is_empty(),
                        ];
                        if left.contains(&true) {
                            return viol("something is left after reset_all", format!("{left:?}"));
                        }
                    },
                    10 => {
                        s.reset_pg_schema().execute();
                        m.pgs = None;
                    },
                    11 => {
                        s.reset_typemap().execute();
                        m.tm = None;
                    },
                    _ => {
                        s.reset_pg_schema_validation().execute();
                        m.pgs = None;
                        m.tm = None;
                    },
                }
            },
            // operations on other inputs, which the session doesn't keep
            23 | 24 => {
                let (d, f) = shex_doc(r);
                let what = r.below(5);
                log.push_str(&format!("# another schema {f}, operation {what}\n{d}\n"));
                ctx.input(log.clone());
                ctx.count("operations on inputs which aren't kept", 1);
                let (cf, of) = match f {
                    ShExFormat::ShExJ => (ConversionFormat::ShExJ, ComparisonFormat::ShExJ),
                    _ => (ConversionFormat::ShExC, ComparisonFormat::ShExC),
                };
                let x = spec(&d);
                match what {
                    0 => {
                        let _ = text(|o| s.show_schema_conversion(&x, &ConversionMode::ShEx, &ResultConversionMode::ShEx, &cf, &ResultConversionFormat::ShExJ, o).execute());
                    },
                    1 => {
                        let _ = text(|o| s.show_schema_conversion(&x, &ConversionMode::ShEx, &ResultConversionMode::Uml, &cf, &ResultConversionFormat::PlantUML, o).execute());
                    },
                    2 => {
                        let o = c06::opts(r);
                        let d = shaclgen::shapes(r, &o).ttl(r);
                        let y = spec(&d);
                        let _ = text(|o| s.show_schema_conversion(&y, &ConversionMode::Shacl, &ResultConversionMode::Shacl, &ConversionFormat::Turtle, &ResultConversionFormat::Turtle, o).execute());
                    },
                    3 => {
                        let _ = text(|o| s.check_shex_schema(&x, o).with_shex_schema_format(&f).execute().map(|_| ()));
                    },
                    _ => {
                        let _ = text(|o| s.show_schema_comparison(&x, &x, &of, &of, &ComparisonMode::ShEx, &ComparisonMode::ShEx, o).execute());
                    },
                }
            },
            // outcomes
            _ => {
                let bn = matches!(&m.data, Data::Rdf(_)) && bnodes;
                let what = match r.below(10) {
                    0 | 1 => "ShEx validation",
                    2 | 3 => "SHACL validation",
                    4 | 5 => "query",
                    6 => "data",
                    7 => "node information",
                    8 => "ShEx schema",
                    _ if pg_too => "PGSchema validation",
                    _ => "ShEx validation",
                };
                let sel = r.pick(&SELECTORS).to_string();
                let nm = *r.pick(&[NodeInspectionMode::Outgoing, NodeInspectionMode::Incoming, NodeInspectionMode::Both]);
                let depth = 1 + r.below(2);
                let mode = if r.chance(50) { ShaclValidationMode::Native } else { ShaclValidationMode::Sparql };
                if what == "node information" && bn {
                    continue;
                }
                let on_data = what != "ShEx schema";
                log.push_str(&format!("# {what}{}\n", if what == "node information" { format!(" {sel} {nm} depth {depth}") } else { String::new() }));
                ctx.input(log.clone());
                let go = |s: &mut Rudof| match what {
                    "ShEx validation" => validate_shex(s),
                    "SHACL validation" => validate_shacl(s, mode),
                    "query" => run_query(s),
                    "data" => match s.data_stats() {
                        Some(x @ rudof_lib::DataStats::Pg { .. }) => Ok(format!("{x:?}")),
                        _ => dump(s),
                    },
                    "node information" => node_info(s, &sel, &nm, depth),
                    "ShEx schema" => shex_json(s),
                    _ => pg_validate(s),
                };
                let got = go(&mut s);
                if what == "ShEx validation" {
                    last_shex = match &got {
                        Ok(x) => Some(x.clone()),
                        Err(_) => None,
                    };
                }
                if on_data && matches!(m.data, Data::Unknown) {
                    continue;
                }
                let mut f = fresh(&m)?;
                let want = go(&mut f);
                match (&want, &got) {
                    (Ok(a), Ok(b)) => {
                        let same = if what == "data" && matches!(m.data, Data::Rdf(_)) {
                            let g = |t: &str| parse(t.as_bytes(), oxrdfio::RdfFormat::NTriples);
                            match (g(a), g(b)) {
                                (Ok(a), Ok(b)) => isomorphic(&a, &b) != Some(false),
                                _ => return viol("data can't be parsed", format!("{a}\n{b}")),
                            }
                        } else {
                            a == b
                        };
                        if !same {
                            return viol(format!("{what} depends on the history of the session"), format!("a fresh session gives\n{a}\nthe session gives\n{b}"));
                        }
                        ctx.count(&format!("{what} compared"), 1);
                        if !a.trim().is_empty() && log.matches("# load").count() > 3 {
                            compared.insert(what);
                        }
                    },
                    (Err(_), Err(_)) => ctx.count(&format!("{what} refused by both"), 1),
                    (Ok(a), Err(e)) => return viol(format!("{what} fails because of the history of the session"), format!("a fresh session gives\n{a}\nthe session fails with\n{e}")),
                    (Err(e), Ok(a)) => return viol(format!("{what} succeeds because of the history of the session"), format!("a fresh session fails with\n{e}\nthe session gives\n{a}")),
                }
            },
        }
        if let Some(x) = &last_shex
            && *x != shex_text(&s)
        {
            return viol("the results of the last validation have changed", format!("{x}\nnow\n{}", shex_text(&s)));
        }
    }
    if compared.len() > 1 {
        ctx.nontrivial();
    }
    Ok(())
}
pub static P: Prop = Prop {
    id: "C13",
    case,
    probes: &[],
    quick: 3500,
    thorough: 200_000,
    rule: "a case is non-trivial when outcomes of at least two kinds are compared after more than three loads",
    assumptions: &["blank node labels are not compared", "nothing is claimed about the data after a refused load of data until it is replaced or reset"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["ShEx validation compared", "SHACL validation compared", "query compared", "data compared", "node information compared", "ShEx schema compared", "PGSchema validation compared", "loads refused", "resets", "operations on inputs which aren't kept", "shapes taken from the data", "ShEx validation refused by both", "query refused by both"],
    workers: 8,
};
