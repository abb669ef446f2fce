//! Whatever the input, it is processed or refused with an error
use crate::datagen;
use crate::fw::*;
use crate::sess;
use crate::{shaclgen, shexgen};
use rudof_lib::Rudof;
use rudof_lib::formats::*;

macro_rules! seeds {
    ($($k:literal : [$($f:literal),* $(,)?]),* $(,)?) => {
        pub fn seeds(kind: &str) -> &'static [&'static str] {
            match kind {
                $($k => &[$(include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/seeds/", $k, "/", $f))),*],)*
                _ => &[],
            }
        }
    };
}
include!("../seeds.in");

const NASTY: &[&str] = &[
    "", "\u{0}", "\u{feff}", "é", "日本", "𝒳", "\u{301}", "\u{202e}", "\n", "\t", "\"", "'", "\"\"\"", "\\", "\\u", "\\uD800", "\\U00110000", "\\u00e9", "%", "%zz", "%C3", ":", "::", "_:", "_:b.", "@", "@@", "^^",
    "<", ">", "<>", "<a b>", "<<", ">>", "<<(", ")>>", "{", "}", "{|", "|}", "(", ")", "[", "]", "&", "|", "!", "~", "~~", "*", "+", "?", ".", "..", ";", ",", "-", "/", "//", "$", "=", "#", "0", "-1", "1e400", "99999999999999999999999999", "00", "1.",
    ".5", "{0}", "{2,1}", "{,}", "{1,*}", "true", "null", "NaN", "INF", "[[]]", "{}", "a", "AND", "OR", "NOT", "EXTENDS", "ABSTRACT", "START", "IMPORT", "PREFIX", "BASE", "EXTERNAL", "CLOSED", "EXTRA", "IRI", "LITERAL", "BNODE", "NONLITERAL",
    "MININCLUSIVE", "LENGTH", "/(/", "/[/", "/\\p{L}/", "SPARQL", "SELECT", "FOCUS", "@en", "@en-", "@en--ltr", "xsd:integer", "rdf:nil", "sh:path", "sh:or ()", "sh:node", "2020-13-45", "P1Y", "http://", "urn:x", "\u{2028}", "\r",
];
const NUMBERS: &[&str] = &[
    "0", "00", "007", "1", "255", "256", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999", "1.5", "-1", "-0", "1e5", "1E400", "0.00000000000000000000000000000000001", "٣", "1_000", "0x10", "79228162514264337593543950336",
];
const STRINGS: &[&str] = &[
    "\\", "\\\"", "é", "日本語の長い文字列です。もっと長くします。", "ñññññññññññññññññññññññññññññññññññññññññ", "\\u00zé", "\\uD83D\\uDE00", "\u{0}", "(", "[", "*", "\\p{L}", "a{2,1}", "(?<n>x)", "2020-02-30", "2020-13-01", "--", "P1Y", "\n", "\t", "%", "<", "&amp;", "{{", "$1", "'", "en-", " ",
];
const WORDS: &[&str] = &["a", "true", "null", "é", "_", "AND", "OR", "NOT", "START", "FOCUS", "xsd", "string", "rdf", "nil", "type", "INF", "NaN", "e", "x1", "日本", "ABSTRACT", "CLOSED", "EXTRA", "CHECK", "DATE", "ANY", "select", "FILTER", "self"];
fn tokens(s: &str) -> Vec<String> {
    let mut v = Vec::new();
    let mut cur = String::new();
    let class = |c: char| if c.is_alphanumeric() || c == '_' { 0 } else if c.is_whitespace() { 1 } else { 2 };
    let mut last = 9;
    for c in s.chars() {
        let k = class(c);
        if (k != last || k == 2) && !cur.is_empty() {
            v.push(std::mem::take(&mut cur));
        }
        cur.push(c);
        last = k;
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
pub fn mutate(s: &str, other: &str, r: &mut Rng) -> String {
    let mut t = tokens(s);
    let o = tokens(other);
    let n = [0, 1, 1, 1, 2, 3, 5, 9][r.below(8)];
    for _ in 0..n {
        if t.is_empty() {
            t.push(r.pick(NASTY).to_string());
            continue;
        }
        let i = r.below(t.len());
        match r.below(14) {
            0 => {
                t.remove(i);
            },
            1 => t.insert(i, r.pick(NASTY).to_string()),
            2 => t[i] = r.pick(NASTY).to_string(),
            3 => {
                let j = r.below(t.len());
                t.swap(i, j);
            },
            4 => {
                let x = t[i].clone();
                t.insert(i, x);
            },
            5 => {
                // move a run of tokens somewhere else
                let l = (1 + r.below(12)).min(t.len() - i);
                let run: Vec<String> = t[i..i + l].to_vec();
                if r.chance(50) {
                    t.drain(i..i + l);
                }
                let j = r.below(t.len() + 1);
                t.splice(j..j, run);
            },
            6 if !o.is_empty() => {
                let k = r.below(o.len());
                let l = (1 + r.below(12)).min(o.len() - k);
                t.splice(i..i, o[k..k + l].to_vec());
            },
            7 => {
                t.truncate(i + 1);
            },
            8 => {
                // one character of one token
                let mut c: Vec<char> = t[i].chars().collect();
                if !c.is_empty() {
                    let j = r.below(c.len());
                    match r.below(3) {
                        0 => {
                            c.remove(j);
                        },
                        1 => c[j] = r.pick(NASTY).chars().next().unwrap_or('x'),
                        _ => c.insert(j, r.pick(NASTY).chars().next().unwrap_or('x')),
                    }
                    t[i] = c.into_iter().collect();
                }
            },
            10..13 => {
                // a token of the same class as one of the document's
                let class = r.below(3);
                let c: Vec<usize> = (0..t.len())
                    .filter(|i| match class {
                        0 => t[*i].chars().all(|c| c.is_ascii_digit()),
                        1 => t[*i] == "\"",
                        _ => t[*i].chars().all(|c| c.is_alphanumeric()) && !t[*i].chars().all(|c| c.is_ascii_digit()),
                    })
                    .collect();
                if c.is_empty() {
                    continue;
                }
                let j = *r.pick(&c);
                match class {
                    0 => t[j] = r.pick(NUMBERS).to_string(),
                    1 => t.insert(j + 1, r.pick(STRINGS).to_string()),
                    _ => t[j] = r.pick(WORDS).to_string(),
                }
            },
            _ => {
                // another token of the same document
                let j = r.below(t.len());
                t[i] = t[j].clone();
            },
        }
    }
    t.concat()
}
pub fn document(kind: &str, r: &mut Rng) -> String {
    let sd = seeds(kind);
    let gen_: Option<String> = if r.chance(40) {
        match kind {
            "shexc" => {
                let o = shexgen::Opts { negation: true, recursion: true, inverse: true, groups: true, extra_refs: true, nshapes: 3 };
                Some(shexgen::schema(r, &o).shexc(r))
            },
            "shexj" => {
                let o = shexgen::Opts { negation: true, recursion: true, inverse: true, groups: true, extra_refs: true, nshapes: 3 };
                Some(shexgen::schema(r, &o).shexj())
            },
            "shacl" => {
                let o = shaclgen::Opts { path_depth: 2, bnode_shapes: true, literal_targets: true };
                Some(shaclgen::shapes(r, &o).ttl(r))
            },
            "pgs" => Some(super::c18::schema(r)),
            "pg" => Some(super::c18::graph(r)),
            "turtle" => datagen::doc(&datagen::graph(r, 6, "x", true), DataFormat::Turtle, r.chance(30), r).ok(),
            "trig" => datagen::doc(&datagen::graph(r, 6, "x", true), DataFormat::TriG, r.chance(30), r).ok(),
            _ => None,
        }
    } else {
        None
    };
    if let Some(g) = gen_ {
        return g;
    }
    if sd.is_empty() {
        let f = match kind {
            "rdfxml" => DataFormat::RdfXml,
            "nt" => DataFormat::NTriples,
            "nq" => DataFormat::NQuads,
            "n3" => DataFormat::N3,
            "trig" => DataFormat::TriG,
            _ => DataFormat::Turtle,
        };
        return datagen::doc(&datagen::graph(r, 6, "x", true), f, r.chance(30), r).unwrap_or_default();
    }
    r.pick(sd).to_string()
}
pub const KINDS: &[&str] = &[
    "shexc", "shexc", "shexc", "shexj", "smap", "smap", "shacl", "shacl", "turtle", "jsonld", "rdfxml", "nt", "nq", "n3", "trig", "sparql", "csv", "csv", "pgs", "pgs", "pg", "pg", "pgmap", "state", "service", "yaml", "node", "prefix",
];
const DATA: &str = "@prefix : <http://example.org/> .\n@prefix foaf: <http://xmlns.com/foaf/0.1/> .\n:alice a :Person, :User ; :name \"Alice\" ; foaf:name \"a\"@en ; :age 23 ; :knows :bob, _:b ; :list (1 2.5 true) .\n:bob :name 3 ; :knows :alice . _:b :p _:b ; :status \"x\"^^<http://www.w3.org/2001/XMLSchema#integer> .\n:enrol :t \"2020-01-01\"^^<http://www.w3.org/2001/XMLSchema#date> .";
const SHEX: &str = "prefix : <http://example.org/>\nstart = @:S\n:S { :name . ; :knows @:T * }\n:T EXTRA :p { :p .? }";
const MAP: &str = ":alice@:S, {FOCUS :knows _}@:T, :bob@START";

fn used(ctx: &mut Ctx, kind: &str, ok: bool) {
    ctx.count(&format!("{kind} {}", if ok { "accepted" } else { "refused" }), 1);
    ctx.nontrivial();
}
fn shex_followups(s: &mut Rudof) {
    let mut o = Vec::new();
    for f in [ShExFormat::ShExC, ShExFormat::ShExJ, ShExFormat::Internal, ShExFormat::Turtle, ShExFormat::Simple] {
        let _ = s.serialize_shex_schema(&mut o).with_result_shex_format(&f).with_show_dependencies(true).with_show_statistics(true).execute();
    }
    let _ = s.compile_shex_schema_to_file(&mut o).execute();
    let _ = sess::load(s, DATA, DataFormat::Turtle, true);
    let _ = s.add_node_shape_to_shapemap("<http://example.org/alice>").execute();
    let labels: Vec<String> = s.shex_schema().map(|x| x.shapes().unwrap_or_default().iter().filter_map(|d| match &d.id { shex_ast::ast::shape_expr_label::ShapeExprLabel::IriRef { value } => Some(format!("{value}")), _ => None }).collect()).unwrap_or_default();
    for l in labels.iter().take(6) {
        for n in ["<http://example.org/alice>", "_:b", "23"] {
            let _ = s.add_node_shape_to_shapemap(n).with_shape(l).execute();
        }
    }
    results(s);
}
fn results(s: &mut Rudof) {
    let mut o = Vec::new();
    let _ = s.validate_shex().execute();
    for f in [ResultShExValidationFormat::Compact, ResultShExValidationFormat::Details, ResultShExValidationFormat::Json, ResultShExValidationFormat::Csv, ResultShExValidationFormat::Turtle] {
        let _ = s.serialize_shex_validation_results(&mut o).with_result_shex_validation_format(&f).execute();
    }
}
fn shacl_followups(s: &mut Rudof) {
    let mut o = Vec::new();
    for f in [ShaclFormat::Turtle, ShaclFormat::Internal, ShaclFormat::RdfXml] {
        let _ = s.serialize_shacl_shapes(&mut o).with_shacl_result_format(&f).execute();
    }
    let _ = sess::load(s, DATA, DataFormat::Turtle, true);
    for m in [ShaclValidationMode::Native, ShaclValidationMode::Sparql] {
        let _ = s.validate_shacl().with_shacl_validation_mode(&m).execute();
        for f in [ResultShaclValidationFormat::Compact, ResultShaclValidationFormat::Details, ResultShaclValidationFormat::Minimal, ResultShaclValidationFormat::Csv, ResultShaclValidationFormat::Turtle, ResultShaclValidationFormat::Json] {
            let _ = s.serialize_shacl_validation_results(&mut o).with_result_shacl_validation_format(&f).execute();
        }
    }
}
fn data_followups(s: &mut Rudof) {
    let mut o = Vec::new();
    for f in [ResultDataFormat::Turtle, ResultDataFormat::NTriples, ResultDataFormat::RdfXml, ResultDataFormat::JsonLd, ResultDataFormat::TriG, ResultDataFormat::N3, ResultDataFormat::NQuads, ResultDataFormat::PlantUML, ResultDataFormat::Compact, ResultDataFormat::Json] {
        let _ = s.serialize_data(&mut o).with_result_data_format(&f).execute();
    }
    let _ = s.data_stats();
    let nodes: Vec<String> = ["<http://e.x/a>", "_:b0", "<http://example.org/alice>", "\"x\"", "23"].iter().map(|x| x.to_string()).collect();
    for n in nodes {
        let _ = s.show_node_info(&n, &mut o).with_depth(3).with_show_node_mode(&NodeInspectionMode::Both).execute();
    }
    let _ = s.load_sparql_query(&InputSpec::Str("SELECT * WHERE { ?s ?p ?o }".into())).execute();
    query_followups(s);
}
fn query_followups(s: &mut Rudof) {
    let mut o = Vec::new();
    let _ = s.serialize_sparql_query(&mut o).execute();
    if s.run_query().execute().is_ok() {
        for f in [ResultQueryFormat::Internal, ResultQueryFormat::Json, ResultQueryFormat::Csv, ResultQueryFormat::Markdown, ResultQueryFormat::Turtle, ResultQueryFormat::RdfXml, ResultQueryFormat::NTriples, ResultQueryFormat::JsonLd] {
            let _ = s.serialize_query_results(&mut o).with_result_query_format(&f).execute();
        }
    }
}
fn pg_followups(s: &mut Rudof) {
    let mut o = Vec::new();
    let _ = s.serialize_pg_schema(&mut o).execute();
    let _ = s.validate_pgschema().execute();
    for f in [ResultPgSchemaValidationFormat::Compact, ResultPgSchemaValidationFormat::Details, ResultPgSchemaValidationFormat::Json, ResultPgSchemaValidationFormat::Csv] {
        let _ = s.serialize_pgschema_validation_results(&mut o).with_result_pg_schema_validation_format(&f).execute();
    }
}
/// anything which would be fetched or read from elsewhere is left out
fn external(d: &str) -> bool {
    let l = d.to_lowercase();
    // a recorded defect of the date parser of a dependency (probe huge_year)
    let mut digits = 0;
    for c in d.chars() {
        if c.is_ascii_digit() {
            digits += 1;
        } else {
            if digits > 18 && (c == '-' || l.contains("gyear")) {
                return true;
            }
            digits = 0;
        }
    }
    l.contains("import") || l.contains("service <") || l.contains("file:") || l.contains("service ?")
}
fn conv(s: &mut Rudof, ctx: &mut Ctx, d: &str, m: ConversionMode, f: ConversionFormat) {
    let spec = InputSpec::Str(d.to_string());
    let t: &[(ResultConversionMode, ResultConversionFormat)] = match m {
        ConversionMode::ShEx => &[
            (ResultConversionMode::ShEx, ResultConversionFormat::ShExJ),
            (ResultConversionMode::Sparql, ResultConversionFormat::Default),
            (ResultConversionMode::Uml, ResultConversionFormat::PlantUML),
            (ResultConversionMode::Shacl, ResultConversionFormat::Turtle),
        ],
        ConversionMode::Shacl => &[(ResultConversionMode::ShEx, ResultConversionFormat::ShExC), (ResultConversionMode::Shacl, ResultConversionFormat::Turtle)],
        ConversionMode::Dctap => &[(ResultConversionMode::ShEx, ResultConversionFormat::ShExC), (ResultConversionMode::Uml, ResultConversionFormat::PlantUML)],
    };
    for (om, of) in t {
        let mut o = Vec::new();
        let ok = s.show_schema_conversion(&spec, &m, om, &f, of, &mut o).execute().is_ok();
        ctx.count(&format!("conversion {}", if ok { "done" } else { "refused" }), 1);
    }
}
pub fn run_document(ctx: &mut Ctx, kind: &str, d: &str) {
    let mut s = sess::new();
    let spec = InputSpec::Str(d.to_string());
    match kind {
        "shexc" | "shexj" => {
            let f = if kind == "shexc" { ShExFormat::ShExC } else { ShExFormat::ShExJ };
            let mut o = Vec::new();
            let _ = s.check_shex_schema(&spec, &mut o).with_shex_schema_format(&f).execute();
            let ok = sess::load_shex(&mut s, d, f).is_ok();
            used(ctx, kind, ok);
            if ok {
                shex_followups(&mut s);
                if ctx.rng.chance(30) {
                    conv(&mut s, ctx, d, ConversionMode::ShEx, if kind == "shexc" { ConversionFormat::ShExC } else { ConversionFormat::ShExJ });
                }
            }
        },
        "smap" => {
            let _ = sess::load(&mut s, DATA, DataFormat::Turtle, true);
            let _ = sess::load_shex(&mut s, SHEX, ShExFormat::ShExC);
            let ok = sess::load_map(&mut s, d).is_ok();
            used(ctx, kind, ok);
            if ok {
                let mut o = Vec::new();
                for f in [ShapeMapFormat::Compact, ShapeMapFormat::Internal] {
                    let _ = s.serialize_shapemap(&mut o).with_result_shapemap_format(&f).execute();
                }
                results(&mut s);
            }
        },
        "node" => {
            let _ = sess::load(&mut s, DATA, DataFormat::Turtle, true);
            let _ = sess::load_shex(&mut s, SHEX, ShExFormat::ShExC);
            let ok = s.add_node_shape_to_shapemap(d).with_shape(d).execute().is_ok();
            let ok = s.add_node_shape_to_shapemap(d).execute().is_ok() || ok;
            let mut o = Vec::new();
            let _ = s.show_node_info(d, &mut o).with_depth(2).execute();
            used(ctx, kind, ok);
            results(&mut s);
        },
        "prefix" => {
            let ok = s.add_prefix(d, d).execute().is_ok();
            let ok = s.add_prefix("ex", d).execute().is_ok() || ok;
            let _ = s.rename_prefix("ex", d).execute();
            used(ctx, kind, ok);
            let _ = sess::load(&mut s, DATA, DataFormat::Turtle, true);
            let _ = sess::load_shex(&mut s, SHEX, ShExFormat::ShExC);
        },
        "shacl" => {
            let ok = s.load_shacl_shapes().with_shacl_schema(&spec).with_shacl_schema_format(&ShaclFormat::Turtle).execute().is_ok();
            used(ctx, kind, ok);
            if ok {
                shacl_followups(&mut s);
                if ctx.rng.chance(30) {
                    conv(&mut s, ctx, d, ConversionMode::Shacl, ConversionFormat::Turtle);
                }
            }
        },
        "turtle" | "jsonld" | "rdfxml" | "nt" | "nq" | "n3" | "trig" => {
            let f = match kind {
                "turtle" => DataFormat::Turtle,
                "jsonld" => DataFormat::JsonLd,
                "rdfxml" => DataFormat::RdfXml,
                "nt" => DataFormat::NTriples,
                "nq" => DataFormat::NQuads,
                "n3" => DataFormat::N3,
                _ => DataFormat::TriG,
            };
            let m = if ctx.rng.chance(50) { DataReaderMode::Lax } else { DataReaderMode::Strict };
            let v = [spec];
            let ok = s.load_data().with_data(&v).with_data_format(&f).with_reader_mode(&m).execute().is_ok();
            used(ctx, kind, ok);
            if ok {
                data_followups(&mut s);
                if ctx.rng.chance(20) {
                    let _ = sess::load_shex(&mut s, SHEX, ShExFormat::ShExC);
                    let _ = sess::load_map(&mut s, MAP);
                    results(&mut s);
                }
            }
        },
        "sparql" => {
            let _ = sess::load(&mut s, DATA, DataFormat::Turtle, true);
            let ok = s.load_sparql_query(&spec).execute().is_ok();
            used(ctx, kind, ok);
            if ok {
                query_followups(&mut s);
            }
        },
        "csv" => {
            let ok = s.load_dctap(&spec).with_dctap_format(&DCTapFormat::Csv).execute().is_ok();
            used(ctx, kind, ok);
            let mut o = Vec::new();
            for f in [ResultDCTapFormat::Internal, ResultDCTapFormat::Json] {
                let _ = s.serialize_dctap(&mut o).with_result_dctap_format(&f).execute();
            }
            conv(&mut s, ctx, d, ConversionMode::Dctap, ConversionFormat::Csv);
        },
        "pgs" => {
            let _ = sess::load(&mut s, ctx.rng.pick(seeds("pg")), DataFormat::Pg, true);
            let _ = s.load_typemap(&InputSpec::Str(ctx.rng.pick(seeds("pgmap")).to_string())).execute();
            let ok = s.load_pg_schema(&spec).execute().is_ok();
            used(ctx, kind, ok);
            pg_followups(&mut s);
        },
        "pg" => {
            let ok = sess::load(&mut s, d, DataFormat::Pg, true).is_ok();
            let _ = sess::load(&mut s, d, DataFormat::Pg, true);
            let _ = s.load_typemap(&InputSpec::Str(ctx.rng.pick(seeds("pgmap")).to_string())).execute();
            let _ = s.load_pg_schema(&InputSpec::Str(ctx.rng.pick(seeds("pgs")).to_string())).execute();
            used(ctx, kind, ok);
            let mut o = Vec::new();
            let _ = s.serialize_data(&mut o).execute();
            pg_followups(&mut s);
        },
        "pgmap" => {
            let _ = sess::load(&mut s, ctx.rng.pick(seeds("pg")), DataFormat::Pg, true);
            let _ = s.load_pg_schema(&InputSpec::Str(ctx.rng.pick(seeds("pgs")).to_string())).execute();
            let ok = s.load_typemap(&spec).execute().is_ok();
            used(ctx, kind, ok);
            pg_followups(&mut s);
        },
        "state" => {
            let dir = tempfile::tempdir().unwrap();
            let p = dir.path().join("m.json");
            std::fs::write(&p, d).unwrap();
            let ok = s.load_map_state(&p).execute().is_ok();
            used(ctx, kind, ok);
            let _ = sess::load_shex(&mut s, seeds("shexc")[3], ShExFormat::ShExC);
            let mut o = Vec::new();
            let _ = s.materialize(&mut o).execute();
            let _ = s.serialize_map_state(&mut o).execute();
        },
        "service" => {
            let ok = s.load_service_description(&spec).with_data_format(&DataFormat::Turtle).execute().is_ok();
            used(ctx, kind, ok);
            let mut o = Vec::new();
            for f in [ResultServiceFormat::Internal, ResultServiceFormat::Json, ResultServiceFormat::Mie] {
                let _ = s.serialize_service_description(&mut o).with_result_service_format(&f).execute();
            }
        },
        "yaml" => {
            let ok = s.load_rdf_config(&spec).execute().is_ok();
            used(ctx, kind, ok);
            let mut o = Vec::new();
            for f in [ResultRdfConfigFormat::Internal, ResultRdfConfigFormat::Yaml] {
                let _ = s.serialize_rdf_config(&mut o).with_result_rdf_config_format(&f).execute();
            }
        },
        _ => unreachable!(),
    }
}
fn case(ctx: &mut Ctx) -> R {
    let kind = *ctx.rng.pick(KINDS);
    let r = &mut ctx.rng;
    let d = match kind {
        "node" | "prefix" => {
            let b = *r.pick(&["<http://example.org/alice>", ":alice", "_:b", "\"x\"@en", "23", "23.0", "\"a\"^^xsd:date", "ex:", "true", "http://example.org/alice", "START", "ex:a.b", "'x'"]);
            mutate(b, "a:b<c>", r)
        },
        _ => {
            let d = document(kind, r);
            let other = document(kind, r);
            mutate(&d, &other, r)
        },
    };
    ctx.input(format!("{kind}\n{d}"));
    if external(&d) {
        return Ok(());
    }
    run_document(ctx, kind, &d);
    Ok(())
}
fn huge_year(ctx: &mut Ctx) -> R {
    let d = "<http://e.x/a> <http://e.x/p> \"99999999999999999999-05-02\"^^<http://www.w3.org/2001/XMLSchema#date> .";
    ctx.input(format!("nt\n{d}"));
    run_document(ctx, "nt", d);
    Ok(())
}
pub static P: Prop = Prop {
    id: "C20",
    case,
    probes: &[("huge_year", huge_year)],
    quick: 20_000,
    thorough: 1_000_000,
    rule: "a case is non-trivial when the document was loaded or refused and the operations that follow were run",
    assumptions: &["no document is nested deeper than 64 levels", "nothing is fetched from the network"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["shexc accepted", "shexj accepted", "smap accepted", "shacl accepted", "turtle accepted", "jsonld accepted", "rdfxml accepted", "nt accepted", "nq accepted", "n3 accepted", "trig accepted", "sparql accepted", "csv accepted", "pgs accepted", "pg accepted", "pgmap accepted", "state accepted", "service accepted", "yaml accepted", "node accepted", "prefix accepted", "shexc refused", "shexj refused", "smap refused", "shacl refused", "turtle refused", "jsonld refused", "rdfxml refused", "nt refused", "nq refused", "n3 refused", "trig refused", "sparql refused", "csv refused", "pgs refused", "pg refused", "pgmap refused", "state refused", "service refused", "yaml refused", "node refused", "prefix refused", "conversion done", "conversion refused"],
    workers: 8,
};
