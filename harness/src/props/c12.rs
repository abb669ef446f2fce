//! Query answers over a history of session operations, against a shadow graph evaluated independently
use crate::datagen;
use crate::fw::*;
use crate::sess;
use crate::term::*;
use rudof_lib::Rudof;
use rudof_lib::formats::*;
use std::collections::BTreeMap;

type Row = BTreeMap<String, T>;
#[derive(Clone)]
enum Q {
    V(String),
    C(T),
}
type Pat = [Q; 3];
fn node(r: &mut Rng) -> T {
    T::ex(r.pick(&["a", "b", "c", "d"]))
}
fn pred(r: &mut Rng) -> String {
    ex(r.pick(&["p", "q", "r"]))
}
fn value(r: &mut Rng) -> T {
    match r.below(8) {
        0 => T::str(r.pick(&["x", "hello, \"you\"", "line\nbreak", "", "é|ñ", "\\"])),
        1 => T::lang("x", "en"),
        2 => T::lit("2020-01-01", "date"),
        3 => T::lit("true", "boolean"),
        4 => T::Lit { lex: "v".into(), dt: "http://e.x/dt".into(), lang: None },
        5 => T::lit("1.5", "decimal"),
        _ => T::int(r.range(0, 3)),
    }
}
fn graph(r: &mut Rng, tag: &str) -> G {
    let mut g = G::new();
    for _ in 0..r.below(9) {
        let b = |r: &mut Rng| T::b(&format!("b{}{tag}", r.below(2)));
        let s = if r.chance(20) { b(r) } else { node(r) };
        let o = match r.below(5) {
            0..=2 => node(r),
            3 => value(r),
            _ => b(r),
        };
        g.add(s, &pred(r), o);
    }
    g
}
fn pattern(r: &mut Rng, g: &G) -> Pat {
    let var = |r: &mut Rng| Q::V(r.pick(&["x", "y", "z"]).to_string());
    let s = if r.chance(85) { var(r) } else { Q::C(node(r)) };
    let p = if r.chance(40) { var(r) } else { Q::C(T::iri(pred(r))) };
    let ls: Vec<T> = g.t.iter().map(|t| t.2.clone()).filter(|o| o.is_lit()).collect();
    let o = match r.below(10) {
        0..=7 => var(r),
        8 if !ls.is_empty() => Q::C(r.pick(&ls).clone()),
        _ => Q::C(node(r)),
    };
    [s, p, o]
}
fn show(p: &Pat, short: bool) -> String {
    let f = |q: &Q| match q {
        Q::V(v) => format!("?{v}"),
        Q::C(T::Iri(i)) if short => i.strip_prefix("http://e.x/").map(|l| format!("ex:{l}")).unwrap_or(format!("<{i}>")),
        Q::C(t) => t.nt(),
    };
    format!("{} {} {} .", f(&p[0]), f(&p[1]), f(&p[2]))
}
fn matches(g: &G, ps: &[Pat], start: &Row) -> Vec<Row> {
    let mut rows = vec![start.clone()];
    for p in ps {
        let mut next = Vec::new();
        for row in &rows {
            for t in &g.t {
                let mut n = row.clone();
                let ok = [(&p[0], t.0.clone()), (&p[1], T::iri(t.1.clone())), (&p[2], t.2.clone())].into_iter().all(|(q, v)| match q {
                    Q::C(c) => *c == v,
                    Q::V(x) => match n.get(x) {
                        Some(y) => *y == v,
                        None => {
                            n.insert(x.clone(), v);
                            true
                        },
                    },
                });
                if ok {
                    next.push(n);
                }
            }
        }
        rows = next;
    }
    rows
}
fn vars(ps: &[Pat]) -> Vec<String> {
    let mut v: Vec<String> = ps.iter().flatten().filter_map(|q| if let Q::V(x) = q { Some(x.clone()) } else { None }).collect();
    v.sort();
    v.dedup();
    v
}
fn blur(t: &T) -> String {
    if t.is_b() { "_:b".into() } else { t.nt() }
}
fn rows_text(rows: &[Row]) -> Vec<String> {
    let mut v: Vec<String> = rows.iter().map(|r| r.iter().map(|(k, t)| format!("{k}={}", blur(t))).collect::<Vec<_>>().join(" ")).collect();
    v.sort();
    v
}
fn run(s: &mut Rudof, q: &str) -> Result<(), String> {
    s.load_sparql_query(&InputSpec::Str(q.to_string())).execute().map_err(|e| format!("query: {e}"))?;
    s.run_query().execute().map_err(|e| e.to_string())
}
fn answer(s: &Rudof, f: ResultQueryFormat) -> R<String> {
    let mut out = Vec::new();
    match s.serialize_query_results(&mut out).with_result_query_format(&f).execute() {
        Ok(()) => Ok(String::from_utf8_lossy(&out).into_owned()),
        Err(e) => viol("the results can't be serialised", e.to_string()),
    }
}
pub fn csv_records(t: &str) -> Vec<Vec<String>> {
    let (mut out, mut rec, mut cell, mut q) = (vec![], vec![], String::new(), false);
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '"' if q && c.get(i + 1) == Some(&'"') => {
                cell.push('"');
                i += 1;
            },
            '"' => q = !q,
            ',' if !q => rec.push(std::mem::take(&mut cell)),
            '\n' if !q => {
                rec.push(std::mem::take(&mut cell));
                out.push(std::mem::take(&mut rec));
            },
            '\r' if !q => {},
            x => cell.push(x),
        }
        i += 1;
    }
    out
}
fn query(s: &mut Rudof, g: &G, ctx: &mut Ctx, log: &mut String) -> R {
    let r = &mut ctx.rng;
    let ps: Vec<Pat> = (0..1 + r.below(2)).map(|_| pattern(r, g)).collect();
    let opt: Vec<Pat> = if r.chance(30) { vec![pattern(r, g)] } else { vec![] };
    let short = r.chance(40);
    let mut body: String = ps.iter().map(|p| show(p, short)).collect();
    if !opt.is_empty() {
        body.push_str(&format!(" OPTIONAL {{ {} }}", show(&opt[0], short)));
    }
    let pfx = if short { "PREFIX ex: <http://e.x/>\n" } else { "" };
    let base = matches(g, &ps, &Row::new());
    let mut want = Vec::new();
    for b in &base {
        let m = matches(g, &opt, b);
        if opt.is_empty() || m.is_empty() { want.push(b.clone()) } else { want.extend(m) }
    }
    let allv = vars(&[ps.clone(), opt.clone()].concat());
    match r.below(7) {
        0..=3 => {
            let sel: Vec<String> = if r.chance(30) { vec![] } else { r.subset(&allv, 70) };
            let head = if sel.is_empty() { "*".to_string() } else { sel.iter().map(|v| format!("?{v}")).collect::<Vec<_>>().join(" ") };
            let q = format!("{pfx}SELECT {head} WHERE {{ {body} }}");
            log.push_str(&format!("{q}\n"));
            ctx.input(log.clone());
            if allv.is_empty() && sel.is_empty() {
                return Ok(());
            }
            let keep = if sel.is_empty() { allv.clone() } else { sel.clone() };
            let want: Vec<Row> = want.into_iter().map(|x| x.into_iter().filter(|(k, _)| keep.contains(k)).collect()).collect();
            if let Err(e) = run(s, &q) {
                return viol("SELECT fails", e);
            }
            let text = answer(s, ResultQueryFormat::Json)?;
            let json: serde_json::Value = match serde_json::from_str(&text) {
                Ok(j) => j,
                Err(e) => return viol("JSON results can't be parsed", format!("{e}\n{text}")),
            };
            let mut got: Vec<Row> = Vec::new();
            for x in json["solutions"].as_array().into_iter().flatten() {
                let mut row = Row::new();
                for (k, v) in x.as_object().into_iter().flatten() {
                    let doc = format!("<http://e.x/s> <http://e.x/p> {} .", v.as_str().unwrap_or("?"));
                    let Ok(g) = parse(doc.as_bytes(), oxrdfio::RdfFormat::NTriples) else { return viol("a term of the JSON results can't be parsed", doc) };
                    row.insert(k.clone(), g.t.iter().next().unwrap().2.clone());
                }
                got.push(row);
            }
            let (w, h) = (rows_text(&want), rows_text(&got));
            if w != h {
                return viol("SELECT answers", format!("expected {w:#?}\ngot {h:#?}"));
            }
            ctx.count("SELECT answers compared", 1);
            ctx.count("solutions compared", w.len() as u64);
            if !w.is_empty() {
                ctx.nontrivial();
                // the CSV rendering has the same solutions
                let text = answer(s, ResultQueryFormat::Csv)?;
                let recs = csv_records(&text);
                if recs.len() != want.len() + 1 {
                    return viol("CSV rendering has another number of solutions", format!("{} solutions\n{text}", want.len()));
                }
                let names: Vec<String> = recs[0].iter().map(|v| v.trim_start_matches('?').to_string()).collect();
                let mut ns = names.clone();
                ns.sort();
                if ns != keep {
                    return viol("CSV header", format!("{ns:?} instead of {keep:?}"));
                }
                let cell = |t: &T| match t {
                    T::Iri(i) => i.strip_prefix("http://e.x/").unwrap_or(i).to_string(),
                    T::B(_) => "_:".into(),
                    T::Lit { lex, .. } => lex.clone(),
                };
                // an independent matching of rendered rows: every value is found in its cell
                let mut left = recs[1..].to_vec();
                for row in &want {
                    let pos = left.iter().position(|rec| {
                        names.iter().zip(rec).all(|(n, c)| match row.get(n) {
                            None => c.is_empty(),
                            Some(t) => {
                                let x = cell(t);
                                match t {
                                    T::B(_) => c.starts_with("_:"),
                                    T::Iri(_) => c.ends_with(&x) || c.ends_with(&format!("{x}>")),
                                    T::Lit { lex, dt, .. } if *dt == xsd("boolean") && c == lex => true,
                                    T::Lit { lex, lang, dt } => {
                                        let esc = lex.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n");
                                        [lex, &esc].iter().any(|l| {
                                            c.strip_prefix(&format!("\"{l}\"")).is_some_and(|rest| match lang {
                                                Some(x) => *rest == format!("@{x}"),
                                                None if *dt == xsd("string") => rest.is_empty(),
                                                None => rest.starts_with("^^"),
                                            })
                                        })
                                    },
                                }
                            },
                        })
                    });
                    match pos {
                        Some(p) => {
                            left.remove(p);
                        },
                        None => return viol("a solution is missing in the CSV rendering", format!("{:?}\n{text}", row)),
                    }
                }
                ctx.count("CSV renderings compared", 1);
            }
        },
        4 => {
            let q = format!("{pfx}ASK {{ {body} }}");
            log.push_str(&format!("{q}\n"));
            ctx.input(log.clone());
            if let Err(e) = run(s, &q) {
                return viol("ASK fails", e);
            }
            let b = answer(s, ResultQueryFormat::Internal)?;
            if !["true", "false"].contains(&b.trim()) {
                return viol("ASK result is not a boolean", b);
            }
            if (b.trim() == "true") == want.is_empty() {
                return viol("ASK answer", format!("expected {}", !want.is_empty()));
            }
            ctx.count("ASK answers compared", 1);
        },
        5 => {
            let tp: Pat = [ps[0][0].clone(), Q::C(T::ex("made")), ps[0][2].clone()];
            let q = format!("{pfx}CONSTRUCT {{ {} }} WHERE {{ {body} }}", show(&tp, short));
            log.push_str(&format!("{q}\n"));
            ctx.input(log.clone());
            let mut g2 = G::new();
            for row in &want {
                let f = |q: &Q| match q {
                    Q::C(t) => Some(t.clone()),
                    Q::V(v) => row.get(v).cloned(),
                };
                if let (Some(a), Some(b)) = (f(&tp[0]), f(&tp[2]))
                    && !a.is_lit()
                {
                    g2.add(a, &ex("made"), b);
                }
            }
            if let Err(e) = run(s, &q) {
                return viol("CONSTRUCT fails", e);
            }
            let t = answer(s, ResultQueryFormat::Turtle)?;
            let got = match parse(t.as_bytes(), oxrdfio::RdfFormat::Turtle) {
                Ok(g) => g,
                Err(e) => return viol("CONSTRUCT result can't be parsed", format!("{e}\n{t}")),
            };
            if isomorphic(&g2, &got) == Some(false) {
                return viol("CONSTRUCT result", format!("expected\n{}got\n{}", g2.nt(), got.nt()));
            }
            ctx.count("CONSTRUCT results compared", 1);
        },
        _ => {
            let n = node(r);
            let q = format!("DESCRIBE {}", n.nt());
            log.push_str(&format!("{q}\n"));
            ctx.input(log.clone());
            if let Err(e) = run(s, &q) {
                return viol("DESCRIBE fails", e);
            }
            let t = answer(s, ResultQueryFormat::Turtle)?;
            let got = match parse(t.as_bytes(), oxrdfio::RdfFormat::Turtle) {
                Ok(g) => g,
                Err(e) => return viol("DESCRIBE result can't be parsed", format!("{e}\n{t}")),
            };
            // which triples describe a node is up to the implementation, but they are triples of the data
            for x in &got.t {
                if !g.t.iter().any(|y| blur(&x.0) == blur(&y.0) && x.1 == y.1 && blur(&x.2) == blur(&y.2)) {
                    return viol("DESCRIBE result has a triple which is not in the data", tr_nt(x));
                }
            }
            if g.out(&n).any(|y| !got.t.iter().any(|x| blur(&x.0) == blur(&y.0) && x.1 == y.1 && blur(&x.2) == blur(&y.2))) {
                return viol("DESCRIBE result lacks an outgoing arc of the node", t.clone());
            }
            ctx.count("DESCRIBE results compared", 1);
        },
    }
    Ok(())
}
fn case(ctx: &mut Ctx) -> R {
    let mut s = sess::new();
    let mut model: Option<G> = None;
    let mut log = String::new();
    let mut asked = false;
    for step in 0..3 + ctx.rng.below(8) {
        let r = &mut ctx.rng;
        match r.below(10) {
            0 => {
                s.reset_data().execute();
                model = None;
                log.push_str("reset data\n");
                ctx.count("resets", 1);
            },
            1 if model.is_some() => {
                // other uses of the same data
                let schema = "<http://e.x/S> { <http://e.x/p> . * }";
                let shapes = "<http://e.x/S> a <http://www.w3.org/ns/shacl#NodeShape> ; <http://www.w3.org/ns/shacl#targetSubjectsOf> <http://e.x/p> ; <http://www.w3.org/ns/shacl#nodeKind> <http://www.w3.org/ns/shacl#IRI> .";
                if r.chance(50) {
                    log.push_str("ShEx validation\n");
                    sess::load_shex(&mut s, schema, ShExFormat::ShExC).map_err(Bad::Inconclusive)?;
                    sess::load_map(&mut s, "<http://e.x/a>@<http://e.x/S>").map_err(Bad::Inconclusive)?;
                    sess::validate_shex(&mut s).map_err(Bad::Inconclusive)?;
                } else {
                    log.push_str("SHACL validation\n");
                    s.load_shacl_shapes().with_shacl_schema(&InputSpec::Str(shapes.into())).execute().map_err(|e| Bad::Inconclusive(e.to_string()))?;
                    let mode = if r.chance(50) { ShaclValidationMode::Sparql } else { ShaclValidationMode::Native };
                    s.validate_shacl().with_shacl_validation_mode(&mode).execute().map_err(|e| Bad::Inconclusive(e.to_string()))?;
                }
                ctx.count("validations in between", 1);
            },
            2..=5 => {
                let g = graph(r, &format!("x{step}"));
                let merge = !r.chance(25);
                let f = *r.pick(&[DataFormat::Turtle, DataFormat::NTriples, DataFormat::JsonLd, DataFormat::TriG]);
                let Ok(d) = datagen::doc(&g, f, false, r) else { continue };
                log.push_str(&format!("load {f} merge {merge}:\n{d}\n"));
                ctx.input(log.clone());
                sess::load(&mut s, &d, f, merge).map_err(Bad::Inconclusive)?;
                if asked && merge {
                    ctx.count("loads merged after a query", 1);
                }
                model = Some(if merge { model.unwrap_or_default().union(&g) } else { g });
                ctx.count("loads", 1);
            },
            _ => {
                ctx.input(log.clone());
                match &model {
                    None => {
                        if run(&mut s, "ASK { ?x ?y ?z }").is_ok()
                            && answer(&s, ResultQueryFormat::Internal)?.trim() == "true"
                        {
                            return viol("data after a reset", "ASK { ?x ?y ?z } is true without data");
                        }
                        log.push_str("ASK without data\n");
                    },
                    Some(g) => {
                        let g = g.clone();
                        query(&mut s, &g, ctx, &mut log)?;
                        asked = true;
                    },
                }
            },
        }
    }
    Ok(())
}
/// the lexical form of a literal is part of the data
fn probe_lexical_forms(ctx: &mut Ctx) -> R {
    let d = "<http://e.x/a> <http://e.x/p> \"01\"^^<http://www.w3.org/2001/XMLSchema#integer> .";
    ctx.input(d.to_string());
    let mut s = sess::new();
    sess::load(&mut s, d, DataFormat::NTriples, true).map_err(Bad::Inconclusive)?;
    run(&mut s, "SELECT ?x WHERE { ?a ?b ?x }").map_err(Bad::Inconclusive)?;
    let t = answer(&s, ResultQueryFormat::Json)?;
    if t.contains("\\\"01\\\"") { Ok(()) } else { viol("lexical form of a literal", t) }
}
pub static P: Prop = Prop {
    id: "C12",
    case,
    probes: &[("lexical_forms", probe_lexical_forms)],
    quick: 4000,
    thorough: 200_000,
    rule: "a case is non-trivial when some SELECT query has answers",
    assumptions: &["literals are written in canonical form (the query store, a dependency, canonicalises them)", "blank node labels of different documents are different, and blank nodes are not distinguished in answers"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["loads merged after a query", "resets", "validations in between", "SELECT answers compared", "ASK answers compared", "CONSTRUCT results compared", "CSV renderings compared", "DESCRIBE results compared"],
    workers: 8,
};
