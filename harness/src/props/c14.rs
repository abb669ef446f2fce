//! Prefix maps, and the default prefixes of a session, against a shadow map
use crate::fw::*;
use crate::sess;
use prefixmap::PrefixMap;
use rudof_iri::IriS;
use rudof_lib::Rudof;
use rudof_lib::formats::*;
use std::collections::BTreeMap;
use std::str::FromStr;

type M = BTreeMap<String, String>;
const NS: [&str; 10] = [
    "http://e.x/", "http://e.x/a", "http://e.x/a/", "http://e.x/a#", "http://e.x/a/b", "urn:x:", "http://e.x/a_", "http://other.org/ns#", "http://e.x/?q=", "http://é.x/",
];
const ALIAS: [&str; 7] = ["", "ex", "e", "a", "p.q", "x-y", "é"];
fn alias(r: &mut Rng) -> String {
    r.pick(&ALIAS).to_string()
}
fn local(r: &mut Rng) -> String {
    r.pick(&["x", "y1", "a", "b", "name", "a:b", "1", "_z", "n-m", "é", "a.b", "c:d:e"]).to_string()
}
fn maps(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let mut pm = PrefixMap::new();
    let mut m = M::new();
    let mut log = String::new();
    for _ in 0..1 + r.below(10) {
        let a = alias(r);
        let n = r.pick(&NS).to_string();
        match r.below(6) {
            0 => {
                log.push_str(&format!("remove {a}\n"));
                let got = pm.remove_prefix(&a).map(|x| x.to_string());
                if got != m.remove(&a) {
                    return viol("remove_prefix", log);
                }
            },
            1 => {
                let mut other = PrefixMap::new();
                for _ in 0..r.below(3) {
                    let (a, n) = (alias(r), r.pick(&NS).to_string());
                    log.push_str(&format!("merge {a} <{n}>\n"));
                    other.add_prefix(&a, IriS::new_unchecked(&n));
                    m.insert(a, n);
                }
                pm.merge(other);
            },
            _ => {
                log.push_str(&format!("add {a} <{n}>\n"));
                pm.add_prefix(&a, IriS::new_unchecked(&n));
                m.insert(a, n);
            },
        }
        let have: M = pm.iter().map(|(a, i)| (a.clone(), i.to_string())).collect();
        if have != m || pm.len() != m.len() {
            return viol("contents of the prefix map", format!("{log}expected {m:?}\ngot {have:?}"));
        }
    }
    ctx.input(log.clone());
    for _ in 0..6 {
        let r = &mut ctx.rng;
        let iri = format!("{}{}", r.pick(&NS), if r.chance(15) { String::new() } else { local(r) });
        let i = IriS::from_str(&iri).map_err(|e| Bad::Inconclusive(e.to_string()))?;
        let q = pm.clone().without_rich_qualifying().qualify_optional(&i);
        let best = m.values().filter(|n| iri.starts_with(n.as_str())).map(|n| n.len()).max();
        match (&q, best) {
            (None, None) => {
                if pm.qualify(&i) != format!("<{iri}>") {
                    return viol("unqualified IRI", format!("{log}{iri}: {}", pm.qualify(&i)));
                }
                ctx.count("IRIs without a prefix", 1);
            },
            (Some(q), Some(n)) => {
                let Some((a, l)) = q.split_once(':') else { return viol("qualified name without a colon", q.clone()) };
                let Some(ns) = m.get(a) else { return viol("qualified name with an undefined prefix", format!("{log}{q}")) };
                if format!("{ns}{l}") != iri {
                    return viol("qualified name of another IRI", format!("{log}{iri}: {q}"));
                }
                if ns.len() != n {
                    return viol("not the longest namespace", format!("{log}{iri}: {q}"));
                }
                if pm.qualify(&i) != *q || pm.qualify_local(&i).as_deref() != Some(l) {
                    return viol("qualify and qualify_local differ from qualify_optional", format!("{log}{iri}: {q} {} {:?}", pm.qualify(&i), pm.qualify_local(&i)));
                }
                match pm.resolve(q) {
                    Ok(b) if b == i => ctx.count("qualified and resolved", 1),
                    Ok(b) => return viol("a qualified name resolves to another IRI", format!("{log}{iri}: {q}: {b}")),
                    Err(e) => return viol("a qualified name can't be resolved", format!("{log}{iri}: {q}: {e}")),
                }
                match pm.resolve_prefix_local(a, l) {
                    Ok(b) if b == i => {},
                    x => return viol("resolve_prefix_local", format!("{log}{iri}: {q}: {x:?}")),
                }
                ctx.nontrivial();
            },
            _ => return viol("qualified or not", format!("{log}{iri}: {q:?}")),
        }
    }
    let r = &mut ctx.rng;
    // names with undefined prefixes are errors
    let a = alias(r);
    if !m.contains_key(&a) && pm.resolve(&format!("{a}:x")).is_ok() {
        return viol("undefined prefix resolved", format!("{log}{a}:x"));
    }
    Ok(())
}
/// a prefixed name usable in Turtle, SPARQL and ShExC
fn pname(r: &mut Rng, m: &M) -> (String, String, Option<String>) {
    let a = if r.chance(75) && !m.is_empty() { r.pick(&m.keys().cloned().collect::<Vec<_>>()).clone() } else { alias(r) };
    let l = r.pick(&["x", "y1", "a", "b", "name", "n-m", "é", "a.b"]).to_string();
    let i = m.get(&a).map(|n| format!("{n}{l}"));
    (a, l, i)
}
fn check_prefixes(s: &Rudof, m: &M, log: &str) -> R {
    let have: M = s.prefixes().execute().iter().map(|(a, i)| (a.clone(), i.to_string())).collect();
    if have != *m { viol("default prefixes of the session", format!("{log}expected {m:?}\ngot {have:?}")) } else { Ok(()) }
}
fn session(ctx: &mut Ctx) -> R {
    let mut s = sess::new();
    let mut m = M::new();
    let mut log = String::new();
    for _ in 0..3 + ctx.rng.below(8) {
        let r = &mut ctx.rng;
        let (a, b, n) = (alias(r), alias(r), r.pick(&NS).to_string());
        if r.chance(3) {
            log.push_str("reset everything\n");
            s.reset_all().execute();
            m.clear();
        }
        match r.below(9) {
            0..=2 => {
                log.push_str(&format!("add {a} <{n}>\n"));
                if let Err(e) = s.add_prefix(&a, &n).execute() {
                    return viol("add_prefix fails", format!("{log}{e}"));
                }
                m.insert(a, n);
            },
            3 => {
                log.push_str(&format!("remove {a}\n"));
                if s.remove_prefix(&a).execute().is_ok() != m.remove(&a).is_some() {
                    return viol("remove_prefix", log);
                }
            },
            4 => {
                log.push_str(&format!("rename {a} {b}\n"));
                let ok = s.rename_prefix(&a, &b).execute().is_ok();
                match m.remove(&a) {
                    Some(n) if ok => {
                        m.insert(b, n);
                    },
                    None if !ok => {},
                    _ => return viol("rename_prefix", log),
                }
            },
            5 => {
                log.push_str(&format!("copy {a} {b}\n"));
                let ok = s.copy_prefix(&a, &b).execute().is_ok();
                match m.get(&a).cloned() {
                    Some(n) if ok => {
                        m.insert(b, n);
                    },
                    None if !ok => {},
                    _ => return viol("copy_prefix", log),
                }
            },
            k => {
                // a document which can declare its own prefixes
                let mut eff = m.clone();
                let mut head = String::new();
                let turtle = k != 8;
                for _ in 0..r.below(3) {
                    let (a, n) = (alias(r), r.pick(&NS).to_string());
                    head.push_str(&if turtle && r.chance(50) { format!("@prefix {a}: <{n}> .\n") } else { format!("{} {a}: <{n}>\n", if r.chance(30) { "prefix" } else { "PREFIX" }) });
                    if r.chance(20) {
                        head = head.replace('\n', " ");
                    }
                    eff.insert(a, n);
                }
                if r.chance(20) {
                    head.push_str("# @prefix zzz: <http://zzz/> .\n");
                }
                if !head.is_empty() && !head.ends_with('\n') {
                    head.push('\n');
                }
                let (pa, l, iri) = pname(r, &eff);
                let name = format!("{pa}:{l}");
                // a literal which looks like a declaration declares nothing
                let decoy = if r.chance(20) { format!("\"\"\"\n{} {pa}: <http://decoy/>{}\n\"\"\"", if turtle && k != 8 { "@prefix" } else { "PREFIX" }, if turtle { " ." } else { "" }) } else { "\"o\"".to_string() };
                let (what, res): (&str, Result<Vec<u8>, String>) = match k {
                    6 => {
                        let d = format!("{head}<http://e.x/s> {name} {decoy} .\n");
                        log.push_str(&d);
                        s.reset_data().execute();
                        ("Turtle data", sess::load(&mut s, &d, DataFormat::Turtle, true).and_then(|_| {
                            let mut o = Vec::new();
                            s.serialize_data(&mut o).with_result_data_format(&ResultDataFormat::NTriples).execute().map_err(sess::e)?;
                            Ok(o)
                        }))
                    },
                    7 => {
                        let d = format!("{head}<http://e.x/S> a <http://www.w3.org/ns/shacl#NodeShape> ; <http://www.w3.org/ns/shacl#targetNode> {name} .\n");
                        log.push_str(&d);
                        let f = ShaclFormat::Turtle;
                        ("SHACL shapes", s.load_shacl_shapes().with_shacl_schema(&InputSpec::Str(d)).with_shacl_schema_format(&f).execute().map_err(sess::e).and_then(|_| {
                            Ok(format!("{:?}", s.shacl_shapes()).into_bytes())
                        }))
                    },
                    _ if r.chance(50) => {
                        let d = format!("{head}<http://e.x/S> {{ {name} . }}\n");
                        log.push_str(&d);
                        let spec = InputSpec::Str(d.clone());
                        let mut o = Vec::new();
                        let well = s.check_shex_schema(&spec, &mut o).with_shex_schema_format(&ShExFormat::ShExC).execute();
                        if !matches!(well, Ok(b) if b == iri.is_some()) {
                            return viol("checking a ShEx schema with a prefixed name", format!("{log}{well:?}\n{}", String::from_utf8_lossy(&o)));
                        }
                        let mut o = Vec::new();
                        let conv = s
                            .show_schema_conversion(&spec, &ConversionMode::ShEx, &ResultConversionMode::ShEx, &ConversionFormat::ShExC, &ResultConversionFormat::ShExJ, &mut o)
                            .execute();
                        let o = String::from_utf8_lossy(&o);
                        match &iri {
                            Some(i) if conv.is_ok() && o.contains(&format!("\"{i}\"")) => {},
                            None if conv.is_err() => {},
                            _ => return viol("converting a ShEx schema with a prefixed name", format!("{log}{conv:?}\n{o}")),
                        }
                        ("ShEx schema", sess::load_shex(&mut s, &d, ShExFormat::ShExC).and_then(|_| {
                            let mut o = Vec::new();
                            s.serialize_shex_schema(&mut o).with_result_shex_format(&ShExFormat::ShExJ).execute().map_err(sess::e)?;
                            Ok(o)
                        }))
                    },
                    _ => {
                        let d = format!("{head}SELECT * WHERE {{ ?x {name} ?y FILTER({decoy} != \"x\") }}\n");
                        log.push_str(&d);
                        ("SPARQL query", s.load_sparql_query(&InputSpec::Str(d)).execute().map_err(sess::e).and_then(|_| {
                            let mut o = Vec::new();
                            s.serialize_sparql_query(&mut o).execute().map_err(sess::e)?;
                            // the serialised text may keep the prefixed name: what counts is the answers
                            s.reset_data().execute();
                            let iri = iri.clone().unwrap_or_default();
                            sess::load(&mut s, &format!("<http://e.x/s> <{iri}> <http://e.x/o> ."), DataFormat::NTriples, true)?;
                            s.run_query().execute().map_err(sess::e)?;
                            let mut o = Vec::new();
                            s.serialize_query_results(&mut o).with_result_query_format(&ResultQueryFormat::Json).execute().map_err(sess::e)?;
                            Ok(if String::from_utf8_lossy(&o).contains("http://e.x/o") { format!("<{iri}>") } else { String::from_utf8_lossy(&o).into_owned() }.into_bytes())
                        }))
                    },
                };
                ctx.input(log.clone());
                match (&iri, res) {
                    (None, Ok(_)) => return viol(format!("{what} with an undefined prefix accepted"), log),
                    (None, Err(_)) => ctx.count("undefined prefixes refused", 1),
                    (Some(i), Err(e)) => return viol(format!("{what} with a defined prefix refused"), format!("{log}{name} is <{i}>\n{e}")),
                    (Some(i), Ok(o)) => {
                        let o = String::from_utf8_lossy(&o);
                        if !o.contains(&format!("<{i}>")) && !o.contains(&format!("\"{i}\"")) {
                            return viol(format!("{what}: prefixed name"), format!("{log}{name} is <{i}>\nobserved:\n{o}"));
                        }
                        ctx.count(&format!("{what} checked"), 1);
                        if m.contains_key(&pa) {
                            ctx.count("default prefixes used", 1);
                            ctx.nontrivial();
                        }
                    },
                }
            },
        }
        ctx.input(log.clone());
        check_prefixes(&s, &m, &log)?;
    }
    Ok(())
}
fn case(ctx: &mut Ctx) -> R {
    if ctx.rng.chance(50) { maps(ctx) } else { session(ctx) }
}
pub static P: Prop = Prop {
    id: "C14",
    case,
    probes: &[],
    quick: 16000,
    thorough: 300_000,
    rule: "a case is non-trivial when a name is qualified, or a default prefix is used by a document",
    assumptions: &["colours and hyperlinks are disabled"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["qualified and resolved", "IRIs without a prefix", "undefined prefixes refused", "default prefixes used", "Turtle data checked", "SHACL shapes checked", "ShEx schema checked", "SPARQL query checked"],
    workers: 8,
};
