//! Shape maps associate the nodes their selectors describe with the shapes they name
use crate::fw::*;
use crate::sess;
use crate::term::*;
use rudof_lib::Rudof;
use rudof_lib::formats::*;
use std::collections::BTreeSet;

type Keys = BTreeSet<(T, String)>;
const BASE_N: &str = "http://base.nodes/dir/";
const BASE_S: &str = "http://base.shapes/dir/";
const NS: &str = "http://e.x/";
const OTHER: &str = "http://other.org/";

/// Literals the query store keeps as they are
fn literal(r: &mut Rng) -> T {
    match r.below(12) {
        0 => T::str(r.pick(&["x", "", "two words", "a\"b", "back\\slash", "line\nbreak", "tab\there", "é|ñ", "'", "'''", "@S", "{FOCUS}", "#x", "a,b", "x@en", "\"\"\""])),
        1 => T::lang(r.pick(&["x", "chat", "a\"b"]), r.pick(&["en", "fr", "de-at"])),
        2 => T::lit("2020-01-01", "date"),
        3 => T::lit("2020-01-01T00:00:00Z", "dateTime"),
        4 => T::lit(r.pick(&["true", "false"]), "boolean"),
        5 => T::Lit { lex: r.pick(&["v", "a\"b", ""]).to_string(), dt: format!("{NS}dt"), lang: None },
        6 => T::Lit { lex: "w".into(), dt: format!("{OTHER}dt"), lang: None },
        7 => T::lit(r.pick(&["1.5", "-0.5"]), "decimal"),
        8 => T::lit("-3", "integer"),
        _ => T::int(r.range(0, 3)),
    }
}
fn iri(r: &mut Rng) -> T {
    T::iri(match r.below(8) {
        0..=3 => format!("{NS}{}", r.pick(&["a", "b", "c", "START", "focus", "_"])),
        4 => format!("{OTHER}{}", r.pick(&["a", "x/y", "x?q=1&r=2", "z.", "a%20b"])),
        5 => format!("{BASE_N}{}", r.pick(&["a", "b"])),
        6 => "urn:isbn:1".into(),
        _ => format!("{NS}a"),
    })
}
fn pred(r: &mut Rng) -> String {
    format!("{NS}{}", r.pick(&["p", "q"]))
}
fn graph(r: &mut Rng) -> G {
    let mut g = G::new();
    for _ in 0..3 + r.below(12) {
        let s = if r.chance(20) { T::b(r.pick(&["x", "y"])) } else { iri(r) };
        let o = match r.below(5) {
            0 | 1 => iri(r),
            2 => T::b(r.pick(&["x", "y", "z"])),
            _ => literal(r),
        };
        let p = if r.chance(10) { rdf("type") } else { pred(r) };
        g.add(s, &p, o);
    }
    g
}
fn local_ok(l: &str) -> bool {
    !l.is_empty() && l.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}
/// An IRI in full, relative to the base, or prefixed
fn show_iri(i: &str, base: &str, pm: &[(&str, &str)], r: &mut Rng) -> String {
    if let Some(l) = i.strip_prefix(base)
        && r.chance(70)
    {
        return format!("<{l}>");
    }
    for (p, ns) in pm {
        if let Some(l) = i.strip_prefix(ns)
            && local_ok(l)
            && r.chance(70)
        {
            return format!("{p}:{l}");
        }
    }
    format!("<{i}>")
}
fn esc(s: &str, q: char, long: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o += "\\\\",
            '\n' if !long => o += "\\n",
            '\t' if !long => o += "\\t",
            c if c == q => {
                o.push('\\');
                o.push(c)
            },
            c => o.push(c),
        }
    }
    o
}
fn show(t: &T, pm: &[(&str, &str)], r: &mut Rng) -> String {
    match t {
        T::Iri(i) => show_iri(i, BASE_N, pm, r),
        T::B(b) => format!("_:{b}"),
        T::Lit { lex, dt, lang } => {
            if lang.is_none() && ["integer", "decimal", "boolean"].iter().any(|d| *dt == xsd(d)) && r.chance(60) {
                return lex.clone();
            }
            let q = match r.below(4) {
                0 => format!("'{}'", esc(lex, '\'', false)),
                1 => format!("'''{}'''", esc(lex, '\'', true)),
                2 => format!("\"\"\"{}\"\"\"", esc(lex, '"', true)),
                _ => format!("\"{}\"", esc(lex, '"', false)),
            };
            match lang {
                Some(l) => format!("{q}@{l}"),
                None if *dt == xsd("string") => q,
                None => format!("{q}^^{}", show_iri(dt, "\0", pm, r)),
            }
        },
    }
}
fn case_of(w: &str, r: &mut Rng) -> String {
    if r.chance(70) { w.into() } else { w.chars().map(|c| if r.chance(50) { c.to_ascii_lowercase() } else { c }).collect() }
}
fn ws(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", " ", "\n", "  # comment, with @ and {\n"])
}
/// A selector and the nodes it selects
fn selector(g: &G, pm: &[(&str, &str)], r: &mut Rng, ctx: &mut Vec<&'static str>) -> (String, Vec<T>) {
    let all: Vec<&Tr> = g.t.iter().collect();
    let node_of = |r: &mut Rng| if r.chance(80) { let t = *r.pick(&all); if r.chance(50) { t.0.clone() } else { t.2.clone() } } else if r.chance(50) { iri(r) } else { literal(r) };
    let pick_p = |r: &mut Rng| if r.chance(70) { r.pick(&all).1.clone() } else { pred(r) };
    let show_p = |p: &str, r: &mut Rng| if p == rdf("type") && r.chance(60) { "a".to_string() } else { show_iri(p, "\0", pm, r) };
    match r.below(10) {
        0..=2 => loop {
            let n = node_of(r);
            if !n.is_b() {
                ctx.push(if n.is_lit() { "literal_selector" } else { "iri_selector" });
                return (show(&n, pm, r), vec![n]);
            }
        },
        3 | 4 => {
            let p = pick_p(r);
            ctx.push("focus_subject_wildcard");
            let ns = g.t.iter().filter(|t| t.1 == p).map(|t| t.0.clone()).collect();
            (format!("{{ {} {} _ }}", case_of("FOCUS", r), show_p(&p, r)), ns)
        },
        5 => {
            let p = pick_p(r);
            ctx.push("focus_object_wildcard");
            let ns = g.t.iter().filter(|t| t.1 == p).map(|t| t.2.clone()).collect();
            (format!("{{{}_ {} {} }}", ws(r), show_p(&p, r), case_of("FOCUS", r)), ns)
        },
        6 | 7 => {
            let t = (*r.pick(&all)).clone();
            let (p, o) = if t.2.is_b() { (pick_p(r), loop { let n = node_of(r); if !n.is_b() { break n; } }) } else { (t.1, t.2) };
            ctx.push(if o.is_lit() { "focus_subject_literal" } else { "focus_subject_iri" });
            let ns = g.subjs(&p, &o);
            (format!("{{{}{} {} {} }}", ws(r), case_of("FOCUS", r), show_p(&p, r), show(&o, pm, r)), ns)
        },
        8 => {
            let t = (*r.pick(&all)).clone();
            let s = if t.0.is_b() { iri(r) } else { t.0 };
            let p = if r.chance(80) { t.1 } else { pick_p(r) };
            ctx.push("focus_object_iri");
            let ns = g.objs(&s, &p);
            (format!("{{ {} {} {}{}}}", show(&s, pm, r), show_p(&p, r), case_of("FOCUS", r), ws(r)), ns)
        },
        _ => {
            let (p, q) = (pick_p(r), pick_p(r));
            ctx.push("sparql");
            let v = *r.pick(&["focus", "x", "node"]);
            let (body, ns): (String, Vec<T>) = match r.below(3) {
                0 => (format!("?{v} <{p}> ?o"), g.t.iter().filter(|t| t.1 == p).map(|t| t.0.clone()).collect()),
                1 => (
                    format!("?{v} <{p}> ?o . ?o <{q}> ?w"),
                    g.t.iter().filter(|t| t.1 == p && g.t.iter().any(|u| u.0 == t.2 && u.1 == q)).map(|t| t.0.clone()).collect(),
                ),
                _ => {
                    let t = (*r.pick(&all)).clone();
                    if t.2.is_b() {
                        (format!("?s <{p}> ?{v}"), g.t.iter().filter(|t| t.1 == p).map(|t| t.2.clone()).collect())
                    } else {
                        (format!("?{v} <{}> {}", t.1, t.2.nt()), g.subjs(&t.1, &t.2))
                    }
                },
            };
            let query = format!("SELECT {}?{v} WHERE {{ {body} }}", if r.chance(50) { "DISTINCT " } else { "" });
            let q = match r.below(3) {
                0 => format!("'''{}'''", esc(&query, '\'', true)),
                1 => format!("\"{}\"", esc(&query, '"', false)),
                _ => format!("\"\"\"{}\"\"\"", esc(&query, '"', true)),
            };
            (format!("{} {q}", case_of("SPARQL", r)), ns)
        },
    }
}
fn out(r: &Rudof, f: ShapeMapFormat) -> Result<String, String> {
    let mut b = Vec::new();
    r.serialize_shapemap(&mut b).with_result_shapemap_format(&f).execute().map_err(sess::e)?;
    String::from_utf8(b).map_err(sess::e)
}
fn load(r: &mut Rudof, m: &str) -> Result<(), String> {
    r.load_shapemap(&InputSpec::Str(m.to_string())).with_base_nodes(BASE_N).with_base_shapes(BASE_S).execute().map_err(sess::e)
}
/// Exactly the arcs of `p`: the shapes of the schema
fn conforms(g: &G, n: &T, shape: &str) -> bool {
    let p = g.objs(n, &format!("{NS}p")).len();
    match shape {
        s if s == format!("{NS}One") || s == "START" => p == 1,
        s if s == format!("{BASE_S}Some") => p >= 1,
        s if s == format!("{OTHER}Lit") => n.is_lit(),
        s => panic!("{s}"),
    }
}
fn compare(g: &G, want: &Keys, got: &sess::Verdicts) -> R {
    let w: BTreeSet<(T, String)> = want.iter().map(|(n, s)| (sess::key(n), s.clone())).collect();
    let k: BTreeSet<(T, String)> = got.keys().cloned().collect();
    // blank nodes are compared up to their number per shape and verdict
    let ground = |s: &BTreeSet<(T, String)>| s.iter().filter(|x| !x.0.is_b()).cloned().collect::<BTreeSet<_>>();
    let (gw, gk) = (ground(&w), ground(&k));
    if let Some(x) = gw.difference(&gk).next() {
        return viol("an association selected by the shape map is missing", format!("{x:?}\nresults {k:?}"));
    }
    if let Some(x) = gk.difference(&gw).next() {
        return viol("an association which the shape map does not select", format!("{x:?}\nexpected {w:?}"));
    }
    let mut bw: Vec<(String, bool)> = want.iter().filter(|x| x.0.is_b()).map(|(n, s)| (s.clone(), conforms(g, n, s))).collect();
    let mut bk: Vec<(String, bool)> = got.iter().filter(|x| x.0.0.is_b()).map(|((_, s), v)| (s.clone(), v == "conformant")).collect();
    bw.sort();
    bk.sort();
    if bw != bk {
        return viol("the associations of blank nodes are not those selected", format!("expected {bw:?}\ngot {bk:?}"));
    }
    for (n, s) in want.iter().filter(|x| !x.0.is_b()) {
        let v = &got[&(sess::key(n), s.clone())];
        if (v == "conformant") != conforms(g, n, s) {
            return viol("an association is judged by another shape or node", format!("{} @ {s}: {v}", n.nt()));
        }
    }
    Ok(())
}
fn case(ctx: &mut Ctx) -> R {
    let mut r = ctx.rng.clone();
    let g = graph(&mut r);
    // the same prefix may stand for different namespaces in the data and in the schema
    let dp: Vec<(&str, &str)> = match r.below(4) {
        0 => vec![("", NS), ("o", OTHER), ("xsd", "http://www.w3.org/2001/XMLSchema#")],
        1 => vec![("e", NS), ("", OTHER)],
        2 => vec![("e", NS), ("o", OTHER), ("x", "http://www.w3.org/2001/XMLSchema#")],
        _ => vec![],
    };
    let sp: Vec<(&str, &str)> = match r.below(4) {
        0 => vec![("", NS), ("o", OTHER)],
        1 => vec![("e", OTHER), ("", NS), ("o", BASE_S)],
        2 => vec![("s", NS), ("", OTHER)],
        _ => vec![],
    };
    let data = format!("{}{}", dp.iter().map(|(p, i)| format!("PREFIX {p}: <{i}>\n")).collect::<String>(), g.nt_shuffled(&mut r));
    let start = r.chance(60);
    let schema = format!(
        "{}{}<{NS}One> {{ <{NS}p> . }}\n<{BASE_S}Some> {{ <{NS}p> .+ }}\n<{OTHER}Lit> LITERAL\n",
        sp.iter().map(|(p, i)| format!("PREFIX {p}: <{i}>\n")).collect::<String>(),
        if start { format!("start = @<{NS}One>\n") } else { String::new() }
    );
    let mut rd = sess::new();
    sess::load(&mut rd, &data, DataFormat::Turtle, false).or_else(|e| viol("legal data refused", e))?;
    sess::load_shex(&mut rd, &schema, ShExFormat::ShExC).or_else(|e| viol("legal schema refused", e))?;
    let mut seen = vec![];
    let assoc = |r: &mut Rng, seen: &mut Vec<&'static str>| {
        let (sel, nodes) = selector(&g, &dp, r, seen);
        let shape = match r.below(if start { 4 } else { 3 }) {
            0 => format!("{NS}One"),
            1 => format!("{BASE_S}Some"),
            2 => format!("{OTHER}Lit"),
            _ => "START".to_string(),
        };
        let txt = if shape == "START" { case_of("START", r) } else { show_iri(&shape, BASE_S, &sp, r) };
        (sel, shape, txt, nodes)
    };
    let (mut want, mut map) = (Keys::new(), ws(&mut r).to_string());
    let n = 1 + r.below(6);
    for i in 0..n {
        let (sel, shape, txt, nodes) = assoc(&mut r, &mut seen);
        // `"x"@START` and `"x"@en:Shape` could be language tags
        let at = if sel.ends_with(['"', '\'']) { " @" } else { "@" };
        let (a, b) = if r.chance(30) { (ws(&mut r), ws(&mut r)) } else { ("", "") };
        map += &format!("{sel}{a}{at}{b}{txt}");
        map += ws(&mut r);
        if i + 1 < n || r.chance(30) {
            map += ",";
            map += ws(&mut r);
        }
        want.extend(nodes.into_iter().map(|x| (x, shape.clone())));
    }
    ctx.input(format!("# data\n{data}\n# schema\n{schema}\n# map\n{map}"));
    load(&mut rd, &map).or_else(|e| viol("legal shape map refused", e))?;
    let got = sess::validate_shex(&mut rd).or_else(|e| viol("a legal shape map can't be validated", e))?;
    compare(&g, &want, &got)?;
    ctx.count("associations", want.len() as u64);
    // written and read again
    let txt = out(&rd, ShapeMapFormat::Compact).or_else(|e| viol("the shape map can't be written", e))?;
    let mut rd2 = sess::new();
    sess::load(&mut rd2, &data, DataFormat::Turtle, false).or_else(|e| viol("reloading refused", e))?;
    sess::load_shex(&mut rd2, &schema, ShExFormat::ShExC).or_else(|e| viol("reloading refused", e))?;
    load(&mut rd2, &txt).or_else(|e| viol("the written shape map can't be read", format!("{txt}\n{e}")))?;
    let got = sess::validate_shex(&mut rd2).or_else(|e| viol("the written shape map can't be validated", format!("{txt}\n{e}")))?;
    compare(&g, &want, &got).or_else(|e| match e {
        Bad::Viol(s, d) => viol(format!("after writing and reading: {s}"), format!("{txt}\n{d}")),
        e => Err(e),
    })?;
    ctx.count("written_and_read", 1);
    let j = out(&rd, ShapeMapFormat::Json).or_else(|e| viol("the shape map can't be written in JSON", e))?;
    let j: serde_json::Value = serde_json::from_str(&j).or_else(|e| viol("the shape map in JSON is not JSON", sess::e(e)))?;
    if j["associations"].as_array().map(|a| a.len()) != Some(n) {
        return viol("the shape map in JSON has another number of associations", j.to_string());
    }
    // associations added one by one
    let fresh = r.chance(40);
    if fresh {
        rd.reset_shapemap().execute();
        want.clear();
    }
    for _ in 0..1 + r.below(3) {
        let (mut sel, shape, txt, nodes) = assoc(&mut r, &mut seen);
        // absolute IRIs may be written without brackets (the lax mode)
        if let [T::Iri(i)] = &nodes[..]
            && sel == format!("<{i}>")
            && i.contains("://")
            && r.chance(50)
        {
            sel = i.clone();
            ctx.count("bare_iri", 1);
        }
        ctx.input(format!("# data\n{data}\n# schema\n{schema}\n# map\n{map}\n# fresh {fresh}, added: {sel} @ {txt}"));
        let mut b = rd.add_node_shape_to_shapemap(&sel).with_base_nodes(BASE_N).with_base_shapes(BASE_S);
        if shape != "START" || r.chance(50) {
            b = b.with_shape(&txt);
        }
        b.execute().or_else(|e| viol("a legal association can't be added", format!("{sel} @ {txt}: {e}")))?;
        want.extend(nodes.into_iter().map(|x| (x, shape.clone())));
    }
    let got = sess::validate_shex(&mut rd).or_else(|e| viol("a shape map built step by step can't be validated", e))?;
    compare(&g, &want, &got)?;
    ctx.count(if fresh { "added_to_nothing" } else { "added" }, 1);
    for s in seen {
        ctx.count(s, 1);
    }
    if want.len() > 3 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static P: Prop = Prop {
    id: "C19",
    case,
    probes: &[],
    quick: 8000,
    thorough: 300000,
    rule: "distinct shape maps over random graphs, validated as read, as written and read again, and extended step by step",
    assumptions: &["literals of selectors are in canonical form (the embedded query store canonicalises them)"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &[
        "literal_selector", "iri_selector", "focus_subject_wildcard", "focus_object_wildcard", "focus_subject_literal", "focus_subject_iri", "focus_object_iri",
        "sparql", "written_and_read", "added", "added_to_nothing", "bare_iri",
    ],
    workers: 8,
};
