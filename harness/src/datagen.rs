//! Random RDF graphs and documents in every data format
use crate::fw::*;
use crate::term::*;
use rudof_lib::formats::DataFormat;

pub const BASE: &str = "http://base.x/d/";
pub fn iri(r: &mut Rng) -> T {
    let v = [
        "http://e.x/a", "http://e.x/b", "http://e.x/c", "http://e.x/long/path#frag", "http://base.x/d/rel", "http://base.x/d/s/t",
        "http://base.x/d/u?q=1", "urn:x:y:z", "http://é.x/ñ", "http://e.x/p%20q", "http://e.x/a.b", "http://e.x/a-b_c", "http://other.org/",
        "http://e.x/(z)", "http://e.x/1", "mailto:a@b.c", "http://e.x/𝒳", "http://e.x/a:b", "http://e.x/it's",
    ];
    T::iri(*r.pick(&v))
}
pub fn pred(r: &mut Rng) -> String {
    let v = ["http://e.x/p", "http://e.x/q", "http://e.x/ns#name", "http://other.org/rel", "http://www.w3.org/1999/02/22-rdf-syntax-ns#type", "http://www.w3.org/2000/01/rdf-schema#label", "http://base.x/d/prop"];
    r.pick(&v).to_string()
}
pub fn literal(r: &mut Rng, xml_safe: bool) -> T {
    let strs = [
        "", "a", "hello world", "\"quoted\"", "back\\slash", "tab\there", "line\nbreak", "cr\rhere", "é ñ 漢字", "𝒳𝒴", "<tag>&amp;", "]]>", "'single'", "'''", "\"\"\"",
        " lead", "trail ", "{}", "$1", "@en", "^^", "\\u0041", "#hash", "a,b;c", "\u{200d}zwj", "%20", "_:b", "e\u{301}",
    ];
    let ctrl = ["\u{1}", "\u{7f}", "\u{8}", "\u{c}", "\u{0}x", "\u{fffe}", "\u{85}"];
    match r.below(10) {
        0..=3 => T::str(r.pick(&strs)),
        4 => {
            let l = *r.pick(&["en", "en-GB", "es", "zh-Hant-TW", "EN"]);
            T::lang(r.pick(&strs), l)
        },
        5 if !xml_safe => T::str(r.pick(&ctrl)),
        5 | 6 => {
            let (l, d) = *r.pick(&[
                ("1", "integer"), ("01", "integer"), ("-5", "integer"), ("abc", "integer"), ("1.50", "decimal"), ("1.", "decimal"), ("1e3", "double"), ("INF", "double"), ("NaN", "float"),
                ("true", "boolean"), ("1", "boolean"), ("2020-01-01", "date"), ("2020-01-01T00:00:00Z", "dateTime"), ("x", "string"), ("300", "byte"), ("", "integer"), (" 1 ", "integer"),
            ]);
            T::lit(l, d)
        },
        7 => T::Lit { lex: r.pick(&strs).to_string(), dt: "http://e.x/dt".into(), lang: None },
        8 => T::Lit { lex: "<a>b</a>".into(), dt: rdf("XMLLiteral"), lang: None },
        _ => T::int(r.range(-3, 12)),
    }
}
/// a graph with at most `n` triples; blank node labels end with `tag`
pub fn graph(r: &mut Rng, n: usize, tag: &str, xml_safe: bool) -> G {
    let mut g = G::new();
    let bn: Vec<T> = (0..4).map(|i| T::b(&format!("b{i}{tag}"))).collect();
    for _ in 0..1 + r.below(n) {
        let s = if r.chance(35) { r.pick(&bn).clone() } else { iri(r) };
        let o = match r.below(10) {
            0..=2 => iri(r),
            3 | 4 => r.pick(&bn).clone(),
            _ => literal(r, xml_safe),
        };
        g.add(s, &pred(r), o);
    }
    g
}
pub fn ox_term(t: &T) -> oxrdf::Term {
    match t {
        T::Iri(i) => oxrdf::NamedNode::new_unchecked(i.as_str()).into(),
        T::B(b) => oxrdf::BlankNode::new_unchecked(b.as_str()).into(),
        T::Lit { lex, lang: Some(l), .. } => oxrdf::Literal::new_language_tagged_literal_unchecked(lex.as_str(), l.to_lowercase()).into(),
        T::Lit { lex, dt, .. } => oxrdf::Literal::new_typed_literal(lex.as_str(), oxrdf::NamedNode::new_unchecked(dt.as_str())).into(),
    }
}
pub fn ox_ser(g: &G, f: oxrdfio::RdfFormat) -> Result<String, String> {
    let mut w = oxrdfio::RdfSerializer::from_format(f).for_writer(Vec::new());
    for (s, p, o) in &g.t {
        let s: oxrdf::NamedOrBlankNode = match ox_term(s) {
            oxrdf::Term::NamedNode(n) => n.into(),
            oxrdf::Term::BlankNode(n) => n.into(),
            _ => return Err("literal subject".into()),
        };
        w.serialize_triple(oxrdf::Triple::new(s, oxrdf::NamedNode::new_unchecked(p.as_str()), ox_term(o)).as_ref()).map_err(|e| e.to_string())?;
    }
    String::from_utf8(w.finish().map_err(|e| e.to_string())?).map_err(|e| e.to_string())
}
pub const FORMATS: [DataFormat; 7] =
    [DataFormat::Turtle, DataFormat::NTriples, DataFormat::RdfXml, DataFormat::JsonLd, DataFormat::NQuads, DataFormat::TriG, DataFormat::N3];
/// The graph as a document; with `rel`, some IRIs are relative to BASE
pub fn doc(g: &G, f: DataFormat, rel: bool, r: &mut Rng) -> Result<String, String> {
    let b = |s: String| if rel { s.replace(&format!("<{BASE}"), "<") } else { s };
    let pfx: Vec<(&str, &str)> = r.subset(&[("ex", "http://e.x/"), ("", "http://other.org/"), ("o", "http://e.x/ns#"), ("rdfs", "http://www.w3.org/2000/01/rdf-schema#")], 60);
    let bad_rel = |d: &str| d.contains("<>");
    let d = match f {
        DataFormat::Turtle | DataFormat::N3 => {
            let d = turtle(g, &pfx, r);
            let mut d = b(d);
            if r.chance(20) {
                d = format!("# a comment <x> \"y\n{d}\n# end");
            }
            d
        },
        DataFormat::NTriples => {
            let mut d = g.nt_shuffled(r);
            if r.chance(20) {
                d = format!("# comment\n\n{d}#x");
            }
            d
        },
        DataFormat::NQuads => g.nt_shuffled(r).lines().map(|l| if r.chance(50) { format!("{} <http://e.x/g{}> .\n", l.strip_suffix(" .").unwrap(), r.below(2)) } else { format!("{l}\n") }).collect(),
        DataFormat::TriG => {
            let (mut a, mut c) = (G::new(), G::new());
            for t in &g.t {
                if r.chance(50) { &mut a } else { &mut c }.t.insert(t.clone());
            }
            let (x, y) = (turtle(&a, &[], r), turtle(&c, &[], r));
            b(if r.chance(50) { format!("{x}<http://e.x/g1> {{ {y} }}\n") } else { format!("{{ {x} }}\nGRAPH <http://e.x/g1> {{ {y} }}\n") })
        },
        DataFormat::RdfXml => {
            let d = ox_ser(g, oxrdfio::RdfFormat::RdfXml)?;
            if rel { d.replace(&format!("rdf:about=\"{BASE}"), "rdf:about=\"").replace(&format!("rdf:resource=\"{BASE}"), "rdf:resource=\"") } else { d }
        },
        DataFormat::JsonLd => {
            let d = ox_ser(g, oxrdfio::RdfFormat::JsonLd { profile: Default::default() })?;
            if rel { d.replace(&format!("\"@id\":\"{BASE}"), "\"@id\":\"") } else { d }
        },
        _ => return Err("format".into()),
    };
    if bad_rel(&d) { Err("empty relative IRI".into()) } else { Ok(d) }
}
/// A document of the format which is certainly not well formed
pub fn broken(d: &str, f: DataFormat, r: &mut Rng) -> String {
    match f {
        DataFormat::RdfXml => match r.below(2) {
            0 => d.replacen("</rdf:RDF>", "<rdf:Description><a b=></rdf:Description></rdf:RDF>", 1),
            _ => "<rdf:RDF".to_string(),
        },
        DataFormat::JsonLd => match r.below(3) {
            0 => format!("[{d}"),
            1 => d.trim_end().trim_end_matches(']').to_string() + ",",
            _ => "{ \"@id\": ".into(),
        },
        // a term with an invalid IRI in any position
        _ if r.chance(40) => {
            let i = format!("<http://e.x/{}>", r.pick(&["a b", "x\u{1}", "{y}", "a|b", "^", "`"]));
            let ok = "<http://e.x/k>";
            let mut t = [ok, "<http://e.x/p>", "<http://e.x/o>"].map(str::to_string);
            match r.below(if matches!(f, DataFormat::N3) { 4 } else { 5 }) {
                k @ 0..3 => t[k] = i,
                3 => t[2] = format!("\"v\"^^{i}"),
                _ => t[2] = format!("<<( {} )>>", r.pick(&[format!("{i} {ok} {ok}"), format!("{ok} {i} {ok}"), format!("{ok} {ok} {i}")])),
            }
            let bad = format!("{} .\n", t.join(" "));
            if r.chance(50) { format!("{d}\n{bad}") } else { format!("{bad}{d}") }
        },
        _ => {
            let bad = match f {
                DataFormat::NTriples | DataFormat::NQuads => *r.pick(&["<http://e.x/a> <http://e.x/p> .\n", "<http://e.x/a> <http://e.x/p> \"x .\n", "\"x\" <http://e.x/p> <http://e.x/a> .\n", "<http://e.x/a> <http://e.x/p> <http://e.x/q>", "<http://e.x/a> _:p <http://e.x/a> .\n", "<a> <b> <c> .\n", "<http://e.x/a> <http://e.x/p> \"\\q\" .\n"]),
                DataFormat::Turtle => *r.pick(&["<http://e.x/a> <http://e.x/p> .\n", "<http://e.x/a> <http://e.x/p> \"x .\n", "\"x\" <http://e.x/p> <http://e.x/a> .\n", "<http://e.x/a> <http://e.x/p> <http://e.x/q>", "<http://e.x/a> _:p <http://e.x/a> .\n", "<http://e.x/a> undefinedprefix:p 1 .\n", "<http://e.x/a> <http://e.x/p> ( 1 .\n", "<http://e.x/a> <http://e.x/p> \"\\q\" .\n", "<http://e.x/a> <http://e.x/p> <http://e.x/a b> .\n"]),
                _ => *r.pick(&["<http://e.x/a> <http://e.x/p> .\n", "<http://e.x/a> <http://e.x/p> \"x .\n", "<http://e.x/a> <http://e.x/p> <http://e.x/q>", "<http://e.x/a> undefinedprefix:p 1 .\n"]),
            };
            // line based formats may be broken anywhere
            if matches!(f, DataFormat::NTriples | DataFormat::NQuads) && bad.ends_with('\n') && r.chance(50) {
                let mut l: Vec<String> = d.lines().map(|x| format!("{x}\n")).collect();
                let at = r.below(l.len() + 1);
                l.insert(at, bad.to_string());
                l.concat()
            } else {
                format!("{d}\n{bad}")
            }
        },
    }
}
