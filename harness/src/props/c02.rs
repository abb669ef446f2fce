//! ShEx node constraints against the reference node-constraint semantics
use crate::fw::*;
use crate::sess;
use crate::shexm::*;
use crate::term::*;
use rudof_lib::formats::*;

const INTDTS: &[&str] = &[
    "integer", "byte", "short", "int", "long", "nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger",
    "unsignedByte", "unsignedShort", "unsignedInt", "unsignedLong",
];

fn num_lex(r: &mut Rng) -> String {
    match r.below(10) {
        0..=3 => r.range(-6, 12).to_string(),
        4 => r.pick(&["127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "100000000000000000000000000000000000", "-100000000000000000000000000000000000", "99999999999999999999999999999999999999999999"]).to_string(),
        5 => r.pick(&["+5", "05", "007", "-0", "+0", "00"]).to_string(),
        6 | 7 => r.pick(&["1.5", "1.50", "2.0", "-1.25", "0.5", "5.0", "10.01", "123.456", "4.999", "-0.0", "100.0"]).to_string(),
        8 => r.pick(&["1e1", "1E1", "1.5e0", "5e0", "-2.5E1", "1.0e2", "5E-1", "1.0000000000000002", "1e-40", "1e-50", "-1e-45", "0.1", "0.30000000000000004", "1e300", "-1e300", "2E30", "INF", "-INF", "NaN"]).to_string(),
        _ => r.pick(&["", " 5", "5 ", "abc", "1_000", "0x10", "five", "1,5", "--1", "+", "1e", "true", "5.", ".5", "INF", "-INF", "NaN", "inf", "nan", "+INF"]).to_string(),
    }
}
fn word(r: &mut Rng) -> String {
    let a = ["", "a", "ab", "abc", "Abc", "aé", "é", "日本語", "a b", "x\ny", "a.c", "a\"q", "back\\slash", "😀", "e\u{301}", "true", "5", "http://example.org/v1", "tab\there"];
    r.pick(&a).to_string()
}
const LANGS: &[&str] = &["en", "EN", "en-GB", "en-us", "fr", "de-DE", "e", "eng", "en-GB-oed"];
const IRIS: &[&str] = &["v1", "v2", "v", "v12", "w/a", "w/ab", "w#x", "x/%C3%A9", "é"];

pub fn term(r: &mut Rng) -> T {
    match r.below(12) {
        0 | 1 => T::ex(r.pick(IRIS)),
        2 => T::b("bn1"),
        3 => T::str(&word(r)),
        4 => T::lang(&word(r), r.pick(LANGS)),
        5 | 6 => {
            let d = *r.pick(INTDTS);
            T::lit(&num_lex(r), d)
        },
        7 => T::lit(&num_lex(r), "integer"),
        8 => T::lit(&num_lex(r), r.pick(&["decimal", "double", "float"])),
        9 => T::lit(r.pick(&["true", "false", "1", "0", "TRUE", "yes", "", "t"]), "boolean"),
        10 => T::lit(
            r.pick(&["2020-01-01T00:00:00", "2020-01-01T00:00:00Z", "2020-13-01T00:00:00", "2021-02-29T00:00:00", "2020-02-29T12:30:45.5+02:00", "2020-02-29T10:30:45.5Z", "2020-02-29T11:30:45.50+01:00", "2020-01-01T02:00:00+02:00", "hello", "2020-01-01"]),
            "dateTime",
        ),
        _ => T::Lit { lex: word(r), dt: ex(r.pick(&["dt1", "dt2"])), lang: None },
    }
}
fn bound(r: &mut Rng) -> String {
    r.pick(&["0", "1", "2", "5", "-1", "-6", "10", "127", "1.5", "2.0", "0.5", "-1.25", "4.999", "5.001", "255", "9223372036854775807", "1.0E0", "1e0", "0.3E0"]).to_string()
}
fn facets(r: &mut Rng, c: &mut NC) {
    let n = 1 + r.below(3);
    for _ in 0..n {
        let f = match r.below(12) {
            0 => Facet::Len(r.below(6)),
            1 => Facet::MinLen(r.below(6)),
            2 => Facet::MaxLen(r.below(25)),
            3 | 4 => {
                let p = r.pick(&["a", "^a", "c$", "^[a-z]*$", "^[0-9]+$", "v[0-9]", "b|é", "^.$", "^..$", "a.c", "x.y", "^ab?c*$", "/v1$", "\\.", "^$", "^A"]).to_string();
                Facet::Pat(p, r.pick(&["", "", "i", "s"]).to_string())
            },
            5 => Facet::MinInc(bound(r)),
            6 => Facet::MinExc(bound(r)),
            7 => Facet::MaxInc(bound(r)),
            8 => Facet::MaxExc(bound(r)),
            9 => Facet::Total(1 + r.below(4)),
            10 => Facet::Frac(r.below(4)),
            _ => Facet::MinLen(r.below(4)),
        };
        if !c.facets.iter().any(|g| std::mem::discriminant(g) == std::mem::discriminant(&f)) {
            c.facets.push(f);
        }
    }
}
fn excl(r: &mut Rng, vals: &[String]) -> Vec<Excl> {
    (0..r.below(3)).map(|_| Excl { val: r.pick(vals).clone(), stem: r.chance(40) }).collect()
}
fn excl1(r: &mut Rng, vals: &[String]) -> Vec<Excl> {
    let mut v = excl(r, vals);
    if v.is_empty() {
        v.push(Excl { val: r.pick(vals).clone(), stem: r.chance(40) });
    }
    v
}
fn vv(r: &mut Rng, terms: &[T]) -> VV {
    let iris: Vec<String> = IRIS.iter().map(|x| ex(x)).collect();
    let strs: Vec<String> = ["a", "ab", "abc", "é", "5", "日", "http://example.org/v1", "tr"].iter().map(|x| x.to_string()).collect();
    let langs: Vec<String> = LANGS.iter().map(|x| x.to_string()).collect();
    match r.below(14) {
        0..=4 => loop {
            let t = if r.chance(70) { r.pick(terms).clone() } else { term(r) };
            if !t.is_b() {
                return VV::Term(t);
            }
        },
        5 => VV::Lang(r.pick(&langs).clone()),
        6 | 7 => {
            let s = r.pick(&["v", "v1", "w", "w/", "w/a", "", "x/", "é"]).to_string();
            VV::IriStem(ex(&s), excl(r, &iris))
        },
        8 | 9 => VV::LitStem(r.pick(&strs).clone(), excl(r, &strs)),
        10 => VV::LangStem(r.pick(&langs).clone(), excl(r, &langs)),
        11 => VV::IriAny(excl1(r, &iris)),
        12 => VV::LitAny(excl1(r, &strs)),
        _ => VV::LangAny(excl1(r, &langs)),
    }
}
pub fn nc(r: &mut Rng, terms: &[T]) -> NC {
    let mut c = NC::default();
    match r.below(10) {
        0 => c.kind = Some(*r.pick(&[Kind::Iri, Kind::BNode, Kind::NonLit, Kind::Lit])),
        1 | 2 => {
            c.dt = Some(match r.below(6) {
                0..=2 => xsd(r.pick(INTDTS)),
                3 => xsd(r.pick(&["decimal", "double", "float"])),
                4 => xsd(r.pick(&["string", "boolean", "dateTime"])),
                _ => if r.chance(50) { ex("dt1") } else { rdf("langString") },
            });
            if r.chance(35) {
                facets(r, &mut c);
            }
        },
        3..=5 => {
            if r.chance(40) {
                c.kind = Some(*r.pick(&[Kind::Iri, Kind::NonLit, Kind::Lit]));
            }
            facets(r, &mut c);
        },
        _ => {
            c.values = Some((0..1 + r.below(3)).map(|_| vv(r, terms)).collect());
        },
    }
    // numeric facets do not combine with IRI / BNODE in the grammar
    if matches!(c.kind, Some(Kind::Iri | Kind::BNode | Kind::NonLit)) {
        c.facets.retain(|f| matches!(f, Facet::Len(_) | Facet::MinLen(_) | Facet::MaxLen(_) | Facet::Pat(..)));
    }
    // the grammar has no constraint mixing both families without LITERAL or a datatype
    if c.kind.is_none() && c.dt.is_none() {
        let str_facet = |f: &Facet| matches!(f, Facet::Len(_) | Facet::MinLen(_) | Facet::MaxLen(_) | Facet::Pat(..));
        if c.facets.first().is_some_and(str_facet) {
            c.facets.retain(str_facet);
        } else {
            c.facets.retain(|f| !str_facet(f));
        }
    }
    c
}

fn case(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let terms: Vec<T> = (0..8).map(|_| term(r)).collect();
    let ncs: Vec<NC> = (0..10).map(|_| nc(r, &terms)).collect();
    let json = r.chance(40);
    run(ctx, &terms, &ncs, json)
}
fn run(ctx: &mut Ctx, terms: &[T], ncs: &[NC], json: bool) -> R {
    let r = &mut ctx.rng;
    let mut s = Schema::default();
    for (i, c) in ncs.iter().enumerate() {
        s.shapes.push((ex(&format!("N{i}")), SE::NC(c.clone())));
        let tc = TC { inv: false, pred: ex("p"), ve: Some(Box::new(SE::NC(c.clone()))), min: 1, max: Some(1) };
        s.shapes.push((ex(&format!("P{i}")), SE::Shape(Sh { te: Some(TE::TC(tc)), ..Sh::default() })));
    }
    let mut g = G::new();
    let mut pairs = Vec::new();
    for (i, t) in terms.iter().enumerate() {
        g.add(T::ex(&format!("s{i}")), &ex("p"), t.clone());
        for j in 0..ncs.len() {
            pairs.push((T::ex(&format!("s{i}")), ex(&format!("P{j}")), i, j));
            if !t.is_b() {
                pairs.push((t.clone(), ex(&format!("N{j}")), i, j));
            }
        }
    }
    let doc = if json { s.shexj() } else { s.shexc(r) };
    let data = g.nt_shuffled(r);
    let mp: Vec<(T, String)> = pairs.iter().map(|p| (p.0.clone(), p.1.clone())).collect();
    ctx.input(format!("# data\n{data}\n# schema\n{doc}"));
    ctx.count(if json { "shexj" } else { "shexc" }, 1);
    let got = match sess::shex_once(&data, DataFormat::Turtle, &doc, if json { ShExFormat::ShExJ } else { ShExFormat::ShExC }, &sess::smap(&mp)) {
        Ok(v) => v,
        Err(e) => return viol("validation refused a legal input", e),
    };
    for (n, l, i, j) in &pairs {
        let t = &terms[*i];
        let Some(st) = got.get(&(sess::key(n), l.clone())) else {
            return viol("association without a verdict", format!("{} @ {l} not in {:?}", n.nt(), got.keys().filter(|k| k.1 == *l).collect::<Vec<_>>()));
        };
        let Some(want) = nc_sat(t, &ncs[*j]) else {
            ctx.count("oracle_undecided", 1);
            continue;
        };
        ctx.count(if want { "expected_conformant" } else { "expected_nonconformant" }, 1);
        if ncs[*j].values.is_some() {
            ctx.count(if want { "value_set_hit" } else { "value_set_miss" }, 1);
        } else if !ncs[*j].facets.is_empty() {
            ctx.count(if want { "facet_hit" } else { "facet_miss" }, 1);
        } else if ncs[*j].dt.is_some() {
            ctx.count(if want { "datatype_hit" } else { "datatype_miss" }, 1);
        }
        if (st == "conformant") != want || !(st == "conformant" || st == "nonconformant") {
            return viol(
                format!("node constraint verdict {st}, the semantics say {}", if want { "conformant" } else { "nonconformant" }),
                format!("{} as {} against {:?}", t.nt(), if n == t { "focus" } else { "object" }, ncs[*j]),
            );
        }
    }
    ctx.nontrivial();
    Ok(())
}

pub static P: Prop = Prop {
    id: "C02",
    case,
    probes: &[],
    quick: 2500,
    thorough: 60000,
    rule: "distinct batches of 8 terms x 10 node constraints, each pair checked as shape-map node and as object of a triple constraint",
    assumptions: &["node-constraint oracle written from ShEx 2.1 section 5.4; patterns use the constructs on which XPath and Rust regular expressions agree"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["value_set_hit", "value_set_miss", "facet_hit", "facet_miss", "datatype_hit", "datatype_miss", "shexc", "shexj"],
    workers: 8,
};
