//! Every output format of validation results tells the same results, grouped in the requested order
use crate::fw::*;
use crate::props::c06;
use crate::props::c12::csv_records;
use crate::sess;
use crate::term::*;
use crate::{rep, shaclgen, shexgen};
use rudof_lib::Rudof;
use rudof_lib::formats::*;

type Pm = Vec<(String, String)>;

/// Escape sequences of colours and hyperlinks
pub fn plain(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let (mut o, mut i) = (String::new(), 0);
    while i < c.len() {
        if c[i] == '\u{1b}' {
            i += 1;
            match c.get(i) {
                Some('[') => {
                    while i < c.len() && !c[i].is_ascii_alphabetic() {
                        i += 1;
                    }
                    i += 1;
                },
                Some(']') => {
                    while i < c.len() && c[i] != '\u{7}' && !(c[i] == '\\' && c[i - 1] == '\u{1b}') {
                        i += 1;
                    }
                    i += 1;
                },
                _ => {},
            }
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    o
}
pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
/// Header and rows of a table; cells lose their white space
pub fn table(t: &str) -> Result<(Vec<String>, Vec<Vec<String>>), String> {
    let mut rows: Vec<Vec<String>> = vec![];
    let mut open = false;
    let mut n = 1;
    for l in plain(t).lines() {
        let l = l.trim_end();
        match l.chars().next() {
            Some('╭') => n = 1 + l.matches('┬').count(),
            Some('├' | '╰') => open = false,
            Some('│') => {
                let cells: Vec<String> = l[3..].strip_suffix('│').unwrap_or(&l[3..]).splitn(n, '│').map(squeeze).collect();
                if open {
                    let last = rows.last_mut().unwrap();
                    if last.len() != cells.len() {
                        return Err(format!("a row with {} cells after {} in {t}", cells.len(), last.len()));
                    }
                    for (a, b) in last.iter_mut().zip(cells) {
                        a.push_str(&b);
                    }
                } else {
                    rows.push(cells);
                    open = true;
                }
            },
            None => {},
            _ => return Err(format!("a line outside of the table: {l}")),
        }
    }
    if rows.is_empty() {
        return Err(format!("no table in {t}"));
    }
    let h = rows.remove(0);
    for r in &rows {
        if r.len() != h.len() {
            return Err(format!("{} headers {h:?} over {} cells {r:?}", h.len(), r.len()));
        }
    }
    Ok((h, rows))
}
/// Whether a cell shows a term
pub fn shows(cell: &str, t: &T, pm: &Pm) -> bool {
    let cell = squeeze(cell);
    let iri = |c: &str, i: &str| {
        c == format!("<{i}>")
            || c == i
            || pm.iter().any(|(p, ns)| c.strip_prefix(&format!("{p}:")).is_some_and(|l| squeeze(i) == format!("{ns}{l}")))
    };
    match t {
        T::Iri(i) => iri(&cell, i),
        T::B(b) => cell == format!("_:{b}") || cell == *b,
        T::Lit { lex, dt, lang } => {
            let (q, esc) = (squeeze(&format!("\"{lex}\"")), squeeze(&quote(lex)));
            match lang {
                Some(l) => [q, esc].iter().any(|q| cell.to_lowercase() == format!("{q}@{l}").to_lowercase()),
                None => {
                    (*dt == xsd("string") && (cell == q || cell == esc))
                        || cell == squeeze(lex)
                        || [q, esc].iter().any(|q| cell.strip_prefix(&format!("{q}^^")).is_some_and(|c| iri(c, dt)))
                },
            }
        },
    }
}
/// Equal keys stand together
pub fn grouped(keys: &[String]) -> Option<String> {
    let mut seen: Vec<&String> = vec![];
    for k in keys {
        if seen.last() == Some(&k) {
            continue;
        }
        if seen.contains(&k) {
            return Some(k.clone());
        }
        seen.push(k);
    }
    None
}
/// Every expectation is shown by exactly one row
pub fn matching<A: std::fmt::Debug>(want: &[A], rows: &[Vec<String>], eq: impl Fn(&A, &[String]) -> bool) -> Result<(), String> {
    fn place(w: usize, ok: &[Vec<bool>], seen: &mut [bool], of: &mut [Option<usize>]) -> bool {
        for i in 0..of.len() {
            if ok[w][i] && !seen[i] {
                seen[i] = true;
                if of[i].is_none_or(|v| place(v, ok, seen, of)) {
                    of[i] = Some(w);
                    return true;
                }
            }
        }
        false
    }
    let ok: Vec<Vec<bool>> = want.iter().map(|w| rows.iter().map(|r| eq(w, r)).collect()).collect();
    let mut of = vec![None; rows.len()];
    for (i, w) in want.iter().enumerate() {
        if !place(i, &ok, &mut vec![false; rows.len()], &mut of) {
            return Err(format!("no row shows {w:?}\n{rows:?}"));
        }
    }
    match of.iter().position(|u| u.is_none()) {
        Some(i) => Err(format!("nothing corresponds to the row {:?}", rows[i])),
        None => Ok(()),
    }
}

fn prefixes(r: &mut Rng) -> (Pm, Pm) {
    let all = [("ex", ex("")), ("x", XSD.to_string()), ("o", "http://other.org/".to_string()), ("", ex("")), ("sh", "http://www.w3.org/ns/shacl#".to_string())];
    let mut pick = || {
        let mut v: Pm = vec![];
        for (p, i) in &all {
            if r.chance(50) && !v.iter().any(|x| x.1 == *i) {
                v.push((p.to_string(), i.clone()));
            }
        }
        v
    };
    let a = pick();
    (a, pick())
}
fn header(pm: &Pm, shex: bool) -> String {
    pm.iter().map(|(p, i)| if shex { format!("PREFIX {p}: <{i}>\n") } else { format!("@prefix {p}: <{i}> .\n") }).collect()
}
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
/// prefixes under which a term may be shown: the declared ones and those everybody knows
fn known(pm: &Pm) -> Pm {
    let mut v = pm.clone();
    for (p, i) in [("xsd", XSD), ("rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"), ("sh", "http://www.w3.org/ns/shacl#")] {
        v.push((p.into(), i.into()));
    }
    v
}
fn shex_out(r: &Rudof, f: ResultShExValidationFormat, s: Option<ShExValidationSortByMode>) -> Result<String, String> {
    let mut b = Vec::new();
    let mut x = r.serialize_shex_validation_results(&mut b).with_result_shex_validation_format(&f);
    if let Some(s) = &s {
        x = x.with_shex_validation_sort_order_mode(s);
    }
    x.execute().map_err(sess::e)?;
    String::from_utf8(b).map_err(sess::e)
}
fn shex(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let o = shexgen::Opts { negation: true, recursion: true, inverse: true, groups: false, extra_refs: false, nshapes: 1 + r.below(4) };
    let s = shexgen::schema(r, &o);
    let k = 3 + r.below(8);
    let mut g = shexgen::graph(r, k, 4);
    let lits = [
        T::str("x y"), T::str("a\"b"), T::str(""), T::lang("chat", "fr"), T::lit("2020-01-01T00:00:00Z", "dateTime"), T::lit("true", "boolean"), T::int(7),
        T::lit("1.5", "decimal"), T::lit("05", "integer"), T::Lit { lex: "v".into(), dt: ex("dt"), lang: None }, T::str("line\nbreak"), T::str("a,b"),
        T::str("long text which does not fit in the width of a terminal and has to be wrapped over several lines, a,b;c \"quoted\""),
    ];
    for i in 0..r.below(6) {
        g.add(shexgen::node(i), &ex("lit"), r.pick(&lits).clone());
    }
    let b = r.chance(50);
    if b {
        g.add(T::b("blank"), &ex("lit"), T::b("other"));
        g.add(T::b("other"), &ex("p"), T::int(1));
    }
    let far = T::iri("http://other.org/n1");
    g.add(far.clone(), &ex("p"), T::iri("http://third.org/x?a=b"));
    let (dp, sp) = prefixes(r);
    let data = format!("{}{}", header(&dp, false), g.nt_shuffled(r));
    let doc = format!("{}{}", header(&sp, true), s.shexc(r));
    let labels: Vec<String> = s.shapes.iter().map(|x| x.0.clone()).collect();
    let mut pairs = vec![];
    for n in g.nodes() {
        for l in &labels {
            if !n.is_b() && r.chance(70) {
                pairs.push((n.clone(), l.clone()));
            }
        }
    }
    let mut map = sess::smap(&pairs);
    if b {
        let sep = if map.trim().is_empty() { "" } else { "," };
        map = format!("{map}{sep}\n{{FOCUS <{}> _}}@<{}>", ex("lit"), r.pick(&labels));
    }
    if map.trim().is_empty() {
        ctx.count("empty", 1);
        return Ok(());
    }
    ctx.input(format!("# data\n{data}\n# schema\n{doc}\n# map\n{map}"));
    let mut rd = sess::new();
    sess::load(&mut rd, &data, DataFormat::Turtle, false).or_else(|e| viol("legal data refused", e))?;
    sess::load_shex(&mut rd, &doc, ShExFormat::ShExC).or_else(|e| viol("legal schema refused", e))?;
    sess::load_map(&mut rd, &map).or_else(|e| viol("legal shape map refused", e))?;
    let v = match sess::validate_shex(&mut rd) {
        Ok(v) => v,
        Err(_) => {
            // the schemas which are not validated are judged by C01 and C04
            ctx.count("refused", 1);
            return Ok(());
        },
    };
    let want: Vec<(T, String, String)> = v.into_iter().map(|((n, s), st)| (n, s, st)).collect();
    let (dk, mut sk) = (known(&dp), known(&sp));
    // declared by the schema itself
    sk.push((String::new(), ex("")));
    let shape = |c: &str, l: &str| shows(c, &if l.starts_with("_:") { T::b(&l[2..]) } else { T::iri(l) }, &sk);
    let row = |w: &(T, String, String), c: &[String]| {
        shows(&c[0], &w.0, &dk)
            && shape(&c[1], &w.1)
            && c[2]
                == match w.2.as_str() {
                    "conformant" => "OK",
                    "nonconformant" => "FAIL",
                    _ => "Pending",
                }
    };
    // JSON
    let j = shex_out(&rd, ResultShExValidationFormat::Json, None).or_else(|e| viol("the JSON results can't be written", e))?;
    let j: serde_json::Value = serde_json::from_str(&j).or_else(|e| viol("the JSON results are not JSON", format!("{e}: {j}")))?;
    let Some(a) = j.as_array() else { return viol("the JSON results are not an array", j.to_string()) };
    let rows: Vec<Vec<String>> = a.iter().map(|x| ["node", "shape", "status"].iter().map(|k| x[*k].as_str().unwrap_or("").to_string()).collect()).collect();
    matching(&want, &rows, |w, c| shows(&c[0], &w.0, &dk) && shape(&c[1], &w.1) && c[2] == w.2)
        .or_else(|e| viol("the JSON results are not those of the session", e))?;
    ctx.count("json", rows.len() as u64);
    use ShExValidationSortByMode as S;
    for (mode, col) in [(None, 0), (Some(S::Node), 0), (Some(S::Shape), 1), (Some(S::Status), 2), (Some(S::Details), 3)] {
        let name = format!("{mode:?}");
        let c = shex_out(&rd, ResultShExValidationFormat::Csv, mode).or_else(|e| viol("the CSV results can't be written", e))?;
        let mut rows = csv_records(&c);
        if rows.is_empty() || rows[0] != ["node", "shape", "status", "details"] {
            return viol("the CSV results have no header", c);
        }
        rows.remove(0);
        if let Some(r) = rows.iter().find(|r| r.len() != 4) {
            return viol("a CSV record has not as many fields as the header", format!("{r:?}\n{c}"));
        }
        matching(&want, &rows, row).or_else(|e| viol("the CSV results are not those of the session", e))?;
        if let Some(k) = grouped(&rows.iter().map(|r| r[col].clone()).collect::<Vec<_>>()) {
            return viol("the CSV results are not in the requested order", format!("{name}: {k:?} appears in several groups\n{c}"));
        }
        ctx.count("csv", rows.len() as u64);
        for (f, n) in [(ResultShExValidationFormat::Compact, 3), (ResultShExValidationFormat::Details, 4)] {
            let fname = format!("{f:?}");
            let t = shex_out(&rd, f, mode).or_else(|e| viol("the result table can't be written", e))?;
            let (h, rows) = table(&t).or_else(|e| viol("the result table can't be read", e))?;
            if h != ["Node", "Shape", "Status", "Details"][..n] {
                return viol("the result table has other headers", format!("{h:?}"));
            }
            matching(&want, &rows, row).or_else(|e| viol(format!("the {fname} table is not the one of the session's results"), format!("{e}\n{t}")))?;
            if col < n
                && let Some(k) = grouped(&rows.iter().map(|r| r[col].clone()).collect::<Vec<_>>())
            {
                return viol("the table's results are not in the requested order", format!("{name}: {k:?} appears in several groups\n{t}"));
            }
            ctx.count(if n == 3 { "compact" } else { "details" }, rows.len() as u64);
        }
    }
    for w in &want {
        ctx.count(if w.2 == "conformant" { "shex_conformant" } else { "shex_nonconformant" }, 1);
    }
    if want.len() > 4 {
        ctx.nontrivial();
    }
    Ok(())
}

fn shacl_out(r: &Rudof, f: ResultShaclValidationFormat, s: Option<ShaclValidationSortByMode>) -> Result<String, String> {
    let mut b = Vec::new();
    let mut x = r.serialize_shacl_validation_results(&mut b).with_result_shacl_validation_format(&f);
    if let Some(s) = &s {
        x = x.with_shacl_validation_sort_order_mode(s);
    }
    x.execute().map_err(sess::e)?;
    String::from_utf8(b).map_err(sess::e)
}
fn shacl(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let sg = {
        let o = c06::opts(r);
        shaclgen::shapes(r, &o)
    };
    let mut g = shaclgen::data(r);
    shaclgen::link_implicit(&mut g, &sg, r);
    let (dp, _) = prefixes(r);
    let data = format!("{}{}", header(&dp, false), g.nt_shuffled(r));
    let doc = sg.ttl(r);
    ctx.input(format!("# data\n{data}\n# shapes\n{doc}"));
    let mut rd = sess::new();
    sess::load(&mut rd, &data, DataFormat::Turtle, false).or_else(|e| viol("legal data refused", e))?;
    rd.load_shacl_shapes()
        .with_shacl_schema(&InputSpec::Str(doc))
        .with_shacl_schema_format(&ShaclFormat::Turtle)
        .execute()
        .or_else(|e| viol("legal shapes refused", sess::e(e)))?;
    let native = ctx.rng.chance(80);
    let mode = if native { ShaclValidationMode::Native } else { ShaclValidationMode::Sparql };
    if rd.validate_shacl().with_shacl_validation_mode(&mode).execute().is_err() {
        ctx.count("refused", 1);
        return Ok(());
    }
    use ResultShaclValidationFormat as F;
    let nt = shacl_out(&rd, F::NTriples, None).or_else(|e| viol("the report can't be written in N-Triples", e))?;
    let rep_g = parse(nt.as_bytes(), oxrdfio::RdfFormat::NTriples).or_else(|e| viol("the N-Triples report can't be read", e))?;
    let (conf, want, n) = rep::read(&rep_g).or_else(|e| viol("ill-formed report", e))?;
    use oxrdfio::RdfFormat as O;
    for (f, o) in [(F::Turtle, O::Turtle), (F::RdfXml, O::RdfXml), (F::TriG, O::TriG), (F::N3, O::N3), (F::NQuads, O::NQuads)] {
        let name = format!("{f:?}");
        let t = shacl_out(&rd, f, None).or_else(|e| viol(format!("the report can't be written in {name}"), e))?;
        // control characters can't be written in XML 1.0
        if o == O::RdfXml && nt.contains("\\u00") {
            continue;
        }
        let g2 = parse(t.as_bytes(), o).or_else(|e| viol(format!("the {name} report can't be read"), format!("{e}\n{t}")))?;
        let got = rep::read(&g2).or_else(|e| viol(format!("ill-formed {name} report"), format!("{e}\n{t}")))?;
        if got != (conf, want.clone(), n) {
            return viol(format!("the {name} report is not the N-Triples one"), format!("{:#?}\n{:#?}", want, got.1));
        }
        ctx.count(&format!("rdf_{name}"), n as u64);
    }
    let m = shacl_out(&rd, F::Minimal, None).or_else(|e| viol("the minimal report can't be written", e))?;
    // numbers of violations and warnings
    let res: Vec<T> = rep_g.objs(&rep_g.subjs(&rdf("type"), &T::iri(sh("ValidationReport")))[0], &sh("result"));
    let sevs: Vec<String> = res.iter().map(|x| rep_g.objs(x, &sh("resultSeverity"))[0].nt()).collect();
    let cnt = |s: &str| sevs.iter().filter(|x| **x == format!("<{}>", sh(s))).count();
    let (v, w) = (cnt("Violation"), cnt("Warning"));
    let ml = m.to_lowercase();
    let nums: Vec<usize> = ml.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
    let ok = if conf { ml.contains("conforms") && !ml.contains("not") } else { ml.contains("not conform") && nums.first() == Some(&v) && nums.get(1) == Some(&w) };
    if !ok {
        return viol("the minimal report doesn't tell the verdict and the numbers", format!("conforms {conf}, {v} violations, {w} warnings; {m}"));
    }
    ctx.count(if conf { "minimal_conforms" } else { "minimal_counts" }, 1);
    let dk = known(&dp);
    // focus node, component, value, severity, path and source when they are IRIs
    type Want = (String, T, T, Option<T>, Option<T>, Option<T>);
    let want: Vec<Want> = res
        .iter()
        .map(|x| {
            let one = |p: &str| rep_g.objs(x, &sh(p)).into_iter().next();
            (
                one("resultSeverity").map(|s| s.nt()).unwrap_or_default(),
                one("focusNode").unwrap_or(T::b("-")),
                one("sourceConstraintComponent").unwrap_or(T::b("-")),
                one("value"),
                one("resultPath"),
                one("sourceShape"),
            )
        })
        .collect();
    let opt = |c: &str, t: &Option<T>| match t {
        None => c.is_empty(),
        Some(T::B(_)) => !c.is_empty(),
        Some(t) => shows(c, t, &dk),
    };
    // the labels of blank nodes are those of the session, which the serialised report may rename
    let node = |c: &str, t: &T| if t.is_b() { c.starts_with("_:") } else { shows(c, t, &dk) };
    let row = |w: &Want, c: &[String]| {
        shows(&c[0], &T::iri(w.0.trim_matches(['<', '>'])), &dk)
            && node(&c[1], &w.1)
            && shows(&c[2], &w.2, &dk)
            && opt(&c[3], &w.4)
            && match &w.3 {
                Some(v) => node(&c[4], v),
                None => c[4].is_empty(),
            }
            && opt(&c[5], &w.5)
    };
    use ShaclValidationSortByMode as S;
    let modes = [(None, 0), (Some(S::Severity), 0), (Some(S::Node), 1), (Some(S::Component), 2), (Some(S::Value), 4), (Some(S::Path), 3), (Some(S::SourceShape), 5), (Some(S::Details), 6)];
    for (mode, col) in modes {
        for (f, k) in [(F::Compact, 6), (F::Details, 7)] {
            let name = format!("{f:?}");
            let t = shacl_out(&rd, f, mode).or_else(|e| viol("the SHACL table can't be written", e))?;
            if n == 0 {
                if !plain(&t).contains("No Errors found") {
                    return viol("the table of an empty report shows something", t);
                }
                continue;
            }
            let (h, rows) = table(&t).or_else(|e| viol("the SHACL table can't be read", e))?;
            if h != ["Severity", "Node", "Component", "Path", "Value", "Sourceshape", "Details"][..k] {
                return viol("the SHACL table has other headers", format!("{h:?}"));
            }
            matching(&want, &rows, row).or_else(|e| viol(format!("the {name} SHACL table is not the one of the report's results"), format!("{e}\n{t}")))?;
            if col < k
                && let Some(x) = grouped(&rows.iter().map(|r| r[col].clone()).collect::<Vec<_>>())
            {
                return viol("the SHACL table's results are not in the requested order", format!("{mode:?}: {x:?} appears in several groups\n{t}"));
            }
            ctx.count(&format!("shacl_{name}"), rows.len() as u64);
        }
    }
    if n > 3 {
        ctx.nontrivial();
    }
    Ok(())
}
fn case(ctx: &mut Ctx) -> R {
    if ctx.rng.chance(50) { shex(ctx) } else { shacl(ctx) }
}

pub static P: Prop = Prop {
    id: "C22",
    case,
    probes: &[],
    quick: 500,
    thorough: 12000,
    rule: "distinct validations whose results are written in every format and every order and read back",
    assumptions: &["white space inside table cells is layout; the order inside a group is free"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["json", "csv", "compact", "details", "shex_conformant", "shex_nonconformant", "rdf_Turtle", "rdf_RdfXml", "minimal_counts", "minimal_conforms", "shacl_Compact", "shacl_Details"],
    workers: 8,
};
