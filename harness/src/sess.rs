//! Thin wrappers over the public session API of the library under test.
use crate::term::*;
use rudof_lib::formats::*;
use rudof_lib::{Rudof, RudofConfig};
use std::collections::BTreeMap;

pub fn new() -> Rudof {
    Rudof::new(RudofConfig::default())
}
pub fn e<E: std::fmt::Display>(x: E) -> String {
    x.to_string()
}
pub fn load(r: &mut Rudof, doc: &str, f: DataFormat, merge: bool) -> Result<(), String> {
    let v = [InputSpec::Str(doc.to_string())];
    r.load_data().with_data(&v).with_data_format(&f).with_merge(merge).execute().map_err(e)
}
pub fn load_shex(r: &mut Rudof, doc: &str, f: ShExFormat) -> Result<(), String> {
    r.load_shex_schema(&InputSpec::Str(doc.to_string())).with_shex_schema_format(&f).execute().map_err(e)
}
pub fn load_map(r: &mut Rudof, m: &str) -> Result<(), String> {
    r.load_shapemap(&InputSpec::Str(m.to_string())).execute().map_err(e)
}
pub type Verdicts = BTreeMap<(T, String), String>;
/// `conformant` / `nonconformant` / `pending` / ... per association
pub fn verdicts(r: &Rudof) -> Verdicts {
    let mut m = BTreeMap::new();
    if let Some(rs) = r.shex_validation_results() {
        for (n, s, st) in rs.iter() {
            m.insert((key(&obj(n.as_object())), label(s)), st.code());
        }
    }
    m
}
pub fn label(s: &shex_ast::ir::shape_label::ShapeLabel) -> String {
    use shex_ast::ir::shape_label::ShapeLabel as L;
    match s {
        L::Iri(i) => i.as_str().to_string(),
        L::BNode(b) => format!("{b}"),
        L::Start => "START".into(),
    }
}
/// Language tags are case insensitive
pub fn key(t: &T) -> T {
    match t {
        T::Lit { lex, dt, lang: Some(l) } => T::Lit { lex: lex.clone(), dt: dt.clone(), lang: Some(l.to_lowercase()) },
        t => t.clone(),
    }
}
pub fn obj(o: &rudof_rdf::rdf_core::term::Object) -> T {
    use rudof_rdf::rdf_core::term::Object as O;
    match o {
        O::Iri(i) => T::Iri(i.as_str().into()),
        O::BlankNode(b) => T::B(b.to_string()),
        O::Literal(l) => T::Lit {
            lex: l.lexical_form(),
            dt: l.datatype().get_iri().map(|i| i.as_str().to_string()).unwrap_or_default(),
            lang: l.lang().map(|x| x.to_string()),
        },
        _ => T::B("triple-term".into()),
    }
}
pub fn validate_shex(r: &mut Rudof) -> Result<Verdicts, String> {
    r.validate_shex().execute().map_err(e)?;
    Ok(verdicts(r))
}
/// One-shot validation in a fresh session
pub fn shex_once(data: &str, df: DataFormat, schema: &str, sf: ShExFormat, map: &str) -> Result<Verdicts, String> {
    let mut r = new();
    load(&mut r, data, df, true).map_err(|x| format!("data: {x}"))?;
    load_shex(&mut r, schema, sf).map_err(|x| format!("schema: {x}"))?;
    load_map(&mut r, map).map_err(|x| format!("shapemap: {x}"))?;
    validate_shex(&mut r).map_err(|x| format!("validation: {x}"))
}
pub fn smap(pairs: &[(T, String)]) -> String {
    pairs
        .iter()
        .map(|(n, l)| if l == "START" { format!("{} @START", n.nt()) } else { format!("{}@<{l}>", n.nt()) })
        .collect::<Vec<_>>()
        .join(",\n")
}
