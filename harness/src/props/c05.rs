//! ShEx schemas survive serialisation as ShExC, ShExJ and precompiled caches
use crate::fw::*;
use crate::props::c02;
use crate::sess::{self, Verdicts};
use crate::shexgen::{self, Opts};
use crate::shexm::*;
use crate::term::*;
use rudof_lib::Rudof;
use rudof_lib::formats::*;

pub fn ser(r: &Rudof, f: ShExFormat) -> Result<String, String> {
    let mut v = Vec::new();
    r.serialize_shex_schema(&mut v).with_result_shex_format(&f).execute().map_err(sess::e)?;
    String::from_utf8(v).map_err(sess::e)
}
pub fn cache(r: &Rudof) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    r.compile_shex_schema_to_file(&mut v).execute().map_err(sess::e)?;
    Ok(v)
}
fn scratch(ctx: &Ctx) -> std::path::PathBuf {
    std::env::temp_dir().join(format!("vh-c05-{}-{}.bin", std::process::id(), ctx.idx))
}
pub fn load_cache(r: &mut Rudof, bytes: &[u8], p: &std::path::Path) -> Result<(), String> {
    std::fs::write(p, bytes).map_err(sess::e)?;
    let res = r.load_shex_schema_precompiled(&InputSpec::Path(p.to_path_buf())).execute().map_err(sess::e);
    let _ = std::fs::remove_file(p);
    res
}
fn ok<X>(x: Result<X, String>, what: &str, extra: &str) -> R<X> {
    x.or_else(|e| viol(format!("refused: {what}"), format!("{e}\n{extra}")))
}
fn verdicts(r: &mut Rudof, data: &str, map: &str, what: &str, extra: &str) -> R<Verdicts> {
    ok(sess::load(r, data, DataFormat::Turtle, false), "data", "")?;
    ok(sess::load_map(r, map), what, extra)?;
    ok(sess::validate_shex(r), what, extra)
}
fn diff(a: &Verdicts, b: &Verdicts, what: &str, text: &str) -> R {
    for (k, v) in a {
        if b.get(k) != Some(v) {
            return viol(format!("verdict changes: {what}"), format!("{} @ {}: {v} became {:?}\n{text}", k.0.nt(), k.1, b.get(k)));
        }
    }
    if a.len() != b.len() {
        return viol(format!("associations change: {what}"), text.to_string());
    }
    Ok(())
}
fn rich(e: &mut SE, r: &mut Rng, terms: &[T]) {
    match e {
        SE::And(v) | SE::Or(v) => v.iter_mut().for_each(|x| rich(x, r, terms)),
        SE::Not(x) => rich(x, r, terms),
        SE::NC(c) => {
            if r.chance(60) {
                *c = c02::nc(r, terms);
            }
        },
        SE::Shape(s) => {
            if let Some(t) = &mut s.te {
                rich_te(t, r, terms)
            }
        },
        _ => {},
    }
}
fn rich_te(t: &mut TE, r: &mut Rng, terms: &[T]) {
    match t {
        TE::TC(c) => {
            if let Some(e) = &mut c.ve {
                rich(e, r, terms)
            }
        },
        TE::Each(v, ..) | TE::One(v, ..) => v.iter_mut().for_each(|x| rich_te(x, r, terms)),
    }
}

fn case(ctx: &mut Ctx) -> R {
    let path = scratch(ctx);
    let r = &mut ctx.rng;
    let o = Opts {
        negation: r.chance(50),
        recursion: r.chance(70),
        inverse: r.chance(40),
        groups: r.chance(60),
        extra_refs: r.chance(40),
        nshapes: 1 + r.below(4),
    };
    let mut s = shexgen::schema(r, &o);
    let terms: Vec<T> = (0..8).map(|_| c02::term(r)).collect();
    s.shapes.iter_mut().for_each(|x| rich(&mut x.1, r, &terms));
    for i in 0..r.below(3) {
        let c = c02::nc(r, &terms);
        s.shapes.push((ex(&format!("N{i}")), SE::NC(c)));
    }
    if r.chance(30) {
        s.start = Some(shexgen::shape_expr(r, &o, 1));
    }
    let nn = 2 + r.below(3);
    let mut g = shexgen::graph(r, nn, 3);
    for i in 0..nn {
        for _ in 0..r.below(3) {
            g.add(shexgen::node(i), r.pick(&shexgen::preds(3)), r.pick(&terms).clone());
        }
    }
    let mut pairs: Vec<(T, String)> = Vec::new();
    let mut focus: Vec<T> = (0..nn).map(shexgen::node).collect();
    focus.extend(terms.iter().filter(|t| !t.is_b()).cloned());
    for n in &focus {
        for (l, _) in &s.shapes {
            pairs.push((n.clone(), l.clone()));
        }
        if s.start.is_some() {
            pairs.push((n.clone(), "START".into()));
        }
    }
    let json = r.chance(50);
    let doc = if json { s.shexj() } else { s.shexc(r) };
    let f = if json { ShExFormat::ShExJ } else { ShExFormat::ShExC };
    let data = g.nt();
    let map = sess::smap(&pairs);
    ctx.input(format!("# data\n{data}\n# schema\n{doc}\n# shapemap\n{map}"));
    let r = &mut ctx.rng;
    let mut counts: Vec<(&str, u64)> = vec![(if json { "from_shexj" } else { "from_shexc" }, 1)];

    let mut a = sess::new();
    ok(sess::load_shex(&mut a, &doc, f), "the schema", "")?;
    let base = verdicts(&mut a, &data, &map, "first validation", "")?;

    for (f2, what) in [(ShExFormat::ShExJ, "through ShExJ"), (ShExFormat::ShExC, "through ShExC")] {
        let text = ok(ser(&a, f2), &format!("serialisation {what}"), "")?;
        let mut b = sess::new();
        ok(sess::load_shex(&mut b, &text, f2), &format!("reload {what}"), &text)?;
        let v = verdicts(&mut b, &data, &map, &format!("validation {what}"), &text)?;
        diff(&base, &v, what, &text)?;
        let again = ok(ser(&b, f2), &format!("second serialisation {what}"), &text)?;
        // the order of the keys of a JSON object is not significant
        // a ShExC document without BASE gets the base of where it is read from
        // the parser reads an empty open shape as the absent value expression, which matches the same nodes
        let nobase = |t: &str| t.lines().filter(|l| !l.starts_with("base <file:")).flat_map(|l| l.split_whitespace()).collect::<Vec<_>>().join(" ").replace(" { }", " .");
        let same = nobase(&again) == nobase(&text)
            || f2 == ShExFormat::ShExJ
                && serde_json::from_str::<serde_json::Value>(&again).ok() == serde_json::from_str::<serde_json::Value>(&text).ok();
        if !same {
            return viol(format!("second serialisation differs {what}"), format!("{text}\n-----\n{again}"));
        }
        // and across: the reloaded schema written in the other form
        let f3 = if f2 == ShExFormat::ShExJ { ShExFormat::ShExC } else { ShExFormat::ShExJ };
        let cross = ok(ser(&b, f3), &format!("cross serialisation {what}"), &text)?;
        let mut c = sess::new();
        ok(sess::load_shex(&mut c, &cross, f3), &format!("cross reload {what}"), &cross)?;
        let v = verdicts(&mut c, &data, &map, &format!("cross validation {what}"), &cross)?;
        diff(&base, &v, &format!("across, first {what}"), &cross)?;
        counts.push((if f2 == ShExFormat::ShExJ { "shexj_roundtrips" } else { "shexc_roundtrips" }, 1));
    }
    // precompiled
    let bytes = ok(cache(&a), "compilation", "")?;
    let mut b = sess::new();
    ok(load_cache(&mut b, &bytes, &path), "reload of the cache", "")?;
    let v = verdicts(&mut b, &data, &map, "validation with the cache", "")?;
    diff(&base, &v, "through the cache", "")?;
    let again = ok(cache(&b), "second compilation", "")?;
    let mut c = sess::new();
    ok(load_cache(&mut c, &again, &path), "reload of the second cache", "")?;
    let v = verdicts(&mut c, &data, &map, "validation with the second cache", "")?;
    diff(&base, &v, "through the second cache", "")?;
    counts.push(("cache_roundtrips", 1));
    // truncation, wrong identification, arbitrary corruption
    for k in 0..4 {
        let n = match k {
            0 => r.below(40.min(bytes.len())),
            1 => bytes.len() - 1,
            _ => r.below(bytes.len()),
        };
        let mut t = sess::new();
        if load_cache(&mut t, &bytes[..n], &path).is_ok() {
            return viol("a truncated cache is accepted", format!("{n} of {} bytes", bytes.len()));
        }
        counts.push(("truncations", 1));
    }
    let mut bad = bytes.clone();
    let at = r.below(8);
    bad[at] ^= 1 << r.below(8);
    if load_cache(&mut sess::new(), &bad, &path).is_ok() {
        return viol("a cache with a wrong mark or version is accepted", format!("byte {at}"));
    }
    for _ in 0..3 {
        let mut bad = bytes.clone();
        let at = r.below(bad.len());
        bad[at] ^= 1 << r.below(8);
        if let Err(p) = guarded(|| load_cache(&mut sess::new(), &bad, &path)) {
            return viol("loading a corrupted cache panics", format!("byte {at}: {p:?}"));
        }
        counts.push(("corruptions", 1));
    }
    for (k, n) in counts {
        ctx.count(k, n);
    }
    for v in base.values() {
        ctx.count(if v == "conformant" { "conformant" } else { "nonconformant" }, 1);
    }
    ctx.nontrivial();
    Ok(())
}

pub static P: Prop = Prop {
    id: "C05",
    case,
    probes: &[],
    quick: 1500,
    thorough: 40000,
    rule: "distinct (schema, data) inputs whose verdict map was compared after each serialisation route",
    assumptions: &["corruption of a cache body is only required not to crash the loader: the format carries no checksum"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["shexj_roundtrips", "shexc_roundtrips", "cache_roundtrips", "truncations", "corruptions", "conformant", "nonconformant"],
    workers: 8,
};
