//! Data loaded, merged, replaced and serialised in a session is the data of a shadow graph
use crate::datagen::*;
use crate::fw::*;
use crate::sess;
use crate::term::*;
use oxrdfio::RdfFormat;
use rudof_lib::Rudof;
use rudof_lib::formats::*;

pub fn low(g: &G) -> G {
    G { t: g.t.iter().map(|(s, p, o)| (s.clone(), p.clone(), sess::key(o))).collect() }
}
fn xml_ok(g: &G) -> bool {
    g.t.iter().all(|(_, _, o)| match o {
        T::Lit { lex, .. } => lex.chars().all(|c| matches!(c, '\t' | '\n' | ' '..='\u{7e}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)),
        _ => true,
    })
}
pub const OUT: [(ResultDataFormat, DataFormat); 8] = [
    (ResultDataFormat::Turtle, DataFormat::Turtle),
    (ResultDataFormat::NTriples, DataFormat::NTriples),
    (ResultDataFormat::RdfXml, DataFormat::RdfXml),
    (ResultDataFormat::JsonLd, DataFormat::JsonLd),
    (ResultDataFormat::NQuads, DataFormat::NQuads),
    (ResultDataFormat::TriG, DataFormat::TriG),
    (ResultDataFormat::N3, DataFormat::N3),
    (ResultDataFormat::Json, DataFormat::JsonLd),
];
pub fn ox_format(f: DataFormat) -> RdfFormat {
    match f {
        DataFormat::Turtle => RdfFormat::Turtle,
        DataFormat::NTriples => RdfFormat::NTriples,
        DataFormat::RdfXml => RdfFormat::RdfXml,
        DataFormat::JsonLd => RdfFormat::JsonLd { profile: Default::default() },
        DataFormat::NQuads => RdfFormat::NQuads,
        DataFormat::TriG => RdfFormat::TriG,
        _ => RdfFormat::N3,
    }
}
fn serialise(s: &mut Rudof, f: ResultDataFormat) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    s.serialize_data(&mut out).with_result_data_format(&f).execute().map_err(|e| e.to_string())?;
    Ok(out)
}
fn check(s: &mut Rudof, want: &G, r: usize, ctx: &mut Ctx) -> R {
    let (rf, df) = OUT[r];
    if matches!(df, DataFormat::RdfXml) && !xml_ok(want) {
        return Ok(());
    }
    let out = match serialise(s, rf) {
        Ok(o) => o,
        Err(e) => return viol(format!("serialising as {df} fails"), e),
    };
    let text = String::from_utf8_lossy(&out).into_owned();
    let got = match parse(&out, ox_format(df)) {
        Ok(g) => g,
        Err(e) => return viol(format!("the {df} serialisation can't be parsed"), format!("{e}\n{text}")),
    };
    same(&format!("{df} serialisation"), want, &got, &text)?;
    // and the session itself can read it back
    let mut t = sess::new();
    if let Err(e) = sess::load(&mut t, &text, df, true) {
        return viol(format!("the {df} serialisation can't be loaded back"), format!("{e}\n{text}"));
    }
    let nt = serialise(&mut t, ResultDataFormat::NTriples).map_err(|e| Bad::Inconclusive(e))?;
    let back = parse(&nt, RdfFormat::NTriples).map_err(Bad::Inconclusive)?;
    same(&format!("{df} serialisation loaded back"), want, &back, &text)?;
    ctx.count(&format!("{df} serialisations compared"), 1);
    ctx.count("triples compared", want.len() as u64);
    Ok(())
}
fn same(what: &str, want: &G, got: &G, text: &str) -> R {
    let (w, g) = (low(want), low(got));
    match isomorphic(&w, &g) {
        Some(true) => Ok(()),
        None => inconclusive("isomorphism budget"),
        Some(false) => {
            let miss: Vec<String> = w.t.difference(&g.t).map(tr_nt).collect();
            let extra: Vec<String> = g.t.difference(&w.t).map(tr_nt).collect();
            viol(format!("{what} is another graph"), format!("expected but missing:\n{}unexpected:\n{}text:\n{text}", miss.concat(), extra.concat()))
        },
    }
}
fn case(ctx: &mut Ctx) -> R {
    let dir = tempfile::tempdir().map_err(|e| Bad::Inconclusive(e.to_string()))?;
    let mut s = sess::new();
    // None: no promise (after a failed load)
    let mut model: Option<Option<G>> = Some(None);
    let mut log = String::new();
    for step in 0..2 + ctx.rng.below(6) {
        let r = &mut ctx.rng;
        match r.below(12) {
            0 => {
                s.reset_data().execute();
                model = Some(None);
                log.push_str("reset\n");
                ctx.count("resets", 1);
            },
            1 => {
                // a broken document in strict mode
                let f = *r.pick(&FORMATS);
                let g = graph(r, 4, &format!("x{step}"), true);
                let Ok(d) = doc(&g, f, false, r) else { continue };
                let d = broken(&d, f, r);
                log.push_str(&format!("broken {f}:\n{d}\n"));
                ctx.input(log.clone());
                if sess::load(&mut s, &d, f, true).is_ok() {
                    return viol(format!("broken {f} document accepted in strict mode"), d);
                }
                ctx.count("broken documents refused", 1);
                model = None;
            },
            2 => {
                // lax mode: the statements of line-based formats around the broken one are kept
                let f = *r.pick(&[DataFormat::NTriples, DataFormat::NQuads]);
                let g = graph(r, 5, &format!("x{step}"), true);
                let Ok(d) = doc(&g, f, false, r) else { continue };
                let bad = *r.pick(&["<http://e.x/a> <http://e.x/p> .\n", "\"x\" <http://e.x/p> <http://e.x/a> .\n", "<http://e.x/a> _:p <http://e.x/a> .\n"]);
                let mut l: Vec<String> = d.lines().map(|x| format!("{x}\n")).collect();
                let at = r.below(l.len() + 1);
                l.insert(at, bad.to_string());
                let d = l.concat();
                log.push_str(&format!("lax {f}:\n{d}\n"));
                ctx.input(log.clone());
                let v = [InputSpec::Str(d.clone())];
                let res = s.load_data().with_data(&v).with_data_format(&f).with_reader_mode(&DataReaderMode::Lax).execute();
                if let Err(e) = res {
                    return viol(format!("{f} document with an error is refused in lax mode"), format!("{e}\n{d}"));
                }
                ctx.count("documents read in lax mode", 1);
                if let Some(m) = &mut model {
                    *m = Some(m.take().unwrap_or_default().union(&g));
                }
            },
            _ => {
                let merge = *r.pick(&[None, Some(true), Some(true), Some(false)]);
                let f = *r.pick(&FORMATS);
                let rel = r.chance(40);
                let n = *r.pick(&[1, 1, 1, 2, 3]);
                let mut specs = Vec::new();
                let mut all = G::new();
                let mut docs = String::new();
                for k in 0..n {
                    let g = graph(r, 8, &format!("x{step}y{k}"), f == DataFormat::RdfXml);
                    let Ok(d) = doc(&g, f, rel, r) else { continue };
                    docs.push_str(&format!("load {f} merge {merge:?} base {rel}:\n{d}\n"));
                    all = all.union(&g);
                    specs.push(if r.chance(30) {
                        let p = dir.path().join(format!("d{step}_{k}"));
                        std::fs::write(&p, &d).map_err(|e| Bad::Inconclusive(e.to_string()))?;
                        InputSpec::Path(p)
                    } else {
                        InputSpec::Str(d)
                    });
                }
                if specs.is_empty() {
                    continue;
                }
                log.push_str(&docs);
                ctx.input(log.clone());
                let mut b = s.load_data().with_data(&specs).with_data_format(&f);
                if let Some(m) = merge {
                    b = b.with_merge(m);
                }
                if rel {
                    b = b.with_base(BASE);
                }
                if let Err(e) = b.execute() {
                    return viol(format!("well formed {f} document refused"), e.to_string());
                }
                ctx.count(&format!("{f} documents loaded"), specs.len() as u64);
                match merge {
                    Some(false) => {
                        ctx.count("replacements", 1);
                        model = Some(Some(all))
                    },
                    _ => {
                        if let Some(m) = &mut model {
                            if m.is_some() {
                                ctx.count("merges", 1);
                                ctx.nontrivial();
                            }
                            *m = Some(m.take().unwrap_or_default().union(&all));
                        }
                    },
                }
            },
        }
        ctx.input(log.clone());
        if ctx.rng.chance(50) || step > 4 {
            match &model {
                None => {},
                Some(None) => {
                    if serialise(&mut s, ResultDataFormat::NTriples).is_ok_and(|x| !x.is_empty()) {
                        return viol("data after a reset", "data is serialised after a reset");
                    }
                },
                Some(Some(g)) => {
                    let k = ctx.rng.below(OUT.len());
                    check(&mut s, &g.clone(), k, ctx)?;
                },
            }
        }
    }
    if let Some(Some(g)) = model {
        let k = ctx.rng.below(OUT.len());
        check(&mut s, &g, k, ctx)?;
    }
    Ok(())
}
pub static P: Prop = Prop {
    id: "C10",
    case,
    probes: &[],
    quick: 3000,
    thorough: 100_000,
    rule: "a case is non-trivial when a document is merged into existing data",
    assumptions: &[
        "blank node labels of different documents are different",
        "nothing is claimed about the data after a failed load until they are replaced or reset",
        "the named graphs of datasets are merged",
    ],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["merges", "replacements", "resets", "broken documents refused", "documents read in lax mode", "turtle serialisations compared", "rdfxml serialisations compared", "jsonld serialisations compared"],
    workers: 8,
};
