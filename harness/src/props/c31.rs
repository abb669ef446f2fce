//! Data behind a SPARQL endpoint: same answers as in memory, and never a verdict out of a failed request
use crate::fw::*;
use crate::mockep::{self, Endpoint, Fault};
use crate::shaclm::SG;
use crate::term::*;
use crate::{rep, sess, shaclgen, shexgen};
use rudof_lib::Rudof;
use rudof_lib::formats::*;
use std::collections::HashMap;
use std::time::Instant;

type Out = Result<String, String>;
#[derive(Clone)]
enum Op {
    ShEx { schema: String, map: String },
    Shacl { shapes: String, mode: ShaclValidationMode },
    Select(String),
    Ask(String),
    Construct(String),
    Node(String, NodeInspectionMode, usize),
}
impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::ShEx { map, .. } if map.contains('{') => "ShEx with selectors",
            Op::ShEx { .. } => "ShEx",
            Op::Shacl { mode: ShaclValidationMode::Native, .. } => "SHACL native",
            Op::Shacl { .. } => "SHACL sparql",
            Op::Select(_) => "SELECT",
            Op::Ask(_) => "ASK",
            Op::Construct(_) => "CONSTRUCT",
            Op::Node(..) => "node",
        }
    }
    fn show(&self) -> String {
        match self {
            Op::ShEx { schema, map } => format!("{schema}\n# map\n{map}"),
            Op::Shacl { shapes, .. } => shapes.clone(),
            Op::Select(q) | Op::Ask(q) | Op::Construct(q) => q.clone(),
            Op::Node(n, m, d) => format!("{n} {m:?} {d}"),
        }
    }
    fn run(&self, s: &mut Rudof) -> Out {
        match self {
            Op::ShEx { schema, map } => {
                sess::load_shex(s, schema, ShExFormat::ShExC)?;
                sess::load_map(s, map)?;
                s.validate_shex().execute().map_err(sess::e)?;
                let mut v: Vec<String> = sess::verdicts(s).iter().map(|((n, l), c)| format!("{} {l} {c}", n.nt())).collect();
                v.sort();
                Ok(v.join("\n"))
            },
            Op::Shacl { shapes, mode } => {
                s.load_shacl_shapes().with_shacl_schema(&InputSpec::Str(shapes.clone())).with_shacl_schema_format(&ShaclFormat::Turtle).execute().map_err(sess::e)?;
                s.validate_shacl().with_shacl_validation_mode(mode).execute().map_err(sess::e)?;
                let mut o = Vec::new();
                s.serialize_shacl_validation_results(&mut o).with_result_shacl_validation_format(&ResultShaclValidationFormat::NTriples).execute().map_err(sess::e)?;
                let (c, rs, n) = rep::read(&parse(&o, oxrdfio::RdfFormat::NTriples)?)?;
                let mut v: Vec<String> = rs.iter().map(|r| r.show()).collect();
                v.sort();
                Ok(format!("{c} {n}\n{}", v.join("\n")))
            },
            Op::Select(q) => {
                let t = query(s, q, ResultQueryFormat::Csv)?;
                let mut l: Vec<&str> = t.lines().collect();
                // an answer without rows is one whatever its header
                if l.len() == 1 {
                    l.clear();
                }
                l.sort();
                Ok(l.join("\n"))
            },
            Op::Ask(q) => {
                let t = query(s, q, ResultQueryFormat::Json)?;
                Ok(t.trim().to_string())
            },
            Op::Construct(q) => {
                let t = query(s, q, ResultQueryFormat::Turtle)?;
                let g = parse(t.as_bytes(), oxrdfio::RdfFormat::Turtle)?;
                let mut v: Vec<String> = g.t.iter().map(tr_nt).collect();
                v.sort();
                Ok(v.join("\n"))
            },
            Op::Node(n, m, d) => {
                let mut o = Vec::new();
                s.show_node_info(n, &mut o).with_show_node_mode(m).with_depth(*d).with_show_colors(false).with_show_hyperlinks(false).execute().map_err(sess::e)?;
                let t = String::from_utf8_lossy(&o).into_owned();
                let mut v: Vec<&str> = t.lines().map(|l| l.trim_start_matches([' ', '│', '├', '└', '─', '▶', '◀'])).collect();
                v.sort();
                Ok(v.join("\n"))
            },
        }
    }
}
fn query(s: &mut Rudof, q: &str, f: ResultQueryFormat) -> Out {
    s.load_sparql_query(&InputSpec::Str(q.to_string())).execute().map_err(sess::e)?;
    s.run_query().with_result_query_format(&f).execute().map_err(sess::e)?;
    let mut o = Vec::new();
    s.serialize_query_results(&mut o).with_result_query_format(&f).execute().map_err(sess::e)?;
    Ok(String::from_utf8_lossy(&o).into_owned())
}
fn named(g: &G) -> G {
    let f = |t: &T| match t {
        T::B(b) => T::ex(&format!("bn{b}")),
        t => t.clone(),
    };
    let mut n = G::new();
    for t in &g.t {
        n.add(f(&t.0), &t.1, f(&t.2));
    }
    mockep::faithful(&n)
}
fn select(r: &mut Rng, g: &G) -> Op {
    let p = |r: &mut Rng| format!("<{}>", ex(r.pick(&["p", "q", "r"])));
    let (a, b) = (p(r), p(r));
    let subjects: Vec<String> = g.t.iter().map(|t| t.0.nt()).collect();
    let n = if subjects.is_empty() { "<http://e.x/n0>".to_string() } else { r.pick(&subjects).clone() };
    match r.below(13) {
        0 => Op::Select("SELECT ?s ?p ?o WHERE { ?s ?p ?o }".into()),
        1 => Op::Select(format!("SELECT ?s ?o WHERE {{ ?s {a} ?m . ?m {b} ?o }}")),
        2 => Op::Select(format!("SELECT ?s ?o WHERE {{ ?s {a} ?m OPTIONAL {{ ?s {b} ?o }} }}")),
        3 => Op::Select(format!("SELECT (COUNT(*) AS ?n) WHERE {{ ?s {a} ?o }}")),
        4 => Op::Select(format!("SELECT ?s (COUNT(?o) AS ?n) WHERE {{ ?s {a} ?o }} GROUP BY ?s")),
        5 => Op::Select(format!("SELECT DISTINCT ?s WHERE {{ ?s ?p ?o FILTER NOT EXISTS {{ ?s {b} ?x }} }}")),
        6 => Op::Select(format!("SELECT ?x ?o WHERE {{ VALUES ?x {{ 1 2 }} OPTIONAL {{ {n} {a} ?o }} }}")),
        7 => Op::Ask(format!("ASK {{ {n} {a} ?o }}")),
        8 => Op::Ask(format!("ASK {{ FILTER NOT EXISTS {{ ?s {a} ?o }} }}")),
        9 => Op::Ask(format!("ASK {{ ?s {a} ?m . ?m {b} ?o }}")),
        10 => Op::Construct(format!("CONSTRUCT {{ ?o {b} ?s }} WHERE {{ ?s {a} ?o FILTER(isIRI(?o)) }}")),
        11 => Op::Construct(format!("CONSTRUCT WHERE {{ {n} ?p ?o }}")),
        _ => Op::Construct(format!("DESCRIBE {n}")),
    }
}
/// Predicates without an answer, literals and everything else that goes into the text of a query
fn shex(r: &mut Rng) -> (G, Op) {
    let o = shexgen::Opts { negation: r.chance(40), recursion: r.chance(40), inverse: r.chance(60), groups: r.chance(40), extra_refs: false, nshapes: 1 + r.below(3) };
    let s = shexgen::schema(r, &o);
    let n = 1 + r.below(3);
    let g = named(&shexgen::graph(r, n, 4));
    let schema = s.shexc(r).replace("CLOSED", "");
    let label = |r: &mut Rng| shexgen::label(r.below(o.nshapes));
    let map = if r.chance(35) {
        let p = format!("<{}>", r.pick(&shexgen::preds(3)));
        let obs: Vec<String> = g.t.iter().map(|t| t.2.nt()).collect();
        let v = if obs.is_empty() || r.chance(30) { "_".to_string() } else { r.pick(&obs).clone() };
        let sel = if r.chance(70) { format!("{{FOCUS {p} {v}}}") } else { format!("{{_ {p} FOCUS}}") };
        format!("{sel}@<{}>", label(r))
    } else {
        let ns: Vec<(T, String)> = (0..1 + r.below(3)).map(|i| (shexgen::node(i), label(r))).collect();
        sess::smap(&ns)
    };
    (g, Op::ShEx { schema, map })
}
fn shacl(r: &mut Rng) -> (G, Op) {
    let o = shaclgen::Opts { path_depth: r.below(2), bnode_shapes: r.chance(30), literal_targets: false };
    let sg: SG = shaclgen::shapes(r, &o);
    let mut g = shaclgen::data(r);
    shaclgen::link_implicit(&mut g, &sg, r);
    let mut small = G::new();
    for t in &g.t {
        if r.chance(60) {
            small.add(t.0.clone(), &t.1, t.2.clone());
        }
    }
    let mode = if r.chance(75) { ShaclValidationMode::Native } else { ShaclValidationMode::Sparql };
    (named(&small), Op::Shacl { shapes: sg.ttl(r), mode })
}
fn fault(r: &mut Rng) -> Fault {
    match r.below(13) {
        0 | 1 => Fault::Busy(1 + r.below(2) as u32, *r.pick(&[Some(0), Some(1), None])),
        2 => Fault::Busy(3, Some(0)),
        3 => Fault::Slow(300 + r.below(1500) as u64),
        4 => Fault::Busy(9, Some(0)),
        5 => Fault::Status(*r.pick(&[500, 502, 503, 504, 404, 403])),
        6 => Fault::Cut,
        7 => Fault::HalfDoc,
        8 => Fault::Drop,
        9 => Fault::Html,
        10 => Fault::Empty,
        11 => Fault::WrongKind,
        _ => Fault::Status(500),
    }
}
fn case(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let (g, first) = match r.below(10) {
        0..=3 => shex(r),
        4..=6 => shacl(r),
        _ => {
            let g = named(&shexgen::graph(r, 3, 4));
            let op = select(r, &g);
            (g, op)
        },
    };
    // what is asked in one session: the requests share a cache
    let mut ops = vec![first];
    if r.chance(40) {
        let op = match r.below(3) {
            0 => select(r, &g),
            1 => {
                let subjects: Vec<String> = g.t.iter().map(|t| t.0.nt()).collect();
                let n = if subjects.is_empty() { "<http://e.x/n0>".into() } else { r.pick(&subjects).clone() };
                let m = match r.below(3) {
                    0 => NodeInspectionMode::Outgoing,
                    1 => NodeInspectionMode::Incoming,
                    _ => NodeInspectionMode::Both,
                };
                Op::Node(n, m, 1)
            },
            _ => ops[0].clone(),
        };
        ops.push(op);
        if r.chance(30) {
            ops.reverse();
        }
    }
    // part of the data can be local, where the question is not a query of its own
    let federated = r.chance(25) && ops.iter().all(|o| matches!(o, Op::ShEx { .. } | Op::Shacl { mode: ShaclValidationMode::Native, .. }));
    let (mut local, mut remote) = (G::new(), G::new());
    for t in &g.t {
        let d = if federated && r.chance(40) { &mut local } else { &mut remote };
        d.add(t.0.clone(), &t.1, t.2.clone());
    }
    let mut plan = HashMap::new();
    let shex = matches!(ops[0], Op::ShEx { .. });
    if r.chance(if shex { 70 } else { 55 }) {
        let at = *r.pick(&[0, 0, 1, 1, 2, 3, 4, 5]);
        plan.insert(at, fault(r));
        if r.chance(20) {
            plan.insert(at + 1, fault(r));
        }
    }
    let text = ops.iter().map(|o| format!("# {}\n{}", o.name(), o.show())).collect::<Vec<_>>().join("\n");
    let mut faults: Vec<_> = plan.iter().collect();
    faults.sort_by_key(|f| *f.0);
    ctx.input(format!("{text}\n# behind the endpoint\n{}# local\n{}# faults {faults:?}", remote.nt(), local.nt()));

    let mut mem = sess::new();
    sess::load(&mut mem, &g.nt(), DataFormat::NTriples, true).or_else(|e| inconclusive(format!("data: {e}")))?;
    let mut want = Vec::new();
    for o in &ops {
        want.push(o.run(&mut mem).or_else(|e| inconclusive(format!("in memory: {e}")))?);
    }
    let ep = Endpoint::start(&remote);
    let mut s = sess::new();
    s.load_data().with_endpoint(&ep.url).execute().or_else(|e| viol("the endpoint is refused", e.to_string()))?;
    if !local.t.is_empty() {
        sess::load(&mut s, &local.nt(), DataFormat::NTriples, true).or_else(|e| viol("local data is refused", e))?;
    }
    ep.plan(plan);
    let begin = Instant::now();
    let (mut hard, mut soft, mut requests) = (0usize, 0usize, 0usize);
    for (i, o) in ops.iter().enumerate() {
        let before = ep.state.lock().unwrap().log.len();
        let got = o.run(&mut s);
        let (h, f, n) = {
            let t = ep.state.lock().unwrap();
            if let Some(b) = t.bad.first() {
                return viol(format!("{}: ill-formed query sent to the endpoint", o.name()), b.clone());
            }
            let l = &t.log[before..];
            // retries of one refused query (validations ask the same query for several shapes)
            let single = matches!(o, Op::Select(_) | Op::Ask(_) | Op::Construct(_) | Op::Node(..));
            let mut tries = 0u32;
            for w in l.windows(2).filter(|_| single) {
                let again = matches!(w[0].fault, Some(Fault::Busy(..))) && w[0].query == w[1].query;
                tries = if again { tries + 1 } else { 0 };
                if tries > 6 {
                    return viol("a refused request is repeated without end", w[0].query.clone());
                }
                if let (true, Some(Fault::Busy(_, Some(a)))) = (again, &w[0].fault) {
                    let gap = w[1].at.duration_since(w[0].at).as_millis();
                    if gap + 300 < *a as u128 * 1000 {
                        return viol("Retry-After is not respected", format!("{gap} ms"));
                    }
                    ctx.count("waits after a refusal", 1);
                }
            }
            (l.iter().any(|q| q.fault.as_ref().is_some_and(|f| !f.soft())), l.iter().filter(|q| q.fault.as_ref().is_some_and(|f| f.soft())).count(), l.len())
        };
        requests += n;
        hard += h as usize;
        soft += f;
        match got {
            Ok(x) if x == want[i] => {
                ctx.count(&format!("answers as in memory: {}", o.name()), 1);
                if h {
                    ctx.count("answers in spite of a failed request", 1);
                }
            },
            Ok(x) if h => return viol(format!("{}: a failed request becomes an answer", o.name()), format!("--- in memory\n{}\n--- answered\n{x}", want[i])),
            Ok(x) => return viol(format!("{}: other answer than in memory", o.name()), format!("--- in memory\n{}\n--- endpoint\n{x}", want[i])),
            Err(_) if h => {
                ctx.count("failed requests reported", 1);
                // the failure leaves no trace
                ep.state.lock().unwrap().plan.clear();
                match o.run(&mut s) {
                    Ok(x) if x == want[i] => ctx.count("right answer after a failure", 1),
                    Ok(x) => return viol(format!("{}: other answer after a failure", o.name()), format!("--- in memory\n{}\n--- endpoint\n{x}", want[i])),
                    Err(e) => return viol(format!("{}: fails when the endpoint works again", o.name()), e),
                }
            },
            Err(e) => return viol(format!("{}: fails on a working endpoint", o.name()), e),
        }
    }
    let took = begin.elapsed();
    let t = ep.state.lock().unwrap();
    let fresh = t.served;
    // a dropped connection may be tried again at once by the HTTP library
    let dropped = t.log.iter().any(|q| q.fault == Some(Fault::Drop));
    if fresh > 1 && !dropped && took.as_millis() < (fresh as u128 - 1) * 1000 {
        return viol("requests to an endpoint in a burst", format!("{fresh} requests in {} ms", took.as_millis()));
    }
    ctx.count("requests seen by the endpoint", requests as u64);
    ctx.count("refusals and delays gone through", soft as u64);
    if federated && !local.t.is_empty() && !remote.t.is_empty() {
        ctx.count("local and remote data together", 1);
    }
    for q in &t.log {
        if let Some(f) = &q.fault {
            let n = format!("{f:?}");
            ctx.count(&format!("fault {}", n.split('(').next().unwrap()), 1);
        }
    }
    if requests > 0 {
        ctx.nontrivial();
    }
    let _ = hard;
    Ok(())
}
pub static P: Prop = Prop {
    id: "C31",
    case,
    probes: &[],
    quick: 1200,
    thorough: 8000,
    rule: "a case is non-trivial when the endpoint received at least one request",
    assumptions: &["endpoint data without blank nodes, with canonical literals", "no CLOSED shapes", "the answer on the same triples in memory is the reference (C02, C06 and C12 decide that one)"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["requests seen by the endpoint", "failed requests reported", "right answer after a failure", "refusals and delays gone through", "local and remote data together", "answers as in memory: ShEx", "answers as in memory: SHACL native", "answers as in memory: SELECT", "answers as in memory: ASK", "answers as in memory: CONSTRUCT", "answers as in memory: node"],
    workers: 144,
};
