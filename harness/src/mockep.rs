//! A SPARQL endpoint on the loopback interface, with a log of the requests and a plan of faults
use crate::term::*;
use oxigraph::io::{RdfFormat, RdfSerializer};
use oxigraph::sparql::results::{QueryResultsFormat, QueryResultsSerializer};
use oxigraph::sparql::{QueryResults, SparqlEvaluator};
use oxigraph::store::Store;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// that many refusals with 429 and this Retry-After
    Busy(u32, Option<u32>),
    Status(u16),
    /// The connection ends in the middle of the body
    Cut,
    /// A complete response whose document is not
    HalfDoc,
    Drop,
    Html,
    Empty,
    WrongKind,
    Slow(u64),
}
impl Fault {
    /// Whether a client can still get the answer
    pub fn soft(&self) -> bool {
        matches!(self, Fault::Busy(0..=3, _) | Fault::Slow(_))
    }
}
pub struct Request {
    pub query: String,
    pub at: Instant,
    pub fault: Option<Fault>,
}
#[derive(Default)]
pub struct State {
    pub log: Vec<Request>,
    pub plan: HashMap<usize, Fault>,
    /// refusals of the query under way
    busy: HashMap<String, u32>,
    /// number of distinct requests, a retry isn't one
    pub served: usize,
    pub bad: Vec<String>,
}
pub struct Endpoint {
    pub url: String,
    pub state: Arc<Mutex<State>>,
    stop: Arc<AtomicBool>,
    addr: std::net::SocketAddr,
}
impl Drop for Endpoint {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect_timeout(&self.addr, Duration::from_millis(200));
    }
}
pub fn store(g: &G) -> Store {
    let s = Store::new().unwrap();
    s.load_from_slice(RdfFormat::NTriples, g.nt().as_bytes()).unwrap();
    s
}
/// The triples which the store gives back as they were written
pub fn faithful(g: &G) -> G {
    let s = store(g);
    let mut out = Vec::new();
    s.dump_graph_to_writer(oxigraph::model::GraphNameRef::DefaultGraph, RdfFormat::NTriples, &mut out).unwrap();
    let back = parse(&out, oxrdfio::RdfFormat::NTriples).unwrap();
    let mut n = G::new();
    for t in &g.t {
        if back.t.contains(t) {
            n.add(t.0.clone(), &t.1, t.2.clone());
        }
    }
    n
}
pub fn evaluate(s: &Store, q: &str, accept: &str) -> Result<(String, Vec<u8>), String> {
    let r = SparqlEvaluator::new().parse_query(q).map_err(|e| e.to_string())?.on_store(s).execute().map_err(|e| e.to_string())?;
    let mut out = Vec::new();
    match r {
        QueryResults::Graph(ts) => {
            let f = accept.split(',').filter_map(|a| RdfFormat::from_media_type(a.trim())).next().unwrap_or(RdfFormat::NTriples);
            let mut w = RdfSerializer::from_format(f).for_writer(&mut out);
            for t in ts {
                w.serialize_triple(t.map_err(|e| e.to_string())?.as_ref()).map_err(|e| e.to_string())?;
            }
            w.finish().map_err(|e| e.to_string())?;
            Ok((f.media_type().to_string(), out))
        },
        QueryResults::Boolean(b) => {
            QueryResultsSerializer::from_format(QueryResultsFormat::Json).serialize_boolean_to_writer(&mut out, b).map_err(|e| e.to_string())?;
            Ok((QueryResultsFormat::Json.media_type().to_string(), out))
        },
        QueryResults::Solutions(rows) => {
            let f = accept.split(',').filter_map(|a| QueryResultsFormat::from_media_type(a.trim())).next().unwrap_or(QueryResultsFormat::Json);
            let mut w = QueryResultsSerializer::from_format(f).serialize_solutions_to_writer(&mut out, rows.variables().to_vec()).map_err(|e| e.to_string())?;
            for row in rows {
                let row = row.map_err(|e| e.to_string())?;
                w.serialize(row.iter()).map_err(|e| e.to_string())?;
            }
            w.finish().map_err(|e| e.to_string())?;
            Ok((f.media_type().to_string(), out))
        },
    }
}
fn decode(s: &str) -> String {
    let (b, mut out, mut i) = (s.as_bytes(), Vec::new(), 0);
    while i < b.len() {
        match b[i] {
            b'+' => out.push(b' '),
            b'%' if i + 2 < b.len() => {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
                i += 2;
            },
            x => out.push(x),
        }
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}
fn param(s: &str) -> Option<String> {
    s.split('&').find_map(|p| p.strip_prefix("query=")).map(decode)
}
impl Endpoint {
    pub fn start(g: &G) -> Endpoint {
        let s = Arc::new(store(g));
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let addr = l.local_addr().unwrap();
        let state = Arc::new(Mutex::new(State::default()));
        let stop = Arc::new(AtomicBool::new(false));
        let (st, sp) = (state.clone(), stop.clone());
        std::thread::spawn(move || {
            for c in l.incoming() {
                if sp.load(Ordering::SeqCst) {
                    break;
                }
                if let Ok(c) = c {
                    let (s, st) = (s.clone(), st.clone());
                    std::thread::spawn(move || {
                        let _ = serve(c, &s, &st);
                    });
                }
            }
        });
        Endpoint { url: format!("http://{addr}/sparql"), state, stop, addr }
    }
    pub fn plan(&self, p: HashMap<usize, Fault>) {
        self.state.lock().unwrap().plan = p;
    }
    /// Forgets what happened so far
    pub fn reset(&self) {
        *self.state.lock().unwrap() = State::default();
    }
}
fn serve(c: TcpStream, s: &Store, st: &Mutex<State>) -> std::io::Result<()> {
    c.set_read_timeout(Some(Duration::from_secs(30)))?;
    let mut r = BufReader::new(c.try_clone()?);
    let mut w = c;
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let first = line.trim().to_string();
        let (mut accept, mut len, mut ctype) = (String::new(), 0usize, String::new());
        loop {
            let mut h = String::new();
            if r.read_line(&mut h)? == 0 || h.trim().is_empty() {
                break;
            }
            if let Some((k, v)) = h.split_once(':') {
                match k.to_lowercase().as_str() {
                    "accept" => accept = v.trim().to_string(),
                    "content-length" => len = v.trim().parse().unwrap_or(0),
                    "content-type" => ctype = v.trim().to_string(),
                    _ => {},
                }
            }
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body)?;
        let body = String::from_utf8_lossy(&body).into_owned();
        let target = first.split(' ').nth(1).unwrap_or("");
        let query = match target.split_once('?').and_then(|(_, q)| param(q)) {
            Some(q) => q,
            None if ctype.starts_with("application/sparql-query") => body,
            None => param(&body).unwrap_or_default(),
        };
        let fault = {
            let mut t = st.lock().unwrap();
            let under_way = t.busy.get(&query).copied().unwrap_or(0);
            let i = t.served;
            let mut f = t.plan.get(&i).cloned();
            match &mut f {
                Some(Fault::Busy(n, _)) if under_way >= *n => f = None,
                Some(Fault::Busy(..)) => {
                    t.busy.insert(query.clone(), under_way + 1);
                },
                _ => {},
            }
            if !matches!(f, Some(Fault::Busy(..))) {
                t.served += 1;
                t.busy.remove(&query);
            }
            t.log.push(Request { query: query.clone(), at: Instant::now(), fault: f.clone() });
            f
        };
        let (mut code, mut extra, mut ct, mut doc) = (200u16, String::new(), "text/plain".to_string(), Vec::new());
        match evaluate(s, &query, &accept) {
            Ok((t, d)) => (ct, doc) = (t, d),
            Err(e) => {
                st.lock().unwrap().bad.push(format!("{query}\n{e}"));
                code = 400;
            },
        }
        // no document, or part of one, may be a right graph
        let fault = match fault {
            Some(Fault::Empty | Fault::HalfDoc) if !ct.contains("json") => Some(Fault::Html),
            f => f,
        };
        match fault {
            Some(Fault::Busy(_, after)) => {
                code = 429;
                if let Some(a) = after {
                    extra = format!("Retry-After: {a}\r\n");
                }
                doc = b"slow down".to_vec();
            },
            Some(Fault::Status(c)) => code = c,
            Some(Fault::Drop) => return w.shutdown(std::net::Shutdown::Both),
            Some(Fault::Cut) => {
                write!(w, "HTTP/1.1 200 OK\r\nContent-Type: {ct}\r\nContent-Length: {}\r\n\r\n", doc.len() + 1)?;
                w.write_all(&doc[..doc.len() / 2])?;
                return w.shutdown(std::net::Shutdown::Both);
            },
            Some(Fault::HalfDoc) => {
                // not after the last bracket
                let n = doc.iter().rposition(|b| !b.is_ascii_whitespace()).unwrap_or(0);
                doc.truncate(n.min(doc.len() * 2 / 3));
            },
            Some(Fault::Html) => {
                ct = "text/html".into();
                doc = b"<html><body>Service temporarily unavailable</body></html>".to_vec();
            },
            Some(Fault::Empty) => doc.clear(),
            Some(Fault::WrongKind) => {
                doc = if doc.windows(9).any(|x| x == b"\"boolean\"") { b"{\"head\":{\"vars\":[\"x\"]},\"results\":{\"bindings\":[]}}".to_vec() } else { b"{\"head\":{},\"boolean\":true}".to_vec() }
            },
            Some(Fault::Slow(ms)) => std::thread::sleep(Duration::from_millis(ms)),
            None => {},
        }
        let text = match code {
            200 => "OK",
            429 => "Too Many Requests",
            _ => "Error",
        };
        write!(w, "HTTP/1.1 {code} {text}\r\nContent-Type: {ct}\r\nContent-Length: {}\r\n{extra}\r\n", doc.len())?;
        w.write_all(&doc)?;
        w.flush()?;
    }
}
