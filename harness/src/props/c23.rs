//! Regular bag expressions: every matching method against brute-force membership
use crate::fw::*;
use rbe::{Bag, Cardinality, MatchCond, Max, Min, Rbe, RbeStruct, RbeTable, SingleCond};
use std::collections::HashMap;

#[derive(Clone, Debug)]
enum E {
    Empty,
    Sym(usize, usize, Option<usize>),
    And(Vec<E>),
    Or(Vec<E>),
    Star(Box<E>),
    Plus(Box<E>),
    Rep(Box<E>, usize, Option<usize>),
}
type B = Vec<usize>;
type Memo = HashMap<(*const E, B, usize), bool>;

fn sub_bags(b: &B) -> Vec<B> {
    let mut v = vec![vec![]];
    for &n in b {
        let mut w = Vec::new();
        for x in &v {
            for k in 0..=n {
                let mut y: B = x.clone();
                y.push(k);
                w.push(y);
            }
        }
        v = w;
    }
    v
}
fn minus(a: &B, b: &B) -> B {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
/// Is the bag in the language of the expression?
fn member(e: &E, b: &B, m: &mut Memo) -> bool {
    let key = (e as *const E, b.clone(), usize::MAX);
    if let Some(r) = m.get(&key) {
        return *r;
    }
    let total: usize = b.iter().sum();
    let r = match e {
        E::Empty => total == 0,
        E::Sym(s, lo, hi) => b[*s] == total && total >= *lo && hi.is_none_or(|h| total <= h),
        E::And(v) => conc(v, b, m),
        E::Or(v) => v.iter().any(|x| member(x, b, m)),
        E::Star(x) => iter(x, b, 0, None, m),
        E::Plus(x) => iter(x, b, 1, None, m),
        E::Rep(x, lo, hi) => iter(x, b, *lo, *hi, m),
    };
    m.insert(key, r);
    r
}
fn conc(v: &[E], b: &B, m: &mut Memo) -> bool {
    match v {
        [] => b.iter().all(|x| *x == 0),
        [x] => member(x, b, m),
        [x, rest @ ..] => sub_bags(b).iter().any(|s| member(x, s, m) && conc(rest, &minus(b, s), m)),
    }
}
/// b is the sum of k bags of x with lo <= k <= hi
fn iter(x: &E, b: &B, lo: usize, hi: Option<usize>, m: &mut Memo) -> bool {
    let total: usize = b.iter().sum();
    // an iteration over the empty bag never helps beyond the lower bound
    let bound = hi.unwrap_or(lo.max(total)).min(lo.max(total));
    (lo..=bound).any(|k| power(x, b, k, m))
}
fn power(x: &E, b: &B, k: usize, m: &mut Memo) -> bool {
    if k == 0 {
        return b.iter().all(|n| *n == 0);
    }
    let key = (x as *const E, b.clone(), k);
    if let Some(r) = m.get(&key) {
        return *r;
    }
    let r = sub_bags(b).iter().any(|s| member(x, s, m) && power(x, &minus(b, s), k - 1, m));
    m.insert(key, r);
    r
}

const SYM: [char; 3] = ['a', 'b', 'c'];
fn max(h: &Option<usize>) -> Max {
    match h {
        Some(n) => Max::IntMax(*n),
        None => Max::Unbounded,
    }
}
fn rbe<A: std::hash::Hash + Eq + std::fmt::Display + Clone>(e: &E, f: &dyn Fn(usize) -> A) -> Rbe<A> {
    match e {
        E::Empty => Rbe::Empty,
        E::Sym(s, lo, hi) => Rbe::Symbol { value: f(*s), card: Cardinality::from(Min::from(*lo), max(hi)) },
        E::And(v) => Rbe::And { values: v.iter().map(|x| rbe(x, f)).collect() },
        E::Or(v) => Rbe::Or { values: v.iter().map(|x| rbe(x, f)).collect() },
        E::Star(x) => Rbe::Star { value: Box::new(rbe(x, f)) },
        E::Plus(x) => Rbe::Plus { value: Box::new(rbe(x, f)) },
        E::Rep(x, lo, hi) => Rbe::Repeat { value: Box::new(rbe(x, f)), card: Cardinality::from(Min::from(*lo), max(hi)) },
    }
}
fn syms(e: &E, out: &mut Vec<usize>) {
    match e {
        E::Empty => {},
        E::Sym(s, ..) => out.push(*s),
        E::And(v) | E::Or(v) => v.iter().for_each(|x| syms(x, out)),
        E::Star(x) | E::Plus(x) | E::Rep(x, ..) => syms(x, out),
    }
}
fn card(r: &mut Rng) -> (usize, Option<usize>) {
    *r.pick(&[(1, Some(1)), (1, Some(1)), (0, Some(1)), (0, None), (1, None), (2, Some(2)), (1, Some(2)), (0, Some(2)), (2, None), (2, Some(3)), (0, Some(0)), (3, Some(4)), (2, Some(5))])
}
/// `single`: every symbol at most once (the class the interval method is meant for)
fn expr(r: &mut Rng, depth: usize, avail: &mut Vec<usize>, single: bool) -> E {
    let leaf = depth == 0 || r.chance(20);
    if leaf {
        if r.chance(8) || avail.is_empty() {
            return E::Empty;
        }
        let i = r.below(avail.len());
        let s = if single { avail.swap_remove(i) } else { avail[i] };
        let (lo, hi) = card(r);
        return E::Sym(s, lo, hi);
    }
    match r.below(9) {
        0..=2 => {
            let n = 2 + r.below(2);
            E::And((0..n).map(|_| expr(r, depth - 1, avail, single)).collect())
        },
        3..=5 => {
            let n = 2 + r.below(2);
            E::Or((0..n).map(|_| expr(r, depth - 1, avail, single)).collect())
        },
        6 => E::Star(Box::new(expr(r, depth - 1, avail, single))),
        7 => E::Plus(Box::new(expr(r, depth - 1, avail, single))),
        _ => {
            let (lo, hi) = card(r);
            E::Rep(Box::new(expr(r, depth - 1, avail, single)), lo, hi)
        },
    }
}

#[derive(PartialEq, Eq, Hash, Clone, Debug, Default)]
struct W(String);
impl std::fmt::Display for W {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl serde::Serialize for W {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0)
    }
}
impl rbe::Key for W {}
impl rbe::Value for W {}
impl rbe::Ref for W {}
impl rbe::Context for W {}
#[derive(PartialEq, Eq, Hash, Clone, Debug, serde::Serialize)]
struct Accept(Vec<usize>);
impl rbe::match_cond::MatchKind<W, W, W, W> for Accept {
    fn eval(&self, value: &W, _: &W) -> Result<rbe::Pending<W, W, W>, rbe::RbeError<W, W, W, W, Self>> {
        let n: usize = value.0[1..].parse().unwrap();
        if self.0.contains(&n) { Ok(rbe::Pending::empty()) } else { Err(rbe::RbeError::MsgError { msg: "no".into() }) }
    }
}

fn case(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let single = r.chance(50);
    let mut avail = vec![0, 1, 2];
    let depth = if r.chance(15) { 4 } else { 1 + r.below(3) };
    let e = expr(r, depth, &mut avail, single);
    if r.chance(25) {
        return table(ctx, e);
    }
    let st = RbeStruct::from(rbe(&e, &|s| SYM[s]));
    let mut input = format!("{e:?}\n");
    let mut memo = Memo::new();
    let mut pos = 0;
    let mut neg = 0;
    let mut here = Vec::new();
    syms(&e, &mut here);
    for _ in 0..12 {
        let cap = if r.chance(20) { 4 } else { 3 };
        let mut b: B = (0..3).map(|_| r.below(cap)).collect();
        while b.iter().sum::<usize>() > 6 {
            let i = r.below(3);
            b[i] = b[i].saturating_sub(1);
        }
        let foreign = r.chance(15);
        let open = r.chance(25);
        let mut occ: Vec<char> = b.iter().enumerate().flat_map(|(i, n)| std::iter::repeat_n(SYM[i], *n)).collect();
        if foreign {
            occ.push('d');
        }
        r.shuffle(&mut occ);
        let bag: Bag<char> = occ.iter().cloned().collect();
        input.push_str(&format!("{occ:?} open={open}\n"));
        let want = if open {
            // symbols the expression does not mention are ignored
            let f: B = b.iter().enumerate().map(|(i, n)| if here.contains(&i) { *n } else { 0 }).collect();
            member(&e, &f, &mut memo)
        } else {
            !foreign && member(&e, &b, &mut memo)
        };
        if want { pos += 1 } else { neg += 1 }
        let iv = st.match_bag_interval(&bag, open).is_ok();
        let dv = st.match_bag_deriv(&bag, open).is_ok();
        let bad = if dv != want { Some("derivatives") } else if iv != want { Some("intervals") } else { None };
        if let Some(w) = bad {
            ctx.input(input);
            return viol(
                format!("{w} {} a bag {} the language", if want { "rejects" } else { "accepts" }, if want { "of" } else { "outside" }),
                format!("{e:?} bag {occ:?} open={open}"),
            );
        }
        // the refutation test used to prune must never refute a member
        if want && !open && single {
            let hi: HashMap<char, usize> = SYM.iter().cloned().zip(b.iter().map(|n| n + r.below(2))).collect();
            let lo: HashMap<char, usize> = SYM.iter().cloned().zip(b.iter().map(|n| if *n > 0 && r.chance(50) { n - 1 } else { *n })).collect();
            if !st.feasible(&lo, &hi) {
                ctx.input(input);
                return viol("pruning refutes a satisfiable partial bag", format!("{e:?} bag {occ:?}"));
            }
        }
    }
    ctx.input(input);
    ctx.count("members", pos);
    ctx.count("non_members", neg);
    ctx.count(if single { "single_occurrence" } else { "repeated_symbols" }, 1);
    if pos > 0 && neg > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

/// Expressions over keyed conditions: a set of (key, value) pairs matches iff some
/// assignment of the values to components accepting them gives a bag of the language.
fn table(ctx: &mut Ctx, e0: E) -> R {
    // rename: one component per leaf
    fn leaves(e: &mut E, n: &mut usize) {
        match e {
            E::Empty => {},
            E::Sym(s, ..) => {
                *s = *n;
                *n += 1;
            },
            E::And(v) | E::Or(v) => v.iter_mut().for_each(|x| leaves(x, n)),
            E::Star(x) | E::Plus(x) | E::Rep(x, ..) => leaves(x, n),
        }
    }
    let mut e = e0;
    let mut nc = 0;
    leaves(&mut e, &mut nc);
    if nc == 0 || nc > 5 {
        return Ok(());
    }
    let r = &mut ctx.rng;
    let conds: Vec<(usize, Vec<usize>)> = (0..nc).map(|_| (r.below(2), (0..3).filter(|_| r.chance(65)).collect())).collect();
    let mut input = format!("{e:?}\ncomponents {conds:?}\n");
    let mut pos = 0;
    let mut neg = 0;
    for _ in 0..4 {
        let mut t: RbeTable<W, W, W, W, Accept> = RbeTable::new();
        let comps: Vec<_> = conds
            .iter()
            .map(|(k, acc)| {
                let c = SingleCond::new().with_name("c").with_kind(Accept(acc.clone()));
                t.add_component(W(format!("k{k}")), &MatchCond::single(c))
            })
            .collect();
        t.with_rbe(RbeStruct::from(rbe(&e, &|s| comps[s])));
        let n = r.below(5);
        // only keys of the table are passed, as the validators do
        let keys: Vec<usize> = conds.iter().map(|c| c.0).collect();
        let vals: Vec<(usize, usize)> = (0..n).map(|_| (*r.pick(&keys), r.below(3))).collect();
        input.push_str(&format!("{vals:?}\n"));
        fn assign(i: usize, vals: &[(usize, usize)], conds: &[(usize, Vec<usize>)], b: &mut B, e: &E, m: &mut Memo) -> bool {
            if i == vals.len() {
                return member(e, b, m);
            }
            for (c, (k, acc)) in conds.iter().enumerate() {
                if *k == vals[i].0 && acc.contains(&vals[i].1) {
                    b[c] += 1;
                    let ok = assign(i + 1, vals, conds, b, e, m);
                    b[c] -= 1;
                    if ok {
                        return true;
                    }
                }
            }
            false
        }
        let want = assign(0, &vals, &conds, &mut vec![0; nc], &e, &mut Memo::new());
        let rows: Vec<(W, W, W)> = vals.iter().map(|(k, v)| (W(format!("k{k}")), W(format!("v{v}")), W::default())).collect();
        let got = match t.matches(rows.clone()) {
            Ok(it) => it.into_iter().any(|x| x.is_ok()),
            Err(_) => false,
        };
        if want { pos += 1 } else { neg += 1 }
        if got != want {
            ctx.input(input);
            return viol(format!("conditions: matcher says {got}, assignments say {want}"), format!("{e:?} {conds:?} {vals:?}"));
        }
        if want && !t.feasible_neighs(&rows) {
            ctx.input(input);
            return viol("pruning refutes a matching neighbourhood", format!("{e:?} {conds:?} {vals:?}"));
        }
    }
    ctx.input(input);
    ctx.count("table_matches", pos);
    ctx.count("table_mismatches", neg);
    if pos > 0 && neg > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

pub static P: Prop = Prop {
    id: "C23",
    case,
    probes: &[],
    quick: 30000,
    thorough: 600000,
    rule: "distinct expressions checked with at least one bag inside and one outside their language",
    assumptions: &["membership is decided by exhaustive splitting of bags"],
    level: "exploration",
    crash_is_violation: true,
    must_see: &["members", "non_members", "single_occurrence", "repeated_symbols", "table_matches", "table_mismatches"],
    workers: 8,
};
