//! Histories of concurrent clients, and the search for a serial order that explains them.
use std::collections::{BTreeSet, HashSet};

use crate::refdb::{show_row, RefDb, Row, V};

/// One operation with the result the client saw.
#[derive(Clone, Debug)]
pub enum Rd {
    Get(&'static str, V, Option<Row>),
    /// rows with column `.1` >= `.2`
    Scan(&'static str, usize, V, Vec<Row>),
    Put(&'static str, Row),
    /// insert under a key the database chose
    Ins(&'static str, Row),
    Del(&'static str, V),
    DelScan(&'static str, usize, V, usize),
    /// refused because of a constraint
    Refused(Box<Rd>),
}

pub fn matching(db: &RefDb, t: &str, c: usize, v: &V) -> BTreeSet<V> {
    db.t[t].iter().filter(|(_, r)| r[c] != V::N && r[c] >= *v).map(|(k, _)| k.clone()).collect()
}

impl Rd {
    pub fn show(&self) -> String {
        match self {
            Rd::Get(t, k, r) => {
                format!("get {t} {} -> {}", k.short(), r.as_ref().map_or("none".into(), |r| show_row(r)))
            }
            Rd::Scan(t, c, v, rows) => format!(
                "query {t} column {c} >= {} -> [{}]",
                v.short(),
                rows.iter().map(|r| show_row(r)).collect::<Vec<_>>().join(" ")
            ),
            Rd::Put(t, r) => format!("save {t} {}", show_row(r)),
            Rd::Ins(t, r) => format!("insert {t} {}", show_row(r)),
            Rd::Del(t, k) => format!("delete {t} {}", k.short()),
            Rd::DelScan(t, c, v, n) => format!("query-delete {t} column {c} >= {} -> {n}", v.short()),
            Rd::Refused(o) => format!("refused: {}", o.show()),
        }
    }
    /// Do it on the model. False: the result the client saw is not the one the model gives.
    pub fn replay(&self, db: &mut RefDb) -> bool {
        match self {
            Rd::Get(t, k, r) => db.t[t].get(k) == r.as_ref(),
            Rd::Scan(t, c, v, rows) => {
                let ks = matching(db, t, *c, v);
                let mut exp: Vec<Row> = ks.iter().map(|k| db.t[t][k].clone()).collect();
                let mut got = rows.clone();
                exp.sort();
                got.sort();
                exp == got
            }
            Rd::Put(t, r) => db.upsert(t, r.clone()).is_ok(),
            Rd::Ins(t, r) => !db.t[t].contains_key(&r[0]) && db.upsert(t, r.clone()).is_ok(),
            Rd::Del(t, k) => db.delete(t, &BTreeSet::from([k.clone()])).is_ok(),
            Rd::DelScan(t, c, v, n) => {
                let ks = matching(db, t, *c, v);
                (*n == usize::MAX || ks.len() == *n) && db.delete(t, &ks).is_ok()
            }
            Rd::Refused(o) => {
                let mut d = db.clone();
                match &**o {
                    Rd::Put(t, r) | Rd::Ins(t, r) => {
                        if r[0] == V::N {
                            let mut r = r.clone();
                            r[0] = V::I(i64::MAX);
                            d.upsert(t, r).is_err()
                        } else {
                            d.upsert(t, r.clone()).is_err()
                        }
                    }
                    Rd::Del(t, k) => d.delete(t, &BTreeSet::from([k.clone()])).is_err(),
                    Rd::DelScan(t, c, v, _) => {
                        let ks = matching(db, t, *c, v);
                        d.delete(t, &ks).is_err()
                    }
                    _ => false,
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    /// took effect
    Yes,
    /// had no effect, but what it read must be right
    No,
    /// the process died: either
    Maybe,
}
#[derive(Clone, Debug)]
pub struct Node {
    pub who: String,
    pub start: u64,
    pub end: u64,
    pub ops: Vec<Rd>,
    pub fate: End,
}
impl Node {
    pub fn show(&self) -> String {
        format!(
            "[{}..{}] {} {:?}: {}",
            self.start,
            self.end,
            self.who,
            self.fate,
            self.ops.iter().map(|o| o.show()).collect::<Vec<_>>().join("; ")
        )
    }
}

pub enum Verdict {
    Ok,
    /// best number of operations that could be explained
    Bad(usize),
    GaveUp,
}

/// Is there an order of the nodes, respecting real time, in which every result is right and which ends in `fin`?
pub fn explain(init: &RefDb, nodes: &[Node], fin: &RefDb) -> Verdict {
    assert!(nodes.len() <= 64);
    let mut seen: HashSet<(u64, RefDb)> = HashSet::new();
    let mut best = 0;
    let mut budget = 60_000u32;
    // a node with no effect only has to fit somewhere, but it also has to fit before later nodes: same search
    let r = dfs(init, nodes, fin, 0, &mut seen, &mut best, &mut budget);
    if r {
        Verdict::Ok
    } else if budget == 0 {
        Verdict::GaveUp
    } else {
        Verdict::Bad(best)
    }
}
fn dfs(
    db: &RefDb,
    nodes: &[Node],
    fin: &RefDb,
    done: u64,
    seen: &mut HashSet<(u64, RefDb)>,
    best: &mut usize,
    budget: &mut u32,
) -> bool {
    let n = nodes.len();
    *best = (*best).max(done.count_ones() as usize);
    if done.count_ones() as usize == n {
        return db == fin;
    }
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    if !seen.insert((done, db.clone())) {
        return false;
    }
    // earliest end among the not yet placed: nothing that starts after it may come before it
    let horizon = (0..n).filter(|i| done & (1 << i) == 0).map(|i| nodes[i].end).min().unwrap();
    let cand: Vec<usize> = (0..n).filter(|i| done & (1 << i) == 0 && nodes[*i].start <= horizon).collect();
    for i in cand {
        let nd = &nodes[i];
        let mut d = db.clone();
        let ok = nd.ops.iter().all(|o| o.replay(&mut d));
        if ok {
            let next = if nd.fate == End::No { db } else { &d };
            if dfs(next, nodes, fin, done | (1 << i), seen, best, budget) {
                return true;
            }
        }
        if nd.fate == End::Maybe {
            // without effect; what it read before dying must have been right
            let mut d = db.clone();
            if nd.ops.iter().all(|o| o.replay(&mut d)) && dfs(db, nodes, fin, done | (1 << i), seen, best, budget) {
                return true;
            }
        }
    }
    false
}
