//! Several clients at once on one SQLite database (C03).
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

use butane::query::{BoolExpr, Expr};
use butane::{AutoPk, ForeignKey, SqlVal};

use crate::cn::{self, Cn, Conn, Kind, Obj, QSpec};
use crate::core::{new_proc, proc_id, run_clients, set_proc, sim, sleep_us, Client, Fault};
use crate::hist::{explain, End, Node, Rd, Verdict};
use crate::models::*;
use crate::refdb::{aside, dump, RefDb, V};
use crate::slog;
use crate::solo::{connect, is_async, with_runtime, draw_plan, fresh_db, now, page_and_cache, set_cache, DB};
use crate::store::{me_dead, violated};

#[derive(Clone, Debug)]
pub enum Step {
    Get(u32),
    Scan(i64),
    Put(u32, i64),
    Incr(u32),
    Del(u32),
    DelScan(i64),
    InsLabel(String),
    ScanLabel,
    DelLabel(u32),
    PutBlog(i64, String),
    DelBlog(i64),
    InsPost(i64, String),
    ScanPost,
    Pause(u64),
    Panic,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fin {
    Commit,
    Rollback,
    Drop,
}
#[derive(Clone, Debug)]
pub enum Unit {
    Auto(Step),
    Tx(Vec<Step>, Fin),
}

pub fn step(c: u32, n: &mut i64) -> Step {
    sim(|s| {
        let w = &mut s.work;
        *n += 1;
        let uniq = 1000 * (c as i64 + 1) + *n;
        match w.weighted(&[10, 16, 9, 14, 5, 3, 6, 5, 3, 4, 4, 6, 4, 9]) {
            0 => Step::Get(w.below(4)),
            1 => Step::Incr(w.below(2)),
            2 => Step::Scan(*w.pick(&[0i64, 1000, 2000])),
            3 => Step::Put(w.below(4), uniq),
            4 => Step::Del(w.below(4)),
            5 => Step::DelScan(*w.pick(&[2000i64, 1000, 0])),
            6 => Step::InsLabel(format!("L{uniq}")),
            7 => Step::ScanLabel,
            8 => Step::DelLabel(w.below(3)),
            9 => Step::PutBlog(w.below(3) as i64, format!("B{uniq}")),
            10 => Step::DelBlog(w.below(3) as i64),
            11 => Step::InsPost(w.below(3) as i64, format!("P{uniq}")),
            12 => Step::ScanPost,
            _ => Step::Pause(w.draw(9000, |r| if r.chance(800) { r.below(50) } else { r.below(9000) }) as u64),
        }
    })
}
pub fn script(c: u32) -> Vec<Unit> {
    let mut n = 0;
    let k = 1 + sim(|s| s.work.below(6));
    let mut out = vec![];
    for _ in 0..k {
        if sim(|s| s.work.chance(550)) {
            let m = 1 + sim(|s| s.work.below(4));
            let steps = (0..m).map(|_| step(c, &mut n)).collect();
            let fin = sim(|s| *s.work.pick(&[Fin::Commit, Fin::Commit, Fin::Commit, Fin::Commit, Fin::Rollback, Fin::Drop]));
            out.push(Unit::Tx(steps, fin));
        } else {
            out.push(Unit::Auto(match step(c, &mut n) {
                // outside a transaction this is two operations
                Step::Incr(k) => Step::Get(k),
                x => x,
            }));
        }
    }
    out
}

fn key(k: u32) -> String {
    format!("k{k}")
}
fn ge(col: &'static str, v: i64) -> QSpec {
    QSpec { filter: Some(BoolExpr::Ge(col, Expr::Val(SqlVal::BigInt(v)))), ..Default::default() }
}
pub enum StepErr {
    Refused,
    Other(butane::Error),
}
fn constraint(e: &butane::Error) -> bool {
    if let butane::Error::Postgres(p) = e {
        return p.as_db_error().is_some_and(|d| d.code().code().starts_with("23"));
    }
    e.to_string().to_lowercase().contains("constraint failed")
}
pub fn locked(e: &butane::Error) -> bool {
    let s = e.to_string().to_lowercase();
    s.contains("database is locked") || s.contains("table is locked") || s.contains("busy")
}

/// Perform a step; push what was observed. `seen`: label keys this client has read.
pub async fn perform(cn: Cn<'_, '_>, st: &Step, seen: &mut Vec<i64>, out: &mut Vec<Rd>, doing: &mut Option<Rd>) -> Result<(), StepErr> {
    macro_rules! t {
        ($op:expr, $r:expr) => {{
            let op: Rd = $op;
            *doing = Some(op.clone());
            match $r {
                Ok(x) => {
                    *doing = None;
                    x
                }
                Err(e) if constraint(&e) => {
                    *doing = None;
                    out.push(Rd::Refused(Box::new(op)));
                    return Err(StepErr::Refused);
                }
                Err(e) => return Err(StepErr::Other(e)),
            }
        }};
    }
    macro_rules! r {
        ($r:expr) => {
            match $r {
                Ok(x) => x,
                Err(e) => return Err(StepErr::Other(e)),
            }
        };
    }
    match st {
        Step::Get(k) => {
            let kk = V::T(key(*k));
            let o = r!(Kind::Kv.fetch(cn, &kk, false).await);
            out.push(Rd::Get("Kv", kk, o.map(|o| o.row())));
        }
        Step::Incr(k) => {
            let kk = V::T(key(*k));
            let o = r!(Kind::Kv.fetch(cn, &kk, false).await);
            out.push(Rd::Get("Kv", kk, o.as_ref().map(|o| o.row())));
            let mut kv = match o {
                Some(Obj::Kv(kv)) => kv,
                _ => Kv { k: key(*k), v: 0, note: None },
            };
            kv.v += 1;
            t!(Rd::Put("Kv", kv.row()), cn::save(cn, &mut kv).await);
            out.push(Rd::Put("Kv", kv.row()));
        }
        Step::Scan(v) => {
            let rows = r!(Kind::Kv.query(cn, ge("v", *v)).await);
            out.push(Rd::Scan("Kv", 1, V::I(*v), rows.iter().map(|o| o.row()).collect()));
        }
        Step::Put(k, v) => {
            let mut kv = Kv { k: key(*k), v: *v, note: Some("n".into()) };
            t!(Rd::Put("Kv", kv.row()), cn::save(cn, &mut kv).await);
            out.push(Rd::Put("Kv", kv.row()));
        }
        Step::Del(k) => {
            let kv = Kv { k: key(*k), v: 0, note: None };
            let op = Rd::Del("Kv", V::T(kv.k.clone()));
            t!(op.clone(), cn::delete(cn, &kv).await);
            out.push(op);
        }
        Step::DelScan(v) => {
            let n = t!(Rd::DelScan("Kv", 1, V::I(*v), usize::MAX), Kind::Kv.query_delete(cn, ge("v", *v)).await);
            out.push(Rd::DelScan("Kv", 1, V::I(*v), n));
        }
        Step::InsLabel(text) => {
            let mut l = Label { id: AutoPk::uninitialized(), text: text.clone() };
            t!(Rd::Ins("Label", l.row()), cn::save(cn, &mut l).await);
            out.push(Rd::Ins("Label", l.row()));
        }
        Step::ScanLabel => {
            let rows = r!(Kind::Label.query(cn, QSpec::default()).await);
            let rows: Vec<_> = rows.iter().map(|o| o.row()).collect();
            for x in &rows {
                if let V::I(i) = x[0] {
                    if !seen.contains(&i) {
                        seen.push(i);
                    }
                }
            }
            out.push(Rd::Scan("Label", 0, V::I(i64::MIN), rows));
        }
        Step::DelLabel(n) => {
            let id = match seen.get(*n as usize) {
                Some(i) => *i,
                None => 1,
            };
            let l = Label { id: <AutoPk<i32> as butane::FromSql>::from_sql(SqlVal::Int(id as i32)).unwrap(), text: String::new() };
            let op = Rd::Del("Label", V::I(id));
            t!(op.clone(), cn::delete(cn, &l).await);
            out.push(op);
        }
        Step::PutBlog(i, name) => {
            let mut b = Blog { id: *i, name: name.clone() };
            t!(Rd::Put("Blog", b.row()), cn::save(cn, &mut b).await);
            out.push(Rd::Put("Blog", b.row()));
        }
        Step::DelBlog(i) => {
            let b = Blog { id: *i, name: String::new() };
            let op = Rd::Del("Blog", V::I(*i));
            t!(op.clone(), cn::delete(cn, &b).await);
            out.push(op);
        }
        Step::InsPost(b, title) => {
            let mut p = Post {
                id: AutoPk::uninitialized(),
                title: title.clone(),
                likes: 0,
                blog: ForeignKey::from_pk(*b),
                cover: None,
                prev: None,
                tags: Default::default(),
                labels: Default::default(),
            };
            t!(Rd::Ins("Post", p.row()), cn::save(cn, &mut p).await);
            out.push(Rd::Ins("Post", p.row()));
        }
        Step::ScanPost => {
            let rows = r!(Kind::Post.query(cn, QSpec::default()).await);
            out.push(Rd::Scan("Post", 0, V::I(i64::MIN), rows.iter().map(|o| o.row()).collect()));
        }
        Step::Pause(ms) => sleep_us(ms * 1000),
        Step::Panic => {
            sim(|s| s.stat("fault:closure_panic"));
            panic!("planned")
        }
    }
    Ok(())
}

#[derive(Default)]
pub struct Shared {
    pub nodes: Vec<Node>,
    pub left: Vec<(String, u32, Conn)>,
    pub dead_texts: Vec<usize>,
}

fn stamp() -> u64 {
    sim(|s| {
        s.events += 1;
        s.events
    })
}

fn odd(what: &str, e: &butane::Error, h0: u64) {
    // without a fault, losing a race is the only excuse
    let h = sim(|s| s.plan.hits);
    if h == 0 && h0 == 0 && !locked(e) && !me_dead() {
        sim(|s| s.violate("spurious_error", format!("{what}: {e}")));
    }
}

pub async fn unit(name: &str, conn: &mut Conn, u: &Unit, seen: &mut Vec<i64>, sh: &Mutex<Shared>) {
    let start = stamp();
    let mut ops = vec![];
    let mut doing = None;
    let fate;
    slog!("{name} {u:?}");
    match u {
        Unit::Auto(st) => match perform(conn.cn(), st, seen, &mut ops, &mut doing).await {
            Ok(()) | Err(StepErr::Refused) => fate = End::Yes,
            Err(StepErr::Other(e)) => {
                slog!("{name}: {e}");
                odd("an operation", &e, 0);
                if me_dead() {
                    if let Some(d) = doing.take() {
                        ops.push(d);
                    }
                    fate = End::Maybe;
                } else {
                    fate = End::No;
                    ops.clear();
                }
            }
        },
        Unit::Tx(steps, fin) => {
            let tx = match conn.transaction().await {
                Ok(t) => t,
                Err(e) => {
                    odd("begin", &e, 0);
                    return;
                }
            };
            let mut give_up = false;
            for st in steps {
                match perform(tx.cn(), st, seen, &mut ops, &mut doing).await {
                    Ok(()) => {}
                    Err(StepErr::Refused) => {}
                    Err(StepErr::Other(e)) => {
                        slog!("{name}: {e}");
                        odd("a statement in a transaction", &e, 0);
                        doing = None;
                        if me_dead() || sim(|s| s.work.chance(700)) {
                            give_up = true;
                            break;
                        }
                    }
                }
            }
            if me_dead() {
                fate = End::No;
                let _ = catch_unwind(AssertUnwindSafe(|| drop(tx)));
            } else {
                let fin = if give_up && *fin == Fin::Commit { Fin::Rollback } else { *fin };
                match fin {
                    Fin::Commit => match tx.commit().await {
                        Ok(()) => fate = End::Yes,
                        Err(e) => {
                            slog!("{name} commit: {e}");
                            odd("commit", &e, 0);
                            fate = if me_dead() { End::Maybe } else { End::No };
                        }
                    },
                    Fin::Rollback => {
                        let _ = tx.rollback().await;
                        fate = End::No;
                    }
                    Fin::Drop => {
                        drop(tx);
                        fate = End::No;
                    }
                }
            }
        }
    }
    let end = stamp();
    if ops.is_empty() {
        return;
    }
    if fate == End::Yes && matches!(u, Unit::Tx(..)) {
        sim(|s| s.stat("probe:tx_committed"));
    }
    let nd = Node { who: name.into(), start, end, ops, fate };
    slog!("{}", nd.show());
    sh.lock().unwrap().nodes.push(nd);
}

pub fn client(name: String, us: Vec<Unit>, sh: Arc<Mutex<Shared>>, cache: i32) {
    let mut seen = vec![];
    let mut restarts = 0;
    let mut it = us.into_iter();
    'life: loop {
        let mut conn = loop {
            match connect() {
                Ok(c) => break c,
                Err(e) => {
                    odd("connect", &e, 0);
                    restarts += 1;
                    if restarts > 4 || violated() {
                        return;
                    }
                    if me_dead() {
                        crate::solo::become_proc(new_proc());
                    }
                }
            }
        };
        set_cache(&conn, cache);
        for u in it.by_ref() {
            now(unit(&name, &mut conn, &u, &mut seen, &sh));
            if violated() {
                return;
            }
            if me_dead() {
                let _ = catch_unwind(AssertUnwindSafe(|| drop(conn)));
                restarts += 1;
                if restarts > 4 {
                    return;
                }
                crate::solo::become_proc(new_proc());
                continue 'life;
            }
        }
        if is_async() {
            // its worker lives only as long as the simulation runs
            drop(conn);
        } else {
            sh.lock().unwrap().left.push((name, proc_id(), conn));
        }
        return;
    }
}

/// Resolve inserts whose key was never learned because the process died.
fn resolve(nodes: &mut Vec<Node>, fin: &RefDb) {
    let mut known: Vec<(&'static str, Vec<V>)> = vec![];
    for t in ["Label", "Post"] {
        for r in fin.t[t].values() {
            known.push((t, r.clone()));
        }
    }
    for n in nodes.iter() {
        for o in &n.ops {
            if let Rd::Scan(t, _, _, rows) = o {
                for r in rows {
                    known.push((t, r.clone()));
                }
            }
        }
    }
    for n in nodes.iter_mut() {
        n.ops.retain_mut(|o| {
            if let Rd::Ins(t, r) = o {
                if r[0] == V::N {
                    match known.iter().find(|k| k.0 == *t && k.1[1..] == r[1..]) {
                        Some(k) => *r = k.1.clone(),
                        None => return false,
                    }
                }
            }
            true
        });
    }
    nodes.retain(|n| !n.ops.is_empty());
}

pub fn prefill() {
    aside(|| {
        let c = rusqlite::Connection::open(DB).unwrap();
        c.execute_batch(PREFILL).unwrap();
    });
}
pub const PREFILL: &str = "INSERT INTO Kv (k,v,note) VALUES ('k0',0,NULL),('k1',5,'x');\
    INSERT INTO Blog (id,name) VALUES (1,'one');INSERT INTO Label (text) VALUES ('first');";

pub fn judge(init: &RefDb, mut nodes: Vec<Node>, fin: &RefDb) {
    resolve(&mut nodes, fin);
    // only what happened matters, not where the client sat
    nodes.sort_by_key(|n| n.start);
    if nodes.len() > 60 {
        sim(|s| s.stat("probe:history_too_long"));
        return;
    }
    match explain(init, &nodes, fin) {
        Verdict::Ok => {}
        Verdict::GaveUp => sim(|s| s.stat("probe:history_undecided")),
        Verdict::Bad(_) => {
            let h = nodes.iter().map(|n| n.show()).collect::<Vec<_>>().join("\n  ");
            sim(|s| s.violate("not_serializable", format!("no serial order explains this history:\n  {h}\n  final: {fin:?}")));
        }
    }
}

pub fn c03() {
    clients(false);
}
pub fn clients(asy: bool) {
    let (page, cache) = page_and_cache();
    fresh_db(DB, page);
    prefill();
    let init = dump(DB).unwrap();
    draw_plan(&[Fault::Kill, Fault::Kill, Fault::Eio, Fault::Busy, Fault::Full, Fault::Power], &[], 450);
    sim(|s| s.switch_pm = *s.sched.pick(&[300u32, 80, 600]));
    let n = 2 + sim(|s| s.work.below(2));
    let sh = Arc::new(Mutex::new(Shared::default()));
    let mut cs: Vec<Client> = vec![];
    for c in 0..n {
        let us = script(c);
        let sh = sh.clone();
        let name = format!("c{c}");
        let nm = name.clone();
        cs.push((
            name,
            new_proc(),
            Box::new(move || {
                if asy {
                    with_runtime(|| client(nm, us, sh, cache))
                } else {
                    client(nm, us, sh, cache)
                }
            }),
        ));
    }
    sim(|s| s.rearm());
    let ok = run_clients(cs);
    sim(|s| s.end_faults());
    let Shared { nodes, mut left, .. } = std::mem::take(&mut *sh.lock().unwrap());
    if violated() || !ok {
        return;
    }
    sim(|s| {
        if nodes.len() >= 2 {
            s.stat("nontrivial");
        }
    });
    let fin = match dump(DB) {
        Ok(d) => d,
        Err(e) => {
            sim(|s| s.violate("corrupt", e));
            return;
        }
    };
    judge(&init, nodes, &fin);
    // every survivor works when it is alone
    for (name, p, conn) in left.iter_mut() {
        set_proc(*p);
        if sim(|s| s.proc_dead(*p)) {
            continue;
        }
        let mut kv = Kv { k: format!("after-{name}"), v: 1, note: None };
        let r = now(async {
            cn::save(conn.cn(), &mut kv).await?;
            kv.v = 2;
            let tx = conn.transaction().await?;
            cn::save(tx.cn(), &mut kv).await?;
            tx.commit().await?;
            cn::get::<Kv>(conn.cn(), kv.k.clone()).await
        });
        match r {
            Ok(k) if k.v == 2 => {}
            Ok(k) => sim(|s| s.violate("not_recovered", format!("{name} alone reads back {}", k.v))),
            Err(e) => sim(|s| s.violate("not_recovered", format!("{name} alone: {e}"))),
        }
    }
    for (_, p, conn) in left {
        set_proc(p);
        let _ = catch_unwind(AssertUnwindSafe(|| drop(conn)));
    }
    let (l, o) = sim(|s| (s.disk.lock_holders(), s.disk.open_handles()));
    if l > 0 || o > 0 {
        sim(|s| s.violate("leaked", format!("{l} locks and {o} files still held after closing everything")));
    }
}
