//! Asynchronous SQLite connections: same results as the synchronous one, in order (C13), and cancellation (C14).
//! The client is a simulated thread with its own tokio runtime; butane's worker thread is a simulated thread, too.
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::task::Poll;

use butane::db::ConnectionSpec;

use crate::cn::{Cn, Conn, Tx};
use crate::conc::{self, perform, Step, StepErr};
use crate::core::{new_proc, run_clients, sim, yield_point, Fault};
use crate::hist::Rd;
use crate::models::*;
use crate::refdb::{dump, RefDb};
use crate::slog;
use crate::solo::{self, connect, draw_plan, fresh_db, now, page_and_cache, session, set_cache, with_runtime, Cfg, DB};
use crate::store::{me_dead, violated};
use Fault::*;

/// Run `f` as the only client of a simulation, on a runtime of its own.
pub fn one_client(f: impl FnOnce() + Send + 'static) -> bool {
    sim(|s| s.switch_pm = *s.sched.pick(&[300u32, 50, 600]));
    run_clients(vec![("c0".into(), new_proc(), Box::new(move || with_runtime(f)))])
}

pub fn nothing_left() {
    if violated() {
        return;
    }
    let (l, o, w) = sim(|s| (s.disk.lock_holders(), s.disk.open_handles(), s.left_waiting));
    if l > 0 || o > 0 || w > 0 {
        sim(|s| {
            s.violate("leaked", format!("{l} locks, {o} files and {w} worker threads are left after dropping every connection"))
        });
    }
}

// ---------------------------------------------------------------- pipelined and cancelled operations

/// When to abandon an operation: after it was polled `polls` times without finishing and the scheduler then had
/// `wait` opportunities to let others run.
#[derive(Clone, Copy, Debug)]
pub struct Cancel {
    polls: u32,
    wait: u32,
}
#[derive(Clone, Debug)]
enum Res {
    Ok,
    Refused,
    Failed(String),
    Cancelled,
}
#[derive(Clone)]
struct Done {
    ops: Vec<Rd>,
    doing: Option<Rd>,
    res: Res,
}

pub fn draw_cancel(pm: u32) -> Option<Cancel> {
    sim(|s| {
        if !s.work.chance(pm) {
            return None;
        }
        Some(Cancel {
            polls: 1 + s.work.draw(3, |r| if r.chance(800) { 0 } else { r.below(3) }),
            wait: s.work.draw(60, |r| match r.below(3) {
                0 => 0,
                1 => r.below(6),
                _ => r.below(60),
            }),
        })
    })
}

/// Drive `f`, or abandon it. None: abandoned.
pub async fn maybe_cancel<F: Future>(f: F, c: Option<Cancel>) -> Option<F::Output> {
    let mut f = Some(Box::pin(f));
    let mut polls = 0;
    poll_fn(move |cx| {
        let Some(p) = f.as_mut() else { return Poll::Ready(None) };
        match p.as_mut().poll(cx) {
            Poll::Ready(x) => Poll::Ready(Some(x)),
            Poll::Pending => {
                polls += 1;
                match c {
                    Some(c) if polls >= c.polls => {
                        for _ in 0..c.wait {
                            yield_point();
                        }
                        sim(|s| s.stat("fault:cancelled_operation"));
                        f = None;
                        Poll::Ready(None)
                    }
                    _ => Poll::Pending,
                }
            }
        }
    })
    .await
}

#[derive(Default)]
struct Prog {
    ops: Vec<Rd>,
    doing: Option<Rd>,
    seen: Vec<i64>,
}

/// Issue several operations on one handle at once and drive them in a seeded order. Results come in order of issue.
async fn group(cn: Cn<'_, '_>, steps: Vec<(Step, Option<Cancel>)>) -> Vec<(Step, Done)> {
    let n = steps.len();
    // what is known of an operation survives its being dropped
    let progs: Vec<*mut Prog> = steps.iter().map(|_| Box::into_raw(Box::default())).collect();
    type Fut<'a> = Pin<Box<dyn Future<Output = Option<Result<(), StepErr>>> + 'a>>;
    let mut futs: Vec<Option<Fut<'_>>> = vec![];
    for ((st, c), p) in steps.iter().zip(&progs) {
        // each is used by one future only, and read after that is gone
        let p: &mut Prog = unsafe { &mut **p };
        let c = *c;
        futs.push(Some(Box::pin(maybe_cancel(perform(cn, st, &mut p.seen, &mut p.ops, &mut p.doing), c))));
    }
    let mut order: Vec<usize> = vec![];
    let mut res: Vec<Option<Option<Result<(), StepErr>>>> = (0..n).map(|_| None).collect();
    poll_fn(|cx| {
        let mut todo: Vec<usize> = (0..n).filter(|i| futs[*i].is_some()).collect();
        while !todo.is_empty() {
            let k = if todo.len() > 1 { sim(|s| s.work.below(todo.len() as u32)) as usize } else { 0 };
            let i = todo.remove(k);
            if !order.contains(&i) {
                order.push(i);
            }
            if let Poll::Ready(r) = futs[i].as_mut().unwrap().as_mut().poll(cx) {
                futs[i] = None;
                res[i] = Some(r);
            }
        }
        if futs.iter().all(|f| f.is_none()) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    })
    .await;
    drop(futs);
    let mut out: Vec<Option<Done>> = vec![];
    for (p, r) in progs.into_iter().zip(res) {
        let p = unsafe { Box::from_raw(p) };
        let res = match r.unwrap() {
            None => Res::Cancelled,
            Some(Ok(())) => Res::Ok,
            Some(Err(StepErr::Refused)) => Res::Refused,
            Some(Err(StepErr::Other(e))) => Res::Failed(e.to_string()),
        };
        out.push(Some(Done { ops: p.ops, doing: p.doing, res }));
    }
    order.into_iter().map(|i| (steps[i].0.clone(), out[i].take().unwrap())).collect()
}

/// What the database may hold, given everything acknowledged so far: (committed, seen by the open transaction).
pub struct Cands {
    pub s: Vec<(RefDb, RefDb)>,
    /// inserts abandoned before their key was known: the text of the label
    pub hist: Vec<String>,
}
fn said(st: &Step, d: &Done) -> String {
    format!("{st:?}: {:?} {}", d.res, d.ops.iter().map(|o| o.show()).collect::<Vec<_>>().join("; "))
}
/// What the database may hold after an operation with this outcome.
fn outcomes((base, cur): &(RefDb, RefDb), d: &Done, tx: bool, out: &mut Vec<(RefDb, RefDb)>) {
    let mut c = cur.clone();
    let fits = match d.res {
        // failed: without effect
        Res::Failed(_) => true,
        _ => d.ops.iter().all(|o| o.replay(&mut c)),
    };
    if !fits {
        return;
    }
    if let (Res::Cancelled, Some(op)) = (&d.res, &d.doing) {
        let mut c2 = c.clone();
        if op.replay(&mut c2) {
            out.push((if tx { base.clone() } else { c2.clone() }, c2));
        }
    }
    out.push((if tx { base.clone() } else { c.clone() }, c));
}
fn orders(ds: &[(Step, Done)], used: u32, x: (RefDb, RefDb), tx: bool, out: &mut Vec<(RefDb, RefDb)>) {
    if used.count_ones() as usize == ds.len() {
        if !out.contains(&x) {
            out.push(x);
        }
        return;
    }
    for (i, d) in ds.iter().enumerate() {
        if used & 1 << i == 0 {
            let mut v = vec![];
            outcomes(&x, &d.1, tx, &mut v);
            for y in v {
                orders(ds, used | 1 << i, y, tx, out);
            }
        }
    }
}
impl Cands {
    fn note(&mut self, l: String) {
        slog!("{l}");
        self.hist.push(l);
        if self.hist.len() > 40 {
            self.hist.remove(0);
        }
    }
    pub fn fail(&self, class: &str, what: String) {
        sim(|s| s.violate(class, format!("{what}\n  after: {}", self.hist.join("\n         "))));
    }
    fn dedupe(&mut self) {
        let mut out: Vec<(RefDb, RefDb)> = vec![];
        for x in self.s.drain(..) {
            if !out.contains(&x) {
                out.push(x);
            }
        }
        self.s = out;
    }
    /// Apply the outcomes of operations that were issued together.
    fn apply_all(&mut self, ds: &[(Step, Done)], tx: bool) {
        if !crate::pg::on() || ds.len() < 2 {
            for (st, d) in ds {
                if !violated() {
                    self.apply(st, d, tx);
                }
            }
            return;
        }
        // PostgreSQL gets each operation in two requests, so they take effect in any order
        for (st, d) in ds {
            self.note(said(st, d));
        }
        let mut next = vec![];
        for (b, c) in &self.s {
            orders(ds, 0, (b.clone(), c.clone()), tx, &mut next);
        }
        if next.is_empty() {
            self.fail("wrong_result", format!("the results of the last {} operations fit no order of them", ds.len()));
            return;
        }
        self.s = next;
        self.dedupe();
    }
    /// Apply one operation's outcome; `tx`: inside the open transaction.
    fn apply(&mut self, st: &Step, d: &Done, tx: bool) {
        self.note(said(st, d));
        let mut next = vec![];
        for x in &self.s {
            outcomes(x, d, tx, &mut next);
        }
        if next.is_empty() {
            self.fail("wrong_result", format!("the result of {st:?} fits none of {} possible states", self.s.len()));
            return;
        }
        self.s = next;
        self.dedupe();
    }
    fn end(&mut self, committed: Option<bool>) {
        let mut next = vec![];
        for (b, c) in self.s.drain(..) {
            if committed != Some(true) {
                next.push((b.clone(), b));
            }
            if committed != Some(false) {
                next.push((c.clone(), c));
            }
        }
        self.s = next;
        self.dedupe();
    }
    /// The worker is idle and no transaction is open: what other connections see must be one of the possible states.
    pub fn settle(&mut self, when: &str) {
        match dump(DB) {
            Err(e) => self.fail("corrupt", e),
            Ok(d) => {
                let n = self.s.len();
                if let Some((b, _)) = self.s.iter().find(|x| x.0 == d).cloned() {
                    self.s = vec![(b.clone(), b)];
                    return;
                }
                let diff = self.s[0].0.diff(&d).unwrap_or_default();
                self.fail("state", format!("{when}: the stored data is none of the {n} possible states: {diff}"));
            }
        }
    }
}

fn gen_group(n: &mut i64, cancel_pm: u32, tx: bool) -> Vec<(Step, Option<Cancel>)> {
    let k = if crate::tur::on() { 1 } else { sim(|s| 1 + s.work.draw(4, |r| if r.chance(500) { 0 } else { r.below(4) })) };
    let mut v = vec![];
    for _ in 0..k {
        let st = match conc::step(0, n) {
            // two operations, between which others take effect
            Step::Incr(i) if k > 1 => Step::Put(i, *n),
            Step::Pause(_) => Step::Scan(0),
            // a refusal ends a transaction on PostgreSQL
            Step::InsPost(..) | Step::DelBlog(_) | Step::DelLabel(_) if tx && crate::pg::on() => Step::ScanPost,
            x => x,
        };
        let c = match st {
            // the key of an abandoned insert would be unknown
            Step::InsLabel(_) | Step::InsPost(..) => None,
            _ => draw_cancel(cancel_pm),
        };
        v.push((st, c));
    }
    v
}

fn check_errors(c: &Cands, ds: &[(Step, Done)], h0: u64) {
    for (st, d) in ds {
        if let Res::Failed(e) = &d.res {
            if sim(|s| s.plan.hits) == h0 && !me_dead() {
                c.fail("spurious_error", format!("{st:?} failed without a fault: {e}"));
            }
        }
    }
}

pub async fn pipeline(conn: &mut Conn, c: &mut Cands, cancel_pm: u32) {
    let mut n = 0;
    let units = 2 + sim(|s| s.work.below(10));
    for _ in 0..units {
        if violated() {
            return;
        }
        let a = sim(|s| s.work.rec.len());
        let h0 = sim(|s| {
            s.rearm();
            s.plan.hits
        });
        if sim(|s| s.work.chance(600)) {
            let ds = group(conn.cn(), gen_group(&mut n, cancel_pm, false)).await;
            check_errors(c, &ds, h0);
            c.apply_all(&ds, false);
        } else {
            transaction(conn, c, cancel_pm, &mut n).await;
        }
        if violated() {
            return;
        }
        if sim(|s| s.work.chance(600)) {
            // an acknowledged operation: everything before it is over
            sim(|s| s.end_faults());
            let ds = group(conn.cn(), vec![(Step::Get(0), None)]).await;
            let h0 = sim(|s| s.plan.hits);
            check_errors(c, &ds, h0);
            c.apply(&ds[0].0, &ds[0].1, false);
            if !violated() {
                c.settle("after an acknowledged operation");
            }
        }
        sim(|s| {
            let b = s.work.rec.len();
            s.work.spans.push((a, b));
        });
    }
}

async fn transaction(conn: &mut Conn, c: &mut Cands, cancel_pm: u32, n: &mut i64) {
    let h0 = sim(|s| s.plan.hits);
    let can = draw_cancel(cancel_pm);
    let tx: Tx<'_> = match maybe_cancel(conn.transaction(), can).await {
        None => {
            c.note("begin: cancelled".into());
            return;
        }
        Some(Err(e)) => {
            c.note(format!("begin: {e}"));
            if sim(|s| s.plan.hits) == h0 {
                c.fail("spurious_error", format!("begin failed without a fault: {e}"));
            }
            return;
        }
        Some(Ok(t)) => t,
    };
    c.note("begin".into());
    for _ in 0..sim(|s| s.work.below(4)) {
        let ds = group(tx.cn(), gen_group(n, cancel_pm, true)).await;
        // after a failed statement the transaction may be gone
        check_errors(c, &ds, if sim(|s| s.plan.hits) > h0 { u64::MAX } else { h0 });
        c.apply_all(&ds, true);
        if violated() {
            return;
        }
    }
    let can = draw_cancel(cancel_pm);
    let (what, r) = match sim(|s| s.work.weighted(&[6, 2, 2])) {
        0 => ("commit", maybe_cancel(tx.commit(), can).await),
        1 => ("rollback", maybe_cancel(tx.rollback(), can).await),
        _ => {
            drop(tx);
            ("drop", Some(Ok(())))
        }
    };
    c.note(format!("{what}: {}", match &r {
        None => "cancelled".into(),
        Some(Ok(())) => "ok".into(),
        Some(Err(e)) => e.to_string(),
    }));
    match (what, r) {
        ("commit", Some(Ok(()))) => c.end(Some(true)),
        ("commit", None) => c.end(None),
        (w, r) => {
            c.end(Some(false));
            if let Some(Err(e)) = r {
                if sim(|s| s.plan.hits) == h0 {
                    c.fail("spurious_error", format!("{w} failed without a fault: {e}"));
                }
            }
        }
    }
}

/// The connection serves new work.
pub async fn put_and_get(conn: &mut Conn, c: &mut Cands) {
    let h0 = sim(|s| s.plan.hits);
    for st in [Step::Put(0, 77), Step::Get(0)] {
        let ds = group(conn.cn(), vec![(st, None)]).await;
        check_errors(c, &ds, h0);
        c.apply(&ds[0].0, &ds[0].1, false);
    }
}

fn pipelined(cancel_pm: u32) {
    let (page, cache) = page_and_cache();
    fresh_db(DB, page);
    conc::prefill();
    let init = dump(DB).unwrap();
    draw_plan(&[Eio, Busy, Full], &[], 600);
    let ok = one_client(move || {
        let spec = ConnectionSpec::new("sqlite", DB);
        // an abandoned attempt to connect leaves nothing behind
        while sim(|s| s.work.chance(if cancel_pm > 0 { 200 } else { 0 })) {
            let can = draw_cancel(1000);
            let _ = now(maybe_cancel(butane::db::connect_async(&spec), can));
        }
        let mut conn = match connect() {
            Ok(c) => c,
            Err(e) => {
                sim(|s| s.violate("spurious_error", format!("connect: {e}")));
                return;
            }
        };
        set_cache(&conn, cache);
        let mut c = Cands { s: vec![(init.clone(), init)], hist: vec![] };
        now(pipeline(&mut conn, &mut c, cancel_pm));
        if violated() {
            return;
        }
        sim(|s| s.end_faults());
        now(put_and_get(&mut conn, &mut c));
        if violated() {
            return;
        }
        c.settle("at the end");
        // another connection is not hindered
        let mut kv = Kv { k: "other".into(), v: 1, note: None };
        let t0 = sim(|s| s.now_us);
        let r = butane::db::connect(&spec).and_then(|c2| butane::DataObjectOpsSync::save(&mut kv, &c2));
        let dt = sim(|s| s.now_us) - t0;
        if let Err(e) = r {
            c.fail("not_recovered", format!("another connection cannot write: {e}"));
        } else if dt > 1_000_000 {
            c.fail("slow_recovery", format!("another connection had to wait {dt} us to write"));
        }
        drop(conn);
    });
    if ok {
        nothing_left();
    }
    sim(|s| s.stat("nontrivial"));
}

// ---------------------------------------------------------------- the properties

fn sessions() {
    let which = sim(|s| s.work.below(3));
    one_client(move || {
        let (mix, ops) = match which {
            0 => (solo::mix04(), 16),
            1 => (solo::mix01(), 12),
            _ => (solo::mix05(), 20),
        };
        let st = session(Cfg { mix, faults: &[Eio, Full, Torn, Busy], must: &[], none_pm: 400, ops, lives: 1 });
        if st.ops > 3 {
            sim(|s| s.stat("nontrivial"));
        }
    });
    nothing_left();
}

pub fn c13() {
    match sim(|s| s.work.weighted(&[4, 4, 2])) {
        0 => pipelined(0),
        1 => sessions(),
        _ => {
            conc::clients(true);
            nothing_left();
        }
    }
}
pub fn c14() {
    pipelined(300);
}
