//! Connection pools (C16), and recovery of everything that survives a burst of faults (C20). Real r2d2 and deadpool pools
//! (with r2d2's own threads), kept or pooled connections, in one or several processes on one SQLite database.
use std::collections::BTreeMap;
use std::future::{poll_fn, Future};
use std::task::Poll;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use butane::db::{ConnectionManager, ConnectionSpec};
use butane::query::BoolExpr;
use butane::{AutoPk, ForeignKey, Many};

use crate::asy::{draw_cancel, maybe_cancel, nothing_left, Cancel};
use crate::cn::{self, Cn, Conn, Tx};
use crate::conc::locked;
use crate::core::{new_proc, panic_msg, run_clients, set_proc, sim, sleep_us, yield_point, Client, Fault};
use crate::models::*;
use crate::refdb::{dump, V};
use crate::slog;
use crate::solo::{self, at_once, draw_plan, fresh_db, now, page_and_cache, with_runtime, DB};
use crate::store::{me_dead, violated};
use Fault::*;

type Dp = deadpool::managed::Pool<ConnectionManager>;
type R2 = r2d2::Pool<ConnectionManager>;

fn w<T>(f: impl FnOnce(&mut crate::core::Stream) -> T) -> T {
    sim(|s| f(&mut s.work))
}
fn bad(class: &str, d: String) {
    sim(|s| s.violate(class, d));
}
fn hits() -> u64 {
    sim(|s| s.plan.hits)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum SrcKind {
    KeptSync,
    KeptAsync,
    R2,
    Dp,
}
#[derive(Clone)]
enum Src {
    Kept,
    R2(R2),
    Dp(Dp),
}
enum Held {
    C(Conn),
    R(r2d2::PooledConnection<ConnectionManager>),
    D(deadpool::managed::Object<ConnectionManager>),
}
impl Held {
    fn cn(&self) -> Cn<'_, '_> {
        match self {
            Held::C(c) => c.cn(),
            Held::R(c) => Cn::SC(c),
            Held::D(c) => Cn::AC(c),
        }
    }
    async fn transaction(&mut self) -> butane::Result<Tx<'_>> {
        Ok(match self {
            Held::C(c) => return c.transaction().await,
            Held::R(c) => Tx::S(butane::db::BackendConnection::transaction(&mut **c)?),
            Held::D(c) => Tx::A(butane::db::BackendConnectionAsync::transaction(&mut **c).await?),
        })
    }
    fn is_closed(&self) -> bool {
        match self {
            Held::C(Conn::S(c)) => butane::db::BackendConnection::is_closed(c),
            Held::C(Conn::A(c)) => butane::db::BackendConnectionAsync::is_closed(c),
            Held::C(Conn::W(_)) => unreachable!(),
            Held::R(c) => butane::db::BackendConnection::is_closed(&**c),
            Held::D(c) => butane::db::BackendConnectionAsync::is_closed(&**c),
        }
    }
    fn asy(&mut self) -> Option<&mut butane::db::ConnectionAsync> {
        match self {
            Held::C(Conn::A(c)) => Some(c),
            Held::D(c) => Some(c),
            _ => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fate {
    Kept,
    Gone,
    /// all of it or nothing
    Either,
}
struct Batch {
    keys: Vec<String>,
    fate: Fate,
}
#[derive(Default)]
struct Book {
    /// batch number -> its rows
    batches: BTreeMap<i64, Batch>,
    next: i64,
    arrived: usize,
    turn: usize,
    good: u32,
}
type Sh = Arc<Mutex<Book>>;

impl Book {
    fn open(&mut self, n: usize) -> (i64, Vec<String>) {
        self.next += 1;
        let id = self.next;
        let keys: Vec<String> = (0..n).map(|i| format!("b{id}-{i}")).collect();
        self.batches.insert(id, Batch { keys: keys.clone(), fate: Fate::Either });
        (id, keys)
    }
    fn close(&mut self, id: i64, fate: Fate) {
        self.batches.get_mut(&id).unwrap().fate = fate;
        if fate == Fate::Kept {
            self.good += 1;
        }
    }
}

/// Compare rows with the book. `at` holds the fates known before the rows were read.
fn judge(rows: &BTreeMap<String, i64>, at: &BTreeMap<i64, (Vec<String>, Fate)>) -> Option<String> {
    for (id, (keys, fate)) in at {
        let n = keys.iter().filter(|k| rows.get(*k) == Some(id)).count();
        match fate {
            Fate::Kept if n < keys.len() => return Some(format!("batch {id} was acknowledged, {n} of {} rows are there", keys.len())),
            Fate::Gone if n > 0 => return Some(format!("batch {id} was not committed, {n} of {} rows are there", keys.len())),
            Fate::Either if n > 0 && n < keys.len() => return Some(format!("{n} of {} rows of batch {id} are there", keys.len())),
            _ => {}
        }
    }
    None
}
fn snapshot(sh: &Sh) -> BTreeMap<i64, (Vec<String>, Fate)> {
    sh.lock().unwrap().batches.iter().map(|(i, b)| (*i, (b.keys.clone(), b.fate))).collect()
}
/// What the file holds, if it can be read right now.
fn on_disk() -> Result<BTreeMap<String, i64>, String> {
    let d = dump(DB)?;
    let mut out = BTreeMap::new();
    for r in d.tab("Kv").values() {
        if let (V::T(k), V::I(v)) = (&r[0], &r[1]) {
            out.insert(k.clone(), *v);
        }
    }
    Ok(out)
}
fn check_disk(sh: &Sh, when: &str) {
    let at = snapshot(sh);
    match on_disk() {
        Err(e) => bad("corrupt", format!("{when}: {e}")),
        Ok(rows) => {
            if let Some(d) = judge(&rows, &at) {
                bad("wrong_data", format!("{when}: {d}"));
            }
        }
    }
}

fn kv(k: &str, id: i64) -> Kv {
    Kv { k: k.into(), v: id, note: None }
}

/// An error that nothing explains.
fn judge_err(what: &str, e: &butane::Error, h0: u64, alone: bool) -> bool {
    if me_dead() || (hits() != h0) || (!alone && locked(e)) {
        return true;
    }
    bad("spurious_error", format!("{what}: {e}"));
    false
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Commit,
    Rollback,
    Drop,
    Panic,
    BadSql,
}

/// One use of a connection. `alone`: nothing may go wrong.
async fn use_it(h: &mut Held, sh: &Sh, alone: bool) {
    let what = w(|w| w.weighted(&[8, 10, 5, 2]));
    let h0 = hits();
    match what {
        0 => {
            let (id, keys) = sh.lock().unwrap().open(1);
            slog!("save {}", keys[0]);
            let mut o = kv(&keys[0], id);
            let can = if alone { None } else { draw_cancel(120) };
            let r = maybe_cancel(cn::save(h.cn(), &mut o), can).await;
            finish(sh, id, r, h0, alone, "save");
        }
        1 => {
            let n = 1 + w(|w| w.below(3)) as usize;
            let end = w(|w| *w.pick(&[End::Commit, End::Rollback, End::Drop, End::Panic, End::BadSql, End::Commit]));
            let end = if alone { End::Commit } else { end };
            let (id, keys) = sh.lock().unwrap().open(n);
            slog!("transaction {id} of {n}, {end:?}");
            let can = if alone { None } else { draw_cancel(120) };
            // the outcome if the future is abandoned
            let stage = Arc::new(Mutex::new(false));
            let st = stage.clone();
            let fut = async {
                let tx = h.transaction().await?;
                for k in &keys {
                    cn::save(tx.cn(), &mut kv(k, id)).await?;
                }
                match end {
                    End::Rollback => {
                        tx.rollback().await?;
                        Ok(false)
                    }
                    End::Drop => {
                        drop(tx);
                        Ok(false)
                    }
                    End::Panic => {
                        sim(|s| s.stat("fault:client_panic"));
                        panic!("planned");
                    }
                    End::BadSql => {
                        let r = cn::execute(tx.cn(), "INSERT INTO Nowhere VALUES (1)").await;
                        if r.is_ok() {
                            bad("wrong_result", "a statement on a missing table succeeded".into());
                        }
                        drop(tx);
                        Ok(false)
                    }
                    End::Commit => {
                        *st.lock().unwrap() = true;
                        tx.commit().await?;
                        Ok(true)
                    }
                }
            };
            let r = caught(maybe_cancel(fut, can)).await;
            let committing = *stage.lock().unwrap();
            match r {
                Err(()) => sh.lock().unwrap().close(id, Fate::Gone),
                Ok(None) if !committing => sh.lock().unwrap().close(id, Fate::Gone),
                Ok(None) => {}
                Ok(Some(Ok(true))) => finish(sh, id, Some(Ok(())), h0, alone, "transaction"),
                Ok(Some(Ok(false))) => sh.lock().unwrap().close(id, Fate::Gone),
                Ok(Some(Err(e))) => {
                    if !committing && !me_dead() {
                        sh.lock().unwrap().close(id, Fate::Gone);
                    }
                    finish(sh, id, Some(Err(e)), h0, alone, "transaction");
                }
            }
        }
        2 => {
            let at = snapshot(sh);
            let can = if alone { None } else { draw_cancel(120) };
            let q = cn::QSpec { filter: Some(BoolExpr::True), ..Default::default() };
            match maybe_cancel(cn::load(h.cn(), q.build::<Kv>()), can).await {
                None => {}
                Some(Ok(v)) => {
                    let rows: BTreeMap<String, i64> = v.into_iter().map(|k| (k.k, k.v)).collect();
                    if let Some(d) = judge(&rows, &at) {
                        bad("wrong_data", format!("read: {d}"));
                    }
                }
                Some(Err(e)) => {
                    judge_err("read", &e, h0, alone);
                }
            }
        }
        _ => {
            // foreign keys are enforced
            let mut p = Post {
                id: AutoPk::uninitialized(),
                title: "t".into(),
                likes: 0,
                blog: ForeignKey::from_pk(987_654),
                cover: None,
                prev: None,
                tags: Many::new(),
                labels: Many::new(),
            };
            match cn::save(h.cn(), &mut p).await {
                Ok(()) => bad("fk_not_enforced", "a dangling reference was stored through a connection handed out".into()),
                Err(e) => {
                    if !e.to_string().contains("FOREIGN KEY") {
                        judge_err("dangling save", &e, h0, alone);
                    }
                }
            }
        }
    }
}
fn finish(sh: &Sh, id: i64, r: Option<butane::Result<()>>, h0: u64, alone: bool, what: &str) {
    match r {
        None => {}
        Some(Ok(())) => {
            if me_dead() {
                return;
            }
            sh.lock().unwrap().close(id, Fate::Kept);
            slog!("{what} {id} ok");
            // permanent, and visible to everybody
            check_disk(sh, &format!("after {what} {id} was acknowledged"));
        }
        Some(Err(e)) => {
            slog!("{what} {id}: {}", e.to_string().split(" task ").next().unwrap());
            judge_err(what, &e, h0, alone);
        }
    }
}
/// A future that may panic as planned.
async fn caught<F: Future>(f: F) -> Result<F::Output, ()> {
    let mut f = Box::pin(f);
    poll_fn(move |cx| match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx))) {
        Ok(Poll::Ready(r)) => Poll::Ready(Ok(r)),
        Ok(Poll::Pending) => Poll::Pending,
        Err(e) => {
            let m = panic_msg(&e);
            if m != "planned" && !me_dead() {
                bad("panic", format!("client: {m}"));
            }
            Poll::Ready(Err(()))
        }
    })
    .await
}

/// A user's closure fails and makes the connection unusable, or does some work.
async fn closure(h: &mut Held, sh: &Sh) {
    let Some(c) = h.asy() else { return };
    let (id, keys) = sh.lock().unwrap().open(2);
    let fail = w(|w| w.below(4));
    let can = draw_cancel(150);
    slog!("closure {id} {fail}");
    let h0 = hits();
    let ks = keys.clone();
    let committing = Arc::new(Mutex::new(false));
    let c2 = committing.clone();
    let r = maybe_cancel(
        c.with_sync(move |c| {
            let go = |c: &mut _| -> butane::Result<()> {
                let tx = butane::db::BackendConnection::transaction(c)?;
                for k in &ks {
                    butane::DataObjectOpsSync::save(&mut kv(k, id), &tx)?;
                }
                if fail == 1 {
                    sim(|s| s.stat("fault:closure_panic"));
                    panic!("planned");
                }
                if fail == 2 {
                    return Err(butane::Error::Internal("planned".into()));
                }
                *c2.lock().unwrap() = true;
                tx.commit()
            };
            go(c)
        }),
        can,
    )
    .await;
    let committing = *committing.lock().unwrap();
    match r {
        Some(Ok(())) => finish(sh, id, Some(Ok(())), h0, false, "closure"),
        Some(Err(e)) => {
            slog!("closure {id}: {}", e.to_string().split(" task ").next().unwrap());
            if !committing && !me_dead() {
                sh.lock().unwrap().close(id, Fate::Gone);
            }
        }
        None => {}
    }
}

fn take(src: &Src, can: Option<Cancel>) -> Option<Result<Held, String>> {
    match src {
        Src::Kept => match solo::connect() {
            Ok(c) => Some(Ok(Held::C(c))),
            Err(e) => Some(Err(e.to_string())),
        },
        Src::R2(p) => Some(p.get().map(Held::R).map_err(|e| e.to_string())),
        Src::Dp(p) => now(maybe_cancel(p.get(), can)).map(|r| r.map(Held::D).map_err(|e| e.to_string())),
    }
}
fn sizes(src: &Src) {
    let (n, max) = match src {
        Src::Kept => return,
        Src::R2(p) => (p.state().connections as usize, p.max_size() as usize),
        Src::Dp(p) => (p.status().size, p.status().max_size),
    };
    if n > max {
        bad("too_many", format!("the pool has {n} connections, its size is {max}"));
    }
}
fn on<T>(h: &mut Held, f: impl AsyncFnOnce(&mut Held) -> T) -> T {
    if solo::is_async() {
        now(f(h))
    } else {
        at_once(f(h))
    }
}
fn let_go(h: Held) {
    if let Err(e) = catch_unwind(AssertUnwindSafe(|| drop(h))) {
        if !me_dead() {
            bad("panic", format!("dropping a connection: {}", panic_msg(&e)));
        }
    }
}

/// A user of a pool, or of connections of its own. Returns what it still holds.
fn user(src: &Src, sh: &Sh, p: &Proc, faulty: bool) -> Vec<Held> {
    let uses = p.uses;
    let mut kept: Option<Held> = None;
    let mut left = uses / 2 + w(|w| w.below(uses));
    while left > 0 && !violated() && !me_dead() {
        left -= 1;
        let mut h = match kept.take() {
            Some(h) => h,
            None => {
                let h0 = hits();
                let can = if matches!(src, Src::Dp(_)) { draw_cancel(150) } else { None };
                match take(src, can) {
                    None => continue,
                    Some(Ok(h)) => {
                        sim(|s| s.stat("probe:checked_out"));
                        if h.is_closed() && !me_dead() {
                            bad("closed", "a connection handed out says it is closed".into());
                            return vec![];
                        }
                        h
                    }
                    Some(Err(e)) => {
                        slog!("none: {e}");
                        if me_dead() {
                            return vec![];
                        }
                        if !faulty && hits() == h0 {
                            // r2d2 gives up after its timeout if the others keep theirs for long
                            if !matches!(src, Src::R2(_)) {
                                bad("spurious_error", format!("no connection: {e}"));
                                return vec![];
                            }
                        }
                        sim(|s| s.stat("probe:no_connection"));
                        continue;
                    }
                }
            }
        };
        let mut spoilt = false;
        for _ in 0..1 + w(|w| w.below(3)) {
            if violated() || me_dead() {
                break;
            }
            if w(|w| w.chance(180)) && h.asy().is_some() {
                on(&mut h, async |h| closure(h, sh).await);
                // it may have left the connection unusable: nothing more with this one
                spoilt = true;
                break;
            }
            on(&mut h, async |h| use_it(h, sh, false).await);
        }
        sizes(src);
        let keep = !spoilt && if matches!(src, Src::Kept) { w(|w| !w.chance(120)) } else { w(|w| w.chance(200)) };
        if keep {
            kept = Some(h);
        } else {
            let_go(h);
        }
        for _ in 0..w(|w| w.below(3)) {
            yield_point();
        }
    }
    if p.users > p.max {
        // somebody may be waiting for it
        if let Some(h) = kept.take() {
            let_go(h);
        }
    }
    slog!("user done");
    kept.into_iter().collect()
}

/// Faults have stopped and nobody else is at work: everything must work, at once.
fn recovered(src: &Src, held: Vec<Held>, sh: &Sh) {
    sim(|s| s.stat("probe:recovered"));
    for mut h in held {
        if h.is_closed() {
            bad("closed", "a connection that served until now says it is closed".into());
            return;
        }
        for _ in 0..2 {
            if !violated() {
                on(&mut h, async |h| use_it(h, sh, true).await);
            }
        }
        let_go(h);
        if violated() {
            return;
        }
    }
    // every slot of the pool
    let n = match src {
        Src::Kept => 1,
        Src::R2(p) => p.max_size() as usize,
        Src::Dp(p) => p.status().max_size,
    };
    let mut all = vec![];
    for _ in 0..n {
        let mut got = None;
        for _ in 0..3 {
            match take(src, None) {
                Some(Ok(h)) => {
                    got = Some(h);
                    break;
                }
                Some(Err(e)) => {
                    slog!("still none: {e}");
                    if !matches!(src, Src::R2(_)) {
                        bad("not_recovered", format!("no connection although no fault is left: {e}"));
                        return;
                    }
                }
                None => {}
            }
        }
        match got {
            Some(h) => all.push(h),
            None => {
                bad("not_recovered", format!("the pool cannot provide {n} connections though no fault is left"));
                return;
            }
        }
    }
    sizes(src);
    for h in all.iter_mut() {
        if h.is_closed() {
            bad("closed", "a connection handed out says it is closed".into());
            return;
        }
        for _ in 0..2 {
            if !violated() {
                on(h, async |h| use_it(h, sh, true).await);
            }
        }
    }
    for h in all {
        let_go(h);
    }
    if let Src::Dp(p) = src {
        let s = p.status();
        if s.available != s.size && !violated() {
            bad("lost_slot", format!("{} of {} connections available after all were returned", s.available, s.size));
        }
    }
}

fn make(kind: SrcKind, max: u32, faulty: bool) -> Option<Src> {
    let m = ConnectionManager::new(ConnectionSpec::new("sqlite", DB));
    Some(match kind {
        SrcKind::KeptSync | SrcKind::KeptAsync => Src::Kept,
        SrcKind::Dp => Src::Dp(Dp::builder(m).max_size(max as usize).build().expect("pool")),
        SrcKind::R2 => {
            let (idle, secs) = w(|w| (*w.pick(&[None, Some(0), Some(1)]), *w.pick(&[4u64, 1, 30])));
            let b = || {
                R2::builder()
                    .max_size(max)
                    .min_idle(idle)
                    .connection_timeout(Duration::from_secs(secs))
                    .error_handler(Box::new(r2d2::NopErrorHandler))
            };
            if w(|w| w.chance(500)) {
                Src::R2(b().build_unchecked(m))
            } else {
                match b().build(m.clone()) {
                    Ok(p) => Src::R2(p),
                    Err(e) => {
                        if !faulty {
                            bad("spurious_error", format!("building a pool: {e}"));
                            return None;
                        }
                        Src::R2(b().build_unchecked(m))
                    }
                }
            }
        }
    })
}

#[derive(Clone, Copy, Debug)]
struct Proc {
    kind: SrcKind,
    users: u32,
    max: u32,
    uses: u32,
}
/// One process: its users at work, then, when all processes are done and faults have stopped, its recovery.
fn process(p: Proc, sh: Sh, total: usize, me: usize, faulty: bool) {
    let asy = matches!(p.kind, SrcKind::KeptAsync | SrcKind::Dp);
    let run = |f: Box<dyn FnOnce() + '_>| if asy { with_runtime(f) } else { f() };
    run(Box::new(|| {
        slog!("{p:?}");
        let Some(src) = make(p.kind, p.max, faulty) else { return };
        let mut held: Vec<Held> = vec![];
        let out: Arc<Mutex<Vec<Held>>> = Arc::default();
        let hs: Vec<_> = (1..p.users)
            .map(|_| {
                let (src, sh, out) = (src.clone(), sh.clone(), out.clone());
                std::thread::spawn(move || {
                    let body = || {
                        let r = catch_unwind(AssertUnwindSafe(|| user(&src, &sh, &p, faulty)));
                        match r {
                            Ok(h) => out.lock().unwrap().extend(h),
                            Err(e) if !me_dead() => bad("panic", format!("client: {}", panic_msg(&e))),
                            Err(_) => {}
                        }
                    };
                    if asy {
                        with_runtime(body)
                    } else {
                        body()
                    }
                })
            })
            .collect();
        held.extend(user(&src, &sh, &p, faulty));
        for h in hs {
            let _ = h.join();
        }
        held.append(&mut out.lock().unwrap());
        // wait for the others
        {
            let mut b = sh.lock().unwrap();
            b.arrived += 1;
            if b.arrived == total {
                sim(|s| s.end_faults());
            }
        }
        let mut polls = 0;
        loop {
            let b = sh.lock().unwrap();
            if b.arrived >= total || violated() {
                break;
            }
            drop(b);
            sleep_us(20_000);
            polls += 1;
            if polls > 200_000 {
                bad("stuck", "other clients do not finish".into());
                return;
            }
        }
        // abandoned operations end by themselves
        sleep_us(20_000_000);
        loop {
            let b = sh.lock().unwrap();
            if b.turn >= me || violated() {
                break;
            }
            drop(b);
            sleep_us(20_000);
        }
        if me_dead() && !violated() {
            // the process is gone with all it held; a new one takes its place
            for h in held {
                let_go(h);
            }
            let _ = catch_unwind(AssertUnwindSafe(|| drop(src)));
            solo::become_proc(new_proc());
            if let Some(src) = make(p.kind, p.max, false) {
                recovered(&src, vec![], &sh);
                drop(src);
            }
        } else {
            if !violated() {
                recovered(&src, held, &sh);
            } else {
                for h in held {
                    let_go(h);
                }
            }
            drop(src);
        }
        if p.kind == SrcKind::R2 {
            // r2d2's threads find out by and by
            sleep_us(130_000_000);
        }
        sh.lock().unwrap().turn += 1;
    }));
}

fn go(procs: Vec<Proc>, faulty: bool) {
    let sh: Sh = Arc::default();
    sim(|s| s.switch_pm = *s.sched.pick(&[300u32, 50, 600]));
    let total = procs.len();
    let mut cs: Vec<Client> = vec![];
    for (i, p) in procs.into_iter().enumerate() {
        let sh = sh.clone();
        cs.push((format!("p{i}"), new_proc(), Box::new(move || process(p, sh, total, i, faulty))));
    }
    sim(|s| s.rearm());
    let ok = run_clients(cs);
    sim(|s| s.end_faults());
    set_proc(crate::core::ORACLE);
    if violated() || !ok {
        return;
    }
    check_disk(&sh, "at the end");
    nothing_left();
    if sh.lock().unwrap().good > 3 {
        sim(|s| s.stat("nontrivial"));
    }
}

pub fn c16() {
    let (page, _) = page_and_cache();
    fresh_db(DB, page);
    draw_plan(&[Eio, Full, Busy, CantOpen, Torn], &[], 250);
    let faulty = sim(|s| s.plan.mean_gap > 0);
    let kind = w(|w| *w.pick(&[SrcKind::R2, SrcKind::Dp]));
    let (users, max) = w(|w| (1 + w.below(3), 1 + w.below(3)));
    let mut ps = vec![Proc { kind, users, max, uses: 8 }];
    if w(|w| w.chance(250)) {
        ps.push(Proc { kind: SrcKind::KeptSync, users: 1, max: 1, uses: 6 });
    }
    go(ps, faulty);
}
pub fn c20() {
    let (page, _) = page_and_cache();
    fresh_db(DB, page);
    sim(|s| {
        let mut ks = vec![];
        for k in [Kill, Eio, Full, Busy, CantOpen, Torn] {
            if s.fault.chance(600) {
                ks.push(k);
            }
        }
        if ks.is_empty() {
            ks = vec![Kill, Eio];
        }
        let gap = *s.fault.pick(&[60u32, 8, 25, 150]);
        let n = 4 + s.fault.below(20);
        s.set_plan(&ks, gap, n);
    });
    let n = 2 + w(|w| w.below(2));
    let ps = (0..n)
        .map(|_| {
            let kind = w(|w| *w.pick(&[SrcKind::KeptSync, SrcKind::KeptAsync, SrcKind::R2, SrcKind::Dp]));
            let pool = matches!(kind, SrcKind::R2 | SrcKind::Dp);
            let users = if pool { 1 + w(|w| w.below(2)) } else { 1 };
            Proc { kind, users, max: 1 + w(|w| w.below(2)), uses: 8 }
        })
        .collect();
    go(ps, true);
}

/// parking_lot sizes a table by the number of threads that ever waited at once, reading the clock while it grows. Let it
/// grow now, so that no run depends on the runs before it.
pub fn warm() {
    use parking_lot::{Condvar, Mutex};
    let m = Arc::new((Mutex::new((0, false)), Condvar::new()));
    let hs: Vec<_> = (0..150)
        .map(|_| {
            let m = m.clone();
            std::thread::Builder::new()
                .stack_size(64 << 10)
                .spawn(move || {
                    let mut g = m.0.lock();
                    g.0 += 1;
                    while !g.1 {
                        m.1.wait(&mut g);
                    }
                })
                .unwrap()
        })
        .collect();
    while m.0.lock().0 < 150 {
        std::thread::yield_now();
    }
    m.0.lock().1 = true;
    m.1.notify_all();
    for h in hs {
        let _ = h.join();
    }
}
