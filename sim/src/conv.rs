//! Turning connections from synchronous to asynchronous and back, and closures on asynchronous connections (C15).
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

use butane::db::{ConnectionAsync, ConnectionSpec};
use butane_core::db::SyncAdapter;

use crate::asy::{draw_cancel, maybe_cancel, nothing_left, one_client};
use crate::cn::{self, Conn};
use crate::conc::{self, judge, perform, prefill, script, Shared, Step, Unit};
use crate::core::{panic_msg, sim, Fault};
use crate::models::*;
use crate::refdb::dump;
use crate::slog;
use crate::solo::{at_once, draw_plan, fresh_db, now, page_and_cache, DB};
use crate::store::violated;

fn on<T>(conn: &mut Conn, f: impl AsyncFnOnce(&mut Conn) -> T) -> T {
    match conn {
        Conn::A(_) => now(f(conn)),
        _ => at_once(f(conn)),
    }
}
fn hits() -> u64 {
    sim(|s| s.plan.hits)
}
fn excuse() {
    // from here on errors are expected
    sim(|s| s.plan.hits += 1);
}

/// The connection's temporary table still says what was put there.
async fn temp_kept(cn: cn::Cn<'_, '_>, tok: i64, when: &str) {
    let h0 = hits();
    match cn::try_get::<TempRec>(cn, 1i64).await {
        Ok(Some(t)) if t.n == tok => {}
        Ok(t) => sim(|s| s.violate("other_connection", format!("{when}: the temporary table holds {t:?}, not {tok}"))),
        Err(e) => {
            if hits() == h0 && !conc::locked(&e) {
                sim(|s| s.violate("spurious_error", format!("{when}: reading the temporary table: {e}")))
            }
        }
    }
}

/// A connection that lost its closure to a panic or a cancellation reports errors or is still on the original database:
/// true if it says that it made the table `mark` there.
async fn same_database(conn: &mut Conn, mark: &str) -> bool {
    match cn::has_table(conn.cn(), "Post").await {
        Ok(true) | Err(_) => {}
        Ok(false) => {
            sim(|s| s.violate("other_connection", "a poisoned connection knows nothing of the database's tables".to_string()));
            return false;
        }
    }
    let sql = format!("CREATE TABLE {mark} (x INTEGER)");
    match sim(|s| s.work.below(3)) {
        0 => cn::execute(conn.cn(), &sql).await.is_ok(),
        1 => match conn.transaction().await {
            Err(_) => false,
            Ok(t) => cn::execute(t.cn(), &sql).await.is_ok() && t.commit().await.is_ok(),
        },
        _ => false,
    }
}
fn check_mark(mark: &str) {
    sim(|s| s.end_faults());
    let c = butane::db::connect(&ConnectionSpec::new("sqlite", DB));
    match c.and_then(|c| butane::db::ConnectionMethods::has_table(&c, mark).map(|x| (x, c))) {
        Ok((true, c)) => {
            let _ = butane::db::ConnectionMethods::execute(&c, &format!("DROP TABLE {mark}"));
        }
        Ok((false, _)) => sim(|s| {
            s.violate("other_connection", format!("{mark}, made on a poisoned connection, is not in the database"))
        }),
        Err(e) if conc::locked(&e) => {}
        Err(e) => sim(|s| s.violate("spurious_error", format!("looking for {mark}: {e}"))),
    }
}

fn open(tok: i64) -> Option<Conn> {
    let spec = ConnectionSpec::new("sqlite", DB);
    sim(|s| s.end_faults());
    let c = if sim(|s| s.work.chance(500)) {
        butane::db::connect(&spec).map(Conn::S)
    } else {
        now(butane::db::connect_async(&spec)).map(Conn::A)
    };
    let r = match c {
        Err(e) => {
            sim(|s| s.violate("spurious_error", format!("connect: {e}")));
            None
        }
        Ok(mut c) => {
            let mut r = Ok(());
            for _ in 0..6 {
                r = on(&mut c, async |c| {
                    cn::execute(c.cn(), "CREATE TEMP TABLE IF NOT EXISTS TempRec (id INTEGER PRIMARY KEY, n INTEGER NOT NULL)")
                        .await?;
                    cn::save(c.cn(), &mut TempRec { id: 1, n: tok }).await
                });
                // an abandoned closure may still hold the database
                if !r.as_ref().is_err_and(conc::locked) {
                    break;
                }
            }
            if let Err(e) = r {
                sim(|s| s.violate("spurious_error", format!("temporary table: {e}")));
            }
            Some(c)
        }
    };
    r
}

struct Job {
    units: Vec<Unit>,
    sh: Arc<Mutex<Shared>>,
    tok: i64,
    /// panic before this unit; or, in the middle of it
    panic_at: Option<usize>,
    raw: bool,
    fail: bool,
    panicked: Arc<AtomicBool>,
}
struct Note(Arc<AtomicBool>);
impl Drop for Note {
    fn drop(&mut self) {
        self.0.store(std::thread::panicking(), Ordering::SeqCst);
    }
}
fn work(j: Job, sc: &mut SyncAdapter<ConnectionAsync>) -> butane::Result<i64> {
    let _n = Note(j.panicked.clone());
    // only lives as long as this call
    let sc: &'static mut SyncAdapter<ConnectionAsync> = unsafe { &mut *(sc as *mut _) };
    let mut c = Conn::W(sc);
    let mut seen = vec![];
    at_once(temp_kept(c.cn(), j.tok, "in with_sync"));
    for (i, u) in j.units.iter().enumerate() {
        if j.panic_at == Some(i) {
            if j.raw {
                let r = at_once(async {
                    cn::execute(c.cn(), "BEGIN").await?;
                    let (mut ops, mut doing) = (vec![], None);
                    let _ = perform(c.cn(), &Step::Put(1, 4242), &mut seen, &mut ops, &mut doing).await;
                    Ok::<_, butane::Error>(())
                });
                let _ = r;
            }
            slog!("closure panics");
            sim(|s| s.stat("fault:closure_panic"));
            panic!("planned");
        }
        if violated() {
            break;
        }
        at_once(conc::unit("closure", &mut c, u, &mut seen, &j.sh));
    }
    slog!("closure ends");
    if j.fail {
        Err(butane::Error::Internal(format!("token{}", j.tok)))
    } else {
        Ok(j.tok * 7)
    }
}

fn client(sh: Arc<Mutex<Shared>>) {
    let mut tok = 1;
    let Some(mut conn) = open(tok) else { return };
    let mut seen = vec![];
    let mut depth = 0;
    let n = 3 + sim(|s| s.work.below(9));
    let mut poisoned = 0;
    for _ in 0..n {
        if violated() {
            return;
        }
        let a = sim(|s| s.work.rec.len());
        sim(|s| s.rearm());
        let what = sim(|s| s.work.weighted(&[5, 5, 6, 1]));
        match what {
            0 => {
                for u in script(0).into_iter().take(2) {
                    on(&mut conn, async |c| conc::unit("main", c, &u, &mut seen, &sh).await);
                }
            }
            1 if depth < 4 => {
                depth += 1;
                let inside = sim(|s| s.work.chance(500));
                slog!("convert, inside a runtime: {inside}");
                let r = match conn {
                    Conn::S(c) => {
                        if inside {
                            now(async { c.into_async() }).map(Conn::A)
                        } else {
                            c.into_async().map(Conn::A)
                        }
                    }
                    Conn::A(c) => {
                        if inside {
                            now(async { c.into_sync() }).map(Conn::S)
                        } else {
                            c.into_sync().map(Conn::S)
                        }
                    }
                    Conn::W(_) => unreachable!(),
                };
                match r {
                    Ok(c) => conn = c,
                    Err(e) => {
                        sim(|s| s.violate("spurious_error", format!("conversion failed: {e}")));
                        return;
                    }
                }
            }
            2 => {
                let Conn::A(c) = &mut conn else { continue };
                let units = script(1);
                let panic_at = sim(|s| if s.work.chance(250) { Some(s.work.below(units.len() as u32) as usize) } else { None });
                let (raw, fail) = sim(|s| (s.work.chance(500), s.work.chance(300)));
                let mut units = units;
                if let (Some(p), false) = (panic_at, raw) {
                    // in the middle of a transaction
                    if let Some(Unit::Tx(steps, _)) = units.get_mut(p) {
                        let k = sim(|s| s.work.below(steps.len() as u32 + 1)) as usize;
                        steps.insert(k, Step::Panic);
                        if p + 1 < units.len() {
                            units.truncate(p + 1);
                        }
                    }
                }
                let mid = units.iter().any(|u| matches!(u, Unit::Tx(s, _) if s.iter().any(|x| matches!(x, Step::Panic))));
                let can = draw_cancel(if poisoned < 2 { 250 } else { 0 });
                let panicked = Arc::new(AtomicBool::new(false));
                let j = Job { panicked: panicked.clone(), units, sh: sh.clone(), tok, panic_at: if mid { None } else { panic_at }, raw, fail };
                let h0 = hits();
                slog!("with_sync");
                let r = now(maybe_cancel(c.with_sync(move |sc| work(j, sc)), can));
                match r {
                    None => {
                        slog!("with_sync: cancelled");
                        poisoned += 1;
                        depth = 99;
                    }
                    Some(r) => {
                        slog!("with_sync: {}", match &r { Ok(_) => "ok".into(), Err(e) => e.to_string().split(" task ").next().unwrap().to_string() });
                        let good = match &r {
                            _ if panicked.load(Ordering::SeqCst) => {
                                depth = 99;
                                r.is_err()
                            }
                            Ok(x) => !fail && *x == tok * 7,
                            Err(butane::Error::Internal(m)) => fail && *m == format!("token{tok}"),
                            Err(_) => hits() != h0,
                        };
                        if !good {
                            sim(|s| s.violate("wrong_result", format!("with_sync returned {r:?}, fail {fail} panic {panic_at:?}")));
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        if depth == 99 {
            // every later use is an error, or works on the original database
            excuse();
            let k = sim(|s| s.work.below(3));
            for u in script(2).into_iter().take(k as usize) {
                on(&mut conn, async |c| conc::unit("poisoned", c, &u, &mut seen, &sh).await);
            }
            // also statements that any database would accept
            let mark = format!("Mark{tok}");
            let marked = on(&mut conn, async |c| same_database(c, &mark).await);
            let r = catch_unwind(AssertUnwindSafe(|| drop(conn)));
            if let Err(e) = r {
                sim(|s| s.violate("panic", format!("dropping the connection: {}", panic_msg(&e))));
                return;
            }
            if marked {
                check_mark(&mark);
            }
            tok += 1;
            depth = 0;
            match open(tok) {
                Some(c) => conn = c,
                None => return,
            }
        }
        on(&mut conn, async |c| temp_kept(c.cn(), tok, "after a step").await);
        sim(|s| {
            let b = s.work.rec.len();
            s.work.spans.push((a, b));
        });
    }
    if violated() {
        return;
    }
    sim(|s| s.end_faults());
    let u = Unit::Auto(Step::Put(0, 99));
    on(&mut conn, async |c| conc::unit("end", c, &u, &mut seen, &sh).await);
}

pub fn c15() {
    let (page, _) = page_and_cache();
    fresh_db(DB, page);
    prefill();
    let init = dump(DB).unwrap();
    draw_plan(&[Fault::Eio, Fault::Busy, Fault::Full], &[], 700);
    let sh = Arc::new(Mutex::new(Shared::default()));
    let s2 = sh.clone();
    let ok = one_client(move || client(s2));
    sim(|s| s.end_faults());
    if violated() || !ok {
        return;
    }
    nothing_left();
    let nodes = std::mem::take(&mut sh.lock().unwrap().nodes);
    if nodes.len() > 1 {
        sim(|s| s.stat("nontrivial"));
    }
    match dump(DB) {
        Ok(fin) => judge(&init, nodes, &fin),
        Err(e) => sim(|s| s.violate("corrupt", e)),
    }
}
