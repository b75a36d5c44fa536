//! Turso connections (C18): real butane and real Turso on a scratch directory whose file calls are simulated.
//! Turso's futures need no runtime and no thread: polling them does the work.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::future::Future;
use std::path::PathBuf;
use std::pin::pin;
use std::sync::OnceLock;
use std::task::{Context, Poll, Waker};

use butane::db::{ConnectionAsync, ConnectionSpec};


use crate::cn::Conn;
use crate::core::{new_proc, sim, Fault};
use crate::fsim;
use crate::refdb::aside;
use crate::slog;
use crate::solo::{self, now, Cfg, DB};
use crate::store::{me_dead, violated, St};
use Fault::*;

/// Poll until done, as a runtime would that has nothing else to do.
pub fn drive<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut n = 0u32;
    loop {
        match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
            Poll::Ready(r) => return r,
            Poll::Pending => {
                n += 1;
                sim(|s| s.stat("pending"));
                if n > 200_000 {
                    sim(|s| s.violate("stuck", "a Turso operation never finishes".into()));
                    panic!("stuck");
                }
            }
        }
    }
}
pub fn on() -> bool {
    sim(|s| s.turso)
}
fn file() -> PathBuf {
    ROOT.with(|r| r.borrow().clone().expect("scratch root")).join("t.db")
}
pub fn spec() -> ConnectionSpec {
    ConnectionSpec::new("turso", file().to_str().unwrap())
}
thread_local! {
    static ROOT: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
    static CONTENDER: RefCell<Option<ConnectionAsync>> = const { RefCell::new(None) };
}
pub fn schema_sql() -> &'static str {
    static S: OnceLock<String> = OnceLock::new();
    S.get_or_init(|| {
        use butane::migrations::{Migration, MigrationsMut};
        let mut m = butane::migrations::from_root(concat!(env!("CARGO_MANIFEST_DIR"), "/.butane/migrations"));
        let adb = m.current().db().expect("model schema");
        let ops = butane_core::migrations::adb::diff(&Default::default(), &adb);
        let b = butane::db::get_backend("turso").unwrap();
        b.create_migration_sql(&Default::default(), ops).expect("schema sql")
    })
}
static IMG: OnceLock<Vec<u8>> = OnceLock::new();
pub fn warm() {
    crate::core::run_one(0, None, false, || {
        let img = aside(|| {
            let c = rusqlite::Connection::open("img.db").unwrap();
            c.execute_batch(schema_sql()).unwrap();
            drop(c);
            sim(|s| s.disk.content("img.db").unwrap())
        });
        let _ = IMG.set(img);
    });
}
/// Put the files of the database on the simulated disk, for SQLite to read.
pub fn copy_out() {
    for suf in ["", "-wal"] {
        let p = format!("{}{suf}", file().to_str().unwrap());
        let c = std::fs::read(&p).ok();
        sim(|s| {
            s.disk.remove(&format!("{DB}{suf}"));
            if let Some(c) = c {
                s.disk.put(&format!("{DB}{suf}"), c);
            }
        });
    }
}
fn begin() {
    let root = fsim::begin();
    std::fs::write(root.join("t.db"), IMG.get().expect("warm")).unwrap();
    ROOT.with(|r| *r.borrow_mut() = Some(root));
    sim(|s| s.turso = true);
}
fn end() {
    CONTENDER.with(|c| c.borrow_mut().take());
    fsim::end();
    ROOT.with(|r| *r.borrow_mut() = None);
}

/// Another connection takes or gives up the write lock.
pub fn contend(in_tx: bool) {
    if sim(|s| s.blocked) {
        return release(in_tx);
    }
    let ok = aside(|| {
        CONTENDER.with(|c| {
            let mut c = c.borrow_mut();
            if c.is_none() {
                *c = drive(butane::db::connect_async(&spec())).ok();
            }
            let Some(c) = c.as_ref() else { return false };
            drive(async {
                c.execute("BEGIN IMMEDIATE").await?;
                c.execute("INSERT INTO TempRec (n) VALUES (1)").await
            })
            .is_ok()
        })
    });
    slog!("contender {}", if ok { "holds the write lock" } else { "does not get the write lock" });
    sim(|s| {
        s.blocked = ok;
        if ok {
            s.stat("fault:lock_contention");
        }
    });
    if !ok {
        aside(|| CONTENDER.with(|c| c.borrow_mut().take()));
    }
}
pub fn release(in_tx: bool) {
    if !sim(|s| std::mem::replace(&mut s.blocked, false)) {
        return;
    }
    let r = aside(|| {
        CONTENDER.with(|c| {
            let c = c.borrow();
            let Some(c) = c.as_ref() else { return Ok(()) };
            drive(c.execute(if sim(|s| s.events) % 2 == 0 { "COMMIT" } else { "ROLLBACK" }))
        })
    });
    sim(|s| s.stale |= in_tx);
    slog!("contender done: {}", r.is_ok());
}

fn sessions() {
    let (mix, ops) = match sim(|s| s.work.below(3)) {
        0 => (solo::mix04(), 20),
        1 => (solo::mix01(), 14),
        _ => (solo::mix05(), 26),
    };
    let rt = sim(|s| s.work.chance(500));
    begin();
    set_proc();
    let cfg = match sim(|s| s.work.below(3)) {
        0 => Cfg { mix, faults: &[], must: &[], none_pm: 1000, ops, lives: 1 },
        1 => Cfg { mix, faults: &[Eio, Full, Torn], must: &[], none_pm: 100, ops, lives: 1 },
        _ => Cfg { mix, faults: &[Kill], must: &[Kill], none_pm: 30, ops: ops / 2, lives: 4 },
    };
    let go = || {
        let st = session(cfg);
        if st.ops > 3 {
            sim(|s| s.stat("nontrivial"));
        }
    };
    if rt {
        solo::with_runtime(go)
    } else {
        go()
    }
    end();
}
fn set_proc() {
    crate::core::set_proc(new_proc());
}
fn open(h0: u64) -> Option<Conn> {
    match now(butane::db::connect_async(&spec())) {
        Ok(c) => return Some(Conn::A(c)),
        Err(_) if me_dead() => return None,
        Err(e) if sim(|s| s.plan.hits) == h0 => {
            sim(|s| s.violate("spurious_error", format!("connect failed: {e}")));
            return None;
        }
        Err(_) => {}
    }
    sim(|s| s.end_faults());
    match now(butane::db::connect_async(&spec())) {
        Ok(c) => Some(Conn::A(c)),
        Err(e) => {
            sim(|s| s.violate("not_recovered", format!("connect failed after the fault was gone: {e}")));
            None
        }
    }
}
fn session(cfg: Cfg) -> St {
    solo::draw_plan(cfg.faults, cfg.must, cfg.none_pm);
    let mut st = St::new(DB, cfg.mix);
    for _ in 0..cfg.lives {
        set_proc();
        sim(|s| s.rearm());
        let mut conn = None;
        let r = catch_unwind(AssertUnwindSafe(|| {
            conn = open(sim(|s| s.plan.hits));
            let Some(conn) = conn.as_mut() else { return };
            let n = cfg.ops / 2 + sim(|s| s.work.below(cfg.ops));
            now(st.session(conn, n));
            if !me_dead() && !violated() {
                release(false);
                sim(|s| s.end_faults());
                let mut fresh = if sim(|s| s.work.chance(500)) { now(butane::db::connect_async(&spec())).ok().map(Conn::A) } else { None };
                now(st.recovered(conn, fresh.as_mut()));
            }
        }));
        let dead = me_dead();
        // whatever is left of a dead process can do no harm: its calls fail
        let _ = catch_unwind(AssertUnwindSafe(|| drop(conn)));
        if let Err(e) = r {
            if !dead {
                std::panic::resume_unwind(e);
            }
        }
        if !dead || violated() {
            break;
        }
        sim(|s| s.blocked = false);
        CONTENDER.with(|c| c.borrow_mut().take());
        st.after_crash();
        if violated() {
            break;
        }
    }
    st
}
fn pipelined() {
    use crate::asy::{self, Cands};
    begin();
    // some rows to work on
    sim(|s| s.disk.put(DB, IMG.get().unwrap().clone()));
    crate::conc::prefill();
    let c = sim(|s| s.disk.content(DB).unwrap());
    std::fs::write(file(), c).unwrap();
    set_proc();
    let rt = sim(|s| s.work.chance(300));
    let go = || {
        let init = crate::refdb::dump(DB).unwrap();
        let mut c = Cands { s: vec![(init.clone(), init)], hist: vec![] };
        let lives = 1 + sim(|s| s.work.below(3));
        for life in 0..lives {
            while sim(|s| s.work.chance(150)) {
                let can = asy::draw_cancel(1000);
                let _ = now(asy::maybe_cancel(butane::db::connect_async(&spec()), can));
            }
            let mut conn = match now(butane::db::connect_async(&spec())) {
                Ok(c) => Conn::A(c),
                Err(e) => return c.fail("spurious_error", format!("connect: {e}")),
            };
            now(asy::pipeline(&mut conn, &mut c, 400));
            if !violated() {
                now(asy::put_and_get(&mut conn, &mut c));
            }
            if !violated() {
                c.settle("at the end");
            }
            if violated() {
                return;
            }
            drop(conn);
            slog!("reopen {life}");
        }
    };
    if rt {
        solo::with_runtime(go)
    } else {
        go()
    }
    sim(|s| s.stat("nontrivial"));
    end();
}
pub fn c18() {
    match sim(|s| s.work.weighted(&[6, 4])) {
        0 => sessions(),
        _ => pipelined(),
    }
}
