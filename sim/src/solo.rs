//! Runs with one client at a time on one SQLite database (C01, C02, C04, C05, parts of C06 and C20).
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::pin::pin;
use std::rc::Rc;
use std::sync::OnceLock;
use std::task::{Context, Poll, Waker};

use butane::db::ConnectionSpec;
use rusqlite::ffi;

use crate::cn::{Conn, Kind};
use crate::core::{new_proc, set_proc, sim, Fault};
use crate::refdb::aside;
use crate::slog;
use crate::store::{me_dead, violated, Mix, Op, St};

pub const DB: &str = "main.db";

thread_local! {
    /// the runtime that drives this client's futures, if it is asynchronous
    pub static RT: RefCell<Option<Rc<tokio::runtime::Runtime>>> = const { RefCell::new(None) };
}
/// Make this client an asynchronous one while `f` runs.
pub fn with_runtime<R>(f: impl FnOnce() -> R) -> R {
    with(tokio::runtime::Builder::new_current_thread().build().expect("runtime"), f)
}
/// The same, with network and timers.
pub fn with_io_runtime<R>(f: impl FnOnce() -> R) -> R {
    with(tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime"), f)
}
fn with<R>(rt: tokio::runtime::Runtime, f: impl FnOnce() -> R) -> R {
    RT.with(|r| *r.borrow_mut() = Some(Rc::new(rt)));
    let r = f();
    let rt = RT.with(|r| r.borrow_mut().take());
    drop(rt);
    r
}
/// From here on this client is another process; an asynchronous one has a runtime (and its threads) of its own.
pub fn become_proc(p: u32) {
    let fresh = p != crate::core::proc_id();
    set_proc(p);
    if is_async() && fresh {
        let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
        let old = RT.with(|r| r.borrow_mut().replace(Rc::new(rt)));
        if let Some(rt) = old.and_then(Rc::into_inner) {
            rt.shutdown_background();
        }
    }
}
pub fn is_async() -> bool {
    RT.with(|r| r.borrow().is_some())
}

pub fn now<F: Future>(f: F) -> F::Output {
    match RT.with(|r| r.borrow().clone()) {
        Some(rt) => rt.block_on(f),
        None if crate::tur::on() => crate::tur::drive(f),
        None => at_once(f),
    }
}
/// A future over a synchronous connection never waits.
pub fn at_once<F: Future>(f: F) -> F::Output {
    match pin!(f).poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("a synchronous operation waited"),
    }
}

/// SQL that creates the schema of the harness's models, as butane generates it.
pub fn schema_sql() -> &'static str {
    static S: OnceLock<String> = OnceLock::new();
    S.get_or_init(|| {
        use butane::migrations::{Migration, MigrationsMut};
        let mut m = butane::migrations::from_root(concat!(env!("CARGO_MANIFEST_DIR"), "/.butane/migrations"));
        let adb = m.current().db().expect("model schema");
        let ops = butane_core::migrations::adb::diff(&Default::default(), &adb);
        let b = butane::db::get_backend("sqlite").unwrap();
        b.create_migration_sql(&Default::default(), ops).expect("schema sql")
    })
}

pub fn reset_randomness() {
    unsafe { ffi::sqlite3_randomness(0, std::ptr::null_mut()) };
}

static IMG: OnceLock<HashMap<u32, Vec<u8>>> = OnceLock::new();
pub const PAGES: &[u32] = &[4096, 512, 1024];

/// Build the initial database images. Before any run, so that every run starts from the same state.
pub fn warm() {
    let mut m = HashMap::new();
    for page in PAGES {
        crate::core::run_one(0, None, false, || {
            let img = aside(|| {
                let c = rusqlite::Connection::open("img.db").unwrap();
                c.execute_batch(&format!("PRAGMA page_size={page};")).unwrap();
                c.execute_batch(schema_sql()).unwrap();
                drop(c);
                sim(|s| s.disk.content("img.db").unwrap())
            });
            m.insert(*page, img);
        });
    }
    let _ = IMG.set(m);
}

/// Put a database with the models' tables on the simulated disk.
pub fn fresh_db(path: &str, page: u32) {
    let img = IMG.get().expect("warm")[&page].clone();
    sim(|s| s.disk.put(path, img));
    reset_randomness();
}

/// Draw this run's fault plan: a random subset of `kinds`, a density, a number.
pub fn draw_plan(kinds: &[Fault], must: &[Fault], none_pm: u32) {
    sim(|s| {
        let off = s.fault.draw(2, |r| !r.chance(none_pm) as u32) == 0;
        if off {
            s.set_plan(&[], 0, 0);
            return;
        }
        let mut ks: Vec<Fault> = must.to_vec();
        for k in kinds {
            if s.fault.chance(500) {
                ks.push(*k);
            }
        }
        if ks.is_empty() {
            ks = kinds.to_vec();
        }
        let gap = *s.fault.pick(&[200u32, 20, 60, 120, 400]);
        let n = 1 + s.fault.below(6);
        s.set_plan(&ks, gap, n);
    })
}

pub fn connect() -> butane::Result<Conn> {
    let spec = ConnectionSpec::new("sqlite", DB);
    if is_async() {
        Ok(Conn::A(now(butane::db::connect_async(&spec))?))
    } else {
        Ok(Conn::S(butane::db::connect(&spec)?))
    }
}
pub fn set_cache(conn: &Conn, cache: i32) {
    if cache > 0 {
        let sql = format!("PRAGMA cache_size={cache}");
        if is_async() {
            let armed = sim(|s| std::mem::replace(&mut s.plan.armed, false));
            let _ = now(crate::cn::execute(conn.cn(), &sql));
            sim(|s| s.plan.armed = armed);
        } else {
            aside(|| {
                let _ = now(crate::cn::execute(conn.cn(), &sql));
            });
        }
    }
}

pub struct Cfg {
    pub mix: Mix,
    pub faults: &'static [Fault],
    pub must: &'static [Fault],
    pub none_pm: u32,
    pub ops: u32,
    pub lives: u32,
}

pub fn page_and_cache() -> (u32, i32) {
    sim(|s| (*s.work.pick(&[4096u32, 512, 1024, 4096]), *s.work.pick(&[0i32, 2, 5, 10])))
}

pub fn session(cfg: Cfg) -> St {
    let (page, cache) = page_and_cache();
    fresh_db(DB, page);
    draw_plan(cfg.faults, cfg.must, cfg.none_pm);
    let mut st = St::new(DB, cfg.mix);
    for _ in 0..cfg.lives {
        become_proc(new_proc());
        sim(|s| s.rearm());
        let h0 = sim(|s| s.plan.hits);
        let mut conn = match connect() {
            Ok(c) => c,
            Err(e) => {
                slog!("connect failed");
                if me_dead() {
                    st.after_crash();
                    continue;
                }
                if sim(|s| s.plan.hits) == h0 {
                    sim(|s| s.violate("spurious_error", format!("connect failed: {e}")));
                    break;
                }
                sim(|s| s.end_faults());
                match connect() {
                    Ok(c) => c,
                    Err(e) => {
                        sim(|s| s.violate("not_recovered", format!("connect failed after the fault was gone: {e}")));
                        break;
                    }
                }
            }
        };
        set_cache(&conn, cache);
        let n = cfg.ops / 2 + sim(|s| s.work.below(cfg.ops));
        now(st.session(&mut conn, n));
        if !me_dead() && !violated() {
            sim(|s| s.end_faults());
            let mut fresh = if sim(|s| s.work.chance(500)) { connect().ok() } else { None };
            now(st.recovered(&mut conn, fresh.as_mut()));
            if !violated() {
                drop(fresh);
                drop(conn);
                let (l, o) = sim(|s| (s.disk.lock_holders(), s.disk.open_handles()));
                if l > 0 || o > 0 {
                    sim(|s| s.violate("leaked", format!("{l} locks and {o} files still held after closing everything")));
                }
            }
            break;
        }
        // whatever is left of the dead process can do no harm: its calls fail
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(conn)));
        if violated() {
            break;
        }
        st.after_crash();
        if violated() {
            break;
        }
    }
    st
}

pub const ALL_KINDS: &[(Kind, u32)] = &[
    (Kind::Item, 12),
    (Kind::Kv, 14),
    (Kind::Doc, 5),
    (Kind::Grp, 5),
    (Kind::Lone, 3),
    (Kind::LoneKey, 3),
    (Kind::Tag, 8),
    (Kind::Label, 6),
    (Kind::Blog, 8),
    (Kind::Post, 10),
    (Kind::Page, 6),
];
use Fault::*;

pub fn mix01() -> Mix {
    Mix {
        ops: vec![
            (Op::New, 26),
            (Op::Update, 14),
            (Op::Resave, 3),
            (Op::Delete, 7),
            (Op::Get, 5),
            (Op::Query, 5),
            (Op::QueryDelete, 4),
            (Op::BadSql, 3),
            (Op::ManySave, 2),
            (Op::ManySet, 2),
            (Op::ManyLoad, 2),
            (Op::Begin, 26),
        ],
        kinds: ALL_KINDS.to_vec(),
        commit_pm: 550,
    }
}
pub fn c01() {
    let mix = mix01();
    let st = session(Cfg { mix, faults: &[Eio, Full, Torn, Busy], must: &[], none_pm: 200, ops: 14, lives: 1 });
    if st.commits > 0 || st.txs > 1 {
        sim(|s| s.stat("nontrivial"));
    }
}
pub fn c02() {
    let mix = Mix {
        ops: vec![
            (Op::New, 26),
            (Op::Update, 14),
            (Op::Delete, 7),
            (Op::Get, 2),
            (Op::QueryDelete, 4),
            (Op::ManySave, 2),
            (Op::ManySet, 2),
            (Op::Begin, 20),
        ],
        kinds: ALL_KINDS.to_vec(),
        commit_pm: 800,
    };
    session(Cfg { mix, faults: &[Kill, Power, Power, Eio], must: &[Power], none_pm: 30, ops: 14, lives: 5 });
    if sim(|s| s.stats.contains_key("fault:process_kill") || s.stats.contains_key("fault:power_loss")) {
        sim(|s| s.stat("nontrivial"));
    }
}
pub fn mix04() -> Mix {
    Mix {
        ops: vec![
            (Op::New, 26),
            (Op::Update, 12),
            (Op::Resave, 5),
            (Op::Delete, 6),
            (Op::Get, 8),
            (Op::Query, 22),
            (Op::First, 5),
            (Op::QueryDelete, 5),
            (Op::Reload, 4),
            (Op::BadSql, 2),
            (Op::HasTable, 1),
            (Op::FkLoad, 2),
            (Op::Begin, 4),
        ],
        kinds: ALL_KINDS.to_vec(),
        commit_pm: 700,
    }
}
pub fn c04() {
    let mix = mix04();
    let st = session(Cfg { mix, faults: &[Eio, Full, Torn, Busy], must: &[], none_pm: 400, ops: 24, lives: 1 });
    if st.ops > 3 {
        sim(|s| s.stat("nontrivial"));
    }
}
pub fn mix05() -> Mix {
    Mix {
        ops: vec![
            (Op::New, 20),
            (Op::Update, 8),
            (Op::Resave, 5),
            (Op::Delete, 3),
            (Op::Query, 4),
            (Op::ManyEdit, 16),
            (Op::ManySave, 14),
            (Op::ManyLoad, 14),
            (Op::ManySet, 8),
            (Op::ManyClear, 4),
            (Op::Reload, 6),
            (Op::Begin, 6),
        ],
        kinds: vec![(Kind::Tag, 20), (Kind::Label, 14), (Kind::Blog, 12), (Kind::Post, 24), (Kind::Page, 20)],
        commit_pm: 700,
    }
}
pub fn c05() {
    let mix = mix05();
    let st = session(Cfg { mix, faults: &[Eio, Full, Torn, Busy], must: &[], none_pm: 300, ops: 34, lives: 1 });
    if st.ops > 3 {
        sim(|s| s.stat("nontrivial"));
    }
}
