//! Foreign keys (C06): sessions with one client, and one shared reference used by several threads at once.
use std::sync::{Arc, Mutex};

use butane::{DataObjectOpsSync, ForeignKey, Many, SqlVal, ToSql};
use butane_core::fkey::ForeignKeyOpsSync;
use butane_core::many::ManyOpsSync;

use crate::cn::{Conn, Kind};
use crate::core::{new_proc, run_clients, set_proc, sim, Client, Fault};
use crate::models::*;
use crate::refdb::aside;
use crate::slog;
use crate::solo::{connect, draw_plan, fresh_db, page_and_cache, session, Cfg, DB};
use crate::store::{violated, Mix, Op};

pub fn c06() {
    if sim(|s| s.work.chance(500)) {
        shared();
    } else {
        solo();
    }
}

fn solo() {
    let mix = Mix {
        ops: vec![
            (Op::New, 26),
            (Op::Update, 12),
            (Op::Resave, 4),
            (Op::Delete, 12),
            (Op::QueryDelete, 7),
            (Op::FkLoad, 16),
            (Op::Query, 6),
            (Op::ManyEdit, 5),
            (Op::ManySave, 5),
            (Op::ManySet, 3),
            (Op::Reload, 3),
            (Op::Begin, 7),
        ],
        kinds: vec![(Kind::Blog, 20), (Kind::Post, 26), (Kind::Label, 14), (Kind::Tag, 6), (Kind::Page, 8)],
        commit_pm: 600,
    };
    let st = session(Cfg {
        mix,
        faults: &[Fault::Eio, Fault::Full, Fault::Torn, Fault::Busy],
        must: &[],
        none_pm: 350,
        ops: 26,
        lives: 1,
    });
    if st.ops > 3 {
        sim(|s| s.stat("nontrivial"));
    }
}

#[derive(Clone, Debug)]
enum Act {
    Load(u32),
    Get(u32),
    Pk(u32),
    ToSql(u32),
    Eq(u32),
    Clone(u32),
    Ser(u32),
    Tags,
}
#[derive(Clone, Debug)]
enum Wr {
    Name(u32, String),
    Delete(u32),
}

const BLOG: i64 = 1;
const SLOW: i64 = 77;

/// What the referents were, when: (name or absent, from, to); windows of an operation in flight overlap.
#[derive(Default)]
struct Log {
    vers: [Vec<(Option<String>, u64, u64)>; 2],
    /// first successful load of the shared reference: value, address, when it returned
    first: [Option<(String, usize, u64)>; 2],
    begun: [Option<u64>; 2],
    tags: Option<(Vec<String>, usize)>,
}
impl Log {
    fn possible(&self, i: usize, v: &Option<String>, a: u64, b: u64) -> bool {
        self.vers[i].iter().any(|x| x.0 == *v && x.1 <= b && x.2 >= a)
    }
}
fn stamp() -> u64 {
    sim(|s| {
        s.events += 1;
        s.events
    })
}

struct Shared {
    blog: ForeignKey<Blog>,
    slow: ForeignKey<Slow>,
    /// made from an object: knows its referent from the start
    given: bool,
    post: Many<Tag>,
    log: Mutex<Log>,
}

fn excuse(what: &str, e: &butane::Error) {
    let t = e.to_string().to_lowercase();
    if sim(|s| s.plan.hits) == 0 && !t.contains("locked") {
        sim(|s| s.violate("spurious_error", format!("{what}: {e}")));
    }
}

fn loaded(sh: &Shared, i: usize, r: butane::Result<(String, usize)>, t0: u64) {
    let t1 = stamp();
    let mut l = sh.log.lock().unwrap();
    match r {
        Ok((name, addr)) => {
            if let Some((n, a, _)) = &l.first[i] {
                if *n != name || *a != addr {
                    let m = format!("one shared reference gave two objects: {n:?} and {name:?}");
                    sim(|s| s.violate("fk", m));
                }
                return;
            }
            let from = l.begun[i].unwrap_or(t0).min(t0);
            if !l.possible(i, &Some(name.clone()), from, t1) {
                let m = format!("load gave {name:?}, which the referent was not between {from} and {t1}: {:?}", l.vers[i]);
                sim(|s| s.violate("fk", m));
            }
            l.first[i] = Some((name, addr, t1));
        }
        Err(butane::Error::NoSuchObject) => {
            if !l.possible(i, &None, t0, t1) {
                let m = format!("load found no object, but it existed from {t0} to {t1}: {:?}", l.vers[i]);
                sim(|s| s.violate("fk", m));
            }
            if l.first[i].as_ref().is_some_and(|f| f.2 < t0) {
                sim(|s| s.violate("fk", "a loaded reference forgot its object".into()));
            }
        }
        Err(e) => excuse("load", &e),
    }
}

fn act(sh: &Shared, conn: &butane::db::Connection, a: &Act) {
    slog!("{a:?}");
    let bad = |m: String| sim(|s| s.violate("fk", m));
    match a {
        Act::Load(i) => {
            let t0 = stamp();
            let i = *i as usize;
            sh.log.lock().unwrap().begun[i].get_or_insert(t0);
            let r = if i == 0 {
                sh.blog.load(conn).map(|b| (b.name.clone(), b as *const Blog as usize))
            } else {
                sh.slow.load(conn).map(|b| (b.name.clone(), b as *const Slow as usize))
            };
            loaded(sh, i, r, t0);
        }
        Act::Get(i) => {
            let t0 = stamp();
            let i = *i as usize;
            let first = sh.log.lock().unwrap().first[i].clone();
            let r = if i == 0 {
                sh.blog.get().map(|b| (b.name.clone(), b as *const Blog as usize))
            } else {
                sh.slow.get().map(|b| (b.name.clone(), b as *const Slow as usize))
            };
            match (r, first) {
                (Ok((n, a)), Some((m, b, _))) if n != m || a != b => bad(format!("get gave {n:?}, load gave {m:?}")),
                (Err(butane::Error::ValueNotLoaded), Some((_, _, t))) if t < t0 => bad("get says not loaded after a load".into()),
                (Err(butane::Error::ValueNotLoaded), None) if i == 1 && sh.given => bad("get says not loaded for a given object".into()),
                (Err(e), _) if !matches!(e, butane::Error::ValueNotLoaded) => bad(format!("get: {e}")),
                _ => {}
            }
        }
        Act::Pk(0) => {
            if sh.blog.pk() != BLOG {
                bad("pk".into());
            }
        }
        Act::Pk(_) => {
            if sh.slow.pk().0 != SLOW {
                bad("pk".into());
            }
        }
        Act::ToSql(i) => {
            let v = if *i == 0 { sh.blog.to_sql() } else { sh.slow.to_sql() };
            let w = SqlVal::BigInt(if *i == 0 { BLOG } else { SLOW });
            if v != w {
                bad(format!("reference as database value: {v:?}"));
            }
            let r: SqlVal = if *i == 0 { sh.blog.to_sql_ref().into() } else { sh.slow.to_sql_ref().into() };
            if r != w {
                bad(format!("reference as database value: {r:?}"));
            }
        }
        Act::Eq(i) => {
            let (same, other) = if *i == 0 {
                (sh.blog == ForeignKey::<Blog>::from_pk(BLOG), sh.blog == ForeignKey::<Blog>::from_pk(BLOG + 1))
            } else {
                (sh.slow == ForeignKey::<Slow>::from_pk(YKey(SLOW)), sh.slow == ForeignKey::<Slow>::from_pk(YKey(SLOW + 1)))
            };
            if !same || other {
                bad(format!("equality: {same} {other}"));
            }
        }
        Act::Clone(i) => {
            if *i == 0 {
                let c = sh.blog.clone();
                if c.pk() != BLOG || c.into_sql() != SqlVal::BigInt(BLOG) {
                    bad("clone".into());
                }
            } else {
                let c = sh.slow.clone();
                if c.pk().0 != SLOW || c.into_sql() != SqlVal::BigInt(SLOW) {
                    bad("clone".into());
                }
            }
        }
        Act::Ser(_) => {
            let t = serde_json::to_string(&sh.blog).unwrap();
            if t != BLOG.to_string() {
                bad(format!("serialised as {t}"));
            }
        }
        Act::Tags => {
            let r = sh.post.load(conn).map(|i| {
                let v: Vec<&Tag> = i.collect();
                let mut n: Vec<String> = v.iter().map(|t| t.tag.clone()).collect();
                let a = v.iter().map(|t| *t as *const Tag as usize).min().unwrap_or(0);
                n.sort();
                (n, a)
            });
            match r {
                Ok(x) => {
                    if x.0 != ["t1", "t2"] {
                        bad(format!("many-to-many field loaded as {:?}", x.0));
                    }
                    let mut l = sh.log.lock().unwrap();
                    if l.tags.get_or_insert(x.clone()).1 != x.1 {
                        bad("one shared many-to-many field gave two sets of objects".into());
                    }
                }
                Err(e) => excuse("load of a many-to-many field", &e),
            }
        }
    }
}

fn writer(sh: &Shared, conn: &Conn, ws: &[Wr]) {
    let Conn::S(c) = conn else { unreachable!() };
    for x in ws {
        let (i, new) = match x {
            Wr::Name(i, n) => (*i as usize, Some(n.clone())),
            Wr::Delete(i) => (*i as usize, None),
        };
        let t0 = stamp();
        sh.log.lock().unwrap().vers[i].push((new.clone(), t0, u64::MAX));
        let r = match (i, &new) {
            (0, Some(n)) => Blog { id: BLOG, name: n.clone() }.save(c),
            (0, None) => Blog { id: BLOG, name: String::new() }.delete(c),
            (_, Some(n)) => Slow { id: YKey(SLOW), name: n.clone() }.save(c),
            (_, None) => Slow { id: YKey(SLOW), name: String::new() }.delete(c),
        };
        let t1 = stamp();
        slog!("{x:?}: {}", r.is_ok());
        let mut l = sh.log.lock().unwrap();
        let n = l.vers[i].len();
        match r {
            Ok(()) => {
                for v in l.vers[i][..n - 1].iter_mut() {
                    v.2 = v.2.min(t1);
                }
            }
            Err(e) => {
                l.vers[i].pop();
                drop(l);
                excuse("write", &e);
            }
        }
    }
}

fn shared() {
    let (page, cache) = page_and_cache();
    fresh_db(DB, page);
    aside(|| {
        let c = rusqlite::Connection::open(DB).unwrap();
        c.execute_batch(
            "INSERT INTO Blog (id,name) VALUES (1,'b0');INSERT INTO Slow (id,name) VALUES (77,'s0');\
             INSERT INTO Tag (tag) VALUES ('t1'),('t2'),('t3');INSERT INTO Page (id,title) VALUES (5,'p');\
             INSERT INTO Page_tags_Many (owner,has) VALUES (5,'t1'),(5,'t2');",
        )
        .unwrap();
    });
    let _ = cache;
    draw_plan(&[Fault::Eio, Fault::Busy, Fault::Full], &[], 500);
    sim(|s| s.switch_pm = *s.sched.pick(&[400u32, 150, 700]));
    let main = match connect() {
        Ok(Conn::S(c)) => c,
        _ => {
            sim(|s| s.violate("spurious_error", "connect".into()));
            return;
        }
    };
    let page5 = Page::get(&main, 5).unwrap();
    let given = sim(|s| s.work.chance(500));
    let slow = if given {
        ForeignKey::from(Slow { id: YKey(SLOW), name: "s0".into() })
    } else {
        ForeignKey::from_pk(YKey(SLOW))
    };
    let sh = Arc::new(Shared { blog: ForeignKey::from_pk(BLOG), slow, given, post: page5.tags, log: Default::default() });
    {
        let mut l = sh.log.lock().unwrap();
        l.vers[0].push((Some("b0".into()), 0, u64::MAX));
        l.vers[1].push((Some("s0".into()), 0, u64::MAX));
        if given {
            let g = sh.slow.get().unwrap();
            l.first[1] = Some((g.name.clone(), g as *const Slow as usize, 0));
        }
    }
    let n = 2 + sim(|s| s.work.below(2));
    let mut cs: Vec<Client> = vec![];
    for c in 0..n {
        let k = 1 + sim(|s| s.work.below(5));
        let acts: Vec<Act> = (0..k)
            .map(|_| {
                sim(|s| {
                    let w = &mut s.work;
                    let i = w.below(2);
                    match w.weighted(&[30, 8, 6, 16, 4, 8, 3, 10]) {
                        0 => Act::Load(i),
                        1 => Act::Get(i),
                        2 => Act::Pk(i),
                        3 => Act::ToSql(i),
                        4 => Act::Eq(i),
                        5 => Act::Clone(i),
                        6 => Act::Ser(i),
                        _ => Act::Tags,
                    }
                })
            })
            .collect();
        let sh = sh.clone();
        cs.push((
            format!("t{c}"),
            1,
            Box::new(move || {
                let Ok(Conn::S(conn)) = connect() else { return };
                for a in &acts {
                    act(&sh, &conn, a);
                    if violated() {
                        return;
                    }
                }
            }),
        ));
    }
    let nw = sim(|s| s.work.below(4));
    if nw > 0 {
        let ws: Vec<Wr> = (0..nw)
            .map(|k| {
                sim(|s| {
                    let i = s.work.below(2);
                    if s.work.chance(400) {
                        Wr::Delete(i)
                    } else {
                        Wr::Name(i, format!("n{k}"))
                    }
                })
            })
            .collect();
        let sh = sh.clone();
        cs.push((
            "writer".into(),
            2,
            Box::new(move || {
                let Ok(c) = connect() else { return };
                writer(&sh, &c, &ws);
            }),
        ));
    }
    new_proc();
    new_proc();
    sim(|s| s.rearm());
    let ok = run_clients(cs);
    sim(|s| s.end_faults());
    sim(|s| s.stat("nontrivial"));
    if violated() || !ok {
        return;
    }
    set_proc(1);
    for i in 0..2 {
        act(&sh, &main, &Act::Load(i));
        act(&sh, &main, &Act::ToSql(i));
    }
    act(&sh, &main, &Act::Tags);
    // without faults only an absent referent excuses a failed load
    let l = sh.log.lock().unwrap();
    for i in 0..2 {
        if l.first[i].is_none() && l.vers[i].last().is_some_and(|v| v.0.is_some()) {
            sim(|s| s.violate("not_recovered", "a reference to an existing object still cannot be loaded".into()));
        }
    }
    if l.tags.is_none() {
        sim(|s| s.violate("not_recovered", "the many-to-many field still cannot be loaded".into()));
    }
}
