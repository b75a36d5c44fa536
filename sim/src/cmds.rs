//! The commands of the butane tool (C19): each runs as a process of its own on a project directory and a database, is
//! interrupted by file and disk faults or killed, and is run again.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

use butane::migrations::adb::{diff, Operation, ADB};
use butane::migrations::{from_root, migrations_table, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};

use crate::files::d;
use crate::core::{new_proc, panic_msg, run_clients, set_proc, sim, Client, Fault};
use crate::files::{aside_fs, same_db, viol};
use crate::fsim;
use crate::mig::{self, adb, Act, Chain, Col, MRow, Schema, State, Ty};
use crate::refdb::{aside, V};
use crate::slog;
use crate::solo::{draw_plan, reset_randomness, DB};
use crate::store::violated;

fn w<T>(f: impl FnOnce(&mut crate::core::Stream) -> T) -> T {
    sim(|s| f(&mut s.work))
}

const TABLES: &[&str] = &["Alpha", "Beta", "order", "Gamma", "Delta"];
const BACKENDS: &[&str] = &["sqlite", "pg"];

/// What project and database should be.
#[derive(Clone)]
struct World {
    /// the models as last built
    cur: Schema,
    names: Vec<String>,
    /// at each boundary, from empty
    schemas: Vec<Schema>,
    backends: BTreeSet<&'static str>,
    embedded: bool,
    st: State,
    /// left in the record of applied migrations by an interrupted command
    extra: BTreeSet<String>,
}
impl World {
    fn chain(&self) -> Chain {
        let n = self.names.len();
        Chain {
            schemas: self.schemas.clone(),
            names: self.names.clone(),
            mem: MemMigrations::new(),
            gated: vec![(false, false); n],
            tallied: vec![false; n],
        }
    }
    fn n(&self) -> usize {
        self.names.len()
    }
    fn applied(&self) -> BTreeSet<String> {
        self.names[..self.st.at].iter().cloned().collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Cmd {
    Make(&'static str),
    Detach,
    Migrate(Option<usize>),
    Unmigrate(Option<usize>),
    Embed,
    Add(&'static str),
    Remove(&'static str),
    Regenerate,
    Collapse(&'static str),
    ClearData,
    Clean,
    Drop(&'static str),
    Init,
    List,
}
#[derive(Debug)]
enum Out {
    Ok,
    Err(String),
    Exit(i32),
    Died,
}

/// One migration as it is on disk or embedded.
struct Got {
    name: String,
    db: ADB,
    backends: BTreeSet<String>,
}

struct Run {
    base: PathBuf,
    wd: World,
    next_id: i64,
    done: u32,
}

fn scripts(m: &impl Migration, from: &ADB, to: &ADB, first: bool, b: &str) -> Result<(), String> {
    let back = butane::db::get_backend(b).ok_or("no such backend")?;
    let ops = diff(from, to);
    let mut with = ops.clone();
    with.push(Operation::AddTableIfNotExists(migrations_table()));
    let e = |x: butane::Error| x.to_string();
    let mut up = vec![back.create_migration_sql(from, if first { with.clone() } else { ops }).map_err(e)?];
    if from.tables().next().is_none() {
        // the table of records is made sure of whenever there was no other
        up.push(back.create_migration_sql(from, with).map_err(e)?);
    }
    let down = back.create_migration_sql(to, diff(to, from)).map_err(e)?;
    for (what, want, got) in [("up", up, m.up_sql(b).map_err(e)?), ("down", vec![down], m.down_sql(b).map_err(e)?)] {
        let t = |s: &str| s.trim_end_matches('\n').to_string();
        if !want.iter().any(|x| got.as_deref().map(t) == Some(t(x))) {
            return Err(format!("{what} script for {b} is {}", d(&got)));
        }
    }
    Ok(())
}

impl Run {
    fn dir(&self) -> PathBuf {
        self.base.join("migrations")
    }
    /// The series in the directory or in the embedding, each with whole scripts for its backends.
    fn series<M: Migrations>(&self, ms: &M, sure: &BTreeSet<&'static str>) -> Result<Vec<Got>, String> {
        let all = ms.all_migrations().map_err(|e| format!("the list of migrations cannot be read: {e}"))?;
        let mut out: Vec<Got> = vec![];
        let mut from = ADB::new();
        for m in &all {
            let to = m.db().map_err(|e| format!("migration {} cannot be read: {e}", m.name()))?;
            let bs: BTreeSet<String> = m.sql_backends().map_err(|e| e.to_string())?.into_iter().collect();
            for b in sure {
                if !bs.contains(*b) {
                    return Err(format!("migration {} has no scripts for {b}", m.name()));
                }
                scripts(m, &from, &to, out.is_empty(), b).map_err(|e| format!("migration {}: {e}", m.name()))?;
            }
            from = to.clone();
            out.push(Got { name: m.name().to_string(), db: to, backends: bs });
        }
        Ok(out)
    }
    fn on_disk(&self, sure: &BTreeSet<&'static str>) -> Result<Vec<Got>, String> {
        aside_fs(|| {
            if self.dir().is_dir() {
                self.series(&from_root(self.dir()), sure)
            } else {
                Ok(vec![])
            }
        })
    }
    fn embedding(&self) -> Option<Result<MemMigrations, String>> {
        let src = aside_fs(|| std::fs::read_to_string(self.base.join("../src/butane_migrations.rs"))).ok()?;
        let body = src.split_once("r#\"").and_then(|x| x.1.split_once("\"#"));
        Some(match body {
            Some((json, rest)) if rest.contains("from_json(json)") => MemMigrations::from_json(json).map_err(|e| e.to_string()),
            _ => Err("not whole".into()),
        })
    }
    fn differs(&self, got: &[Got], wd: &World) -> Option<String> {
        let names: Vec<&String> = got.iter().map(|g| &g.name).collect();
        if !names.iter().copied().eq(wd.names.iter()) {
            return Some(format!("migrations are {names:?} instead of {:?}", wd.names));
        }
        for (i, g) in got.iter().enumerate() {
            if !same_db(&g.db, &adb(&wd.schemas[i + 1])) {
                return Some(format!("migration {} is {}", g.name, d(&g.db)));
            }
        }
        None
    }
    /// The directory is exactly that of `wd`.
    fn dir_exactly(&self, wd: &World) -> Result<(), String> {
        let got = self.on_disk(&wd.backends)?;
        if let Some(e) = self.differs(&got, wd) {
            return Err(e);
        }
        for g in &got {
            if !g.backends.iter().map(|s| s.as_str()).eq(wd.backends.iter().copied()) {
                return Err(format!("migration {} has backends {:?} instead of {:?}", g.name, g.backends, wd.backends));
            }
        }
        if wd.cur.values().flatten().any(|c| c.fk.is_some_and(|f| !wd.cur.contains_key(f))) {
            return Ok(());
        }
        let cur = aside_fs(|| from_root(self.dir()).current().db()).map_err(|e| format!("the recorded models cannot be read: {e}"))?;
        if !same_db(&cur, &adb(&wd.cur)) {
            return Err(format!("the recorded models are {}", d(&cur)));
        }
        Ok(())
    }
    fn embedding_exactly(&self, wd: &World) -> Result<(), String> {
        if !wd.embedded {
            return Ok(());
        }
        let mem = self.embedding().ok_or("the embedding is missing")?.map_err(|e| format!("the embedding is {e}"))?;
        let got = self.series(&mem, &wd.backends).map_err(|e| format!("in the embedding {e}"))?;
        if let Some(e) = self.differs(&got, wd) {
            return Err(format!("in the embedding {e}"));
        }
        Ok(())
    }
    fn look(&self) -> Result<Act, String> {
        mig::look()
    }
    /// The database is exactly that of `wd`, apart from `extra` records.
    fn db_exactly(&self, act: &mut Act, wd: &World, extra: &BTreeSet<String>) -> Result<(), String> {
        let all = act.applied.clone();
        let keep = wd.applied();
        if let Some(a) = &mut act.applied {
            a.retain(|n| keep.contains(n) || !extra.contains(n));
        }
        let r = act.differs(&wd.chain(), &wd.st);
        act.applied = all;
        match r {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    /// An application that uses this series would find the database where the series says it is.
    fn in_step(&self, what: &str, names: &[String], dbs: &[ADB], act: &Act) -> Result<(), String> {
        let rec = act.applied.clone().unwrap_or_default();
        let at = names.iter().rposition(|n| rec.contains(n)).map_or(0, |i| i + 1);
        let want: BTreeMap<String, BTreeSet<String>> = match at.checked_sub(1) {
            None => BTreeMap::new(),
            Some(i) => dbs[i].tables().map(|t| (t.name.clone(), t.columns.iter().map(|c| c.name().to_string()).collect())).collect(),
        };
        let have: BTreeMap<String, BTreeSet<String>> =
            act.tabs.iter().map(|(n, t)| (n.clone(), t.cols.keys().cloned().collect())).collect();
        if want != have {
            return Err(format!(
                "by {what} {at} of {} migrations are applied, but the tables are not those: {have:?}; recorded {rec:?}",
                names.len()
            ));
        }
        Ok(())
    }

    // ------------------------------------------------------------ running

    fn call(base: &PathBuf, cmd: &Cmd, names: &[String]) -> butane_cli::Result<()> {
        use butane_cli as cli;
        match cmd {
            Cmd::Make(n) => cli::make_migration(base, Some(&n.to_string())),
            Cmd::Detach => cli::detach_latest_migration(base),
            Cmd::Migrate(to) => cli::migrate(base, to.map(|i| names[i - 1].clone())),
            Cmd::Unmigrate(to) => cli::unmigrate(base, to.map(|i| names[i - 1].clone())),
            Cmd::Embed => cli::embed(base),
            Cmd::Add(b) => cli::add_backend(base, b),
            Cmd::Remove(b) => cli::remove_backend(base, b),
            Cmd::Regenerate => cli::regenerate_migrations(base),
            Cmd::Collapse(n) => cli::collapse_migrations(base, Some(&n.to_string())),
            Cmd::ClearData => cli::clear_data(base),
            Cmd::Clean => cli::clean(base),
            Cmd::Drop(t) => cli::delete_table(base, t),
            Cmd::Init => cli::init(base, "sqlite", DB, true),
            Cmd::List => cli::list_migrations(base),
        }
    }
    fn process(&self, cmd: &Cmd) -> Out {
        // whoever types the next command takes a moment
        sim(|s| s.now_us += 1_000_000);
        let cell: Arc<Mutex<Option<Result<(), String>>>> = Arc::new(Mutex::new(None));
        let (base, cmd, names, c2) = (self.base.clone(), cmd.clone(), self.wd.names.clone(), cell.clone());
        let proc = new_proc();
        fsim::EXIT.store(i32::MIN, Ordering::SeqCst);
        slog!("butane {cmd:?}");
        let cl: Client = (
            "butane".into(),
            proc,
            Box::new(move || {
                let r = catch_unwind(AssertUnwindSafe(|| Self::call(&base, &cmd, &names)));
                let r = match r {
                    Ok(r) => r.map_err(|e| format!("{e:#}")),
                    Err(p) => Err(format!("panic: {}", panic_msg(&p))),
                };
                *c2.lock().unwrap() = Some(r);
            }),
        );
        if !run_clients(vec![cl]) {
            viol("stuck", "a command never ends".into());
        }
        let dead = sim(|s| s.proc_dead(proc));
        let code = fsim::EXIT.load(Ordering::SeqCst);
        let out = match cell.lock().unwrap().take() {
            _ if code != i32::MIN => Out::Exit(code),
            _ if dead => Out::Died,
            Some(Ok(())) => Out::Ok,
            Some(Err(e)) => Out::Err(fsim::clean(&e)),
            None => Out::Died,
        };
        sim(|s| s.kill_proc(proc));
        slog!("-> {}", d(&out));
        out
    }

    /// What the world is when the command is complete; `made` is the name of the migration it makes.
    fn after(&self, cmd: &Cmd, made: Option<&String>) -> World {
        let mut a = self.wd.clone();
        match cmd {
            Cmd::Make(_) => {
                if self.wd.cur != *self.wd.schemas.last().unwrap() {
                    a.names.push(made.cloned().unwrap_or_default());
                    a.schemas.push(self.wd.cur.clone());
                }
            }
            Cmd::Detach => {
                a.names.pop();
                a.schemas.pop();
            }
            Cmd::Migrate(to) => {
                let to = to.unwrap_or(self.wd.n());
                // a target that is already applied is passed over
                let to = if to <= a.st.at { self.wd.n() } else { to };
                while a.st.at < to {
                    a.st = a.st.step(&self.wd.chain(), true).0;
                }
            }
            Cmd::Unmigrate(to) => {
                let to = to.unwrap_or_else(|| self.wd.st.at.saturating_sub(1));
                while a.st.at > to {
                    a.st = a.st.step(&self.wd.chain(), false).0;
                }
            }
            Cmd::Embed => a.embedded = true,
            Cmd::Add(b) => {
                a.backends.insert(b);
            }
            Cmd::Remove(b) => {
                a.backends.remove(b);
            }
            Cmd::Collapse(_) => {
                let s = self.wd.schemas[self.wd.st.at].clone();
                a.names = vec![made.cloned().unwrap_or_default()];
                a.schemas = vec![Schema::new(), s];
                a.st.at = 1;
                a.extra.clear();
            }
            Cmd::ClearData => a.st.rows.values_mut().for_each(|r| r.clear()),
            Cmd::Clean => a.cur.clear(),
            Cmd::Drop(t) => {
                a.cur.remove(t);
            }
            Cmd::Regenerate | Cmd::Init | Cmd::List => {}
        }
        a
    }
    /// The databases that an interrupted command may leave.
    fn db_between(&self, cmd: &Cmd, a: &World) -> Vec<World> {
        let mut v = vec![self.wd.clone()];
        match cmd {
            Cmd::Migrate(_) | Cmd::Unmigrate(_) => {
                let up = a.st.at > self.wd.st.at;
                let mut x = self.wd.clone();
                while x.st.at != a.st.at {
                    x.st = x.st.step(&self.wd.chain(), up).0;
                    v.push(x.clone());
                }
            }
            Cmd::Collapse(_) => v.push(a.clone()),
            _ => {}
        }
        v
    }

    /// Run a command, under faults or not, until it is complete.
    fn command(&mut self, cmd: Cmd) {
        let mut first = true;
        for attempt in 0.. {
            let calm = attempt >= 2 || w(|w| w.chance(250));
            if calm {
                sim(|s| s.end_faults());
            } else {
                sim(|s| s.rearm());
            }
            let h0 = sim(|s| s.plan.hits);
            let out = self.process(&cmd);
            if violated() {
                return;
            }
            let hit = sim(|s| s.plan.hits) != h0;
            let ok = matches!(out, Out::Ok);
            if hit {
                sim(|s| s.stat("probe:interrupted"));
            }
            if !ok && !hit {
                viol("not_completed", format!("{cmd:?} without a fault (attempt {attempt}): {}", d(&out)));
                return;
            }
            // a command run again after it was killed, with nobody looking in between
            sim(|s| s.end_faults());
            match self.examine(&cmd, ok, first) {
                None => return,
                Some(true) => {
                    self.done += 1;
                    return;
                }
                Some(false) => {}
            }
            first = false;
        }
    }

    /// Look at directory, database and embedding after one run of `cmd`. Some(true): it is complete.
    fn examine(&mut self, cmd: &Cmd, ok: bool, _first: bool) -> Option<bool> {
        // which migrations are listed now
        let mut sure = self.wd.backends.clone();
        if let Cmd::Remove(b) = cmd {
            sure.remove(b);
        }
        let got = match self.on_disk(&sure) {
            Ok(g) => g,
            Err(e) => {
                viol("lost", format!("after {cmd:?}: {e}"));
                return None;
            }
        };
        let made = got.last().map(|g| g.name.clone()).filter(|n| !self.wd.names.contains(n));
        let a = self.after(cmd, made.as_ref());
        let is_b = self.differs(&got, &self.wd).is_none();
        let is_a = self.differs(&got, &a).is_none();
        if !is_a && (ok || !is_b) {
            let e = self.differs(&got, if is_b { &a } else { &self.wd }).unwrap();
            viol(if ok { "not_made" } else { "lost" }, format!("after {cmd:?}{}: {e}", if ok { "" } else { " was interrupted" }));
            return None;
        }
        // the database
        let mut act = match self.look() {
            Ok(x) => x,
            Err(e) => {
                viol("database", format!("after {cmd:?}: {e}"));
                return None;
            }
        };
        let names: Vec<String> = got.iter().map(|g| g.name.clone()).collect();
        let dbs: Vec<ADB> = got.iter().map(|g| g.db.clone()).collect();
        if let Err(e) = self.in_step("the directory", &names, &dbs, &act) {
            viol("out_of_step", format!("after {cmd:?}: {e}"));
            return None;
        }
        match self.embedding() {
            Some(Ok(mem)) => match self.series(&mem, &BTreeSet::new()) {
                Ok(em) => {
                    let names: Vec<String> = em.iter().map(|g| g.name.clone()).collect();
                    let dbs: Vec<ADB> = em.iter().map(|g| g.db.clone()).collect();
                    if let Err(e) = self.in_step("the embedding", &names, &dbs, &act) {
                        viol("out_of_step", format!("after {cmd:?}: {e}"));
                        return None;
                    }
                }
                Err(e) => {
                    viol("lost", format!("after {cmd:?}, in the embedding: {e}"));
                    return None;
                }
            },
            Some(Err(e)) => {
                viol("lost", format!("after {cmd:?} the embedding is {e}"));
                return None;
            }
            None if self.wd.embedded => {
                viol("lost", format!("after {cmd:?} the embedding is gone"));
                return None;
            }
            None => {}
        }
        // records that an interrupted collapse leaves behind
        let rec = act.applied.clone().unwrap_or_default();
        let mut extra = self.wd.extra.clone();
        if let Cmd::Collapse(_) = cmd {
            if is_a && ok {
                extra.clear();
            } else {
                extra.extend(rec.iter().filter(|n| !self.wd.names.contains(n)).cloned());
                extra.extend(self.wd.applied());
            }
        }
        let mut cands = if ok { vec![a.clone()] } else { self.db_between(cmd, &a) };
        if let (Cmd::ClearData, false) = (cmd, ok) {
            // every table is either as it was or empty
            let mut x = self.wd.clone();
            for (t, r) in x.st.rows.iter_mut() {
                if act.tabs.get(*t).is_some_and(|t| t.rows.is_empty()) {
                    r.clear();
                }
            }
            cands.push(x);
        }
        let mut why = String::new();
        let mut st = None;
        for c in &cands {
            match self.db_exactly(&mut act, c, &extra) {
                Ok(()) => {
                    st = Some(c.st.clone());
                    break;
                }
                Err(e) => why = e,
            }
        }
        let Some(st) = st else {
            viol("database", format!("after {cmd:?}{}: {why}", if ok { "" } else { " was interrupted" }));
            return None;
        };
        // what is so now is the new beginning
        let mut now = if is_a { a.clone() } else { self.wd.clone() };
        now.st = st;
        if matches!(cmd, Cmd::Collapse(_)) && !ok {
            now.st.at = if is_a { 1 } else { self.wd.st.at };
        }
        now.extra = extra.into_iter().filter(|n| rec.contains(n) && !now.applied().contains(n)).collect();
        now.cur = self.wd.cur.clone();
        now.embedded = self.wd.embedded;
        if ok {
            now.cur = a.cur.clone();
            now.embedded = a.embedded;
            for r in [self.dir_exactly(&now), self.embedding_exactly(&now)] {
                if let Err(e) = r {
                    viol("not_made", format!("after {cmd:?}: {e}"));
                    return None;
                }
            }
            self.wd = now;
            return Some(true);
        }
        // interrupted: is there a point in running it again?
        let effect = match cmd {
            Cmd::Detach | Cmd::Collapse(_) => is_a,
            Cmd::Unmigrate(_) => now.st.at == a.st.at,
            Cmd::Add(b) => got.last().is_some_and(|g| g.backends.contains(*b)),
            Cmd::Remove(b) => got.last().is_some_and(|g| !g.backends.contains(*b)),
            Cmd::Drop(t) => {
                let gone = aside_fs(|| !self.dir().join("current").join(format!("{t}.table")).exists());
                if gone {
                    now.cur.remove(t);
                }
                gone
            }
            _ => false,
        };
        let keep = self.wd.backends.clone();
        self.wd.names = now.names.clone();
        self.wd.schemas = now.schemas.clone();
        self.wd.st = now.st.clone();
        self.wd.extra = now.extra.clone();
        self.wd.cur = now.cur.clone();
        if !effect {
            return Some(false);
        }
        self.wd.backends = a.backends.clone();
        if keep != self.wd.backends || is_a {
            if self.wd.embedded {
                // the embedding may have been left out
                self.command(Cmd::Embed);
                if violated() {
                    return None;
                }
            }
        }
        if let Err(e) = self.dir_exactly(&self.wd) {
            viol("not_made", format!("after {cmd:?} took effect: {e}"));
            return None;
        }
        Some(true)
    }

    // ------------------------------------------------------------ what users do in between

    /// Change models and build.
    fn build(&mut self) {
        let base = self.wd.schemas.last().unwrap().clone();
        let mut s = self.wd.cur.clone();
        // where the series lost its end the models are taken back, too: a column must not come again as another
        let again = |a: &[Col], b: &[Col]| a.iter().any(|c| b.iter().any(|x| x.name == c.name && x != c));
        if s.iter().any(|(n, t)| base.get(n).is_some_and(|b| again(t, b) || t[0] != b[0])) {
            s = base.clone();
        }
        for _ in 0..1 + w(|w| w.below(3)) {
            change(&base, &mut s);
        }
        while self.wd.n() == 0 && s.is_empty() {
            change(&base, &mut s);
        }
        self.record(s);
    }
    /// The next build writes every model there is.
    fn record(&mut self, s: Schema) {
        slog!("build {}", s.keys().copied().collect::<Vec<_>>().join(" "));
        let gone: Vec<&'static str> = self.wd.cur.keys().copied().filter(|t| !s.contains_key(t)).collect();
        for t in gone {
            if violated() {
                return;
            }
            self.command(Cmd::Drop(t));
        }
        if violated() {
            return;
        }
        aside_fs(|| {
            let mut ms = from_root(self.dir());
            for t in declared(&s) {
                ms.current().add_modified_table(&t).expect("healthy");
            }
        });
        self.wd.cur = s;
    }
    /// Users' rows.
    fn data(&mut self) {
        let sch = self.wd.schemas[self.wd.st.at].clone();
        if sch.is_empty() {
            return;
        }
        let ts: Vec<&'static str> = sch.keys().copied().collect();
        for _ in 0..1 + w(|w| w.below(4)) {
            let t = w(|w| *w.pick(&ts));
            self.next_id += 1;
            let id = self.next_id;
            let mut row = MRow::new();
            let mut good = true;
            for c in &sch[t] {
                let v = match c.fk {
                    _ if c.pk => match c.ty {
                        Ty::Text => V::T(format!("k{id}")),
                        _ => V::I(id),
                    },
                    Some(f) => {
                        let keys: Vec<V> = self.wd.st.rows[f].keys().cloned().collect();
                        if keys.is_empty() || (c.null && w(|w| w.chance(300))) {
                            good &= c.null;
                            V::N
                        } else {
                            w(|w| w.pick(&keys).clone())
                        }
                    }
                    None if c.null && w(|w| w.chance(300)) => V::N,
                    None => mig::v_of(&mig::value(c.ty)),
                };
                row.insert(c.name, v);
            }
            if !good {
                continue;
            }
            aside(|| {
                let c = rusqlite::Connection::open(DB).unwrap();
                let cols: Vec<String> = row.keys().map(|c| format!("\"{c}\"")).collect();
                let qs: Vec<&str> = row.keys().map(|_| "?").collect();
                let vals: Vec<rusqlite::types::Value> = row
                    .values()
                    .map(|v| match v {
                        V::N => rusqlite::types::Value::Null,
                        V::I(i) => (*i).into(),
                        V::R(r) => f64::from_bits(*r).into(),
                        V::T(t) => t.clone().into(),
                        V::B(b) => b.clone().into(),
                    })
                    .collect();
                c.execute(&format!("INSERT INTO \"{t}\" ({}) VALUES ({})", cols.join(","), qs.join(",")), rusqlite::params_from_iter(vals))
                    .expect("insert");
            });
            let k = row["id"].clone();
            self.wd.st.rows.get_mut(t).unwrap().insert(k, row);
        }
        reset_randomness();
    }
}

fn declared(s: &Schema) -> Vec<butane::migrations::adb::ATable> {
    mig::adb_open(s).tables().cloned().collect()
}

/// A change whose migration cannot fail, whatever the rows are.
fn change(base: &Schema, s: &mut Schema) {
    let names: Vec<&'static str> = s.keys().copied().collect();
    let what = w(|w| w.weighted(&[5, 2, 5, 3]));
    if what == 0 || names.is_empty() {
        let free: Vec<&'static str> = TABLES.iter().copied().filter(|n| !s.contains_key(n) && !base.contains_key(n)).collect();
        if free.is_empty() {
            return;
        }
        let n = w(|w| *w.pick(&free));
        let key = w(|w| *w.pick(&[Ty::Int, Ty::Big, Ty::Text]));
        let mut t = vec![Col { name: "id", ty: key, null: false, pk: true, uniq: false, default: None, fk: None, auto: false }];
        for _ in 0..w(|w| w.below(4)) {
            t.push(mig::new_col(s, mig::free_col(&t).unwrap(), 400));
        }
        s.insert(n, t);
        return;
    }
    let n = w(|w| *w.pick(&names));
    match what {
        1 => {
            if s.iter().any(|(o, cols)| *o != n && cols.iter().any(|c| c.fk == Some(n))) {
                return;
            }
            s.remove(n);
        }
        2 => {
            let Some(c) = mig::free_col(&s[n]) else { return };
            if base.get(n).is_some_and(|t| t.iter().any(|x| x.name == c)) {
                return;
            }
            let col = mig::new_col(s, c, 0);
            if col.ty == Ty::Real {
                return;
            }
            s.get_mut(n).unwrap().push(col);
        }
        _ => {
            let l = s[n].len() as u32;
            if l < 2 {
                return;
            }
            let i = 1 + w(|w| w.below(l - 1)) as usize;
            let c = &s[n][i];
            // a reference, or a column whose return SQLite refuses, stays
            if c.fk.is_some() || c.ty == Ty::Real {
                return;
            }
            s.get_mut(n).unwrap().remove(i);
        }
    }
}

const FAULTS: &[Fault] = &[Fault::Eio, Fault::Full, Fault::Torn, Fault::CantOpen, Fault::Kill, Fault::Kill, Fault::Busy];

pub fn c19() {
    let root = fsim::begin();
    set_proc(new_proc());
    draw_plan(FAULTS, &[], 40);
    sim(|s| {
        s.plan.mean_gap = s.plan.mean_gap.min(200);
        s.plan.remaining = s.plan.remaining.max(1);
    });
    std::fs::create_dir_all(root.join("src")).unwrap();
    std::fs::create_dir_all(root.join(".butane")).unwrap();
    let mut r = Run {
        base: root.join(".butane"),
        wd: World {
            cur: Schema::new(),
            names: vec![],
            schemas: vec![Schema::new()],
            backends: BTreeSet::from(["sqlite"]),
            embedded: false,
            st: State { tally: 0, ..Default::default() },
            extra: BTreeSet::new(),
        },
        next_id: 0,
        done: 0,
    };
    // a project that has been in use for a while
    sim(|s| s.end_faults());
    r.calm(Cmd::Init);
    for _ in 0..1 + w(|w| w.below(3)) {
        r.build();
        r.calm(Cmd::Make("first"));
        if w(|w| w.chance(600)) {
            r.calm(Cmd::Migrate(None));
            if !violated() {
                r.data();
            }
        }
    }
    if w(|w| w.chance(400)) && r.wd.n() > 0 {
        r.calm(Cmd::Add("pg"));
    }
    if w(|w| w.chance(600)) {
        r.calm(Cmd::Embed);
    }
    let n = 2 + w(|w| w.below(7));
    for _ in 0..n {
        if violated() {
            break;
        }
        let at = sim(|s| s.work.rec.len());
        r.one();
        sim(|s| {
            let to = s.work.rec.len();
            s.work.spans.push((at, to));
        });
    }
    if !violated() {
        r.finish();
    }
    if r.done > 1 {
        sim(|s| s.stat("nontrivial"));
    }
    fsim::end();
}
impl Run {
    fn calm(&mut self, c: Cmd) {
        if violated() {
            return;
        }
        sim(|s| s.end_faults());
        let out = self.process(&c);
        if violated() {
            return;
        }
        if !matches!(out, Out::Ok) {
            viol("not_completed", format!("{c:?} in a healthy project: {}", d(&out)));
            return;
        }
        if self.wd.cur.is_empty() && self.wd.n() == 0 && !self.dir().is_dir() {
            return;
        }
        self.examine(&c, true, true);
    }
    fn one(&mut self) {
        let n = self.wd.n();
        let at = self.wd.st.at;
        let pick = w(|w| w.weighted(&[6, 6, 8, 4, 3, 2, 3, 3, 4, 7, 2, 1, 1]));
        let name = w(|w| *w.pick(&["one", "two"]));
        match pick {
            0 => {
                self.build();
                if !violated() {
                    self.command(Cmd::Make(name));
                }
            }
            1 => {
                if at > 0 {
                    self.data();
                }
            }
            2 => {
                if at < n {
                    let to = if w(|w| w.chance(300)) { Some(at + 1 + w(|w| w.below((n - at) as u32)) as usize) } else { None };
                    self.command(Cmd::Migrate(to));
                } else {
                    self.command(Cmd::Migrate(None));
                }
            }
            3 => {
                if at > 0 {
                    let to = if at > 1 && w(|w| w.chance(500)) { Some(1 + w(|w| w.below(at as u32 - 1)) as usize) } else { None };
                    self.command(Cmd::Unmigrate(to));
                }
            }
            4 => self.command(Cmd::Embed),
            5 => {
                if n > 1 && at < n {
                    self.command(Cmd::Detach);
                }
            }
            6 => {
                if n > 0 && !self.wd.backends.contains("pg") {
                    self.command(Cmd::Add("pg"));
                }
            }
            7 => {
                if n > 0 && self.wd.backends.len() == BACKENDS.len() {
                    self.command(Cmd::Remove("pg"));
                }
            }
            8 => {
                if n > 0 {
                    self.command(Cmd::Regenerate);
                }
            }
            9 => {
                if n > 1 && at > 0 && !self.wd.schemas[at].is_empty() {
                    self.command(Cmd::Collapse(name));
                }
            }
            10 => {
                if at > 0 {
                    self.command(Cmd::ClearData);
                }
            }
            11 => self.command(Cmd::List),
            _ => self.command(Cmd::Init),
        }
    }
    /// In the end an application migrates by what is embedded, or the tool does.
    fn finish(&mut self) {
        sim(|s| s.end_faults());
        if self.wd.embedded && w(|w| w.chance(500)) {
            let a = self.after(&Cmd::Migrate(None), None);
            let mem = match self.embedding() {
                Some(Ok(m)) => m,
                x => {
                    viol("lost", format!("in the end the embedding is {:?}", x.map(|x| x.err())));
                    return;
                }
            };
            set_proc(new_proc());
            let r = butane::db::connect(&butane::db::ConnectionSpec::new("sqlite", DB)).and_then(|mut c| mem.migrate(&mut c));
            if let Err(e) = r {
                viol("out_of_step", format!("in the end migrating by the embedding fails: {e}"));
                return;
            }
            let mut act = match self.look() {
                Ok(x) => x,
                Err(e) => return viol("database", e),
            };
            if let Err(e) = self.db_exactly(&mut act, &a, &self.wd.extra) {
                viol("out_of_step", format!("in the end, migrated by the embedding: {e}"));
            }
        } else {
            self.calm(Cmd::Migrate(None));
        }
    }
}
