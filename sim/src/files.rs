//! The migrations directory under file-system faults (C11) and parallel builds (C12). What butane keeps in files is
//! compared with what the same calls leave in memory.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

use async_trait::async_trait;
use butane::db::{Backend, Connection, ConnectionAsync};
use butane::migrations::adb::{ATable, DeferredSqlType, Operation, TypeKey, ADB};
use butane::migrations::{from_root, FsMigrations, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};
use butane_core::codegen::{butane_type_with_migrations, model_with_migrations};
use nonempty::NonEmpty;
use proc_macro2::TokenStream;

use crate::core::{new_proc, panic_msg, run_clients, set_proc, sim, Client, Fault, NoSwitch, Stream, ORACLE};
use crate::fsim;
use crate::slog;
use crate::solo::draw_plan;
use crate::store::{me_dead, violated};

pub fn w<T>(f: impl FnOnce(&mut Stream) -> T) -> T {
    sim(|s| f(&mut s.work))
}

// ---------------------------------------------------------------- source code of models

#[derive(Clone, Debug, PartialEq)]
struct FieldDef {
    name: &'static str,
    ty: String,
    attr: String,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Model { name: &'static str, table: Option<&'static str>, key: &'static str, fields: Vec<Fd> },
    Type { name: &'static str, ty: &'static str },
}
type Fd = FieldDef;

impl Item {
    pub fn name(&self) -> &'static str {
        match self {
            Item::Model { name, .. } | Item::Type { name, .. } => name,
        }
    }
    fn source(&self) -> String {
        match self {
            Item::Model { name, table, key, fields } => {
                let mut s = String::new();
                if let Some(t) = table {
                    s += &format!("#[table = \"{t}\"] ");
                }
                s += &format!("pub struct {name} {{ id: {key}, ");
                for f in fields {
                    s += &format!("{} {}: {}, ", f.attr, f.name, f.ty);
                }
                s + "}"
            }
            Item::Type { name, ty } => format!("pub type {name} = {ty};"),
        }
    }
    /// Record the item as the macros do when the code is compiled.
    fn expand<M: MigrationMut>(&self, ms: &mut impl MigrationsMut<M = M>) -> Result<(), String> {
        let src = self.source();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let t: TokenStream = src.parse().expect("tokens");
            match self {
                Item::Model { .. } => model_with_migrations(t, ms),
                Item::Type { .. } => butane_type_with_migrations(TokenStream::new(), t, ms),
            }
            .to_string()
        }));
        match r {
            Ok(s) if s.contains("compile_error") => Err(s.chars().take(80).collect()),
            Ok(_) => Ok(()),
            Err(e) => Err(fsim::clean(&panic_msg(&e))),
        }
    }
}

/// What recording an item puts down.
#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    Table(ATable),
    Type(TypeKey, DeferredSqlType),
}
#[derive(Clone, Debug, Default)]
struct Tape(Vec<Rec>);
impl Migration for Tape {
    fn db(&self) -> butane::Result<ADB> {
        unreachable!()
    }
    fn migration_from(&self) -> butane::Result<Option<std::borrow::Cow<'_, str>>> {
        unreachable!()
    }
    fn name(&self) -> std::borrow::Cow<'_, str> {
        "tape".into()
    }
    fn up_sql(&self, _: &str) -> butane::Result<Option<String>> {
        unreachable!()
    }
    fn down_sql(&self, _: &str) -> butane::Result<Option<String>> {
        unreachable!()
    }
    fn sql_backends(&self) -> butane::Result<Vec<String>> {
        unreachable!()
    }
}
impl PartialEq for Tape {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}
impl MigrationMut for Tape {
    fn add_modified_table(&mut self, t: &ATable) -> butane::Result<()> {
        self.0.push(Rec::Table(t.clone()));
        Ok(())
    }
    fn add_unmodified_table(&mut self, _: &ATable, _: &str) -> butane::Result<()> {
        unreachable!()
    }
    fn delete_table(&mut self, _: &str) -> butane::Result<()> {
        unreachable!()
    }
    fn add_sql(&mut self, _: &str, _: &str, _: &str) -> butane::Result<()> {
        unreachable!()
    }
    fn remove_sql(&mut self, _: &str) -> butane::Result<()> {
        unreachable!()
    }
    fn add_type(&mut self, k: TypeKey, t: DeferredSqlType) -> butane::Result<()> {
        self.0.push(Rec::Type(k, t));
        Ok(())
    }
    fn set_migration_from(&mut self, _: Option<String>) -> butane::Result<()> {
        unreachable!()
    }
}
#[derive(Clone, Debug, Default)]
struct Tapes(Tape);
impl Migrations for Tapes {
    type M = Tape;
    fn get_migration(&self, _: &str) -> Option<Tape> {
        None
    }
    fn latest(&self) -> Option<Tape> {
        None
    }
}
impl MigrationsMut for Tapes {
    fn new_migration(&self, _: &str) -> Tape {
        unreachable!()
    }
    fn add_migration(&mut self, _: Tape) -> butane::Result<()> {
        unreachable!()
    }
    fn delete_migrations(&mut self) -> butane::Result<()> {
        unreachable!()
    }
    fn current(&mut self) -> &mut Tape {
        &mut self.0
    }
    fn clear_current(&mut self) -> butane::Result<()> {
        unreachable!()
    }
}
pub fn records(i: &Item) -> Vec<Rec> {
    let mut t = Tapes::default();
    i.expand(&mut t).expect("a valid item");
    t.0 .0
}

const MODELS: &[&str] = &["Alpha", "Beta", "Gamma", "Delta", "Eps"];
const TYPES: &[&str] = &["Kind", "Money", "Tag"];
const FIELDS: &[&str] = &["a", "b", "c", "d", "e"];

pub type Project = BTreeMap<&'static str, Item>;

fn is_type(p: &Project, n: &str) -> bool {
    matches!(p.get(n), Some(Item::Type { .. }))
}
fn field(p: &Project, name: &'static str, allow_many: bool) -> Fd {
    let models: Vec<&'static str> = p.keys().copied().filter(|n| !is_type(p, n)).collect();
    let types: Vec<&'static str> = p.keys().copied().filter(|n| is_type(p, n)).collect();
    let k = w(|w| w.weighted(&[6, 2, 3, 2, 1]));
    let mut attr = String::new();
    let ty = match k {
        1 if !types.is_empty() => w(|w| w.pick(&types).to_string()),
        2 if !models.is_empty() => {
            let m = w(|w| *w.pick(&models));
            if w(|w| w.chance(400)) {
                format!("Option<ForeignKey<{m}>>")
            } else {
                format!("ForeignKey<{m}>")
            }
        }
        3 if allow_many && !models.is_empty() => format!("Many<{}>", w(|w| *w.pick(&models))),
        4 => "Option<String>".into(),
        _ => {
            let (t, d) = w(|w| *w.pick(&[("i64", "7"), ("String", "\"x\""), ("i32", "-1"), ("bool", "true"), ("f64", "1.5")]));
            if w(|w| w.chance(200)) {
                attr = format!("#[default = {d}]");
            } else if w(|w| w.chance(100)) {
                attr = "#[unique]".into();
            }
            t.to_string()
        }
    };
    Fd { name, ty, attr }
}
fn refers(p: &Project, n: &str) -> bool {
    p.values().any(|i| match i {
        Item::Model { fields, name, .. } => {
            *name != n && fields.iter().any(|f| f.ty == n || f.ty.contains(&format!("<{n}>")))
        }
        _ => false,
    })
}
/// A new or changed item; None if nothing was drawn.
pub fn edit(p: &mut Project) -> Option<Item> {
    let k = w(|w| w.weighted(&[5, 2, 5]));
    let item = match k {
        1 => {
            let n = w(|w| *w.pick(TYPES));
            if p.contains_key(n) {
                return None;
            }
            let ty = w(|w| *w.pick(&["String", "i64", "i32", "bool"]));
            Item::Type { name: n, ty }
        }
        0 => {
            let n = MODELS.iter().copied().find(|n| !p.contains_key(n))?;
            let key = w(|w| *w.pick(&["i64", "AutoPk<i64>", "String", "i32"]));
            let table = if w(|w| w.chance(200)) { Some(w(|w| *w.pick(&["renamed", "order", "t two"]))) } else { None };
            let table = table.filter(|t| !p.values().any(|i| matches!(i, Item::Model { table: Some(x), .. } if x == t)));
            let nf = w(|w| w.below(4)) as usize;
            let fields = FIELDS[..nf].iter().map(|f| field(p, f, true)).collect();
            Item::Model { name: n, table, key, fields }
        }
        _ => {
            let models: Vec<&'static str> = p.keys().copied().filter(|n| !is_type(p, n)).collect();
            if models.is_empty() {
                return None;
            }
            let n = w(|w| *w.pick(&models));
            let mut i = p[n].clone();
            let Item::Model { fields, .. } = &mut i else { unreachable!() };
            let many = |f: &Fd| f.ty.starts_with("Many");
            match w(|w| w.below(3)) {
                0 if fields.iter().any(|f| !many(f)) => {
                    // a removed many-to-many field would leave its table behind
                    let at = fields.iter().position(|f| !many(f)).unwrap();
                    fields.remove(at);
                }
                1 if fields.iter().any(|f| !many(f)) => {
                    let at = fields.iter().rposition(|f| !many(f)).unwrap();
                    let name = fields[at].name;
                    fields[at] = field(p, name, false);
                }
                _ => {
                    let name = FIELDS.iter().copied().find(|x| fields.iter().all(|f| f.name != *x))?;
                    let f = field(p, name, true);
                    fields.push(f);
                }
            }
            i
        }
    };
    if p.get(item.name()) == Some(&item) {
        return None;
    }
    p.insert(item.name(), item.clone());
    Some(item)
}

// ---------------------------------------------------------------- what has been recorded

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cur {
    tables: BTreeMap<String, ATable>,
    types: BTreeMap<TypeKey, DeferredSqlType>,
}
impl Cur {
    pub fn put(&mut self, r: &Rec) {
        match r {
            Rec::Table(t) => {
                self.tables.insert(t.name.clone(), t.clone());
            }
            Rec::Type(k, t) => {
                self.types.insert(k.clone(), t.clone());
            }
        }
    }
    fn has(&self, r: &Rec) -> bool {
        match r {
            Rec::Table(t) => self.tables.get(&t.name) == Some(t),
            Rec::Type(k, t) => self.types.get(k) == Some(t),
        }
    }
    pub fn db(&self) -> Option<ADB> {
        let mut a = ADB::new();
        for t in self.tables.values() {
            a.replace_table(t.clone());
        }
        for (k, t) in &self.types {
            a.add_type(k.clone(), t.clone());
        }
        catch_unwind(AssertUnwindSafe(|| a.resolve_types().ok().map(|_| a))).ok().flatten()
    }
    /// Every state in which a subset of these records has been made, and a subset of these tables removed.
    fn maybe(&self, may: &[Rec], gone: Option<&str>) -> Vec<Cur> {
        let mut out = vec![];
        for m in 0..1u32 << may.len() {
            let mut c = self.clone();
            for (i, r) in may.iter().enumerate() {
                if m >> i & 1 == 1 {
                    c.put(r);
                }
            }
            out.push(c);
        }
        if let Some(t) = gone {
            let mut c = self.clone();
            c.tables.remove(t);
            out.push(c);
        }
        out
    }
}

/// A second backend, so that migrations have files for two.
#[derive(Clone)]
struct Other;
#[async_trait]
impl Backend for Other {
    fn name(&self) -> &'static str {
        "other"
    }
    fn row_id_column(&self) -> Option<&'static str> {
        None
    }
    fn create_migration_sql(&self, current: &ADB, ops: Vec<Operation>) -> butane::Result<String> {
        let s = butane::db::get_backend("sqlite").unwrap().create_migration_sql(current, ops)?;
        Ok(format!("-- other\n{s}"))
    }
    fn connect(&self, _: &str) -> butane::Result<Connection> {
        unreachable!()
    }
    async fn connect_async(&self, _: &str) -> butane::Result<ConnectionAsync> {
        unreachable!()
    }
}

pub fn d(x: &impl std::fmt::Debug) -> String {
    let s = format!("{x:?}");
    fsim::clean(&s.chars().take(600).collect::<String>())
}
pub fn viol(class: &str, m: String) {
    sim(|s| s.violate(class, fsim::clean(&m)));
}
/// Read as the harness: no scheduling, no faults, nothing logged.
pub fn aside_fs<R>(f: impl FnOnce() -> R) -> R {
    let _n = NoSwitch::new();
    let p = crate::core::proc_id();
    set_proc(ORACLE);
    let q = sim(|s| std::mem::replace(&mut s.quiet, true));
    let r = f();
    sim(|s| s.quiet = q);
    set_proc(p);
    r
}

/// One migration as it must be read back.
pub fn same_migration<A: Migration>(a: &A, b: &impl Migration) -> Result<(), String> {
    let e = |x: &butane::Error| format!("unreadable: {x}");
    let (da, db) = (a.db().map_err(|x| e(&x))?, b.db().map_err(|x| format!("reference {x}"))?);
    if !same_db(&da, &db) {
        return Err(format!("schema {} instead of {}", d(&da), d(&db)));
    }
    let (fa, fb) = (a.migration_from().map_err(|x| e(&x))?, b.migration_from().unwrap());
    if fa != fb {
        return Err(format!("follows {fa:?} instead of {fb:?}"));
    }
    let (mut ba, mut bb) = (a.sql_backends().map_err(|x| e(&x))?, b.sql_backends().unwrap());
    ba.sort();
    bb.sort();
    if ba != bb {
        return Err(format!("backends {ba:?} instead of {bb:?}"));
    }
    for k in ba {
        for (what, x, y) in [("up", a.up_sql(&k), b.up_sql(&k)), ("down", a.down_sql(&k), b.down_sql(&k))] {
            let (x, y) = (x.map_err(|x| e(&x))?, y.unwrap());
            let t = |o: Option<String>| o.map(|s| s.trim_end_matches('\n').to_string());
            if t(x.clone()) != t(y.clone()) {
                return Err(format!("{what} script for {k} {} instead of {}", d(&x), d(&y)));
            }
        }
    }
    Ok(())
}
/// A migration keeps tables; the types they were resolved with are of no further use.
pub fn same_db(a: &ADB, b: &ADB) -> bool {
    a.tables().eq(b.tables())
}

fn all_same(a: &ADB, b: &ADB) -> bool {
    same_db(a, b) && a.types() == b.types()
}

// ---------------------------------------------------------------- C11

struct Run {
    root: PathBuf,
    backends: NonEmpty<Box<dyn Backend>>,
    project: Project,
    cur: Cur,
    /// the series, as the same calls leave it in memory
    chain: MemMigrations,
    names: Vec<String>,
    made: u32,
    tries: u32,
    ops: u32,
}
enum Todo {
    Record(Item),
    Create(String),
    Drop(String),
}

impl Run {
    fn ms(&self) -> FsMigrations {
        from_root(&self.root)
    }
    /// The series is `names`, each complete; with `maybe`, the one in question may be listed at the end, too.
    fn check_chain(&self, ms: &FsMigrations, maybe: Option<&MemMigrations>) -> Option<bool> {
        let all = match ms.all_migrations() {
            Ok(a) => a,
            Err(e) => {
                viol("lost", format!("the list of migrations cannot be read any more: {e}"));
                return None;
            }
        };
        let got: Vec<String> = all.iter().map(|m| m.name().to_string()).collect();
        let mut want = self.names.clone();
        let mut refs = &self.chain;
        let mut listed = false;
        if got != want {
            if let Some(m) = maybe {
                let l = m.latest().unwrap().name().to_string();
                if !want.contains(&l) {
                    want.push(l);
                }
                refs = m;
                listed = true;
            }
        }
        if got != want {
            viol("lost", format!("migrations {got:?} are listed instead of {:?}", self.names));
            return None;
        }
        for m in &all {
            let r = refs.get_migration(&m.name()).unwrap();
            if let Err(e) = same_migration(m, &r) {
                let class = if self.names.contains(&m.name().to_string()) { "lost" } else { "partial" };
                viol(class, format!("migration {}: {e}", m.name()));
                return None;
            }
            if ms.migrations_since(m).map(|v| v.len()).ok() != all.iter().position(|x| x == m).map(|i| all.len() - 1 - i) {
                viol("lost", format!("migrations since {} are wrong", m.name()));
                return None;
            }
        }
        let latest = ms.latest().map(|m| m.name().to_string());
        if latest != want.last().cloned() {
            viol("lost", format!("{latest:?} is the latest instead of {:?}", want.last()));
            return None;
        }
        Some(listed)
    }
    /// What has been recorded reads as one of `cands`; which.
    fn check_current(&mut self, ms: &mut FsMigrations, cands: &[Cur]) -> Option<usize> {
        let got = catch_unwind(AssertUnwindSafe(|| ms.current().db()));
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                viol("panic", format!("reading the recorded models panics: {}", panic_msg(&e)));
                return None;
            }
        };
        match got {
            Ok(g) => {
                for (i, c) in cands.iter().enumerate() {
                    let Some(x) = c.db() else { continue };
                    if all_same(&x, &g) {
                        return Some(i);
                    }
                }
                let exp = cands.last().unwrap();
                let names = |c: &Cur| c.tables.keys().cloned().chain(c.types.keys().map(|k| d(&k))).collect::<Vec<_>>();
                viol(
                    "record_lost",
                    format!(
                        "recorded models read as {} of tables {:?}; recorded were {:?}",
                        d(&g),
                        g.tables().map(|t| t.name.clone()).collect::<Vec<_>>(),
                        names(exp)
                    ),
                );
                None
            }
            Err(e) => {
                if cands.iter().any(|c| c.db().is_none()) {
                    sim(|s| s.stat("probe:current_unreadable"));
                    return Some(usize::MAX);
                }
                viol("record_lost", format!("recorded models cannot be read any more: {e}"));
                None
            }
        }
    }
    fn perform(&self, ms: &mut FsMigrations, t: &Todo) -> Result<bool, String> {
        let r = catch_unwind(AssertUnwindSafe(|| match t {
            Todo::Record(i) => i.expand(ms).map(|_| true),
            Todo::Drop(t) => ms.current().delete_table(t).map(|_| true).map_err(|e| e.to_string()),
            Todo::Create(n) => {
                // latest() cannot report a failure to find out
                let from = ms.all_migrations().map_err(|e| e.to_string())?.pop();
                ms.create_migration(&self.backends, n, from.as_ref()).map_err(|e| e.to_string())
            }
        }));
        match r {
            Ok(r) => r.map_err(|e| fsim::clean(&e)),
            Err(e) => Err(format!("panic: {}", fsim::clean(&panic_msg(&e)))),
        }
    }
    /// Do it, under faults if they are armed, check, and do it again until it is done.
    fn step(&mut self, t: Todo) {
        self.ops += 1;
        let what = match &t {
            Todo::Record(i) => format!("record {}", i.source()),
            Todo::Create(n) => format!("create {n}"),
            Todo::Drop(n) => format!("drop {n}"),
        };
        let recs = if let Todo::Record(i) = &t { records(i) } else { vec![] };
        let gone = if let Todo::Drop(n) = &t { Some(n.as_str()) } else { None };
        let mut next = None;
        if let Todo::Create(n) = &t {
            let mut m = self.chain.clone();
            let from = m.latest();
            let Some(to) = self.cur.db() else { return };
            match m.create_migration_to(&self.backends, n, from.as_ref(), to) {
                Ok(true) => next = Some(m),
                Ok(false) => {}
                Err(_) => return,
            }
        }
        for attempt in 0.. {
            // the last attempts are left in peace
            let calm = attempt >= 2 || w(|w| w.chance(150));
            if calm {
                sim(|s| s.end_faults());
            } else {
                sim(|s| s.rearm());
            }
            if me_dead() {
                set_proc(new_proc());
            }
            let h0 = sim(|s| s.plan.hits);
            let mut ms = self.ms();
            slog!("{what}");
            let r = self.perform(&mut ms, &t);
            let dead = me_dead();
            slog!("-> {}", if dead { "died".into() } else { d(&r) });
            if violated() {
                return;
            }
            let hit = sim(|s| s.plan.hits) != h0;
            if hit {
                sim(|s| s.stat("probe:interrupted"));
            }
            if let (Err(e), false, false) = (&r, hit, dead) {
                let unresolved = matches!(t, Todo::Create(_)) && self.cur.db().is_none();
                // an earlier attempt may have dropped it
                let dropped = matches!(t, Todo::Drop(_)) && attempt > 0;
                if !unresolved && !dropped {
                    viol("not_completed", format!("{what} failed without a fault (attempt {attempt}): {e}"));
                    return;
                }
            }
            if dead && w(|w| w.chance(300)) {
                // nobody looks before it is done again
                continue;
            }
            sim(|s| s.end_faults());
            if dead {
                set_proc(new_proc());
                ms = self.ms();
            }
            let done = r.is_ok() && !dead;
            // the series
            let listed = aside_fs(|| self.check_chain(&ms, next.as_ref()));
            let Some(listed) = listed else { return };
            if listed {
                let m = next.take().unwrap();
                self.names.push(m.latest().unwrap().name().to_string());
                self.chain = m;
                sim(|s| s.stat("probe:migration_made"));
                self.made += 1;
            }
            if done && matches!(t, Todo::Create(_)) {
                if next.is_some() {
                    viol("not_made", format!("{what} reports {r:?} but the migration is not listed"));
                    return;
                }
                if r == Ok(true) && !listed {
                    viol("not_made", format!("{what} reports a migration where nothing had changed"));
                    return;
                }
            }
            // what is recorded
            let mut full = self.cur.clone();
            recs.iter().for_each(|r| full.put(r));
            if let Some(g) = gone {
                full.tables.remove(g);
            }
            let cands = if done { vec![full.clone()] } else { self.cur.maybe(&recs, gone) };
            let Some(i) = aside_fs(|| self.check_current(&mut ms, &cands)) else { return };
            if done {
                self.cur = full;
                return;
            }
            if matches!(t, Todo::Create(_)) && w(|w| w.chance(250)) {
                // given up; the next one is made under another name
                sim(|s| s.stat("probe:given_up"));
                self.tries += 1;
                return;
            }
            if let (Todo::Drop(_), true) = (&t, cands.get(i) == Some(&full)) {
                // it is gone; dropping it again would be an error
                self.cur = full;
                return;
            }
        }
    }
}

const FILE_FAULTS: &[Fault] = &[Fault::Eio, Fault::Full, Fault::Torn, Fault::CantOpen, Fault::Kill];

pub fn c11() {
    let root = fsim::begin().join("migrations");
    set_proc(new_proc());
    draw_plan(FILE_FAULTS, &[], 50);
    // shorter operations than those of a database: faults closer together
    sim(|s| {
        s.plan.mean_gap = s.plan.mean_gap.min(120);
    });
    let mut backends: NonEmpty<Box<dyn Backend>> = NonEmpty::new(butane::db::get_backend("sqlite").unwrap());
    if w(|w| w.chance(400)) {
        backends.push(Box::new(Other));
    }
    let mut r = Run {
        root,
        backends,
        project: Project::new(),
        cur: Cur::default(),
        chain: MemMigrations::new(),
        names: vec![],
        made: 0,
        tries: 0,
        ops: 0,
    };
    let n = 3 + w(|w| w.below(10));
    for _ in 0..n {
        if violated() {
            break;
        }
        let at = sim(|s| s.work.rec.len());
        match w(|w| w.weighted(&[8, 4, 3, 1])) {
            0 => {
                if let Some(i) = edit(&mut r.project) {
                    r.step(Todo::Record(i));
                }
            }
            1 => {
                if !r.cur.tables.is_empty() {
                    let n = format!("m{:03}_{}", r.names.len(), r.tries);
                    r.step(Todo::Create(n));
                }
            }
            2 => {
                // build again without a change
                let items: Vec<Item> = r.project.values().cloned().collect();
                for i in items {
                    if violated() {
                        break;
                    }
                    if w(|w| w.chance(500)) {
                        r.step(Todo::Record(i));
                    }
                }
            }
            _ => {
                let free: Vec<&'static str> = r
                    .project
                    .iter()
                    .filter(|(n, i)| matches!(i, Item::Model { table: None, .. }) && !refers(&r.project, n))
                    .map(|x| *x.0)
                    .collect();
                if let Some(n) = free.first() {
                    let recs = records(&r.project[n]);
                    r.project.remove(n);
                    for x in recs {
                        if let Rec::Table(t) = x {
                            if r.cur.tables.contains_key(&t.name) && !violated() {
                                r.step(Todo::Drop(t.name.clone()));
                            }
                        }
                    }
                }
            }
        }
        sim(|s| {
            let to = s.work.rec.len();
            s.work.spans.push((at, to));
        });
    }
    if r.ops > 1 {
        sim(|s| s.stat("nontrivial"));
    }
    fsim::end();
}

// ---------------------------------------------------------------- C12

#[derive(Default)]
struct Board {
    /// recorded for certain
    done: Vec<Rec>,
    /// being recorded, or lost with its process
    may: Vec<Rec>,
}

fn check_board(g: &ADB, base: &Cur, sure: &[Rec], may: &[Rec]) -> Result<(), String> {
    let mut s = base.clone();
    sure.iter().for_each(|r| s.put(r));
    let open: Vec<Rec> = may.iter().filter(|r| !s.has(r)).cloned().collect();
    // which of the open ones are there shows in the names; where an old version exists both are tried
    let names: BTreeSet<&String> = g.tables().map(|t| &t.name).collect();
    let mut forced = vec![];
    let mut free = vec![];
    for r in open {
        let (there, new) = match &r {
            Rec::Table(t) => (names.contains(&t.name), !s.tables.contains_key(&t.name)),
            Rec::Type(k, _) => (g.types().contains_key(k), !s.types.contains_key(k)),
        };
        if !there {
            continue;
        }
        if new {
            forced.push(r);
        } else {
            free.push(r);
        }
    }
    // two versions of one new table: either
    let mut alts: Vec<Cur> = vec![s];
    for r in forced {
        let dup = alts.iter().any(|c| match &r {
            Rec::Table(t) => c.tables.contains_key(&t.name),
            Rec::Type(k, _) => c.types.contains_key(k),
        });
        if dup {
            free.push(r);
            continue;
        }
        alts.iter_mut().for_each(|c| c.put(&r));
    }
    free.truncate(6);
    for r in free {
        let more: Vec<Cur> = alts
            .iter()
            .cloned()
            .map(|mut c| {
                c.put(&r);
                c
            })
            .collect();
        alts.extend(more);
    }
    for a in &alts {
        if a.db().is_some_and(|x| all_same(&x, g)) {
            return Ok(());
        }
    }
    let a = alts.last().unwrap();
    for (n, _) in &a.tables {
        if !names.contains(n) {
            return Err(format!("table {n} is missing"));
        }
    }
    for k in a.types.keys() {
        if !g.types().contains_key(k) {
            return Err(format!("type {k:?} is missing"));
        }
    }
    Err(format!("{} instead of {}", d(g), d(&a.db())))
}

pub fn c12() {
    let root = fsim::begin().join("migrations");
    set_proc(new_proc());
    // what was built before
    let mut p = Project::new();
    let mut base = Cur::default();
    let before = w(|w| w.below(4));
    for _ in 0..before {
        edit(&mut p);
    }
    if w(|w| w.chance(700)) {
        let _ = std::fs::create_dir_all(&root);
    }
    for i in p.values() {
        let mut ms = from_root(&root);
        i.expand(&mut ms).expect("healthy");
        records(i).iter().for_each(|r| base.put(r));
    }
    let old: Vec<Item> = p.values().cloned().collect();
    // the source as it is now
    for _ in 0..2 + w(|w| w.below(6)) {
        edit(&mut p);
    }
    let items: Vec<Item> = p.values().cloned().collect();
    let changed: BTreeSet<&'static str> = items.iter().filter(|i| !old.contains(i)).map(|i| i.name()).collect();
    let kills = w(|w| w.chance(250));
    if kills {
        draw_plan(&[Fault::Kill], &[Fault::Kill], 0);
        sim(|s| s.rearm());
    }
    sim(|s| s.switch_pm = *s.sched.pick(&[300u32, 60, 700]));
    let board = Arc::new(Mutex::new(Board::default()));
    let base = Arc::new(base);
    let builders = 2 + w(|w| w.below(3));
    // every record that anybody may make
    let mut cs: Vec<Client> = vec![];
    let mut owners = vec![];
    for b in 0..builders {
        let mut mine: Vec<Item> = items.iter().filter(|_| w(|w| w.chance(600))).cloned().collect();
        if mine.is_empty() && !items.is_empty() {
            mine.push(w(|w| w.pick(&items).clone()));
        }
        let n = mine.len();
        if n > 1 && w(|w| w.chance(500)) {
            let k = w(|w| w.below(n as u32)) as usize;
            mine.rotate_left(k);
        }
        let proc = new_proc();
        owners.push(proc);
        let (root, board) = (root.clone(), board.clone());
        cs.push((format!("build{b}"), proc, Box::new(move || build(&root, &mine, &board))));
    }
    let all: Vec<Rec> = items.iter().flat_map(records).collect();
    for r in 0..w(|w| w.below(3)) {
        let (root, board, base, all) = (root.clone(), board.clone(), base.clone(), all.clone());
        let times = 1 + w(|w| w.below(4));
        cs.push((format!("read{r}"), new_proc(), Box::new(move || read(&root, times, &base, &board, &all))));
    }
    run_clients(cs);
    if violated() {
        fsim::end();
        return;
    }
    sim(|s| s.end_faults());
    set_proc(new_proc());
    let b = board.lock().unwrap();
    let lost = owners.iter().any(|p| sim(|s| s.proc_dead(*p)));
    let got = aside_fs(|| from_root(&root).current().db());
    match &got {
        Ok(g) => {
            if let Err(e) = check_board(g, &base, &b.done, &b.may) {
                viol("record_lost", format!("after the builds: {e}"));
            }
        }
        Err(e) => {
            let mut c = (*base).clone();
            b.done.iter().for_each(|r| c.put(r));
            // the half of what a killed process was recording may refer to the other half
            let complete = c.db().is_some();
            if complete && !lost || !matches!(e, butane::Error::CannotResolveType(_)) {
                viol("record_lost", format!("after the builds what they recorded cannot be read: {e}"));
            }
        }
    }
    drop(b);
    if !violated() {
        let mut full = (*base).clone();
        for i in &items {
            let mut ms = from_root(&root);
            if let Err(e) = i.expand(&mut ms) {
                viol("not_completed", format!("building again fails: {e}"));
                break;
            }
            records(i).iter().for_each(|r| full.put(r));
        }
        if !violated() {
            let g = aside_fs(|| from_root(&root).current().db());
            match (g, full.db()) {
                (Ok(g), Some(x)) if !all_same(&g, &x) => viol("record_lost", format!("after building again: {} instead of {}", d(&g), d(&x))),
                (Err(e), Some(_)) => viol("record_lost", format!("after building again: {e}")),
                _ => {}
            }
        }
    }
    if !changed.is_empty() && builders > 1 {
        sim(|s| s.stat("nontrivial"));
    }
    fsim::end();
}
fn build(root: &Path, items: &[Item], board: &Mutex<Board>) {
    let mut ms = from_root(root);
    for i in items {
        let recs = records(i);
        {
            let _n = NoSwitch::new();
            board.lock().unwrap().may.extend(recs.iter().cloned());
        }
        slog!("record {}", i.source());
        let r = i.expand(&mut ms);
        if me_dead() {
            return;
        }
        match r {
            Ok(()) => {
                let _n = NoSwitch::new();
                board.lock().unwrap().done.extend(recs);
                sim(|s| s.stat("probe:recorded"));
            }
            Err(e) => {
                viol("build_failed", format!("recording {} fails beside other builds: {e}", i.name()));
                return;
            }
        }
    }
}
fn read(root: &Path, times: u32, base: &Cur, board: &Mutex<Board>, all: &[Rec]) {
    for _ in 0..times {
        let sure = {
            let _n = NoSwitch::new();
            board.lock().unwrap().done.clone()
        };
        let r = catch_unwind(AssertUnwindSafe(|| from_root(root).current().db()));
        if me_dead() {
            return;
        }
        match r {
            Ok(Ok(g)) => {
                slog!("reads {} tables, {} types", g.tables().count(), g.types().len());
                sim(|s| s.stat("probe:read_beside_builds"));
                if let Err(e) = check_board(&g, base, &sure, all) {
                    viol("torn_read", format!("a reader beside the builds: {e}"));
                    return;
                }
            }
            Ok(Err(e)) => {
                slog!("reader: {}", fsim::clean(&e.to_string()));
                // what a record refers to may not be recorded yet
                if !matches!(e, butane::Error::CannotResolveType(_)) {
                    viol("torn_read", format!("a reader beside the builds: {}", fsim::clean(&e.to_string())));
                    return;
                }
            }
            Err(e) => {
                viol("panic", format!("reader panics: {}", panic_msg(&e)));
                return;
            }
        }
    }
}
