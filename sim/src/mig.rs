//! Migrations on SQLite (C07-C10) and PostgreSQL (C21): random chains of schema changes, applied and rolled back under faults. The reference
//! model is a set of typed tables with rows, transformed from the declared schemas alone (never from generated SQL).
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

use butane::db::{BackendConnection, Column, ConnectionMethods};
use butane_core::db::ConnectionMethodsAsync;
use butane::migrations::adb::{AColumn, ARef, ATable, DeferredSqlType, TypeIdentifier, TypeKey, ADB};
use butane::migrations::{MemMigration, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut};
use butane::query::{BoolExpr, Expr};
use butane::{SqlType, SqlVal};
use butane_core::db::BackendRows;
use nonempty::NonEmpty;

use crate::asy::{nothing_left, one_client};
use crate::cn::{d, Cn, Conn};
use crate::core::{new_proc, run_clients, set_proc, sim, sleep_us, yield_point, Client, Fault};
use crate::models::ts_text;
use crate::pg;
use crate::refdb::{aside, open_copy, show_row, V};
use crate::slog;
use crate::solo::{self, connect, draw_plan, now, page_and_cache, set_cache, with_runtime, DB};
use crate::store::{me_dead, violated};

// ---------------------------------------------------------------- declared schemas

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Bool,
    Int,
    Big,
    Real,
    Text,
    Blob,
    Date,
    Ts,
    Json,
}
use Ty::*;
impl Ty {
    fn sql(self) -> SqlType {
        match self {
            Bool => SqlType::Bool,
            Int => SqlType::Int,
            Big => SqlType::BigInt,
            Real => SqlType::Real,
            Text => SqlType::Text,
            Blob => SqlType::Blob,
            Date => SqlType::Date,
            Ts => SqlType::Timestamp,
            Json => SqlType::Json,
        }
    }
    /// the type as the database names it
    fn db(self) -> &'static str {
        if !pg::on() {
            return self.lite();
        }
        match self {
            Bool => "boolean",
            Int => "integer",
            Big => "bigint",
            Real => "double precision",
            Text => "text",
            Blob => "bytea",
            Date => "date",
            Ts => "timestamp without time zone",
            Json => "jsonb",
        }
    }
    fn lite(self) -> &'static str {
        match self {
            Bool | Int | Big => "INTEGER",
            Real => "REAL",
            Blob => "BLOB",
            _ => "TEXT",
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Col {
    pub name: &'static str,
    pub ty: Ty,
    pub null: bool,
    pub pk: bool,
    pub uniq: bool,
    pub default: Option<SqlVal>,
    pub fk: Option<&'static str>,
    /// numbered by the database
    pub auto: bool,
}
impl Col {
    fn db(&self, s: &Schema) -> String {
        let t = ty_of(s, self).db();
        if self.auto {
            format!("{t} numbered as {t}")
        } else {
            t.to_string()
        }
    }
}
pub type Tab = Vec<Col>;
/// table name -> columns, the key first
pub type Schema = BTreeMap<&'static str, Tab>;

pub const TNAMES: &[&str] = &["Alpha", "Beta", "order", "Gamma", "Delta"];
const CNAMES: &[&str] = &["a", "b", "c", "group", "d", "e", "f"];

pub fn ty_of(s: &Schema, c: &Col) -> Ty {
    match c.fk {
        Some(t) => s[t][0].ty,
        None => c.ty,
    }
}
pub fn adb(s: &Schema) -> ADB {
    let mut a = adb_open(s);
    a.resolve_types().expect("schema resolves");
    a
}
/// As models declare it, types of keys not yet known.
pub fn adb_open(s: &Schema) -> ADB {
    let mut a = ADB::new();
    for (n, cols) in s {
        let mut t = ATable::new(n.to_string());
        for c in cols {
            let (ty, re) = match c.fk {
                Some(r) => {
                    let k = DeferredSqlType::Deferred(TypeKey::PK(r.to_string()));
                    (k.clone(), Some(ARef::Deferred(k)))
                }
                None => (DeferredSqlType::KnownId(TypeIdentifier::Ty(c.ty.sql())), None),
            };
            t.add_column(AColumn::new(c.name, ty, c.null, c.pk, c.auto, c.uniq, c.default.clone(), re));
        }
        a.replace_table(t);
    }
    a
}

fn w<T>(f: impl FnOnce(&mut crate::core::Stream) -> T) -> T {
    sim(|s| f(&mut s.work))
}
fn text() -> String {
    w(|w| (*w.pick(&["x", "", "it's", "a;b", "ünï", "12", "--c", "\"q\"", "two\nlines", "-7"])).to_string())
}
fn ts(i: u32) -> chrono::NaiveDateTime {
    chrono::DateTime::from_timestamp(1_600_000_000 + i as i64 * 86_399, [0, 500_000_000, 123_456_000][i as usize % 3]).unwrap().naive_utc()
}
pub fn value(ty: Ty) -> SqlVal {
    let i = w(|w| w.below(9));
    match ty {
        Bool => SqlVal::Bool(i % 2 == 1),
        Int => SqlVal::Int(i as i32 - 3),
        Big => SqlVal::BigInt(if i == 8 { 1 << 40 } else { i as i64 - 3 }),
        Real => SqlVal::Real(i as f64 / 2.0 - 1.0),
        Text => SqlVal::Text(text()),
        Blob => SqlVal::Blob((0..i as u8).collect()),
        Date => SqlVal::Date(ts(i).date()),
        Ts => SqlVal::Timestamp(ts(i)),
        Json => SqlVal::Json(match i % 4 {
            0 => serde_json::json!(null),
            1 => serde_json::json!({"k": "it's"}),
            2 => serde_json::json!([1, "x"]),
            _ => serde_json::json!("s"),
        }),
    }
}
pub fn v_of(x: &SqlVal) -> V {
    match x {
        SqlVal::Null => V::N,
        SqlVal::Bool(b) => V::I(*b as i64),
        SqlVal::Int(i) => V::I(*i as i64),
        SqlVal::BigInt(i) => V::I(*i),
        SqlVal::Real(r) => V::R(r.to_bits()),
        SqlVal::Text(t) => V::T(t.clone()),
        SqlVal::Blob(b) => V::B(b.clone()),
        SqlVal::Date(d) => V::T(d.format("%Y-%m-%d").to_string()),
        SqlVal::Timestamp(t) => V::T(ts_text(t)),
        SqlVal::Json(j) => V::T(j.to_string()),
        #[allow(unreachable_patterns)]
        x => panic!("{x:?}"),
    }
}
/// What a new column of an existing row holds.
fn default_of(ty: Ty, c: &Col) -> V {
    if let Some(d) = &c.default {
        return v_of(d);
    }
    if c.null {
        return V::N;
    }
    match ty {
        Bool | Int | Big => V::I(0),
        Real => V::R(0f64.to_bits()),
        Text => V::T(String::new()),
        Blob => V::B(vec![]),
        Date => V::T("0001-01-01".into()),
        Ts => V::T(ts_text(&chrono::DateTime::from_timestamp(0, 0).unwrap().naive_utc())),
        Json => V::T("null".into()),
    }
}
/// The value after its column changed type; None if there is no such value.
fn convert(v: &V, from: Ty, to: Ty) -> Option<V> {
    if pg::on() {
        return convert_pg(v, from, to);
    }
    if from.lite() == to.lite() {
        return Some(v.clone());
    }
    Some(match (v, to.lite()) {
        (V::N, _) => V::N,
        (V::I(i), "TEXT") => V::T(i.to_string()),
        (V::I(i), "REAL") => V::R((*i as f64).to_bits()),
        (V::R(r), "INTEGER") if f64::from_bits(*r).fract() == 0.0 => V::I(f64::from_bits(*r) as i64),
        (V::R(r), "TEXT") => V::T(format!("{:?}", f64::from_bits(*r))),
        (V::T(t), "REAL") => V::R(t.parse::<f64>().ok()?.to_bits()),
        (V::T(t), "INTEGER") => match t.parse::<i64>() {
            Ok(i) => V::I(i),
            Err(_) => V::I(t.parse::<f64>().ok().filter(|f| f.fract() == 0.0)? as i64),
        },
        _ => return None,
    })
}

/// PostgreSQL converts on its own only what an assignment converts.
fn converts_pg(from: Ty, to: Ty) -> bool {
    from == to || to == Text || matches!((from, to), (Int, Big) | (Int, Real) | (Big, Int) | (Big, Real) | (Real, Int) | (Real, Big))
}
fn convert_pg(v: &V, from: Ty, to: Ty) -> Option<V> {
    if from == to || *v == V::N {
        return Some(v.clone());
    }
    if !converts_pg(from, to) {
        return None;
    }
    let fits = |i: i64| to != Int || i32::try_from(i).is_ok();
    Some(match (v, to) {
        (V::I(i), Int | Big) if fits(*i) => V::I(*i),
        (V::I(i), Real) => V::R((*i as f64).to_bits()),
        (V::I(i), Text) if from == Bool => V::T(if *i != 0 { "true" } else { "false" }.into()),
        (V::I(i), Text) => V::T(i.to_string()),
        (V::R(r), Int | Big) if fits(f64::from_bits(*r).round_ties_even() as i64) => V::I(f64::from_bits(*r).round_ties_even() as i64),
        (V::R(r), Text) => V::T(f64::from_bits(*r).to_string()),
        _ => return None,
    })
}

pub fn new_col(s: &Schema, name: &'static str, fk_pm: u32) -> Col {
    if w(|w| w.chance(fk_pm)) && !s.is_empty() {
        let ts: Vec<&'static str> = s.keys().copied().collect();
        let t = w(|w| *w.pick(&ts));
        return Col { name, ty: s[t][0].ty, null: w(|w| w.chance(700)), pk: false, uniq: false, default: None, fk: Some(t), auto: false };
    }
    let ty = w(|w| *w.pick(&[Int, Text, Big, Bool, Real, Blob, Date, Ts, Json]));
    let null = w(|w| w.chance(400));
    let default = if w(|w| w.chance(450)) { Some(value(ty)) } else { None };
    Col { name, ty, null, pk: false, uniq: false, default, fk: None, auto: false }
}
pub fn free_col(t: &Tab) -> Option<&'static str> {
    CNAMES.iter().copied().find(|n| t.iter().all(|c| c.name != *n))
}
/// One random change. False: nothing applicable was drawn.
fn mutate(base: &Schema, s: &mut Schema, touched: &mut BTreeSet<&'static str>) -> bool {
    let names: Vec<&'static str> = s.keys().copied().collect();
    let what = w(|w| w.weighted(&[6, 2, 8, 6, 10]));
    if what == 0 || names.is_empty() {
        let Some(n) = TNAMES.iter().copied().find(|n| !s.contains_key(n) && !touched.contains(n)) else { return false };
        let key = w(|w| *w.pick(&[Int, Big, Text]));
        let auto = pg::on() && key != Text && w(|w| w.chance(350));
        let mut t = vec![Col { name: "id", ty: key, null: false, pk: true, uniq: false, default: None, fk: None, auto }];
        for _ in 0..w(|w| w.below(5)) {
            let c = new_col(s, free_col(&t).unwrap(), 350);
            t.push(Col { uniq: c.fk.is_none() && w(|w| w.chance(150)), ..c });
        }
        if w(|w| w.chance(120)) {
            // refers to itself
            t.push(Col { name: "up", ty: key, null: true, pk: false, uniq: false, default: None, fk: Some(n), auto: false });
        }
        s.insert(n, t);
        touched.insert(n);
        return true;
    }
    let n = w(|w| *w.pick(&names));
    match what {
        1 => {
            if s.iter().any(|(o, cols)| *o != n && cols.iter().any(|c| c.fk == Some(n))) {
                return false;
            }
            s.remove(n);
            touched.insert(n);
            true
        }
        2 => {
            // a name that this step has freed is not taken again: that would be a change of type, and of any to any
            let Some(c) = free_col(&s[n]) else { return false };
            if base.get(n).is_some_and(|t| t.iter().any(|x| x.name == c)) {
                return false;
            }
            let mut col = new_col(s, c, 200);
            col.uniq = w(|w| w.chance(40));
            s.get_mut(n).unwrap().push(col);
            true
        }
        3 => {
            let l = s[n].len() as u32;
            if l < 2 {
                return false;
            }
            let i = 1 + w(|w| w.below(l - 1)) as usize;
            s.get_mut(n).unwrap().remove(i);
            true
        }
        _ => {
            let l = s[n].len() as u32;
            let i = w(|w| w.below(l)) as usize;
            let c = &mut s.get_mut(n).unwrap()[i];
            if c.pk {
                // its references change with it
                c.ty = match c.ty {
                    Int => Big,
                    Big if c.auto => Int,
                    Big => *w(|w| *w.pick(&[&Int, &Text])),
                    t => t,
                };
                return true;
            }
            match w(|w| w.below(4)) {
                0 => c.null = !c.null,
                1 if c.fk.is_none() => {
                    c.default = if c.default.is_some() && w(|w| w.chance(500)) { None } else { Some(value(c.ty)) }
                }
                2 if c.fk.is_none() => c.uniq = !c.uniq,
                3 if c.fk.is_none() => {
                    c.ty = match c.ty {
                        Bool => Int,
                        Int => w(|w| *w.pick(&[Big, Text, Real])),
                        Big => w(|w| *w.pick(&[Int, Text, Real])),
                        Real => Int,
                        Text => Int,
                        t => t,
                    };
                    c.default = c.default.as_ref().map(|_| value(c.ty));
                }
                _ => return false,
            }
            true
        }
    }
}

// ---------------------------------------------------------------- a chain of migrations

/// Migrations as butane's own in-memory collection holds them; reading one may fail.
#[derive(Clone, Debug)]
pub struct Mg {
    mem: MemMigrations,
    last: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Mi(MemMigration);
impl PartialEq for Mi {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
fn may_fail() -> butane::Result<()> {
    let hit = sim(|s| s.fault_here(&[Fault::CantOpen]).is_some());
    if hit {
        slog!("reading a migration fails");
        return Err(butane::Error::IO(std::io::Error::from_raw_os_error(libc::EIO)));
    }
    Ok(())
}
impl Migration for Mi {
    fn db(&self) -> butane::Result<ADB> {
        self.0.db()
    }
    fn migration_from(&self) -> butane::Result<Option<Cow<'_, str>>> {
        may_fail()?;
        self.0.migration_from()
    }
    fn name(&self) -> Cow<'_, str> {
        self.0.name()
    }
    fn up_sql(&self, b: &str) -> butane::Result<Option<String>> {
        may_fail()?;
        self.0.up_sql(b)
    }
    fn down_sql(&self, b: &str) -> butane::Result<Option<String>> {
        may_fail()?;
        self.0.down_sql(b)
    }
    fn sql_backends(&self) -> butane::Result<Vec<String>> {
        self.0.sql_backends()
    }
}
impl Migrations for Mg {
    type M = Mi;
    fn get_migration(&self, name: &str) -> Option<Mi> {
        self.mem.get_migration(name).map(Mi)
    }
    fn latest(&self) -> Option<Mi> {
        self.last.as_ref().and_then(|l| self.get_migration(l))
    }
}

pub struct Chain {
    /// the schema at each boundary, from empty
    pub schemas: Vec<Schema>,
    pub names: Vec<String>,
    pub mem: MemMigrations,
    /// migration i has a hand-written statement that fails while `gate` holds 2i (up) or 2i+1 (down)
    pub gated: Vec<(bool, bool)>,
    pub tallied: Vec<bool>,
}
impl Chain {
    fn n(&self) -> usize {
        self.names.len()
    }
    fn upto(&self, k: usize) -> Mg {
        Mg { mem: self.mem.clone(), last: k.checked_sub(1).map(|i| self.names[i].clone()) }
    }
}

/// Put `stmt` between two statements of a script.
fn splice(sql: &str, stmt: &str) -> String {
    let mut parts: Vec<String> = vec![];
    let mut cur = String::new();
    for line in sql.split_inclusive('\n') {
        cur.push_str(line);
        if line.trim_end().ends_with(';') {
            parts.push(std::mem::take(&mut cur));
        }
    }
    if !cur.trim().is_empty() {
        parts.push(cur);
    }
    let i = w(|w| w.below(parts.len() as u32 + 1)) as usize;
    parts.insert(i, format!("{stmt}\n"));
    parts.concat()
}

fn be() -> &'static str {
    if pg::on() {
        "pg"
    } else {
        "sqlite"
    }
}
fn chain(len: u32, changes: u32) -> Chain {
    let backends: NonEmpty<Box<dyn butane::db::Backend>> = NonEmpty::new(butane::db::get_backend(be()).unwrap());
    let mut mem = MemMigrations::new();
    let mut c = Chain { schemas: vec![Schema::new()], names: vec![], mem: MemMigrations::new(), gated: vec![], tallied: vec![] };
    let n = 2 + w(|w| w.below(len - 1)) as usize;
    let pool = ["m20260101", "m20260102", "m20260103", "m20260104", "zz", "aa", "m3", "m20", "b"];
    for i in 0..n {
        let mut s = c.schemas[i].clone();
        let only_data = i > 0 && w(|w| w.chance(120));
        if !only_data {
            let mut touched = BTreeSet::new();
            let k = 1 + w(|w| w.below(changes));
            for _ in 0..k {
                mutate(&c.schemas[i], &mut s, &mut touched);
            }
            for _ in 0..6 {
                if s != c.schemas[i] {
                    break;
                }
                mutate(&c.schemas[i], &mut s, &mut touched);
            }
        }
        // a column of a foreign key has the type of the key it refers to
        let tys: BTreeMap<&'static str, Ty> = s.iter().map(|(n, t)| (*n, t[0].ty)).collect();
        for t in s.values_mut() {
            for c in t {
                if let Some(f) = c.fk {
                    c.ty = tys[f];
                }
            }
        }
        let name = pool[i].to_string();
        let from = mem.latest();
        let to = adb(&s);
        let made = mem.create_migration_to(&backends, &name, from.as_ref(), to.clone()).expect("create migration");
        if !made {
            let mut m = mem.new_migration(&name);
            for t in to.tables() {
                m.add_modified_table(t).unwrap();
            }
            let first = if i == 0 && pg::on() {
                "CREATE TABLE IF NOT EXISTS butane_migrations (name TEXT NOT NULL PRIMARY KEY);\n"
            } else if i == 0 {
                "CREATE TABLE IF NOT EXISTS butane_migrations (name TEXT NOT NULL PRIMARY KEY) STRICT;\n"
            } else {
                ""
            };
            m.add_sql(be(), first, "").unwrap();
            m.set_migration_from(from.as_ref().map(|m| m.name().to_string())).unwrap();
            mem.add_migration(m).unwrap();
        }
        // hand-written statements in the scripts
        let mut m = mem.get_migration(&name).unwrap();
        let (mut up, mut down) = (m.up_sql(be()).unwrap().unwrap(), m.down_sql(be()).unwrap().unwrap());
        let (gu, gd) = (w(|w| w.chance(400)), w(|w| w.chance(300)));
        let k = 2 * i;
        if gu {
            up = splice(&up, &format!("INSERT INTO gate VALUES({k}); DELETE FROM gate WHERE id={k};"));
        }
        if gd {
            down = splice(&down, &format!("INSERT INTO gate VALUES({0}); DELETE FROM gate WHERE id={0};", k + 1));
        }
        let ta = !made || w(|w| w.chance(600));
        if ta {
            up = splice(&up, &format!("UPDATE tally SET v=v*7+{k};"));
            down = splice(&down, &format!("UPDATE tally SET v=(v-{k})/7;"));
        }
        sim(|x| {
            if x.trace_on {
                x.trace.push(format!("-- {name} up\n{up}-- {name} down\n{down}-- schema {s:?}"));
            }
        });
        m.add_sql(be(), &up, &down).unwrap();
        mem.add_migration(m).unwrap();
        c.names.push(name);
        c.schemas.push(s);
        c.gated.push((gu, gd));
        c.tallied.push(ta);
    }
    assert_eq!(mem.latest().unwrap().name(), c.names[n - 1]);
    c.mem = mem;
    c
}

// ---------------------------------------------------------------- the model of the database

pub type MRow = BTreeMap<&'static str, V>;
#[derive(Clone, Debug, Default)]
pub struct State {
    pub at: usize,
    pub rows: BTreeMap<&'static str, BTreeMap<V, MRow>>,
    /// foreign keys that must be enforced: (table, column)
    pub fks: BTreeSet<(String, String)>,
    pub tally: i64,
    pub gate: BTreeSet<i64>,
}

/// Could `b` be a table rebuilt from `a`, and so be dropped on the way?
fn rebuilt(sa: &Schema, a: &Tab, sb: &Schema, b: &Tab) -> bool {
    a.iter().any(|c| match b.iter().find(|x| x.name == c.name) {
        Some(x) => x != c || ty_of(sa, c) != ty_of(sb, x),
        None => c.fk.is_some(),
    })
}

impl State {
    /// The state one migration further up or down, and why a healthy run may fail to get there.
    pub fn step(&self, ch: &Chain, up: bool) -> (State, Option<String>) {
        let (sa, sb) = if up {
            (&ch.schemas[self.at], &ch.schemas[self.at + 1])
        } else {
            (&ch.schemas[self.at], &ch.schemas[self.at - 1])
        };
        let lite = !pg::on();
        let mut why: Option<String> = None;
        let mut no = |s: String| why = Some(s);
        let i = if up { self.at } else { self.at - 1 };
        let k = 2 * i as i64;
        let gate = if up { k } else { k + 1 };
        if (if up { ch.gated[i].0 } else { ch.gated[i].1 }) && self.gate.contains(&gate) {
            no("gate".into());
        }
        let mut out = State { at: if up { self.at + 1 } else { self.at - 1 }, gate: self.gate.clone(), ..Default::default() };
        out.tally = match (ch.tallied[i], up) {
            (false, _) => self.tally,
            (true, true) => self.tally * 7 + k,
            (true, false) => (self.tally - k) / 7,
        };
        for (n, b) in sb {
            let Some(a) = sa.get(n) else {
                out.rows.insert(n, BTreeMap::new());
                for c in b {
                    if c.fk.is_some() {
                        out.fks.insert((n.to_string(), c.name.to_string()));
                    }
                }
                continue;
            };
            for c in b {
                let old = a.iter().find(|x| x.name == c.name);
                if c.fk.is_some() && lite && old.is_none() {
                    // SQLite's new columns are not enforced
                } else if c.fk.is_some() && !lite {
                    out.fks.insert((n.to_string(), c.name.to_string()));
                } else if c.fk.is_some() && old.is_some_and(|o| o.fk == c.fk) && self.fks.contains(&(n.to_string(), c.name.to_string())) {
                    out.fks.insert((n.to_string(), c.name.to_string()));
                }
                if lite && old.is_none() && (c.uniq || c.pk || (c.fk.is_some() && !c.null)) {
                    no(format!("{n}.{} cannot be added", c.name));
                }
            }
            for c in a {
                if lite && b.iter().all(|x| x.name != c.name) && (c.uniq || c.pk) {
                    no(format!("{n}.{} cannot be removed", c.name));
                }
            }
            for (o, c) in a.iter().filter_map(|o| Some((o, b.iter().find(|c| c.name == o.name)?))) {
                let (from, to) = (ty_of(sa, o), ty_of(sb, c));
                if lite || from == to {
                    continue;
                }
                if !converts_pg(from, to) {
                    no(format!("{n}.{}: PostgreSQL does not convert {from:?} to {to:?}", c.name));
                }
                let keys = |s: &Schema| c.fk.is_some() || s.values().flatten().any(|x| x.fk == Some(*n));
                if (from == Text || to == Text) && (c.fk.is_some() || c.pk && (keys(sa) || keys(sb))) {
                    no(format!("{n}.{} is referred to and changes to or from text", c.name));
                }
                if matches!(&o.default, Some(SqlVal::BigInt(i)) if i32::try_from(*i).is_err()) && to == Int {
                    no(format!("{n}.{}: the default does not fit", c.name));
                }
            }
            let rb = lite && rebuilt(sa, a, sb, b);
            // tables that go in this migration, and that nothing refers to, can go first
            let gone = |o: &str| {
                !sb.contains_key(o) && !sa.iter().any(|(p, cols)| *p != o && cols.iter().any(|c| c.fk == Some(o)))
            };
            let refd = sa.iter().any(|(o, cols)| {
                !gone(o)
                    && cols.iter().any(|c| {
                        c.fk == Some(*n) && self.rows[o].values().any(|r| r[c.name] != V::N)
                    })
            });
            if rb && refd {
                no(format!("{n} is rebuilt while rows refer to it"));
            }
            let frac = |c: &Col| matches!(&c.default, Some(SqlVal::Real(r)) if r.fract() != 0.0);
            if lite && b.iter().any(|c| a.iter().all(|x| x.name != c.name) && !c.null && frac(c)) && !self.rows[n].is_empty() {
                // SQLite 3.45 refuses it in a STRICT table
                no("SQLite cannot add a column with such a default".into());
            }
            // a rebuild on the way checks references that were never checked before, also those about to go
            for c in a.iter().filter(|c| rb && c.fk.is_some()) {
                let f = c.fk.unwrap();
                if self.rows[n].values().any(|r| r[c.name] != V::N && !self.rows[f].contains_key(&r[c.name])) {
                    no(format!("{n}.{} dangles", c.name));
                }
            }
            let mut rows = BTreeMap::new();
            for r in self.rows[n].values() {
                let mut x = MRow::new();
                for c in b {
                    let ty = ty_of(sb, c);
                    let v = match a.iter().find(|o| o.name == c.name) {
                        None => default_of(ty, c),
                        Some(o) => match convert(&r[c.name], ty_of(sa, o), ty) {
                            Some(v) => v,
                            None => {
                                no(format!("{n}.{} has a value that does not convert", c.name));
                                V::N
                            }
                        },
                    };
                    if v == V::N && !c.null {
                        no(format!("{n}.{} would be null", c.name));
                    }
                    x.insert(c.name, v);
                }
                if rows.insert(x["id"].clone(), x).is_some() {
                    no(format!("{n} keys collide"));
                }
            }
            for c in b {
                if c.uniq && dup(rows.values().map(|r: &MRow| &r[c.name])) {
                    no(format!("{n}.{} is not unique", c.name));
                }
                if let Some(f) = c.fk {
                    // a reference to a row that is not there (never checked so far, but would be by a rebuild)
                    for r in rows.values() {
                        let there = self.rows.get(f).is_some_and(|t| {
                            let (ta, tb) = (sa.get(f).map(|t| t[0].ty), sb[f][0].ty);
                            t.keys().any(|k| ta.and_then(|ta| convert(k, ta, tb)).is_some_and(|k| k == r[c.name]))
                        });
                        if r[c.name] != V::N && !there {
                            no(format!("{n}.{} dangles", c.name));
                        }
                    }
                }
            }
            out.rows.insert(n, rows);
        }
        for (n, _) in sa.iter().filter(|(n, _)| !sb.contains_key(*n)) {
            // tables that refer to each other cannot be removed one by one
            let ring = sa.keys().any(|o| o != n && reaches(sa, o, n) && reaches(sa, n, o));
            let held = sa.iter().any(|(o, cols)| {
                o != n && cols.iter().any(|c| c.fk == Some(*n) && self.rows[o].values().any(|r| r[c.name] != V::N))
            });
            if lite && ring && held {
                no(format!("{n} is removed while rows refer to it"));
            }
        }
        (out, why)
    }
}
fn reaches(s: &Schema, from: &str, to: &str) -> bool {
    let mut seen = BTreeSet::from([from]);
    let mut todo = vec![from];
    while let Some(t) = todo.pop() {
        for c in &s[t] {
            if let Some(f) = c.fk {
                if f == to {
                    return true;
                }
                if s.contains_key(f) && seen.insert(f) {
                    todo.push(f);
                }
            }
        }
    }
    false
}
fn dup<'a>(it: impl Iterator<Item = &'a V>) -> bool {
    let mut seen = BTreeSet::new();
    it.filter(|v| **v != V::N).any(|v| !seen.insert(v.clone()))
}

// ---------------------------------------------------------------- what is really there

#[derive(Debug, Default, PartialEq)]
pub struct ActTab {
    /// name -> (type, not null, key)
    pub cols: BTreeMap<String, (String, bool, bool)>,
    pub uniq: BTreeSet<String>,
    pub fks: BTreeMap<String, String>,
    pub rows: Vec<BTreeMap<String, V>>,
}
#[derive(Debug, Default, PartialEq)]
pub struct Act {
    pub applied: Option<BTreeSet<String>>,
    pub tabs: BTreeMap<String, ActTab>,
    pub tally: i64,
    pub gate: BTreeSet<i64>,
}
fn raw(v: rusqlite::types::ValueRef) -> V {
    use rusqlite::types::ValueRef::*;
    match v {
        Null => V::N,
        Integer(i) => V::I(i),
        Real(r) => V::R(r.to_bits()),
        Text(t) => V::T(String::from_utf8_lossy(t).to_string()),
        Blob(b) => V::B(b.to_vec()),
    }
}
pub fn look() -> Result<Act, String> {
    if pg::on() {
        return pg::look();
    }
    aside(|| look_inner().map_err(|e| e.to_string()).and_then(|x| x))
}
fn look_inner() -> rusqlite::Result<Result<Act, String>> {
    let c = open_copy(DB)?;
    let ic: String = c.query_row("PRAGMA integrity_check", [], |r| r.get(0))?;
    if ic != "ok" {
        return Ok(Err(format!("integrity_check: {ic}")));
    }
    let strs = |sql: &str| -> rusqlite::Result<Vec<String>> {
        let mut st = c.prepare(sql)?;
        let r = st.query_map([], |r| r.get::<_, String>(0))?.collect();
        r
    };
    let dang: usize = {
        let mut st = c.prepare("PRAGMA foreign_key_check")?;
        let mut rows = st.query([])?;
        let mut n = 0;
        while rows.next()?.is_some() {
            n += 1;
        }
        n
    };
    if dang > 0 {
        return Ok(Err(format!("{dang} dangling references")));
    }
    let mut a = Act::default();
    for t in strs("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'")? {
        match t.as_str() {
            "gate" => {
                let mut st = c.prepare("SELECT id FROM gate")?;
                a.gate = st.query_map([], |r| r.get(0))?.collect::<rusqlite::Result<_>>()?;
                continue;
            }
            "tally" => {
                a.tally = c.query_row("SELECT v FROM tally", [], |r| r.get(0))?;
                continue;
            }
            "butane_migrations" => {
                a.applied = Some(strs("SELECT name FROM butane_migrations")?.into_iter().collect());
                continue;
            }
            _ => {}
        }
        let mut at = ActTab::default();
        {
            let mut st = c.prepare(&format!("PRAGMA table_info(\"{t}\")"))?;
            let mut rows = st.query([])?;
            while let Some(r) = rows.next()? {
                at.cols.insert(r.get(1)?, (r.get(2)?, r.get(3)?, r.get::<_, i64>(5)? > 0));
            }
        }
        {
            let mut st = c.prepare(&format!("PRAGMA foreign_key_list(\"{t}\")"))?;
            let mut rows = st.query([])?;
            while let Some(r) = rows.next()? {
                at.fks.insert(r.get(3)?, r.get(2)?);
            }
        }
        for i in {
            let mut st = c.prepare(&format!("PRAGMA index_list(\"{t}\")"))?;
            let v: Vec<String> = st
                .query_map([], |r| Ok((r.get::<_, String>(1)?, r.get::<_, String>(3)?)))?
                .filter_map(|x| x.ok())
                .filter(|x| x.1 == "u")
                .map(|x| x.0)
                .collect();
            v
        } {
            let cols = {
                let mut st = c.prepare(&format!("PRAGMA index_info(\"{i}\")"))?;
                let v: Vec<String> = st.query_map([], |r| r.get(2))?.collect::<rusqlite::Result<_>>()?;
                v
            };
            at.uniq.insert(cols.join(","));
        }
        {
            let mut st = c.prepare(&format!("SELECT * FROM \"{t}\""))?;
            let names: Vec<String> = st.column_names().iter().map(|s| s.to_string()).collect();
            let mut rows = st.query([])?;
            while let Some(r) = rows.next()? {
                let mut x = BTreeMap::new();
                for (i, n) in names.iter().enumerate() {
                    x.insert(n.clone(), raw(r.get_ref(i)?));
                }
                at.rows.push(x);
            }
        }
        a.tabs.insert(t, at);
    }
    Ok(Ok(a))
}
fn norm(ty: Ty, v: V) -> V {
    if pg::on() {
        return pg::typed(ty, v);
    }
    match (&v, ty) {
        (V::T(t), Ts) => match chrono::NaiveDateTime::parse_from_str(&t.replace(' ', "T"), "%Y-%m-%dT%H:%M:%S%.f") {
            Ok(p) => V::T(ts_text(&p)),
            Err(_) => v,
        },
        (V::T(t), Json) => match serde_json::from_str::<serde_json::Value>(t) {
            Ok(j) => V::T(j.to_string()),
            Err(_) => v,
        },
        _ => v,
    }
}
impl Act {
    /// None if this is exactly `s`
    pub fn differs(&self, ch: &Chain, s: &State) -> Option<String> {
        let want: BTreeSet<String> = ch.names[..s.at].iter().cloned().collect();
        let have = self.applied.clone().unwrap_or_default();
        if want != have {
            return Some(format!("recorded as applied: {have:?}, expected {want:?}"));
        }
        let sch = &ch.schemas[s.at];
        let wn: BTreeSet<&str> = sch.keys().copied().collect();
        let hn: BTreeSet<&str> = self.tabs.keys().map(|s| s.as_str()).collect();
        if wn != hn {
            return Some(format!("tables {hn:?}, expected {wn:?}"));
        }
        for (n, cols) in sch {
            let t = &self.tabs[*n];
            let wc: BTreeMap<String, (String, bool, bool)> =
                cols.iter().map(|c| (c.name.to_string(), (c.db(sch), !c.null, c.pk))).collect();
            if wc != t.cols {
                return Some(format!("columns of {n}: {:?}, expected {wc:?}", t.cols));
            }
            let wu: BTreeSet<String> = cols.iter().filter(|c| c.uniq).map(|c| c.name.to_string()).collect();
            if wu != t.uniq {
                return Some(format!("unique columns of {n}: {:?}, expected {wu:?}", t.uniq));
            }
            for c in cols {
                let has = t.fks.get(c.name);
                match (c.fk, has) {
                    (Some(f), Some(h)) if f == h => {}
                    (_, Some(h)) => return Some(format!("{n}.{} refers to {h}", c.name)),
                    (Some(f), None) if s.fks.contains(&(n.to_string(), c.name.to_string())) => {
                        return Some(format!("{n}.{} no longer refers to {f}", c.name))
                    }
                    _ => {}
                }
            }
            let mut rows: BTreeMap<V, Vec<V>> = BTreeMap::new();
            for r in &t.rows {
                let x: Vec<V> = cols.iter().map(|c| norm(ty_of(sch, c), r[c.name].clone())).collect();
                rows.insert(x[0].clone(), x);
            }
            for (k, r) in &s.rows[n] {
                let x: Vec<V> = cols.iter().map(|c| r[c.name].clone()).collect();
                match rows.remove(k) {
                    None => return Some(format!("row {} of {n} is gone", show_row(&x))),
                    Some(y) if x != y => return Some(format!("row of {n} is {}, expected {}", show_row(&y), show_row(&x))),
                    _ => {}
                }
            }
            if let Some(r) = rows.values().next() {
                return Some(format!("unexpected row {} of {n}", show_row(r)));
            }
        }
        if self.tally != s.tally {
            return Some(format!("hand-written statements took effect differently: tally {} not {}", self.tally, s.tally));
        }
        if self.gate != s.gate {
            return Some(format!("gate {:?} not {:?}", self.gate, s.gate));
        }
        None
    }
    pub fn fks(&self) -> BTreeSet<(String, String)> {
        self.tabs.iter().flat_map(|(n, t)| t.fks.keys().map(|c| (n.clone(), c.clone()))).collect()
    }
}

// ---------------------------------------------------------------- running migrations

fn bad(class: &str, d: String) {
    sim(|s| s.violate(class, d));
}
fn hits() -> u64 {
    sim(|s| s.plan.hits)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act1 {
    /// all of the chain up to here
    Migrate(usize),
    One,
    Unmigrate,
    OneDown,
}
fn single(mg: &Mg, c: &mut impl BackendConnection, up: bool) -> butane::Result<()> {
    if up {
        match mg.unapplied_migrations(c)?.first() {
            Some(m) => m.apply(c),
            None => Ok(()),
        }
    } else {
        match mg.last_applied_migration(c)? {
            Some(m) => m.downgrade(c),
            None => Ok(()),
        }
    }
}
async fn run(conn: &mut Conn, mg: Mg, a: Act1) -> butane::Result<()> {
    match conn {
        Conn::S(c) => match a {
            Act1::Migrate(_) => mg.migrate(c),
            Act1::Unmigrate => mg.unmigrate(c),
            Act1::One => single(&mg, c, true),
            Act1::OneDown => single(&mg, c, false),
        },
        Conn::A(c) => match a {
            Act1::Migrate(_) => mg.migrate_async(c).await,
            Act1::Unmigrate => mg.unmigrate_async(c).await,
            _ => c.with_sync(move |c| single(&mg, c, a == Act1::One)).await,
        },
        Conn::W(_) => unreachable!(),
    }
}

struct Ses {
    ch: Chain,
    st: State,
    /// states the current operation may leave, if it is interrupted
    doubt: Vec<State>,
    moved: u32,
    faulted: bool,
}
impl Ses {
    /// The database must be in one of these states; continue from it.
    fn settle(&mut self, cands: Vec<State>, when: &str) {
        let a = match look() {
            Err(e) => return bad("corrupt", format!("{when}: {e}")),
            Ok(a) => a,
        };
        let mut best: Option<String> = None;
        for c in cands {
            match a.differs(&self.ch, &c) {
                None => {
                    let fks = a.fks();
                    self.st = c;
                    self.st.fks = fks;
                    return;
                }
                Some(d) => {
                    let same = a.applied.as_ref().map_or(0, |a| a.len()) == c.at;
                    if best.is_none() || same {
                        best = Some(format!("not the boundary after {} migrations: {d}", c.at));
                    }
                }
            }
        }
        bad("not_at_boundary", format!("{when}: {}", best.unwrap_or_default()));
    }

    /// All states from here to `to`, as far as a healthy run must get or may get.
    /// (states in order, index of the last that must be reached, what holds it there)
    fn path(&self, to: usize) -> (Vec<State>, Option<(usize, String)>) {
        let mut v = vec![self.st.clone()];
        let mut stop: Option<(usize, String)> = None;
        let mut gate = false;
        while v.last().unwrap().at != to {
            let l = v.last().unwrap();
            let (n, why) = l.step(&self.ch, to > l.at);
            if let Some(why) = why {
                if why == "gate" {
                    gate = true;
                }
                if stop.is_none() {
                    stop = Some((v.len() - 1, why));
                }
            }
            if gate {
                break;
            }
            v.push(n);
        }
        (v, stop)
    }

    async fn act(&mut self, conn: &mut Conn, a: Act1) {
        let (to, mg) = match a {
            Act1::Migrate(k) => (k, self.ch.upto(k)),
            Act1::One => ((self.st.at + 1).min(self.ch.n()), self.ch.upto(self.ch.n())),
            Act1::Unmigrate => (0, self.ch.upto(self.ch.n())),
            Act1::OneDown => (self.st.at.saturating_sub(1), self.ch.upto(self.ch.n())),
        };
        let from = self.st.at;
        let (path, stop) = self.path(to);
        self.doubt = path.clone();
        let (h0, c0) = (hits(), sim(|s| s.plan.full_left > 0 || s.plan.foreign.is_some()));
        slog!("{a:?} from {from} to {to}");
        let r = crate::cn::heard(run(conn, mg, a).await);
        if me_dead() {
            return;
        }
        self.doubt.clear();
        let faulty = c0 || hits() != h0;
        let complete = path.last().unwrap().at == to;
        let when = format!("{a:?} from {from} to {to}");
        match r {
            Ok(()) => {
                slog!("ok");
                if !complete {
                    return bad("ok_but_failed", format!("{when} reports success, though a statement of it cannot succeed"));
                }
                self.settle(vec![path.last().unwrap().clone()], &format!("{when} succeeded"));
                if self.st.at != from {
                    self.moved += 1;
                    sim(|s| s.stat(if to > from { "probe:migrated" } else { "probe:rolled_back" }));
                }
            }
            Err(e) => {
                slog!("error {e}");
                if !faulty && stop.is_none() {
                    return bad("spurious_error", format!("{when}: {e}"));
                }
                // no fault: every migration up to the one that cannot succeed was applied, and it was not
                let cands = if faulty {
                    self.faulted = true;
                    path
                } else {
                    sim(|s| s.stat("fault:failing_statement"));
                    let (i, _) = stop.clone().unwrap();
                    path[i..].to_vec()
                };
                self.settle(cands, &format!("{when} failed ({e})"));
                if self.st.at != from {
                    sim(|s| s.stat("probe:stopped_half_way"));
                }
            }
        }
    }

    /// Some rows come, change and go. No faults here.
    async fn data(&mut self, conn: &mut Conn) {
        let sch = self.ch.schemas[self.st.at].clone();
        let names: Vec<&'static str> = sch.keys().copied().collect();
        if names.is_empty() {
            return;
        }
        for _ in 0..1 + w(|w| w.below(4)) {
            let n = w(|w| *w.pick(&names));
            let cols = &sch[n];
            let keys: Vec<V> = self.st.rows[n].keys().cloned().collect();
            if !keys.is_empty() && w(|w| w.chance(200)) {
                // delete a row nothing refers to
                let k = w(|w| w.pick(&keys).clone());
                let used = sch.iter().any(|(o, cs)| {
                    cs.iter().any(|c| c.fk == Some(n) && self.st.rows[o].values().any(|r| r[c.name] == k))
                });
                if used {
                    continue;
                }
                let e = BoolExpr::Eq("id", Expr::Val(key_val(cols[0].ty, &k)));
                let cn = conn.cn();
                let r = d!(cn, c => ConnectionMethods::delete_where(c, n, e), ConnectionMethodsAsync::delete_where(c, n, e).await);
                match r {
                    Ok(1) => {}
                    r => return bad("spurious_error", format!("delete a row of {n}: {r:?}")),
                }
                self.st.rows.get_mut(n).unwrap().remove(&k);
                continue;
            }
            let mut row = MRow::new();
            let mut vals: Vec<(Column, SqlVal)> = vec![];
            let mut ok = true;
            for c in cols {
                let ty = ty_of(&sch, c);
                let v = if c.pk {
                    match ty {
                        Text => SqlVal::Text(format!("{}", w(|w| w.below(12)))),
                        Int => SqlVal::Int(w(|w| w.below(12)) as i32),
                        _ => SqlVal::BigInt(w(|w| w.below(12)) as i64),
                    }
                } else if let Some(f) = c.fk {
                    let ks: Vec<V> = self.st.rows[f].keys().cloned().collect();
                    if ks.is_empty() || (c.null && w(|w| w.chance(500))) {
                        if !c.null {
                            ok = false;
                            break;
                        }
                        SqlVal::Null
                    } else {
                        key_val(ty, &w(|w| w.pick(&ks).clone()))
                    }
                } else if c.null && w(|w| w.chance(350)) {
                    SqlVal::Null
                } else {
                    value(ty)
                };
                row.insert(c.name, v_of(&v));
                vals.push((Column::new(c.name, ty.sql()), v));
            }
            if ok && cols[0].auto && w(|w| w.chance(600)) {
                // the database chooses the key; it may choose one that was given by hand
                let cs: Vec<Column> = vals[1..].iter().map(|x| x.0.clone()).collect();
                let vs: Vec<butane::SqlValRef<'_>> = vals[1..].iter().map(|x| x.1.as_ref()).collect();
                let cn = conn.cn();
                let dup = cols.iter().any(|c| c.uniq && row[c.name] != V::N && self.st.rows[n].values().any(|r| r[c.name] == row[c.name]));
                let kc = &vals[0].0;
                let r = d!(cn, c => ConnectionMethods::insert_returning_pk(c, n, &cs, kc, &vs), ConnectionMethodsAsync::insert_returning_pk(c, n, &cs, kc, &vs).await);
                match r {
                    Ok(k) => {
                        let k = v_of(&k);
                        row.insert("id", k.clone());
                        if keys.contains(&k) || dup {
                            return bad("wrong_value", format!("the row {row:?} got in {n} beside one like it"));
                        }
                        self.st.rows.get_mut(n).unwrap().insert(k, row);
                    }
                    Err(_) if dup || keys.iter().any(|k| matches!(k, V::I(i) if *i > 0)) => {}
                    Err(e) => return bad("spurious_error", format!("insert into {n} without a key: {e}")),
                }
                continue;
            }
            if !ok || keys.contains(&row["id"]) {
                continue;
            }
            if cols.iter().any(|c| c.uniq && row[c.name] != V::N && self.st.rows[n].values().any(|r| r[c.name] == row[c.name])) {
                continue;
            }
            let cs: Vec<Column> = vals.iter().map(|x| x.0.clone()).collect();
            let vs: Vec<butane::SqlValRef<'_>> = vals.iter().map(|x| x.1.as_ref()).collect();
            let cn = conn.cn();
            let r = d!(cn, c => ConnectionMethods::insert_only(c, n, &cs, &vs), ConnectionMethodsAsync::insert_only(c, n, &cs, &vs).await);
            if let Err(e) = r {
                return bad("spurious_error", format!("insert {row:?} into {n}: {e}"));
            }
            self.st.rows.get_mut(n).unwrap().insert(row["id"].clone(), row);
        }
    }

    /// Read every table through butane.
    async fn read_back(&mut self, conn: &mut Conn) {
        let sch = self.ch.schemas[self.st.at].clone();
        for (n, cols) in &sch {
            let cs: Vec<Column> = cols.iter().map(|c| Column::new(c.name, ty_of(&sch, c).sql())).collect();
            let cn = conn.cn();
            let r: butane::Result<Vec<Vec<SqlVal>>> = d!(cn, c => {
                ConnectionMethods::query(c, n, &cs, None, None, None, None).and_then(|rows| collect(rows, &cs))
            }, {
                match ConnectionMethodsAsync::query(c, n, &cs, None, None, None, None).await {
                    Ok(rows) => collect(rows, &cs),
                    Err(e) => Err(e),
                }
            });
            match r {
                Err(e) => return bad("unreadable", format!("reading {n} after migrating to {}: {e}", self.st.at)),
                Ok(rows) => {
                    for r in rows {
                        let r: Vec<V> = r.iter().map(v_of).collect();
                        let want: Option<Vec<V>> =
                            self.st.rows[n].get(&r[0]).map(|m| cols.iter().map(|c| bool_of(ty_of(&sch, c), &m[c.name])).collect());
                        if want.as_ref().is_some_and(|w| w.iter().zip(cols).any(|(v, c)| wide(v) && ty_of(&sch, c) == Int)) {
                            // a number too big for the column's new type is kept, but cannot be read
                            continue;
                        }
                        if want.as_ref() != Some(&r) {
                            return bad(
                                "wrong_value",
                                format!("{n} read back as {}, expected {:?}", show_row(&r), want.map(|w| show_row(&w))),
                            );
                        }
                    }
                }
            }
        }
    }

    async fn gate(&mut self, conn: &mut Conn, close: bool) {
        let cn = conn.cn();
        if close {
            let k = w(|w| w.below(2 * self.ch.n() as u32)) as i64;
            if self.st.gate.insert(k) {
                let sql = format!("INSERT INTO gate VALUES({k})");
                if let Err(e) = crate::cn::execute(cn, &sql).await {
                    bad("spurious_error", format!("{sql}: {e}"));
                }
            }
        } else {
            self.st.gate.clear();
            if let Err(e) = crate::cn::execute(cn, "DELETE FROM gate").await {
                bad("spurious_error", format!("clearing the gate: {e}"));
            }
        }
    }
}
fn wide(v: &V) -> bool {
    matches!(v, V::I(i) if i32::try_from(*i).is_err())
}
fn bool_of(ty: Ty, v: &V) -> V {
    match (ty, v) {
        (Bool, V::I(i)) => V::I((*i != 0) as i64),
        _ => v.clone(),
    }
}
fn key_val(ty: Ty, k: &V) -> SqlVal {
    match (ty, k) {
        (Text, V::T(t)) => SqlVal::Text(t.clone()),
        (Int, V::I(i)) => SqlVal::Int(*i as i32),
        (_, V::I(i)) => SqlVal::BigInt(*i),
        x => panic!("{x:?}"),
    }
}
fn collect(mut rows: impl BackendRows, cs: &[Column]) -> butane::Result<Vec<Vec<SqlVal>>> {
    let mut out = vec![];
    while let Some(r) = rows.next()? {
        let mut x = vec![];
        for (i, c) in cs.iter().enumerate() {
            x.push(SqlVal::from(r.get(i, c.ty().clone())?));
        }
        out.push(x);
    }
    Ok(out)
}

pub struct Mcfg {
    len: u32,
    changes: u32,
    faults: &'static [Fault],
    must: &'static [Fault],
    none_pm: u32,
    ops: u32,
    lives: u32,
    /// migrate all, one, roll back all, one, data, close gate, open gate, look again
    mix: [u32; 8],
    asy: bool,
    pg: bool,
}

pub fn blank(page: u32) {
    aside(|| {
        let c = rusqlite::Connection::open(DB).unwrap();
        c.execute_batch(&format!(
            "PRAGMA page_size={page}; CREATE TABLE gate(id INTEGER PRIMARY KEY); CREATE TABLE tally(v INTEGER); INSERT INTO tally VALUES(1);"
        ))
        .unwrap();
    });
    solo::reset_randomness();
}

fn open(faulty: bool) -> Option<Conn> {
    if pg::on() {
        return pg::open(!solo::is_async());
    }
    let h0 = hits();
    match connect() {
        Ok(c) => Some(c),
        Err(e) => {
            if me_dead() {
                return None;
            }
            if !faulty || hits() == h0 {
                bad("spurious_error", format!("connect: {e}"));
                return None;
            }
            let armed = sim(|s| s.plan.armed);
            sim(|s| s.end_faults());
            let r = connect();
            sim(|s| s.plan.armed = armed);
            match r {
                Ok(c) => Some(c),
                Err(e) => {
                    bad("not_recovered", format!("connect after the fault was gone: {e}"));
                    None
                }
            }
        }
    }
}

fn sessions(cfg: Mcfg) {
    let asy = cfg.asy;
    let body = move || {
        let (page, cache) = if cfg.pg { (0, 0) } else { page_and_cache() };
        if cfg.pg {
            pg::begin(false);
        } else {
            blank(page);
        }
        draw_plan(cfg.faults, cfg.must, cfg.none_pm);
        if cfg.pg {
            pg::faster();
        }
        let ch = chain(cfg.len, cfg.changes);
        let st = State { tally: 1, ..Default::default() };
        let mut se = Ses { ch, st, doubt: vec![], moved: 0, faulted: false };
        let mut left = cfg.ops / 2 + w(|w| w.below(cfg.ops));
        for life in 0..cfg.lives {
            if cfg.pg {
                pg::forget();
            } else {
                solo::become_proc(new_proc());
            }
            sim(|s| s.rearm());
            if life + 1 == cfg.lives {
                sim(|s| s.end_faults());
            }
            let mut conn = match open(true) {
                Some(c) => c,
                None => {
                    if violated() {
                        return;
                    }
                    if cfg.pg {
                        return;
                    }
                    se.settle(vec![se.st.clone()], "killed while connecting");
                    if violated() {
                        return;
                    }
                    continue;
                }
            };
            set_cache(&conn, cache);
            while left > 0 && !violated() {
                pg::failed();
                if me_dead() {
                    break;
                }
                left -= 1;
                let n = se.ch.n();
                match w(|w| w.weighted(&cfg.mix)) {
                    0 => {
                        let at = se.st.at;
                        let k = if w(|w| w.chance(500)) { n } else { at + w(|w| w.below((n - at) as u32 + 1)) as usize };
                        now(se.act(&mut conn, Act1::Migrate(k)));
                    }
                    1 => now(se.act(&mut conn, Act1::One)),
                    2 => now(se.act(&mut conn, Act1::Unmigrate)),
                    3 => now(se.act(&mut conn, Act1::OneDown)),
                    4 => {
                        let armed = sim(|s| s.plan.armed);
                        sim(|s| s.end_faults());
                        now(se.data(&mut conn));
                        sim(|s| s.plan.armed = armed);
                    }
                    5 | 6 => {
                        let armed = sim(|s| s.plan.armed);
                        sim(|s| s.end_faults());
                        let close = w(|w| w.chance(700));
                        now(se.gate(&mut conn, close));
                        sim(|s| s.plan.armed = armed);
                    }
                    _ => {
                        let armed = sim(|s| s.plan.armed);
                        sim(|s| s.end_faults());
                        now(se.read_back(&mut conn));
                        sim(|s| s.plan.armed = armed);
                    }
                }
            }
            if violated() {
                let _ = catch_unwind(AssertUnwindSafe(|| drop(conn)));
                break;
            }
            pg::failed();
            if me_dead() {
                let _ = catch_unwind(AssertUnwindSafe(|| drop(conn)));
                let c = if se.doubt.is_empty() { vec![se.st.clone()] } else { std::mem::take(&mut se.doubt) };
                let from = se.st.at;
                se.settle(c, "after the crash");
                if violated() {
                    return;
                }
                if se.st.at != from {
                    sim(|s| s.stat("probe:crashed_between_migrations"));
                }
                continue;
            }
            // faults have stopped: everything left to do can be done
            sim(|s| s.end_faults());
            if w(|w| w.chance(500)) {
                drop(conn);
                match open(false) {
                    Some(c) => conn = c,
                    None => return,
                }
            }
            now(se.gate(&mut conn, false));
            let n = se.ch.n();
            for a in [Act1::Migrate(n), Act1::Migrate(n), Act1::Unmigrate, Act1::Migrate(n)] {
                if violated() {
                    return;
                }
                now(se.act(&mut conn, a));
                if a == Act1::Migrate(n) && !violated() {
                    now(se.read_back(&mut conn));
                }
            }
            drop(conn);
            break;
        }
        if se.moved > 1 {
            sim(|s| s.stat("nontrivial"));
        }
        let (l, o) = sim(|s| (s.disk.lock_holders(), s.disk.open_handles()));
        if !asy && !cfg.pg && !violated() && (l > 0 || o > 0) {
            bad("leaked", format!("{l} locks and {o} files still held after closing everything"));
        }
    };
    if cfg.pg {
        sim(|s| s.switch_pm = *s.sched.pick(&[300u32, 50, 600]));
        let f: Box<dyn FnOnce() + Send> = if asy { Box::new(move || solo::with_io_runtime(body)) } else { Box::new(body) };
        if !run_clients(vec![("c0".into(), new_proc(), f)]) && !violated() {
            bad("deadlock", "every thread waits for another".into());
        }
    } else if asy {
        if one_client(body) {
            nothing_left();
        }
    } else {
        body();
    }
}

use Fault::*;
fn asy_one_in(n: u32) -> bool {
    w(|w| w.below(n)) == n - 1
}
pub fn c07() {
    let asy = asy_one_in(5);
    sessions(Mcfg {
        len: 5,
        changes: 3,
        faults: &[Power, Kill, Eio, Full, Torn, Busy, CantOpen],
        must: &[],
        none_pm: 60,
        ops: 14,
        lives: 7,
        mix: [30, 16, 3, 4, 14, 12, 2, 1],
        asy,
        pg: false,
    });
}
pub fn c08() {
    let asy = asy_one_in(5);
    sessions(Mcfg {
        len: 5,
        changes: 3,
        faults: &[Power, Kill, Eio, Full, Torn, Busy, CantOpen],
        must: &[],
        none_pm: 60,
        ops: 16,
        lives: 7,
        mix: [24, 6, 22, 16, 12, 10, 2, 1],
        asy,
        pg: false,
    });
}
pub fn c09() {
    let asy = asy_one_in(12);
    sessions(Mcfg {
        len: 6,
        changes: 4,
        faults: &[Power, Kill, Eio, Full],
        must: &[],
        none_pm: 500,
        ops: 26,
        lives: 4,
        mix: [12, 16, 2, 10, 40, 2, 2, 6],
        asy,
        pg: false,
    });
}

pub fn c21() {
    let asy = asy_one_in(3);
    let (faults, must, none_pm): (&[Fault], &[Fault], u32) = match w(|w| w.below(3)) {
        0 => (&[], &[], 1000),
        1 => (&[SrvErr, Stall, CantOpen], &[SrvErr], 50),
        _ => (&[Cut, SrvErr, Stall, CantOpen], &[Cut], 50),
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        sessions(Mcfg {
            len: 5,
            changes: 3,
            faults,
            must,
            none_pm,
            ops: 16,
            lives: 5,
            mix: [20, 16, 6, 12, 30, 8, 2, 6],
            asy,
            pg: true,
        })
    }));
    pg::end();
    if let Err(e) = r {
        std::panic::resume_unwind(e);
    }
}

// ---------------------------------------------------------------- concurrent migrators

struct Race {
    /// what each client that reported success had asked for
    done: Vec<usize>,
    left: Vec<(String, u32, Conn)>,
    highest: usize,
}
pub fn c10() {
    let (page, cache) = page_and_cache();
    blank(page);
    let ch = Arc::new(chain(4, 2));
    draw_plan(&[Kill, Kill, Eio, Busy, Full, Power], &[], 450);
    sim(|s| s.switch_pm = *s.sched.pick(&[300u32, 80, 600]));
    // where the boundaries are
    let mut states = vec![State { tally: 1, ..Default::default() }];
    for _ in 0..ch.n() {
        let (n, why) = states.last().unwrap().step(&ch, true);
        if why.is_some() {
            return;
        }
        states.push(n);
    }
    let states = Arc::new(states);
    let race = Arc::new(Mutex::new(Race { done: vec![], left: vec![], highest: 0 }));
    // the boundary the database is at right now
    let observe = {
        let (ch, states, race) = (ch.clone(), states.clone(), race.clone());
        move |when: &str| {
            let a = match look() {
                Err(e) => return bad("corrupt", format!("{when}: {e}")),
                Ok(a) => a,
            };
            let at = a.applied.as_ref().map_or(0, |a| a.len());
            if at >= states.len() {
                return bad("not_at_boundary", format!("{when}: recorded as applied: {:?}", a.applied));
            }
            if let Some(d) = a.differs(&ch, &states[at]) {
                return bad("not_at_boundary", format!("{when}: {d}"));
            }
            let h = {
                let mut r = race.lock().unwrap();
                let h = r.highest;
                r.highest = r.highest.max(at);
                h
            };
            if at < h {
                bad("went_back", format!("{when}: at migration {at}, was at {h}"));
            }
        }
    };
    let n = 2 + w(|w| w.below(2));
    let mut cs: Vec<Client> = vec![];
    for c in 0..n {
        let (ch, race, observe) = (ch.clone(), race.clone(), observe.clone());
        let target = if w(|w| w.chance(300)) { 1 + w(|w| w.below(ch.n() as u32)) as usize } else { ch.n() };
        let (start, asy, single) = w(|w| (w.below(3000), w.chance(200), w.chance(200)));
        let name = format!("m{c}");
        let nm = name.clone();
        let body = move || {
            if start % 3 == 0 {
                sleep_us(start as u64);
            }
            'life: for _ in 0..4 {
                if me_dead() {
                    solo::become_proc(new_proc());
                }
                let mut conn = match connect() {
                    Ok(c) => c,
                    Err(_) => continue,
                };
                set_cache(&conn, cache);
                for _ in 0..5 {
                    let a = if single { Act1::One } else { Act1::Migrate(target) };
                    slog!("{nm} {a:?}");
                    let r = now(run(&mut conn, ch.upto(target), a));
                    if me_dead() {
                        let _ = catch_unwind(AssertUnwindSafe(|| drop(conn)));
                        continue 'life;
                    }
                    slog!("{nm} {r:?}");
                    observe(&nm);
                    if violated() {
                        return;
                    }
                    match r {
                        Ok(()) => {
                            // done means: in place from now on
                            let at = race.lock().unwrap().highest;
                            if !single && at < target {
                                return bad("ok_but_failed", format!("{nm} reports success for {target} migrations at {at}"));
                            }
                            sim(|s| s.stat("probe:migrator_done"));
                            race.lock().unwrap().done.push(target);
                            if !single || at >= target {
                                break;
                            }
                        }
                        Err(_) => {
                            sim(|s| s.stat("probe:migrator_lost"));
                            sleep_us(100);
                        }
                    }
                }
                if !asy {
                    race.lock().unwrap().left.push((nm.clone(), crate::core::proc_id(), conn));
                }
                return;
            }
        };
        cs.push((
            name,
            new_proc(),
            Box::new(move || {
                if asy {
                    with_runtime(body)
                } else {
                    body()
                }
            }),
        ));
    }
    if w(|w| w.chance(500)) {
        let observe = observe.clone();
        cs.push((
            "watch".into(),
            new_proc(),
            Box::new(move || {
                for _ in 0..12 {
                    for _ in 0..w(|w| w.below(20)) {
                        yield_point();
                    }
                    if !violated() {
                        observe("seen from outside");
                    }
                    sleep_us(200);
                }
            }),
        ));
    }
    sim(|s| s.rearm());
    let ok = run_clients(cs);
    sim(|s| s.end_faults());
    if violated() || !ok {
        return;
    }
    observe("when all are done");
    let left = std::mem::take(&mut race.lock().unwrap().left);
    if race.lock().unwrap().done.len() > 1 {
        sim(|s| s.stat("nontrivial"));
    }
    // alone, every migrator succeeds
    let mut conns = left;
    let p = new_proc();
    set_proc(p);
    if let Some(c) = open(false) {
        conns.push(("fresh".into(), p, c));
    }
    for (name, p, conn) in conns.iter_mut() {
        if sim(|s| s.proc_dead(*p)) || violated() {
            continue;
        }
        set_proc(*p);
        if let Err(e) = now(run(conn, ch.upto(ch.n()), Act1::Migrate(ch.n()))) {
            bad("not_recovered", format!("{name} alone: {e}"));
        } else {
            observe("migrated alone");
            if race.lock().unwrap().highest != ch.n() && !violated() {
                bad("ok_but_failed", format!("{name} alone reports success at {}", race.lock().unwrap().highest));
            }
        }
    }
    for (_, p, conn) in conns {
        set_proc(p);
        let _ = catch_unwind(AssertUnwindSafe(|| drop(conn)));
    }
    let (l, o) = sim(|s| (s.disk.lock_holders(), s.disk.open_handles()));
    if !violated() && (l > 0 || o > 0) {
        bad("leaked", format!("{l} locks and {o} files still held after closing everything"));
    }
}
