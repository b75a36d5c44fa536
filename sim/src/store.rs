//! Single-client sessions against a SQLite database, judged step by step against the reference model.
//! Serves C01 (transactions), C02 (crashes), C04 (keyed store), C05 (many-to-many), C06 (foreign keys) and C20
//! (recovery), with different mixes of operations and faults; the same sessions run on sync and async connections.
use std::collections::{BTreeMap, BTreeSet};

use butane::{AutoPk, Error, ForeignKey, FromSql, Many, Result, SqlVal};

use crate::cn::{self, Cn, Conn, Kind, Obj, QSpec, KINDS};
use crate::core::{proc_id, sim, Fault, Stream};
use crate::models::*;
use crate::pred::{self, P};
use crate::refdb::{self, dump, show_row, RefDb, Row, MANYS, V};
use crate::slog;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    New,
    Update,
    Resave,
    Delete,
    Get,
    Query,
    QueryDelete,
    First,
    Reload,
    ManyEdit,
    ManySave,
    ManyLoad,
    ManySet,
    ManyClear,
    FkLoad,
    BadSql,
    HasTable,
    Begin,
}
#[derive(Clone)]
pub struct Mix {
    pub ops: Vec<(Op, u32)>,
    pub kinds: Vec<(Kind, u32)>,
    /// permille chance that an ended transaction is committed
    pub commit_pm: u32,
}

#[derive(Clone, Debug)]
pub struct Held {
    pub obj: Obj,
    /// unsaved many-to-many edits: field, added?, value
    pub pend: Vec<(usize, bool, V)>,
    pub deleted: bool,
    /// the many-to-many fields know their owner (saved or loaded once)
    pub init: bool,
}

#[derive(Clone, Debug, Default)]
pub struct ManyEff {
    pub m: &'static str,
    pub clear: bool,
    pub adds: Vec<V>,
    pub rems: Vec<V>,
}
/// The effect an operation is meant to have.
#[derive(Clone, Debug, Default)]
pub struct Eff {
    pub table: &'static str,
    pub row: Option<Row>,
    pub del: Option<BTreeSet<V>>,
    pub owner: V2,
    pub manys: Vec<ManyEff>,
}
pub type V2 = Option<V>;
impl Eff {
    fn multi(&self) -> bool {
        !self.manys.is_empty()
    }
    /// Apply to a model. A row whose key is NULL gets `key`.
    fn apply(&self, db: &mut RefDb, key: Option<&V>) -> std::result::Result<(), String> {
        let mut owner = self.owner.clone();
        if let Some(r) = &self.row {
            let mut r = r.clone();
            if r[0] == V::N {
                r[0] = key.cloned().unwrap_or(V::N);
            }
            owner = Some(r[0].clone());
            db.upsert(self.table, r)?;
        }
        if let Some(d) = &self.del {
            db.delete(self.table, d)?;
        }
        for m in &self.manys {
            let o = owner.clone().unwrap();
            let def = MANYS.iter().find(|d| d.name == m.m).unwrap();
            if m.clear {
                db.m.get_mut(m.m).unwrap().retain(|p| p.0 != o);
            }
            for a in &m.adds {
                if !db.t[def.has].contains_key(a) {
                    return Err(format!("foreign key {}.has", m.m));
                }
                if !db.t[def.owner].contains_key(&o) {
                    return Err(format!("foreign key {}.owner", m.m));
                }
                db.m.get_mut(m.m).unwrap().insert((o.clone(), a.clone()));
            }
            for r in &m.rems {
                db.m.get_mut(m.m).unwrap().remove(&(o.clone(), r.clone()));
            }
        }
        Ok(())
    }
    /// Is `actual` what may be found when the operation was interrupted, starting from `base`?
    fn interrupted(&self, base: &RefDb, actual: &RefDb) -> std::result::Result<(), String> {
        if actual == base {
            return Ok(());
        }
        let mut eff = self.clone();
        if let Some(r) = &mut eff.row {
            if r[0] == V::N {
                let new: Vec<&V> =
                    actual.t[self.table].keys().filter(|k| !base.t[self.table].contains_key(k)).collect();
                if new.len() != 1 {
                    return Err(format!("{} rows appeared in {}", new.len(), self.table));
                }
                r[0] = new[0].clone();
            }
        }
        if !self.multi() {
            let mut n = base.clone();
            eff.apply(&mut n, None)?;
            return match n.diff(actual) {
                None => Ok(()),
                Some(d) => Err(d),
            };
        }
        // several statements: the row old or new, each many-to-many set between old and new, nothing else touched
        let owner = eff.owner.clone().or_else(|| eff.row.as_ref().map(|r| r[0].clone())).unwrap();
        let mut a = base.clone();
        if let Some(r) = &eff.row {
            if actual.t[self.table].get(&r[0]) == Some(r) {
                a.t.get_mut(self.table).unwrap().insert(r[0].clone(), r.clone());
            }
        }
        for m in &eff.manys {
            let old = base.many(m.m, &owner);
            let now = actual.many(m.m, &owner);
            let mut hi: BTreeSet<V> = old.clone();
            hi.extend(m.adds.iter().cloned());
            let mut lo: BTreeSet<V> = if m.clear { BTreeSet::new() } else { old.clone() };
            for r in &m.rems {
                lo.remove(r);
            }
            if !lo.is_subset(&now) || !now.is_subset(&hi) {
                return Err(format!("{} of {}: found {:?}", m.m, owner.short(), now));
            }
            let s = a.m.get_mut(m.m).unwrap();
            s.retain(|p| p.0 != owner);
            s.extend(now.into_iter().map(|h| (owner.clone(), h)));
        }
        match a.diff(actual) {
            None => Ok(()),
            Some(d) => Err(d),
        }
    }
}

pub struct St {
    pub path: String,
    /// what is committed
    pub db: RefDb,
    /// what this client sees
    pub cur: RefDb,
    pub held: Vec<Held>,
    pub next: i64,
    pub mix: Mix,
    /// the process died during an operation that was meant to have this effect (on `db`), or during this commit
    pub doubt: Option<Doubt>,
    pub ops: u64,
    pub txs: u64,
    pub commits: u64,
    /// verify the disk after every n-th quiet operation
    in_tx: bool,
    poison: bool,
    uncertain: bool,
    must_work: bool,
    /// what an operation of this transaction that was abandoned was meant to do
    tx_doubt: Option<Eff>,
}
#[derive(Clone, Debug)]
pub enum Doubt {
    Eff(Eff),
    Commit(RefDb),
    /// this much was committed, together with what an abandoned operation may have done
    With(RefDb, Option<Eff>),
}

fn w<R>(f: impl FnOnce(&mut Stream) -> R) -> R {
    sim(|s| f(&mut s.work))
}
fn violate(class: &str, detail: String) {
    sim(|s| s.violate(class, detail));
}
pub fn violated() -> bool {
    sim(|s| !s.violations.is_empty())
}
pub fn me_dead() -> bool {
    let p = proc_id();
    sim(|s| s.proc_dead(p) || s.lost)
}
/// Grows with every fault, and always while another connection holds the write lock, or has changed the database
/// since this transaction began.
fn hits() -> u64 {
    sim(|s| {
        if s.blocked || s.stale {
            s.plan.hits += 1;
        }
        s.plan.hits
    })
}

enum Out {
    Done,
    /// failed because of a fault; may be retried
    Failed,
}

impl St {
    pub fn new(path: &str, mix: Mix) -> St {
        St {
            path: path.into(),
            db: RefDb::new(),
            cur: RefDb::new(),
            held: vec![],
            next: 1000,
            mix,
            doubt: None,
            ops: 0,
            txs: 0,
            commits: 0,
            in_tx: false,
            poison: false,
            uncertain: false,
            must_work: false,
            tx_doubt: None,
        }
    }

    /// Compare the disk with the model.
    pub fn verify(&mut self, when: &str) {
        if me_dead() {
            return;
        }
        match dump(&self.path) {
            Ok(d) => {
                if let Some(x) = self.db.diff(&d) {
                    violate("state", format!("{when}: {x}"));
                }
            }
            Err(e) => violate("corrupt", format!("{when}: {e}")),
        }
    }
    /// After a crash: the disk must hold the model, or the interrupted operation's effect.
    pub fn after_crash(&mut self) {
        match dump(&self.path) {
            Err(e) => violate("corrupt", format!("after crash: {e}")),
            Ok(d) => {
                let old = self.db.diff(&d);
                if let Some(x) = old {
                    let r = match &self.doubt {
                        None => Err(x.clone()),
                        Some(Doubt::Commit(n)) => match n.diff(&d) {
                            None => Ok(()),
                            Some(y) => Err(format!("neither before ({x}) nor after ({y}) the interrupted commit")),
                        },
                        Some(Doubt::With(n, e)) => match (n.diff(&d), e) {
                            (None, _) => Ok(()),
                            (Some(y), None) => Err(format!("neither before ({x}) nor after ({y}) the commit")),
                            (_, Some(e)) => e.interrupted(n, &d),
                        },
                        Some(Doubt::Eff(e)) => e
                            .interrupted(&self.db, &d)
                            .map_err(|y| format!("neither before ({x}) nor after ({y}) the interrupted operation")),
                    };
                    match r {
                        Ok(()) => {
                            sim(|s| s.stat("probe:interrupted_op_survived"));
                            self.db = d;
                        }
                        Err(e) => violate("crash_state", e),
                    }
                } else if self.doubt.is_some() {
                    sim(|s| s.stat("probe:interrupted_op_vanished"));
                }
            }
        }
        self.doubt = None;
        self.cur = self.db.clone();
        self.held.clear();
    }

    fn pick_kind(&self) -> Kind {
        let ws: Vec<u32> = self.mix.kinds.iter().map(|k| k.1).collect();
        self.mix.kinds[w(|w| w.weighted(&ws))].0
    }
    fn keys(&self, t: &str) -> Vec<V> {
        self.cur.t[t].keys().cloned().collect()
    }
    /// mostly an existing key, sometimes one that does not exist
    fn fk_key(&self, t: &str) -> i64 {
        let ks = self.keys(t);
        if ks.is_empty() || w(|w| w.chance(70)) {
            return 7777;
        }
        match &ks[w(|w| w.below(ks.len() as u32)) as usize] {
            V::I(i) => *i,
            _ => 0,
        }
    }
    fn gen(&mut self, k: Kind) -> Obj {
        self.next += 1;
        let n = self.next;
        match k {
            Kind::Item => {
                let u = if w(|w| w.chance(60)) { 1001 } else { n };
                Obj::Item(w(|w| item(w, u)))
            }
            Kind::Kv => w(|w| {
                let k = ["k1", "k2", "k3", "", "K1", "it's", "k4", "k5"][w.below(8) as usize];
                Obj::Kv(Kv { k: k.into(), v: int64(w), note: opt(w, text) })
            }),
            Kind::Doc => w(|w| {
                let k = w.below(5) as u8;
                Obj::Doc(Doc { uid: uuid::Uuid::from_bytes([k; 16]), body: text(w), size: w.below(3) * 2_000_000_000 })
            }),
            Kind::Grp => w(|w| Obj::Grp(Grp { order: w.below(6) as i32 - 1, select: text(w), limit: opt(w, int64) })),
            Kind::Lone => Obj::Lone(Lone { user: AutoPk::uninitialized() }),
            Kind::LoneKey => w(|w| Obj::LoneKey(LoneKey { id: w.below(6) as i64 - 1 })),
            Kind::Tag => w(|w| Obj::Tag(Tag { tag: format!("t{}", w.below(6)) })),
            Kind::Label => w(|w| Obj::Label(Label { id: AutoPk::uninitialized(), text: text(w) })),
            Kind::Blog => w(|w| Obj::Blog(Blog { id: w.below(5) as i64, name: text(w) })),
            Kind::Post => {
                let blog = self.fk_key("Blog");
                let cover = if w(|w| w.chance(300)) { Some(self.fk_key("Label")) } else { None };
                let prev = if w(|w| w.chance(300)) { Some(self.fk_key("Post")) } else { None };
                Obj::Post(Post {
                    id: AutoPk::uninitialized(),
                    title: w(text),
                    likes: w(int32),
                    blog: ForeignKey::from_pk(blog),
                    cover: cover.map(|k| ForeignKey::from_pk(AutoPk::from_sql(SqlVal::Int(k as i32)).unwrap())),
                    prev: prev.map(|k| ForeignKey::from_pk(AutoPk::from_sql(SqlVal::BigInt(k)).unwrap())),
                    tags: Many::new(),
                    labels: Many::new(),
                })
            }
            Kind::Page => w(|w| {
                Obj::Page(Page { id: w.below(4) as i64, title: text(w), tags: Many::new(), links: Many::new() })
            }),
        }
    }
    fn mutate(&mut self, o: &mut Obj) {
        let kind = o.kind();
        let mut n = self.gen(kind);
        match (o, &mut n) {
            (Obj::Item(a), Obj::Item(b)) => {
                b.id = a.id.clone();
                if w(|w| w.chance(700)) {
                    b.uniq = a.uniq;
                }
                *a = b.clone();
            }
            (Obj::Kv(a), Obj::Kv(b)) => {
                a.v = b.v;
                a.note = b.note.clone();
            }
            (Obj::Doc(a), Obj::Doc(b)) => {
                a.body = b.body.clone();
                a.size = b.size;
            }
            (Obj::Grp(a), Obj::Grp(b)) => {
                a.select = b.select.clone();
                a.limit = b.limit;
            }
            (Obj::Label(a), Obj::Label(b)) => a.text = b.text.clone(),
            (Obj::Blog(a), Obj::Blog(b)) => a.name = b.name.clone(),
            (Obj::Post(a), Obj::Post(b)) => {
                a.title = b.title.clone();
                a.likes = b.likes;
                a.blog = b.blog.clone();
                a.cover = b.cover.clone();
                a.prev = b.prev.clone();
            }
            (Obj::Page(a), Obj::Page(b)) => a.title = b.title.clone(),
            _ => {}
        }
    }

    /// An operation returned an error although the model says it succeeds: fine only if a fault explains it.
    fn judge_err(&mut self, what: &str, e: &Error, h0: u64) {
        if me_dead() || hits() != h0 || self.poison {
            if self.in_tx {
                self.poison = true;
            }
            if !self.must_work {
                return;
            }
        }
        violate(if self.must_work { "not_recovered" } else { "spurious_error" }, format!("{what} failed: {e}"));
    }

    /// Run an operation with effect `eff` and settle its outcome.
    /// `key` tells the row's key after success (objects with automatic keys).
    fn settle(&mut self, what: &str, eff: Eff, r: &Result<()>, key: Option<V>, h0: u64) -> Out {
        let mut n = self.cur.clone();
        let fresh = eff.row.as_ref().is_some_and(|r| r[0] == V::N);
        let exp = eff.apply(&mut n, key.as_ref());
        slog!("{what}: {} expected {:?}", if r.is_ok() { "ok".to_string() } else { errname(r) }, exp);
        match (r, &exp) {
            (Ok(()), Ok(())) => {
                if me_dead() {
                    if !self.in_tx {
                        self.doubt = Some(Doubt::Eff(eff));
                    } else {
                        self.tx_doubt = Some(eff);
                    }
                    return Out::Failed;
                }
                if fresh {
                    match &key {
                        None | Some(V::N) => violate("no_key", format!("{what}: no key assigned")),
                        Some(k) if self.cur.t[eff.table].contains_key(k) => {
                            violate("key_reused", format!("{what}: key {} already in use", k.short()))
                        }
                        _ => {}
                    }
                }
                self.cur = n;
                if !self.in_tx {
                    self.db = self.cur.clone();
                    if w(|w| w.chance(400)) || eff.multi() {
                        self.verify(what);
                    }
                }
                Out::Done
            }
            (Ok(()), Err(c)) => {
                if !me_dead() {
                    violate("accepted", format!("{what} succeeded although it violates {c}"));
                } else if !self.in_tx {
                    self.doubt = Some(Doubt::Eff(eff));
                }
                Out::Failed
            }
            (Err(e), exp) => {
                if exp.is_ok() {
                    self.judge_err(what, e, h0);
                } else if hits() != h0 && self.in_tx {
                    self.poison = true;
                }
                if me_dead() {
                    if !self.in_tx {
                        self.doubt = Some(Doubt::Eff(eff));
                    } else {
                        self.tx_doubt = Some(eff);
                    }
                    return Out::Failed;
                }
                if self.in_tx {
                    if eff.multi() {
                        self.uncertain = true;
                    }
                } else if eff.multi() {
                    match dump(&self.path) {
                        Ok(d) => {
                            if let Err(x) = eff.interrupted(&self.db, &d) {
                                violate("failed_op_effect", format!("after failed {what}: {x}"));
                            }
                            self.db = d;
                            self.cur = self.db.clone();
                        }
                        Err(x) => violate("corrupt", format!("after failed {what}: {x}")),
                    }
                } else {
                    self.verify(&format!("after failed {what}"));
                }
                if exp.is_ok() {
                    Out::Failed
                } else {
                    Out::Done
                }
            }
        }
    }

    async fn save_held(&mut self, cn: Cn<'_, '_>, i: usize) -> Out {
        let h0 = hits();
        let mut h = self.held[i].clone_obj();
        let before = h.obj.row();
        let eff = Eff {
            table: h.obj.table(),
            row: Some(before.clone()),
            del: None,
            owner: None,
            manys: pend_effects(&h),
        };
        let what = format!("save {} {}", h.obj.table(), show_row(&before));
        // the object itself (not a copy) is what is saved: a failed save must leave it usable
        std::mem::swap(&mut h, &mut self.held[i]);
        let r = self.held[i].obj.save(cn).await;
        let key = self.held[i].obj.row()[0].clone();
        if before[0] != V::N && key != before[0] {
            violate("key_changed", format!("{what}: key changed to {}", key.short()));
        }
        let o = self.settle(&what, eff, &r, Some(key.clone()), h0);
        if r.is_ok() {
            self.held[i].pend.clear();
            self.held[i].deleted = false;
            self.held[i].init = true;
        } else if !me_dead() && !self.in_tx && self.held[i].obj.kind().is_auto() && before[0] == V::N {
            // stored exactly once in the end: the object must know whether its row is there
            let there = key != V::N && self.db.t[self.held[i].obj.table()].contains_key(&key);
            if key != V::N && !there {
                violate("lost_row", format!("{what} failed, object claims key {} but no such row", key.short()));
            }
        }
        o
    }

    /// One operation outside or inside a transaction.
    async fn op(&mut self, cn: Cn<'_, '_>, op: Op) {
        self.ops += 1;
        match op {
            Op::New => {
                let k = self.pick_kind();
                let o = self.gen(k);
                self.held.push(Held { obj: o, pend: vec![], deleted: false, init: false });
                let i = self.held.len() - 1;
                if k.has_many() && w(|w| w.chance(500)) {
                    self.edit_many(i);
                }
                self.try_save(cn, i).await;
            }
            Op::Update => {
                let Some(i) = self.pick_held(|_| true) else { return };
                let mut o = self.held[i].obj.clone();
                // keep the object itself (its many-to-many state); change its fields in place
                std::mem::swap(&mut o, &mut self.held[i].obj);
                self.mutate(&mut o);
                std::mem::swap(&mut o, &mut self.held[i].obj);
                if self.held[i].obj.kind().has_many() && w(|w| w.chance(400)) {
                    self.edit_many(i);
                }
                self.try_save(cn, i).await;
            }
            Op::Resave => {
                let Some(i) = self.pick_held(|_| true) else { return };
                self.try_save(cn, i).await;
            }
            Op::Delete => {
                let Some(i) = self.pick_held(|h| h.obj.saved()) else { return };
                for round in 0..2 {
                    let h0 = hits();
                    let row = self.held[i].obj.row();
                    let eff = Eff {
                        table: self.held[i].obj.table(),
                        del: Some([row[0].clone()].into()),
                        ..Default::default()
                    };
                    let what = format!("delete {} {}", eff.table, row[0].short());
                    let r = self.held[i].obj.delete(cn).await;
                    let o = self.settle(&what, eff, &r, None, h0);
                    if r.is_ok() {
                        if w(|w| w.chance(600)) || self.held[i].obj.kind().has_many() {
                            self.held.remove(i);
                        } else {
                            self.held[i].deleted = true;
                        }
                    }
                    if round == 0 && matches!(o, Out::Failed) && self.may_retry() {
                        continue;
                    }
                    break;
                }
                self.must_work = false;
            }
            Op::Get => {
                let k = self.pick_kind();
                let key = self.some_key(k);
                let must = w(|w| w.chance(300));
                self.read_check(cn, "get", |me, cn| {
                    let key = key.clone();
                    let exp = me.cur.t[k.table()].get(&key).cloned();
                    Box::pin(async move {
                        let r = k.fetch(cn, &key, must).await;
                        let what = format!("get {} {}", k.table(), key.short());
                        match r {
                            Ok(o) => Ok((what, check_opt(o, exp.as_ref()))),
                            Err(Error::NoSuchObject) if must => Ok((what, check_opt(None, exp.as_ref()))),
                            Err(e) => Err(e),
                        }
                    })
                })
                .await;
            }
            Op::Query => {
                let (k, p, q) = self.gen_query();
                self.read_check(cn, "query", |me, cn| {
                    let (q, p) = (q.clone(), p.clone());
                    let exp = me.select(k, &p);
                    Box::pin(async move {
                        let what = format!("query {} {:?} {:?} {:?} {:?}", k.table(), p, q.order, q.limit, q.offset);
                        let rows: Vec<Row> = k.query(cn, q.clone()).await?.iter().map(|o| o.row()).collect();
                        Ok((what, check_rows(k, rows, exp, &q)))
                    })
                })
                .await;
            }
            Op::First => {
                let (k, p, mut q) = self.gen_query();
                q.limit = None;
                self.read_check(cn, "load_first", |me, cn| {
                    let (q, p) = (q.clone(), p.clone());
                    let exp = me.select(k, &p);
                    Box::pin(async move {
                        let what = format!("load_first {} {:?} {:?} {:?}", k.table(), p, q.order, q.offset);
                        let o = k.first(cn, q.clone()).await?;
                        let rows: Vec<Row> = o.iter().map(|o| o.row()).collect();
                        let mut q = q;
                        q.limit = Some(1);
                        Ok((what, check_rows(k, rows, exp, &q)))
                    })
                })
                .await;
            }
            Op::QueryDelete => {
                let (k, p, mut q) = self.gen_query();
                q.order.clear();
                q.limit = None;
                q.offset = None;
                for round in 0..2 {
                    let h0 = hits();
                    let keys: BTreeSet<V> = self.select(k, &p).into_iter().map(|r| r[0].clone()).collect();
                    let n = keys.len();
                    let eff = Eff { table: k.table(), del: Some(keys.clone()), ..Default::default() };
                    let what = format!("query-delete {} {:?}", k.table(), p);
                    let r = k.query_delete(cn, q.clone()).await;
                    if let Ok(c) = &r {
                        // Turso counts a row twice if it found it in an index
                        let fits = *c == n || crate::tur::on() && *c > n && *c <= 2 * n;
                        if !fits && !me_dead() {
                            violate("delete_count", format!("{what}: reported {c}, expected {n}"));
                        }
                    }
                    let r = r.map(|_| ());
                    let o = self.settle(&what, eff, &r, None, h0);
                    if r.is_ok() {
                        for h in self.held.iter_mut() {
                            if h.obj.kind() == k && keys.contains(&h.obj.row()[0]) {
                                h.deleted = true;
                            }
                        }
                        self.held.retain(|h| !(h.deleted && h.obj.kind().has_many()));
                    }
                    if round == 0 && matches!(o, Out::Failed) && self.may_retry() {
                        continue;
                    }
                    break;
                }
                self.must_work = false;
            }
            Op::Reload => {
                let Some(i) = self.pick_held(|h| h.obj.saved() && !h.deleted && h.pend.is_empty()) else { return };
                let k = self.held[i].obj.kind();
                let key = self.held[i].obj.row()[0].clone();
                let h0 = hits();
                match k.fetch(cn, &key, false).await {
                    Ok(o) => {
                        if let Some(x) = check_opt(o.clone(), self.cur.t[k.table()].get(&key)) {
                            if !me_dead() {
                                violate("read", format!("reload {} {}: {x}", k.table(), key.short()));
                            }
                        }
                        if let Some(o) = o {
                            self.held[i].obj = o;
                            self.held[i].init = true;
                        }
                    }
                    Err(e) => self.judge_err("reload", &e, h0),
                }
            }
            Op::ManyEdit => {
                let Some(i) = self.pick_held(|h| h.obj.kind().has_many()) else { return };
                self.edit_many(i);
            }
            Op::ManySave => self.many_save(cn).await,
            Op::ManyLoad => self.many_load(cn).await,
            Op::ManySet => self.many_set(cn, false).await,
            Op::ManyClear => self.many_set(cn, true).await,
            Op::FkLoad => self.fk_load(cn).await,
            Op::BadSql => {
                let sql = *w(|w| {
                    *w.pick(&[
                        &"SELEC 1",
                        &"INSERT INTO nosuch VALUES (1)",
                        &"INSERT INTO Kv (k) VALUES (NULL)",
                        &"UPDATE Blog SET nosuch = 1",
                    ])
                });
                let h0 = hits();
                let r = cn::execute(cn, sql).await;
                if hits() != h0 && self.in_tx {
                    self.poison = true;
                }
                slog!("bad sql: {}", r.is_ok());
                if r.is_ok() && !me_dead() {
                    violate("accepted", format!("{sql:?} succeeded"));
                }
                if !self.in_tx {
                    self.verify("after bad sql");
                }
            }
            Op::HasTable => {
                let k = self.pick_kind();
                let h0 = hits();
                match (cn::has_table(cn, k.table()).await, cn::has_table(cn, "nosuch").await) {
                    (Ok(true), Ok(false)) => {}
                    (Ok(a), Ok(b)) => {
                        if !me_dead() {
                            violate("has_table", format!("{} {a} nosuch {b}", k.table()))
                        }
                    }
                    (Err(e), _) | (_, Err(e)) => self.judge_err("has_table", &e, h0),
                }
            }
            Op::Begin => {}
        }
    }

    /// After a failure caused by a fault: maybe stop the faults and demand that the same operation now works.
    fn may_retry(&mut self) -> bool {
        if me_dead() || violated() || self.uncertain || self.poison {
            return false;
        }
        if !w(|w| w.chance(700)) {
            return false;
        }
        crate::tur::release(self.in_tx);
        sim(|s| {
            s.end_faults();
            s.stat("probe:retry_after_fault");
        });
        self.must_work = true;
        true
    }

    async fn try_save(&mut self, cn: Cn<'_, '_>, i: usize) {
        let o = self.save_held(cn, i).await;
        if matches!(o, Out::Failed) && self.may_retry() {
            self.save_held(cn, i).await;
        }
        self.must_work = false;
        if !self.held[i].pend.is_empty() && !self.uncertain && !me_dead() && !violated() && w(|w| w.chance(300)) {
            // saving again must not forget what was pending
            self.save_held(cn, i).await;
        }
        // pending edits left: some may have been written before the failure
        if !self.held[i].obj.saved() || !self.held[i].pend.is_empty() {
            self.held.remove(i);
        } else if self.held.len() > 14 {
            self.held.remove(0);
        }
    }

    async fn read_check<'a, 'c: 'a, F>(&mut self, cn: Cn<'a, 'c>, name: &str, f: F)
    where
        F: Fn(&mut St, Cn<'a, 'c>) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<(String, Option<String>)>> + 'a>>,
    {
        for round in 0..2 {
            let h0 = hits();
            let fut = f(self, cn);
            match fut.await {
                Ok((what, bad)) => {
                    slog!("{what}: {}", if bad.is_some() { "BAD" } else { "ok" });
                    if let Some(x) = bad {
                        if !me_dead() && !self.poison {
                            violate("read", format!("{what}: {x}"));
                        }
                    }
                }
                Err(e) => {
                    slog!("{name}: error");
                    self.judge_err(name, &e, h0);
                    if round == 0 && self.may_retry() {
                        continue;
                    }
                }
            }
            break;
        }
        self.must_work = false;
    }

    fn select(&self, k: Kind, p: &P) -> Vec<Row> {
        self.cur.t[k.table()]
            .values()
            .filter(|r| p.eval(&self.cur, k.table(), r) == Some(true))
            .cloned()
            .collect()
    }
    fn gen_query(&mut self) -> (Kind, P, QSpec) {
        let k = self.pick_kind();
        let t = k.table();
        let cur = &self.cur;
        let (p, q) = w(|w| {
            let mut q = QSpec::default();
            let p = if w.chance(850) { pred::gen(w, cur, t, 2) } else { P::True };
            if !matches!(p, P::True) || w.chance(300) {
                q.filter = Some(p.expr(t));
            }
            if w.chance(400) {
                let cols = refdb::table(t).cols;
                let n = 1 + w.below(2);
                for _ in 0..n {
                    let c = w.below(cols.len() as u32) as usize;
                    if pred::tys(t)[c] != pred::Ty::Other {
                        q.order.push((cols[c], w.chance(500)));
                    }
                }
            }
            if w.chance(200) {
                q.limit = Some(w.below(4) as i32);
            }
            if w.chance(200) {
                q.offset = Some(w.below(3) as i32);
            }
            (p, q)
        });
        (k, p, q)
    }
    fn some_key(&mut self, k: Kind) -> V {
        let ks = self.keys(k.table());
        if !ks.is_empty() && w(|w| w.chance(750)) {
            return ks[w(|w| w.below(ks.len() as u32)) as usize].clone();
        }
        let o = self.gen(k);
        match o.row()[0].clone() {
            V::N => V::I(w(|w| w.below(5) as i64)),
            x => x,
        }
    }
    fn pick_held(&self, f: impl Fn(&Held) -> bool) -> Option<usize> {
        let c: Vec<usize> = (0..self.held.len()).filter(|i| f(&self.held[*i])).collect();
        if c.is_empty() {
            return None;
        }
        Some(c[w(|w| w.below(c.len() as u32)) as usize])
    }

    // ------------------------------------------------------------ many-to-many

    fn edit_many(&mut self, i: usize) {
        let n = 1 + w(|w| w.below(3));
        for _ in 0..n {
            let f = w(|w| w.below(2)) as usize;
            let has = many_has(&self.held[i].obj, f);
            let ks = self.keys(has);
            let key = if ks.is_empty() || w(|w| w.chance(60)) {
                match has {
                    "Tag" => V::T("gone".into()),
                    _ => V::I(7778),
                }
            } else {
                ks[w(|w| w.below(ks.len() as u32)) as usize].clone()
            };
            let add = w(|w| w.chance(600));
            let h = &mut self.held[i];
            if h.pend.iter().any(|p| p.0 == f && p.2 == key && !p.1) && add {
                continue; // documented order is additions first: do not re-add what the same batch removes
            }
            slog!("edit {} {} {} {}", h.obj.table(), f, if add { "add" } else { "remove" }, key.short());
            match (&mut h.obj, f) {
                (Obj::Post(p), 0) => edit(&mut p.tags, &mk_tag(&key), add),
                (Obj::Post(p), _) => edit(&mut p.labels, &mk_label(&key), add),
                (Obj::Page(p), 0) => edit(&mut p.tags, &mk_tag(&key), add),
                (Obj::Page(p), _) => edit(&mut p.links, &mk_page(&key), add),
                _ => {}
            }
            h.pend.push((f, add, key));
        }
    }
    async fn many_save(&mut self, cn: Cn<'_, '_>) {
        let Some(i) = self.pick_held(|h| h.obj.kind().has_many() && h.obj.saved() && !h.deleted && h.init) else { return };
        // only an initialised field may be saved by itself: one of a loaded or saved object
        if !self.cur.t[self.held[i].obj.table()].contains_key(&self.held[i].obj.row()[0]) {
            return;
        }
        let f = w(|w| w.below(2)) as usize;
        for round in 0..2 {
            let h0 = hits();
            let owner = self.held[i].obj.row()[0].clone();
            let mut manys = pend_effects(&self.held[i]);
            manys.retain(|m| m.m == many_name(&self.held[i].obj, f));
            let eff = Eff { table: self.held[i].obj.table(), owner: Some(owner.clone()), manys, ..Default::default() };
            let what = format!("save {} of {}", many_name(&self.held[i].obj, f), owner.short());
            let r = match (&mut self.held[i].obj, f) {
                (Obj::Post(p), 0) => cn::many_save(cn, &mut p.tags).await,
                (Obj::Post(p), _) => cn::many_save(cn, &mut p.labels).await,
                (Obj::Page(p), 0) => cn::many_save(cn, &mut p.tags).await,
                (Obj::Page(p), _) => cn::many_save(cn, &mut p.links).await,
                _ => Ok(()),
            };
            let o = self.settle(&what, eff, &r, None, h0);
            if r.is_ok() {
                self.held[i].pend.retain(|p| p.0 != f);
                break;
            }
            if round == 0 && matches!(o, Out::Failed) && self.may_retry() {
                continue;
            }
            self.held.remove(i);
            break;
        }
        self.must_work = false;
    }
    async fn many_load(&mut self, cn: Cn<'_, '_>) {
        let Some(i) = self.pick_held(|h| h.obj.kind().has_many() && h.obj.saved() && !h.deleted && h.pend.is_empty())
        else {
            return;
        };
        let k = self.held[i].obj.kind();
        let f = w(|w| w.below(2)) as usize;
        let owner = self.held[i].obj.row()[0].clone();
        if !self.cur.t[k.table()].contains_key(&owner) {
            return;
        }
        // a freshly fetched object has nothing cached
        let order = [None, Some(true), Some(false)][w(|w| w.below(3)) as usize];
        self.read_check(cn, "many load", |me, cn| {
            let owner = owner.clone();
            let m = many_name(&me.held[i].obj, f);
            let has = many_has(&me.held[i].obj, f);
            let exp: Vec<Row> = me.cur.many(m, &owner).iter().map(|x| me.cur.t[has][x].clone()).collect();
            Box::pin(async move {
                let what = format!("load {m} of {}", owner.short());
                let o = k.fetch(cn, &owner, true).await?;
                let mut rows = match (o.as_ref(), f) {
                    (Some(Obj::Post(p)), 0) => cn::many_load(cn, &p.tags, order).await?,
                    (Some(Obj::Post(p)), _) => cn::many_load(cn, &p.labels, order).await?,
                    (Some(Obj::Page(p)), 0) => cn::many_load(cn, &p.tags, order).await?,
                    (Some(Obj::Page(p)), _) => cn::many_load(cn, &p.links, order).await?,
                    _ => return Ok((what, Some("object gone".into()))),
                };
                if let Some(asc) = order {
                    for x in rows.windows(2) {
                        let c = pred::cmp(&x[0][0], &x[1][0]);
                        if (asc && c.is_gt()) || (!asc && c.is_lt()) {
                            return Ok((what, Some("not in the requested order".into())));
                        }
                    }
                }
                rows.sort();
                Ok((what, if rows == exp { None } else { Some(format!("expected {} values, got {rows:?}", exp.len())) }))
            })
        })
        .await;
    }
    async fn many_set(&mut self, cn: Cn<'_, '_>, clear: bool) {
        let Some(i) = self.pick_held(|h| h.obj.kind().has_many() && h.obj.saved() && !h.deleted && h.init) else { return };
        let owner = self.held[i].obj.row()[0].clone();
        if !self.cur.t[self.held[i].obj.table()].contains_key(&owner) {
            return;
        }
        let f = w(|w| w.below(2)) as usize;
        let m = many_name(&self.held[i].obj, f);
        let has = many_has(&self.held[i].obj, f);
        let mut vals: Vec<V> = vec![];
        if !clear {
            for k in self.keys(has) {
                if w(|w| w.chance(400)) {
                    vals.push(k);
                }
            }
        }
        let rows: Vec<Row> = vals.iter().map(|v| self.cur.t[has][v].clone()).collect();
        for round in 0..2 {
            let h0 = hits();
            let eff = Eff {
                table: self.held[i].obj.table(),
                owner: Some(owner.clone()),
                manys: vec![ManyEff { m, clear: true, adds: vals.clone(), rems: vec![] }],
                ..Default::default()
            };
            let what = format!("{} {m} of {} to {}", if clear { "clear" } else { "set" }, owner.short(), vals.len());
            macro_rules! go {
                ($fld:expr, $mk:expr) => {
                    if clear {
                        cn::many_clear(cn, &mut $fld).await
                    } else {
                        let v = rows.iter().map($mk).collect();
                        cn::many_set(cn, &mut $fld, v).await
                    }
                };
            }
            let r = match (&mut self.held[i].obj, f) {
                (Obj::Post(p), 0) => go!(p.tags, |r: &Row| mk_tag(&r[0])),
                (Obj::Post(p), _) => go!(p.labels, |r: &Row| mk_label(&r[0])),
                (Obj::Page(p), 0) => go!(p.tags, |r: &Row| mk_tag(&r[0])),
                (Obj::Page(p), _) => go!(p.links, |r: &Row| mk_page(&r[0])),
                _ => Ok(()),
            };
            let o = self.settle(&what, eff, &r, None, h0);
            if r.is_ok() {
                self.held[i].pend.retain(|p| p.0 != f);
                // the field itself now knows its values
                let got: Option<BTreeSet<V>> = match (&self.held[i].obj, f) {
                    (Obj::Post(p), 0) => p.tags.get().ok().map(|x| x.map(|o| o.row()[0].clone()).collect()),
                    (Obj::Post(p), _) => p.labels.get().ok().map(|x| x.map(|o| o.row()[0].clone()).collect()),
                    (Obj::Page(p), 0) => p.tags.get().ok().map(|x| x.map(|o| o.row()[0].clone()).collect()),
                    (Obj::Page(p), _) => p.links.get().ok().map(|x| x.map(|o| o.row()[0].clone()).collect()),
                    _ => None,
                };
                if got.is_some() && got != Some(vals.iter().cloned().collect()) && !me_dead() {
                    violate("many_get", format!("{what}: the field holds {got:?}"));
                }
            } else if !self.in_tx && !me_dead() {
                // a partly executed replacement: its additions stay pending, so start over from a fresh object
                let retry = self.may_retry();
                if let Ok(Some(o)) = self.held[i].obj.kind().fetch(cn, &owner, false).await {
                    self.held[i].obj = o;
                    self.held[i].pend.clear();
                    if retry && round == 0 {
                        continue;
                    }
                } else {
                    if retry {
                        violate("not_recovered", format!("fetch after failed {what} failed"));
                    }
                    self.held.remove(i);
                }
                break;
            } else {
                self.held.remove(i);
                break;
            }
            let _ = o;
            break;
        }
        self.must_work = false;
    }

    // ------------------------------------------------------------ foreign keys

    async fn fk_load(&mut self, cn: Cn<'_, '_>) {
        let which = w(|w| w.below(3));
        let (t, k) = match which {
            0 => ("Blog", Kind::Blog),
            1 => ("Label", Kind::Label),
            _ => ("Post", Kind::Post),
        };
        let key = self.fk_key(t);
        let _ = k;
        // one shared reference, loaded until it works, then again (cached)
        let fb: ForeignKey<Blog> = ForeignKey::from_pk(key);
        let fl: ForeignKey<Label> = ForeignKey::from_pk(AutoPk::from_sql(SqlVal::Int(key as i32)).unwrap());
        let fp: ForeignKey<Post> = ForeignKey::from_pk(AutoPk::from_sql(SqlVal::BigInt(key)).unwrap());
        let exp = self.cur.t[t].get(&V::I(key)).cloned();
        for round in 0..3 {
            let h0 = hits();
            let r = match which {
                0 => cn::fk_load(cn, &fb).await,
                1 => cn::fk_load(cn, &fl).await,
                _ => cn::fk_load(cn, &fp).await,
            };
            let pk = match which {
                0 => fb.pk(),
                1 => (*fl.pk()).unwrap() as i64,
                _ => (*fp.pk()).unwrap(),
            };
            if pk != key {
                violate("fk", format!("reference to {t} {key} became {pk}"));
            }
            slog!("fk load {t} {key}: {}", r.is_ok());
            match (&r, &exp) {
                (Ok(x), Some(y)) if x == y => {
                    if round > 0 {
                        break;
                    }
                    continue;
                }
                (Err(Error::NoSuchObject), None) => break,
                (Ok(x), y) => {
                    if !me_dead() && !self.poison {
                        violate("fk", format!("load of {t} {key} gave {} expected {:?}", show_row(x), y));
                    }
                    break;
                }
                (Err(e), _) => {
                    self.judge_err("fk load", e, h0);
                    if !self.may_retry() {
                        break;
                    }
                }
            }
        }
        self.must_work = false;
    }

    // ------------------------------------------------------------ driving

    fn pick_op(&self) -> Op {
        let ws: Vec<u32> = self.mix.ops.iter().map(|o| o.1).collect();
        self.mix.ops[w(|w| w.weighted(&ws))].0
    }

    /// Run `n` steps on the connection. Ends early when the process dies or a violation is found.
    pub async fn session(&mut self, conn: &mut Conn, n: u32) {
        for _ in 0..n {
            if me_dead() || violated() {
                return;
            }
            let a = sim(|s| s.work.rec.len());
            if w(|w| w.chance(30)) {
                sim(|s| s.end_faults());
            }
            self.contend();
            let op = self.pick_op();
            if op == Op::Begin {
                self.tx(conn).await;
            } else {
                sim(|s| s.rearm());
                self.op(conn.cn(), op).await;
            }
            sim(|s| {
                let b = s.work.rec.len();
                s.work.spans.push((a, b));
            });
        }
    }

    fn contend(&mut self) {
        if crate::tur::on() && w(|w| w.chance(80)) {
            crate::tur::contend(self.in_tx);
        }
    }

    async fn tx(&mut self, conn: &mut Conn) {
        self.txs += 1;
        sim(|s| s.rearm());
        let h0 = hits();
        let saved_held: Vec<Held> = self.held.iter().map(|h| h.clone_obj()).collect();
        let tx = match conn.transaction().await {
            Ok(t) => t,
            Err(e) => {
                slog!("begin: error");
                self.judge_err("begin", &e, h0);
                return;
            }
        };
        slog!("begin");
        self.in_tx = true;
        self.poison = false;
        self.uncertain = false;
        self.tx_doubt = None;
        let n = w(|w| w.below(6));
        for _ in 0..n {
            let op = self.pick_op();
            if op == Op::Begin {
                continue;
            }
            self.contend();
            self.op(tx.cn(), op).await;
            // PostgreSQL goes no further in a transaction after an error
            self.poison |= crate::pg::aborted();
            if me_dead() || violated() || self.uncertain {
                break;
            }
            if self.poison && w(|w| w.chance(300)) {
                break;
            }
        }
        let h0 = hits();
        let pm = self.mix.commit_pm;
        let (gone, aborted) = (me_dead(), crate::pg::aborted());
        let how = if self.uncertain && !aborted { 1 + w(|w| w.below(2)) } else { w(|w| w.draw(3, |r| if r.chance(pm) { 0 } else { 1 + r.below(2) })) };
        let mut committed = false;
        match how {
            0 => {
                let r = tx.commit().await;
                slog!("commit: {}", if r.is_ok() { "ok".into() } else { errname(&r) });
                if aborted && r.is_ok() {
                    violate("accepted", "commit of a transaction that has failed".into());
                }
                if me_dead() {
                    // a connection that was known to be lost cannot commit anything
                    if crate::pg::on() && gone && !crate::pg::lost() {
                        self.doubt = Some(Doubt::With(self.cur.clone(), self.tx_doubt.take()));
                    } else if !(gone && crate::pg::on() || aborted) {
                        self.doubt = Some(Doubt::Commit(self.cur.clone()));
                    }
                } else {
                    match r {
                        Ok(()) => committed = true,
                        Err(e) => {
                            if hits() == h0 && !self.poison {
                                violate("spurious_error", format!("commit failed: {e}"));
                            }
                        }
                    }
                }
            }
            1 => {
                let r = tx.rollback().await;
                slog!("rollback: {}", r.is_ok());
                if let Err(e) = r {
                    if hits() == h0 && !self.poison && !me_dead() {
                        violate("spurious_error", format!("rollback failed: {e}"));
                    }
                }
            }
            _ => {
                drop(tx);
                slog!("drop transaction");
            }
        }
        self.in_tx = false;
        sim(|s| s.stale = false);
        self.poison = false;
        self.uncertain = false;
        if me_dead() {
            return;
        }
        if committed {
            self.commits += 1;
            self.db = self.cur.clone();
        } else {
            self.cur = self.db.clone();
            self.held = saved_held;
        }
        self.verify(match how {
            0 if committed => "after commit",
            0 => "after failed commit",
            1 => "after rollback",
            _ => "after drop",
        });
    }

    /// Faults are over: the connection must serve reads and writes at once, and so must a fresh one.
    pub async fn recovered(&mut self, conn: &mut Conn, fresh: Option<&mut Conn>) {
        sim(|s| s.end_faults());
        if me_dead() || violated() {
            return;
        }
        self.must_work = true;
        let t0 = sim(|s| s.now_us);
        let mut cs: Vec<&mut Conn> = vec![conn];
        if let Some(f) = fresh {
            cs.push(f);
        }
        for c in cs {
            self.next += 1;
            let n = self.next;
            let mut kv = Kv { k: format!("recovered{n}"), v: n, note: None };
            let eff = Eff { table: "Kv", row: Some(kv.row()), ..Default::default() };
            let h0 = hits();
            let r = cn::save(c.cn(), &mut kv).await;
            self.settle("save after recovery", eff, &r, None, h0);
            let h0 = hits();
            match c.transaction().await {
                Ok(tx) => {
                    self.in_tx = true;
                    let mut kv = Kv { k: format!("recovered{n}"), v: n + 1, note: Some("tx".into()) };
                    let eff = Eff { table: "Kv", row: Some(kv.row()), ..Default::default() };
                    let r = cn::save(tx.cn(), &mut kv).await;
                    self.settle("save in transaction after recovery", eff, &r, None, h0);
                    if let Err(e) = tx.commit().await {
                        violate("not_recovered", format!("commit after recovery failed: {e}"));
                    }
                    self.in_tx = false;
                    self.db = self.cur.clone();
                }
                Err(e) => violate("not_recovered", format!("begin after recovery failed: {e}")),
            }
            for k in KINDS {
                let exp: Vec<Row> = self.cur.t[k.table()].values().cloned().collect();
                match k.query(c.cn(), QSpec::default()).await {
                    Ok(os) => {
                        let q = QSpec::default();
                        if let Some(x) = check_rows(*k, os.iter().map(|o| o.row()).collect(), exp, &q) {
                            violate("read", format!("final read of {}: {x}", k.table()));
                        }
                    }
                    Err(e) => violate("not_recovered", format!("read of {} failed: {e}", k.table())),
                }
            }
        }
        let dt = sim(|s| s.now_us) - t0;
        if dt > if crate::pg::on() { 60_000_000 } else { 2_000_000 } {
            violate("slow_recovery", format!("recovery took {dt} us of simulated time"));
        }
        self.must_work = false;
        self.verify("after recovery");
    }
}

impl Held {
    fn clone_obj(&self) -> Held {
        self.clone()
    }
}
fn errname(r: &Result<()>) -> String {
    match r {
        Ok(()) => "ok".into(),
        Err(e) => {
            let s = e.to_string();
            s.chars().take(80).collect()
        }
    }
}
fn edit<T: butane::DataObject>(m: &mut Many<T>, o: &T, add: bool) {
    if add {
        m.add(o).unwrap();
    } else {
        m.remove(o);
    }
}
fn mk_tag(k: &V) -> Tag {
    match k {
        V::T(t) => Tag { tag: t.clone() },
        _ => panic!(),
    }
}
fn mk_label(k: &V) -> Label {
    match k {
        V::I(i) => Label { id: AutoPk::from_sql(SqlVal::Int(*i as i32)).unwrap(), text: String::new() },
        _ => panic!(),
    }
}
fn mk_page(k: &V) -> Page {
    match k {
        V::I(i) => Page { id: *i, title: String::new(), tags: Many::new(), links: Many::new() },
        _ => panic!(),
    }
}
pub fn many_name(o: &Obj, f: usize) -> &'static str {
    match (o.kind(), f) {
        (Kind::Post, 0) => "Post_tags_Many",
        (Kind::Post, _) => "Post_labels_Many",
        (Kind::Page, 0) => "Page_tags_Many",
        _ => "Page_links_Many",
    }
}
fn many_has(o: &Obj, f: usize) -> &'static str {
    MANYS.iter().find(|m| m.name == many_name(o, f)).unwrap().has
}
fn pend_effects(h: &Held) -> Vec<ManyEff> {
    if !h.obj.kind().has_many() {
        return vec![];
    }
    let mut v: Vec<ManyEff> = vec![];
    let mut by: BTreeMap<usize, (Vec<V>, Vec<V>)> = BTreeMap::new();
    for (f, add, k) in &h.pend {
        let e = by.entry(*f).or_default();
        if *add {
            e.0.push(k.clone())
        } else {
            e.1.push(k.clone())
        }
    }
    for (f, (adds, rems)) in by {
        v.push(ManyEff { m: many_name(&h.obj, f), clear: false, adds, rems });
    }
    v
}
fn check_opt(o: Option<Obj>, exp: Option<&Row>) -> Option<String> {
    match (o, exp) {
        (None, None) => None,
        (Some(o), Some(r)) => {
            if o.row() == *r {
                None
            } else {
                Some(format!("got {} expected {}", show_row(&o.row()), show_row(r)))
            }
        }
        (None, Some(r)) => Some(format!("missing, expected {}", show_row(r))),
        (Some(o), None) => Some(format!("got {} expected nothing", show_row(&o.row()))),
    }
}
fn check_rows(k: Kind, rows: Vec<Row>, mut exp: Vec<Row>, q: &QSpec) -> Option<String> {
    let cols = refdb::table(k.table()).cols;
    let keyf = |r: &Row| -> Vec<V> {
        q.order.iter().map(|(c, _)| r[cols.iter().position(|x| x == c).unwrap()].clone()).collect()
    };
    let cmpf = |a: &Row, b: &Row| {
        let (ka, kb) = (keyf(a), keyf(b));
        for (i, (_, asc)) in q.order.iter().enumerate() {
            let c = pred::order(&ka[i], &kb[i]);
            let c = if *asc { c } else { c.reverse() };
            if c.is_ne() {
                return c;
            }
        }
        std::cmp::Ordering::Equal
    };
    exp.sort_by(|a, b| cmpf(a, b));
    let total = exp.len();
    let off = (q.offset.unwrap_or(0) as usize).min(total);
    let lim = q.limit.map_or(total, |l| l as usize).min(total - off);
    if rows.len() != lim {
        return Some(format!("{} rows instead of {lim} (of {total})", rows.len()));
    }
    for x in rows.windows(2) {
        if cmpf(&x[0], &x[1]).is_gt() {
            return Some("not in the requested order".into());
        }
    }
    // same order keys at the same positions, every row expected, none twice
    for (i, r) in rows.iter().enumerate() {
        if !q.order.is_empty() && keyf(r) != keyf(&exp[off + i]) {
            return Some(format!("row {i} is {}", show_row(r)));
        }
        if !exp.contains(r) {
            return Some(format!("unexpected row {}", show_row(r)));
        }
    }
    let set: BTreeSet<&Row> = rows.iter().collect();
    if set.len() != rows.len() {
        return Some("a row was returned twice".into());
    }
    None
}

pub const NOFAULTS: &[Fault] = &[];
