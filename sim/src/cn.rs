//! One face for the four things a client can talk to: connection or transaction, synchronous or asynchronous.
//! Every call goes to butane's public API.
#![allow(dead_code)]
use butane::db::{Connection, ConnectionAsync, ConnectionMethods, Transaction, TransactionAsync};
use butane::prelude_async::*;
use butane::query::{BoolExpr, OrderDirection, Query};
use butane::{DataObject, DataObjectOpsAsync, DataObjectOpsSync, Many, Result, ToSql};
use butane_core::db::{ConnectionMethodsAsync, SyncAdapter};
use butane_core::many::{ManyOpsAsync, ManyOpsSync};
use butane_core::query::{QueryOpsAsync, QueryOpsSync};

use crate::models::*;
use crate::refdb::{Row, V};

pub enum Conn {
    S(Connection),
    A(ConnectionAsync),
    /// what a closure run by `with_sync` gets
    W(&'static mut SyncAdapter<ConnectionAsync>),
}
pub enum Tx<'c> {
    S(Transaction<'c>),
    A(TransactionAsync<'c>),
}
#[derive(Clone, Copy)]
pub enum Cn<'a, 'c> {
    SC(&'a Connection),
    ST(&'a Transaction<'c>),
    AC(&'a ConnectionAsync),
    AT(&'a TransactionAsync<'c>),
    WC(&'a SyncAdapter<ConnectionAsync>),
}
impl Conn {
    pub fn cn(&self) -> Cn<'_, '_> {
        match self {
            Conn::S(c) => Cn::SC(c),
            Conn::A(c) => Cn::AC(c),
            Conn::W(c) => Cn::WC(c),
        }
    }
    pub async fn transaction(&mut self) -> Result<Tx<'_>> {
        heard(match self {
            Conn::S(c) => butane::db::BackendConnection::transaction(c).map(Tx::S),
            Conn::A(c) => crate::pg::may_abandon(BackendConnectionAsync::transaction(c)).await.map(Tx::A),
            Conn::W(c) => butane::db::BackendConnection::transaction(*c).map(Tx::S),
        })
    }
}
impl<'c> Tx<'c> {
    pub fn cn(&self) -> Cn<'_, 'c> {
        match self {
            Tx::S(c) => Cn::ST(c),
            Tx::A(c) => Cn::AT(c),
        }
    }
    pub async fn commit(self) -> Result<()> {
        heard(match self {
            Tx::S(c) => c.commit(),
            Tx::A(c) => crate::pg::may_abandon(c.commit()).await,
        })
    }
    pub async fn rollback(self) -> Result<()> {
        heard(match self {
            Tx::S(c) => c.rollback(),
            Tx::A(c) => crate::pg::may_abandon(c.rollback()).await,
        })
    }
}

/// A client learns from errors that its connection is lost.
pub fn heard<R>(r: Result<R>) -> Result<R> {
    if r.is_err() {
        crate::pg::failed();
    }
    r
}
macro_rules! d {
    ($cn:expr, $c:ident => $s:expr, $a:expr) => {
        $crate::cn::heard(match $cn {
            Cn::SC($c) => $s,
            Cn::ST($c) => $s,
            Cn::AC($c) => $crate::pg::may_abandon(async { $a }).await,
            Cn::AT($c) => $crate::pg::may_abandon(async { $a }).await,
            Cn::WC($c) => $s,
        })
    };
}
pub(crate) use d;

pub async fn save<T: DataObject>(cn: Cn<'_, '_>, o: &mut T) -> Result<()> {
    d!(cn, c => DataObjectOpsSync::save(o, c), DataObjectOpsAsync::save(o, c).await)
}
pub async fn delete<T: DataObject>(cn: Cn<'_, '_>, o: &T) -> Result<()> {
    d!(cn, c => DataObjectOpsSync::delete(o, c), DataObjectOpsAsync::delete(o, c).await)
}
pub async fn get<T: DataObject>(cn: Cn<'_, '_>, k: impl ToSql) -> Result<T>
where
    T::PKType: Sync,
{
    d!(cn, c => <T as DataObjectOpsSync<T>>::get(c, k), <T as DataObjectOpsAsync<T>>::get(c, k).await)
}
pub async fn try_get<T: DataObject>(cn: Cn<'_, '_>, k: impl ToSql) -> Result<Option<T>> {
    d!(cn, c => <T as DataObjectOpsSync<T>>::try_get(c, k), <T as DataObjectOpsAsync<T>>::try_get(c, k).await)
}
pub async fn load<T: DataResult>(cn: Cn<'_, '_>, q: Query<T>) -> Result<Vec<T>> {
    d!(cn, c => QueryOpsSync::load(q, c), QueryOpsAsync::load(q, c).await)
}
pub async fn load_first<T: DataResult>(cn: Cn<'_, '_>, q: Query<T>) -> Result<Option<T>> {
    d!(cn, c => QueryOpsSync::load_first(q, c), QueryOpsAsync::load_first(q, c).await)
}
pub async fn query_delete<T: DataResult>(cn: Cn<'_, '_>, q: Query<T>) -> Result<usize> {
    d!(cn, c => QueryOpsSync::delete(q, c), QueryOpsAsync::delete(q, c).await)
}
pub async fn execute(cn: Cn<'_, '_>, sql: &str) -> Result<()> {
    d!(cn, c => ConnectionMethods::execute(c, sql), ConnectionMethodsAsync::execute(c, sql).await)
}
pub async fn has_table(cn: Cn<'_, '_>, t: &str) -> Result<bool> {
    d!(cn, c => ConnectionMethods::has_table(c, t), ConnectionMethodsAsync::has_table(c, t).await)
}
pub async fn many_save<T: DataObject>(cn: Cn<'_, '_>, m: &mut Many<T>) -> Result<()> {
    d!(cn, c => ManyOpsSync::save(m, c), ManyOpsAsync::save(m, c).await)
}
pub async fn many_clear<T: DataObject>(cn: Cn<'_, '_>, m: &mut Many<T>) -> Result<()> {
    d!(cn, c => ManyOpsSync::delete(m, c), ManyOpsAsync::delete(m, c).await)
}
pub async fn many_set<T: DataObject>(cn: Cn<'_, '_>, m: &mut Many<T>, v: Vec<T>) -> Result<()> {
    d!(cn, c => ManyOpsSync::set(m, c, v), ManyOpsAsync::set(m, c, v).await)
}
/// `order`: None, Some(true) = ascending
pub async fn many_load<T: Rec>(cn: Cn<'_, '_>, m: &Many<T>, order: Option<bool>) -> Result<Vec<Row>> {
    match order {
        None => {
            d!(cn, c => ManyOpsSync::load(m, c).map(|i| i.map(|x| x.row()).collect()),
                ManyOpsAsync::load(m, c).await.map(|i| i.map(|x| x.row()).collect()))
        }
        Some(asc) => {
            let o = if asc { OrderDirection::Ascending } else { OrderDirection::Descending };
            d!(cn, c => ManyOpsSync::load_ordered(m, c, o).map(|i| i.map(|x| x.row()).collect()),
                ManyOpsAsync::load_ordered(m, c, o).await.map(|i| i.map(|x| x.row()).collect()))
        }
    }
}
pub async fn fk_load<T: DataObject>(cn: Cn<'_, '_>, f: &butane::ForeignKey<T>) -> Result<Row>
where
    T: Rec,
{
    d!(cn, c => butane_core::fkey::ForeignKeyOpsSync::load(f, c).map(|x| x.row()),
        butane_core::fkey::ForeignKeyOpsAsync::load(f, c).await.map(|x| x.row()))
}

#[macro_export]
macro_rules! kinds {
    ($m:ident) => {
        $m! {Item, Kv, Doc, Grp, Lone, LoneKey, Tag, Label, Blog, Post, Page}
    };
}

macro_rules! mkobj {
    ($($k:ident),*) => {
        #[derive(Clone, Debug)]
        pub enum Obj { $($k($k)),* }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum Kind { $($k),* }
        pub const KINDS: &[Kind] = &[$(Kind::$k),*];
        impl Kind {
            pub fn table(self) -> &'static str {
                match self { $(Kind::$k => <$k as Rec>::NAME),* }
            }
            pub async fn query(self, cn: Cn<'_, '_>, f: QSpec) -> Result<Vec<Obj>> {
                match self { $(Kind::$k => Ok(load(cn, f.build::<$k>()).await?.into_iter().map(Obj::$k).collect())),* }
            }
            pub async fn first(self, cn: Cn<'_, '_>, f: QSpec) -> Result<Option<Obj>> {
                match self { $(Kind::$k => Ok(load_first(cn, f.build::<$k>()).await?.map(Obj::$k))),* }
            }
            pub async fn query_delete(self, cn: Cn<'_, '_>, f: QSpec) -> Result<usize> {
                match self { $(Kind::$k => query_delete(cn, f.build::<$k>()).await),* }
            }
        }
        impl Obj {
            pub fn kind(&self) -> Kind { match self { $(Obj::$k(_) => Kind::$k),* } }
            pub fn table(&self) -> &'static str { self.kind().table() }
            pub fn row(&self) -> Row { match self { $(Obj::$k(o) => o.row()),* } }
            pub fn saved(&self) -> bool { match self { $(Obj::$k(o) => o.saved()),* } }
            pub async fn save(&mut self, cn: Cn<'_, '_>) -> Result<()> {
                match self { $(Obj::$k(o) => save(cn, o).await),* }
            }
            pub async fn delete(&self, cn: Cn<'_, '_>) -> Result<()> {
                match self { $(Obj::$k(o) => delete(cn, o).await),* }
            }
        }
    };
}
kinds!(mkobj);

#[derive(Clone, Debug, Default)]
pub struct QSpec {
    pub filter: Option<BoolExpr>,
    pub order: Vec<(&'static str, bool)>,
    pub limit: Option<i32>,
    pub offset: Option<i32>,
}
impl QSpec {
    pub fn build<T: DataObject>(self) -> Query<T> {
        let mut q = T::query();
        if let Some(f) = self.filter {
            q = q.filter(f);
        }
        for (c, asc) in self.order {
            q = if asc { q.order_asc(c) } else { q.order_desc(c) };
        }
        if let Some(l) = self.limit {
            q = q.limit(l);
        }
        if let Some(o) = self.offset {
            q = q.offset(o);
        }
        q
    }
}

impl Kind {
    /// Fetch by primary key through `get` (must exist) or `try_get`.
    pub async fn fetch(self, cn: Cn<'_, '_>, k: &V, must: bool) -> Result<Option<Obj>> {
        macro_rules! g {
            ($t:ident, $key:expr) => {{
                let key = $key;
                if must {
                    Ok(Some(Obj::$t(get::<$t>(cn, key).await?)))
                } else {
                    Ok(try_get::<$t>(cn, key).await?.map(Obj::$t))
                }
            }};
        }
        let i = match k {
            V::I(i) => *i,
            _ => 0,
        };
        let s = match k {
            V::T(t) => t.clone(),
            _ => String::new(),
        };
        match self {
            Kind::Item => g!(Item, i),
            Kind::Kv => g!(Kv, s),
            Kind::Doc => g!(Doc, {
                let V::B(b) = k else { panic!() };
                uuid::Uuid::from_slice(b).unwrap()
            }),
            Kind::Grp => g!(Grp, i as i32),
            Kind::Lone => g!(Lone, i),
            Kind::LoneKey => g!(LoneKey, i),
            Kind::Tag => g!(Tag, s),
            Kind::Label => g!(Label, i as i32),
            Kind::Blog => g!(Blog, i),
            Kind::Post => g!(Post, i),
            Kind::Page => g!(Page, i),
        }
    }
    pub fn is_auto(self) -> bool {
        matches!(self, Kind::Item | Kind::Lone | Kind::Label | Kind::Post)
    }
    pub fn has_many(self) -> bool {
        matches!(self, Kind::Post | Kind::Page)
    }
}
