//! The models the simulated clients store, and their canonical rendering for the reference model.
#![allow(dead_code)]
use butane::{model, AutoPk, DataObject, ForeignKey, Many};
use chrono::{NaiveDate, NaiveDateTime};
use uuid::Uuid;

use crate::core::Stream;
use crate::refdb::{Row, V};

#[model]
#[derive(Clone, Debug)]
pub struct Item {
    pub id: AutoPk<i64>,
    pub num: i32,
    pub big: i64,
    pub real: f64,
    pub flag: bool,
    pub text: String,
    pub opt: Option<String>,
    pub blob: Vec<u8>,
    pub onum: Option<i32>,
    pub ts: NaiveDateTime,
    pub day: NaiveDate,
    pub js: serde_json::Value,
    #[unique]
    pub uniq: i64,
}

#[model]
#[derive(Clone, Debug)]
pub struct Kv {
    #[pk]
    pub k: String,
    pub v: i64,
    pub note: Option<String>,
}

#[model]
#[derive(Clone, Debug)]
pub struct Doc {
    #[pk]
    pub uid: Uuid,
    pub body: String,
    pub size: u32,
}

/// Every name here is an SQL keyword.
#[model]
#[table = "group"]
#[derive(Clone, Debug)]
pub struct Grp {
    #[pk]
    pub order: i32,
    pub select: String,
    pub limit: Option<i64>,
}

#[model]
#[derive(Clone, Debug)]
pub struct Lone {
    #[pk]
    pub user: AutoPk<i64>,
}

#[model]
#[derive(Clone, Debug)]
pub struct LoneKey {
    pub id: i64,
}

#[model]
#[derive(Clone, Debug)]
pub struct Tag {
    #[pk]
    pub tag: String,
}

#[model]
#[derive(Clone, Debug)]
pub struct Label {
    pub id: AutoPk<i32>,
    pub text: String,
}

#[model]
#[derive(Clone, Debug)]
pub struct Blog {
    pub id: i64,
    pub name: String,
}

#[model]
#[derive(Clone, Debug)]
pub struct Post {
    pub id: AutoPk<i64>,
    pub title: String,
    pub likes: i32,
    pub blog: ForeignKey<Blog>,
    pub cover: Option<ForeignKey<Label>>,
    pub prev: Option<ForeignKey<Post>>,
    pub tags: Many<Tag>,
    pub labels: Many<Label>,
}

#[model]
#[derive(Clone, Debug)]
pub struct Page {
    pub id: i64,
    pub title: String,
    pub tags: Many<Tag>,
    pub links: Many<Page>,
}

pub fn vs(s: &str) -> V {
    V::T(s.into())
}
pub fn vo(s: &Option<String>) -> V {
    match s {
        Some(s) => vs(s),
        None => V::N,
    }
}
pub fn ts_text(t: &NaiveDateTime) -> String {
    t.format("%Y-%m-%dT%H:%M:%S%.9f").to_string()
}
pub fn day_text(t: &NaiveDate) -> String {
    t.format("%Y-%m-%d").to_string()
}

/// What the engine needs to know about a model, written out by hand (not taken from the generated code).
pub trait Rec: DataObject + Clone + std::fmt::Debug + Send + Sync + 'static {
    const NAME: &'static str;
    /// column names, in declaration order, without many-to-many fields; the key is column `KEY`
    const COLS: &'static [&'static str];
    const KEY: usize = 0;
    fn row(&self) -> Row;
    fn saved(&self) -> bool {
        true
    }
}
fn auto<T: butane::PrimaryKeyType + Copy + Into<i64>>(a: &AutoPk<T>) -> V {
    match **a {
        Some(x) => V::I(x.into()),
        None => V::N,
    }
}

impl Rec for Item {
    const NAME: &'static str = "Item";
    const COLS: &'static [&'static str] =
        &["id", "num", "big", "real", "flag", "text", "opt", "blob", "onum", "ts", "day", "js", "uniq"];
    fn row(&self) -> Row {
        vec![
            auto(&self.id),
            V::I(self.num as i64),
            V::I(self.big),
            V::R(self.real.to_bits()),
            V::I(self.flag as i64),
            vs(&self.text),
            vo(&self.opt),
            V::B(self.blob.clone()),
            self.onum.map_or(V::N, |x| V::I(x as i64)),
            vs(&ts_text(&self.ts)),
            vs(&day_text(&self.day)),
            vs(&self.js.to_string()),
            V::I(self.uniq),
        ]
    }
    fn saved(&self) -> bool {
        self.id.is_some()
    }
}
impl Rec for Kv {
    const NAME: &'static str = "Kv";
    const COLS: &'static [&'static str] = &["k", "v", "note"];
    fn row(&self) -> Row {
        vec![vs(&self.k), V::I(self.v), vo(&self.note)]
    }
}
impl Rec for Doc {
    const NAME: &'static str = "Doc";
    const COLS: &'static [&'static str] = &["uid", "body", "size"];
    fn row(&self) -> Row {
        vec![V::B(self.uid.as_bytes().to_vec()), vs(&self.body), V::I(self.size as i64)]
    }
}
impl Rec for Grp {
    const NAME: &'static str = "group";
    const COLS: &'static [&'static str] = &["order", "select", "limit"];
    fn row(&self) -> Row {
        vec![V::I(self.order as i64), vs(&self.select), self.limit.map_or(V::N, V::I)]
    }
}
impl Rec for Lone {
    const NAME: &'static str = "Lone";
    const COLS: &'static [&'static str] = &["user"];
    fn row(&self) -> Row {
        vec![auto(&self.user)]
    }
    fn saved(&self) -> bool {
        self.user.is_some()
    }
}
impl Rec for LoneKey {
    const NAME: &'static str = "LoneKey";
    const COLS: &'static [&'static str] = &["id"];
    fn row(&self) -> Row {
        vec![V::I(self.id)]
    }
}
impl Rec for Tag {
    const NAME: &'static str = "Tag";
    const COLS: &'static [&'static str] = &["tag"];
    fn row(&self) -> Row {
        vec![vs(&self.tag)]
    }
}
impl Rec for Label {
    const NAME: &'static str = "Label";
    const COLS: &'static [&'static str] = &["id", "text"];
    fn row(&self) -> Row {
        vec![auto(&self.id), vs(&self.text)]
    }
    fn saved(&self) -> bool {
        self.id.is_some()
    }
}
impl Rec for Blog {
    const NAME: &'static str = "Blog";
    const COLS: &'static [&'static str] = &["id", "name"];
    fn row(&self) -> Row {
        vec![V::I(self.id), vs(&self.name)]
    }
}
impl Rec for Post {
    const NAME: &'static str = "Post";
    const COLS: &'static [&'static str] = &["id", "title", "likes", "blog", "cover", "prev"];
    fn row(&self) -> Row {
        vec![
            auto(&self.id),
            vs(&self.title),
            V::I(self.likes as i64),
            V::I(self.blog.pk()),
            self.cover.as_ref().map_or(V::N, |f| auto(&f.pk())),
            self.prev.as_ref().map_or(V::N, |f| auto(&f.pk())),
        ]
    }
    fn saved(&self) -> bool {
        self.id.is_some()
    }
}
impl Rec for Page {
    const NAME: &'static str = "Page";
    const COLS: &'static [&'static str] = &["id", "title"];
    fn row(&self) -> Row {
        vec![V::I(self.id), vs(&self.title)]
    }
}

pub fn text(w: &mut Stream) -> String {
    const T: &[&str] = &[
        "", "a", "b", "abc", "O'Brien", "50%", "a_b", "naïve ☃", "NULL", "x\"y", "; DROP TABLE Kv; --", "A", "line\nbreak",
        "0", "long",
    ];
    let i = w.below(T.len() as u32) as usize;
    if T[i] == "long" {
        let n = 1 + w.below(6) as usize;
        "lorem ipsum ".repeat(n * n * 20)
    } else {
        T[i].to_string()
    }
}
pub fn opt<T>(w: &mut Stream, f: impl FnOnce(&mut Stream) -> T) -> Option<T> {
    if w.chance(600) {
        Some(f(w))
    } else {
        None
    }
}
pub fn int32(w: &mut Stream) -> i32 {
    const X: &[i32] = &[0, 1, 2, 3, -1, 7, 100, i32::MAX, i32::MIN];
    *w.pick(X)
}
pub fn int64(w: &mut Stream) -> i64 {
    const X: &[i64] = &[0, 1, 2, -1, 1 << 31, -(1 << 31) - 1, 1 << 40, i64::MAX, i64::MIN, 42];
    *w.pick(X)
}
pub fn real(w: &mut Stream) -> f64 {
    const X: &[f64] = &[0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 123456789.25, 2.0];
    *w.pick(X)
}
pub fn stamp(w: &mut Stream) -> NaiveDateTime {
    let d = date(w);
    let s = [0u32, 1, 3600, 86399, 43200][w.below(5) as usize];
    let mut n = [0u32, 1000, 123_456_000, 999_999_999, 500_000_000][w.below(5) as usize];
    if crate::pg::on() {
        n -= n % 1000;
    }
    d.and_time(chrono::NaiveTime::from_num_seconds_from_midnight_opt(s, n).unwrap())
}
pub fn date(w: &mut Stream) -> NaiveDate {
    const X: &[(i32, u32, u32)] = &[(1970, 1, 1), (2000, 2, 29), (1969, 12, 31), (2038, 1, 19), (1, 1, 1), (9999, 12, 31)];
    let (y, m, d) = *w.pick(X);
    NaiveDate::from_ymd_opt(y, m, d).unwrap()
}
pub fn json(w: &mut Stream) -> serde_json::Value {
    use serde_json::json;
    match w.below(7) {
        0 => json!({}),
        1 => json!({"a": 1, "b": [true, null, "x"]}),
        2 => json!("text"),
        3 => json!([1, 2.5, -3]),
        4 => json!(true),
        5 => json!({"q": "it's \"quoted\"", "n": {"m": []}}),
        _ => json!(12345678901i64),
    }
}
pub fn blob(w: &mut Stream) -> Vec<u8> {
    match w.below(4) {
        0 => vec![],
        1 => vec![0, 255, 39, 10],
        2 => b"bytes".to_vec(),
        _ => {
            let n = w.below(5000) as usize;
            (0..n).map(|i| (i * 7) as u8).collect()
        }
    }
}
pub fn item(w: &mut Stream, uniq: i64) -> Item {
    Item {
        id: AutoPk::uninitialized(),
        num: int32(w),
        big: int64(w),
        real: real(w),
        flag: w.chance(500),
        text: text(w),
        opt: opt(w, text),
        blob: blob(w),
        onum: opt(w, int32),
        ts: stamp(w),
        day: date(w),
        js: json(w),
        uniq,
    }
}

/// A key whose conversion to a database value is a scheduling point.
#[butane::butane_type(BigInt)]
#[derive(Clone, Debug, PartialEq, Default)]
pub struct YKey(pub i64);
impl butane::ToSql for YKey {
    fn to_sql(&self) -> butane::SqlVal {
        crate::core::yield_point();
        butane::SqlVal::BigInt(self.0)
    }
    fn to_sql_ref(&self) -> butane::SqlValRef<'_> {
        crate::core::yield_point();
        butane::SqlValRef::BigInt(self.0)
    }
}
impl butane::FromSql for YKey {
    fn from_sql_ref(v: butane::SqlValRef) -> butane::Result<Self> {
        crate::core::yield_point();
        Ok(YKey(<i64 as butane::FromSql>::from_sql_ref(v)?))
    }
}
impl butane::FieldType for YKey {
    type RefType = Self;
    const SQLTYPE: butane::SqlType = butane::SqlType::BigInt;
}
impl butane::PrimaryKeyType for YKey {}
#[model]
#[derive(Clone, Debug)]
pub struct Slow {
    #[pk]
    pub id: YKey,
    pub name: String,
}

/// Kept in a temporary table, which belongs to one connection only.
#[model]
#[derive(Clone, Debug)]
pub struct TempRec {
    pub id: i64,
    pub n: i64,
}
