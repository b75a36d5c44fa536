//! The reference model: a map of rows per table, a set of pairs per many-to-many table, with the constraints written
//! out by hand; and the independent dump of what is really on the simulated disk.
use std::collections::{BTreeMap, BTreeSet};

use crate::core::sim;
use crate::core::NoSwitch;
use crate::models::*;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    N,
    I(i64),
    R(u64),
    T(String),
    B(Vec<u8>),
}
impl V {
    pub fn short(&self) -> String {
        match self {
            V::N => "NULL".into(),
            V::I(i) => i.to_string(),
            V::R(r) => format!("{}", f64::from_bits(*r)),
            V::T(t) => {
                if t.len() > 40 {
                    format!("{:?}…({})", t.chars().take(24).collect::<String>(), t.len())
                } else {
                    format!("{t:?}")
                }
            }
            V::B(b) => format!("blob({})", b.len()),
        }
    }
}
pub type Row = Vec<V>;
pub fn show_row(r: &[V]) -> String {
    format!("({})", r.iter().map(|v| v.short()).collect::<Vec<_>>().join(", "))
}

#[derive(Clone, Debug, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct RefDb {
    pub t: BTreeMap<&'static str, BTreeMap<V, Row>>,
    /// many-to-many tables: (owner, has)
    pub m: BTreeMap<&'static str, BTreeSet<(V, V)>>,
}

pub struct TableDef {
    pub name: &'static str,
    pub cols: &'static [&'static str],
    pub uniq: &'static [usize],
    /// (column, referenced table)
    pub fks: &'static [(usize, &'static str)],
    /// columns holding json / timestamp text that is compared by value
    pub json: &'static [usize],
    pub ts: &'static [usize],
}
pub const TABLES: &[TableDef] = &[
    TableDef { name: "Item", cols: Item::COLS, uniq: &[12], fks: &[], json: &[11], ts: &[9] },
    TableDef { name: "Kv", cols: Kv::COLS, uniq: &[], fks: &[], json: &[], ts: &[] },
    TableDef { name: "Doc", cols: Doc::COLS, uniq: &[], fks: &[], json: &[], ts: &[] },
    TableDef { name: "group", cols: Grp::COLS, uniq: &[], fks: &[], json: &[], ts: &[] },
    TableDef { name: "Lone", cols: Lone::COLS, uniq: &[], fks: &[], json: &[], ts: &[] },
    TableDef { name: "LoneKey", cols: LoneKey::COLS, uniq: &[], fks: &[], json: &[], ts: &[] },
    TableDef { name: "Tag", cols: Tag::COLS, uniq: &[], fks: &[], json: &[], ts: &[] },
    TableDef { name: "Label", cols: Label::COLS, uniq: &[], fks: &[], json: &[], ts: &[] },
    TableDef { name: "Blog", cols: Blog::COLS, uniq: &[], fks: &[], json: &[], ts: &[] },
    TableDef { name: "Post", cols: Post::COLS, uniq: &[], fks: &[(3, "Blog"), (4, "Label"), (5, "Post")], json: &[], ts: &[] },
    TableDef { name: "Page", cols: Page::COLS, uniq: &[], fks: &[], json: &[], ts: &[] },
];
pub struct ManyDef {
    pub name: &'static str,
    pub owner: &'static str,
    pub has: &'static str,
}
pub const MANYS: &[ManyDef] = &[
    ManyDef { name: "Post_tags_Many", owner: "Post", has: "Tag" },
    ManyDef { name: "Post_labels_Many", owner: "Post", has: "Label" },
    ManyDef { name: "Page_tags_Many", owner: "Page", has: "Tag" },
    ManyDef { name: "Page_links_Many", owner: "Page", has: "Page" },
];
pub fn table(name: &str) -> &'static TableDef {
    TABLES.iter().find(|t| t.name == name).unwrap()
}

impl RefDb {
    pub fn new() -> Self {
        let mut r = RefDb::default();
        for t in TABLES {
            r.t.insert(t.name, BTreeMap::new());
        }
        for m in MANYS {
            r.m.insert(m.name, BTreeSet::new());
        }
        r
    }
    pub fn tab(&self, n: &str) -> &BTreeMap<V, Row> {
        &self.t[n]
    }
    pub fn many(&self, n: &str, owner: &V) -> BTreeSet<V> {
        self.m[n].iter().filter(|p| p.0 == *owner).map(|p| p.1.clone()).collect()
    }
    /// Insert or replace the row with this key. Err names the violated constraint.
    pub fn upsert(&mut self, n: &'static str, row: Row) -> Result<(), String> {
        let d = table(n);
        let key = row[0].clone();
        for u in d.uniq {
            for (k, r) in &self.t[n] {
                if *k != key && r[*u] == row[*u] && row[*u] != V::N {
                    return Err(format!("unique {n}.{}", d.cols[*u]));
                }
            }
        }
        for (c, rt) in d.fks {
            if row[*c] != V::N && !self.t[rt].contains_key(&row[*c]) && !(*rt == n && row[*c] == key) {
                return Err(format!("foreign key {n}.{}", d.cols[*c]));
            }
        }
        self.t.get_mut(n).unwrap().insert(key, row);
        Ok(())
    }
    /// Delete these keys at once. Err if something that stays refers to one of them.
    pub fn delete(&mut self, n: &'static str, keys: &BTreeSet<V>) -> Result<usize, String> {
        for d in TABLES {
            for (c, rt) in d.fks {
                if *rt != n {
                    continue;
                }
                for (k, r) in &self.t[d.name] {
                    if r[*c] != V::N && keys.contains(&r[*c]) && !(d.name == n && keys.contains(k)) {
                        return Err(format!("foreign key {}.{}", d.name, d.cols[*c]));
                    }
                }
            }
        }
        for m in MANYS {
            for (o, h) in &self.m[m.name] {
                if (m.owner == n && keys.contains(o)) || (m.has == n && keys.contains(h)) {
                    return Err(format!("foreign key {}", m.name));
                }
            }
        }
        let t = self.t.get_mut(n).unwrap();
        let mut c = 0;
        for k in keys {
            if t.remove(k).is_some() {
                c += 1;
            }
        }
        Ok(c)
    }
    pub fn diff(&self, o: &RefDb) -> Option<String> {
        for (n, t) in &self.t {
            let u = &o.t[n];
            for (k, r) in t {
                match u.get(k) {
                    None => return Some(format!("{n} {} missing, expected {}", k.short(), show_row(r))),
                    Some(x) if x != r => {
                        return Some(format!("{n} {}: expected {}, found {}", k.short(), show_row(r), show_row(x)))
                    }
                    _ => {}
                }
            }
            for (k, r) in u {
                if !t.contains_key(k) {
                    return Some(format!("{n} {} unexpected: {}", k.short(), show_row(r)));
                }
            }
        }
        for (n, s) in &self.m {
            let u = &o.m[n];
            for p in s {
                if !u.contains(p) {
                    return Some(format!("{n} ({}, {}) missing", p.0.short(), p.1.short()));
                }
            }
            for p in u {
                if !s.contains(p) {
                    return Some(format!("{n} ({}, {}) unexpected", p.0.short(), p.1.short()));
                }
            }
        }
        None
    }
}

fn val(v: rusqlite::types::ValueRef) -> V {
    use rusqlite::types::ValueRef::*;
    match v {
        Null => V::N,
        Integer(i) => V::I(i),
        Real(r) => V::R(r.to_bits()),
        Text(t) => V::T(String::from_utf8_lossy(t).to_string()),
        Blob(b) => V::B(b.to_vec()),
    }
}

/// Open a private copy of the database as it is on the simulated disk at this instant: what a process would find that
/// starts now, if every other process stopped. Takes no locks and injects no faults.
pub fn open_copy(path: &str) -> rusqlite::Result<rusqlite::Connection> {
    sim(|s| {
        for suf in ["", "-journal", "-wal"] {
            let c = s.disk.content(&format!("{path}{suf}"));
            s.disk.remove(&format!("orc.db{suf}"));
            if let Some(c) = c {
                s.disk.put(&format!("orc.db{suf}"), c);
            }
        }
    });
    rusqlite::Connection::open("orc.db")
}

/// Run `f` outside the simulation's scheduling and fault injection.
pub fn aside<R>(f: impl FnOnce() -> R) -> R {
    let _n = NoSwitch::new();
    let p = crate::core::proc_id();
    crate::core::set_proc(crate::core::ORACLE);
    let (armed, quiet) = sim(|s| (std::mem::replace(&mut s.plan.armed, false), std::mem::replace(&mut s.quiet, true)));
    let r = f();
    sim(|s| {
        s.plan.armed = armed;
        s.quiet = quiet;
    });
    crate::core::set_proc(p);
    r
}

/// Everything in the database file, read with plain SQL, after an integrity check.
pub fn dump(path: &str) -> Result<RefDb, String> {
    if crate::pg::on() {
        return aside(crate::pg::dump);
    }
    if crate::tur::on() {
        aside(crate::tur::copy_out);
    }
    aside(|| dump_inner(path).map_err(|e| e.to_string()).and_then(|x| x))
}
fn dump_inner(path: &str) -> rusqlite::Result<Result<RefDb, String>> {
    let c = open_copy(path)?;
    let mut ic = c.prepare("PRAGMA integrity_check")?.query_map([], |r| r.get::<_, String>(0))?.collect::<Result<Vec<_>, _>>()?;
    // Turso loses pages when an insert with a long value fails
    ic.retain(|l| l != "ok" && !(crate::tur::on() && (l.contains("Freelist: size") || l.contains("never used"))));
    if let Some(l) = ic.first() {
        return Ok(Err(format!("integrity_check: {l}")));
    }
    {
        let mut st = c.prepare("PRAGMA foreign_key_check")?;
        let mut rows = st.query([])?;
        if let Some(r) = rows.next()? {
            let t: String = r.get(0)?;
            return Ok(Err(format!("dangling reference in {t}")));
        }
    }
    let mut out = RefDb::new();
    for d in TABLES {
        let cols = d.cols.iter().map(|c| format!("\"{c}\"")).collect::<Vec<_>>().join(",");
        let mut st = c.prepare(&format!("SELECT {cols} FROM \"{}\"", d.name))?;
        let mut rows = st.query([])?;
        while let Some(r) = rows.next()? {
            let mut row: Row = vec![];
            for i in 0..d.cols.len() {
                let mut v = val(r.get_ref(i)?);
                if let V::T(t) = &v {
                    if d.json.contains(&i) {
                        match serde_json::from_str::<serde_json::Value>(t) {
                            Ok(j) => v = V::T(j.to_string()),
                            Err(e) => return Ok(Err(format!("{}.{}: bad json: {e}", d.name, d.cols[i]))),
                        }
                    } else if d.ts.contains(&i) {
                        let p = chrono::NaiveDateTime::parse_from_str(&t.replace(' ', "T"), "%Y-%m-%dT%H:%M:%S%.f");
                        match p {
                            Ok(p) => v = V::T(ts_text(&p)),
                            Err(e) => return Ok(Err(format!("{}.{}: bad timestamp {t}: {e}", d.name, d.cols[i]))),
                        }
                    }
                }
                row.push(v);
            }
            let k = row[0].clone();
            if out.t.get_mut(d.name).unwrap().insert(k.clone(), row).is_some() {
                return Ok(Err(format!("{} has two rows with key {}", d.name, k.short())));
            }
        }
    }
    for m in MANYS {
        let mut st = c.prepare(&format!("SELECT owner, has FROM \"{}\"", m.name))?;
        let mut rows = st.query([])?;
        while let Some(r) = rows.next()? {
            out.m.get_mut(m.name).unwrap().insert((val(r.get_ref(0)?), val(r.get_ref(1)?)));
        }
    }
    Ok(Ok(out))
}
