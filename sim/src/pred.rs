//! Random filters: the same condition as a butane expression and as a predicate over model rows (three-valued).
use butane::query::{BoolExpr, Expr};
use butane::SqlVal;

use crate::core::Stream;
use crate::models::*;
use crate::refdb::{table, RefDb, Row, V};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Eq,
    Ne,
    Lt,
    Gt,
    Le,
    Ge,
}
#[derive(Clone, Debug)]
pub enum P {
    True,
    Cmp(usize, Op, V),
    Like(usize, String),
    In(usize, Vec<V>),
    And(Box<P>, Box<P>),
    Or(Box<P>, Box<P>),
    Not(Box<P>),
    All(Vec<P>),
    /// column refers to a row of table for which P holds
    Fk(usize, &'static str, Box<P>),
    /// the many-to-many field (table, referenced table) contains a row for which P holds
    Has(&'static str, &'static str, Box<P>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    Int,
    Big,
    Real,
    Bool,
    Text,
    Blob,
    Ts,
    Day,
    Other,
}
pub fn tys(t: &str) -> &'static [Ty] {
    use Ty::*;
    match t {
        "Item" => &[Big, Int, Big, Real, Bool, Text, Text, Blob, Int, Ts, Day, Other, Big],
        "Kv" => &[Text, Big, Text],
        "Doc" => &[Blob, Text, Big],
        "group" => &[Int, Text, Big],
        "Lone" => &[Big],
        "LoneKey" => &[Big],
        "Tag" => &[Text],
        "Label" => &[Int, Text],
        "Blog" => &[Big, Text],
        "Post" => &[Big, Text, Int, Big, Int, Big],
        "Page" => &[Big, Text],
        _ => panic!(),
    }
}
fn sqlval(ty: Ty, v: &V) -> SqlVal {
    match (ty, v) {
        (_, V::N) => SqlVal::Null,
        (Ty::Int, V::I(i)) => SqlVal::Int(*i as i32),
        (Ty::Big, V::I(i)) => SqlVal::BigInt(*i),
        (Ty::Bool, V::I(i)) => SqlVal::Bool(*i != 0),
        (Ty::Real, V::R(r)) => SqlVal::Real(f64::from_bits(*r)),
        (Ty::Text, V::T(t)) => SqlVal::Text(t.clone()),
        (Ty::Blob, V::B(b)) => SqlVal::Blob(b.clone()),
        (Ty::Ts, V::T(t)) => {
            SqlVal::Timestamp(chrono::NaiveDateTime::parse_from_str(t, "%Y-%m-%dT%H:%M:%S%.f").unwrap())
        }
        (Ty::Day, V::T(t)) => SqlVal::Date(chrono::NaiveDate::parse_from_str(t, "%Y-%m-%d").unwrap()),
        (Ty::Other, V::T(t)) => SqlVal::Json(serde_json::from_str(t).unwrap()),
        _ => panic!("{ty:?} {v:?}"),
    }
}
pub fn cmp(a: &V, b: &V) -> std::cmp::Ordering {
    match (a, b) {
        (V::R(x), V::R(y)) => f64::from_bits(*x).partial_cmp(&f64::from_bits(*y)).unwrap(),
        _ => a.cmp(b),
    }
}
/// The order of ORDER BY.
pub fn order(a: &V, b: &V) -> std::cmp::Ordering {
    match (a, b) {
        (V::N, V::N) => a.cmp(b),
        (V::N, _) | (_, V::N) if crate::pg::on() => a.cmp(b).reverse(),
        _ => cmp(a, b),
    }
}
fn like(p: &[char], s: &[char]) -> bool {
    let pg = crate::pg::on();
    match p.first() {
        None => s.is_empty(),
        Some('%') => (0..=s.len()).any(|i| like(&p[1..], &s[i..])),
        Some('_') => !s.is_empty() && like(&p[1..], &s[1..]),
        Some('\\') if pg && p.len() > 1 => !s.is_empty() && p[1] == s[0] && like(&p[2..], &s[1..]),
        Some(c) if pg => !s.is_empty() && *c == s[0] && like(&p[1..], &s[1..]),
        Some(c) => !s.is_empty() && c.eq_ignore_ascii_case(&s[0]) && like(&p[1..], &s[1..]),
    }
}
impl P {
    pub fn eval(&self, db: &RefDb, t: &'static str, r: &Row) -> Option<bool> {
        Some(match self {
            P::True => true,
            P::Cmp(c, op, v) => {
                let x = &r[*c];
                if *v == V::N && *op == Op::Eq {
                    return Some(*x == V::N);
                }
                if *v == V::N && *op == Op::Ne {
                    return Some(*x != V::N);
                }
                if *v == V::N || *x == V::N {
                    return None;
                }
                let o = cmp(x, v);
                match op {
                    Op::Eq => o.is_eq(),
                    Op::Ne => o.is_ne(),
                    Op::Lt => o.is_lt(),
                    Op::Gt => o.is_gt(),
                    Op::Le => o.is_le(),
                    Op::Ge => o.is_ge(),
                }
            }
            P::Like(c, p) => match &r[*c] {
                V::T(s) => like(&p.chars().collect::<Vec<_>>(), &s.chars().collect::<Vec<_>>()),
                _ => return None,
            },
            P::In(c, vs) => {
                if r[*c] == V::N {
                    return if vs.is_empty() { Some(false) } else { None };
                }
                vs.iter().any(|v| cmp(v, &r[*c]).is_eq())
            }
            P::And(a, b) => {
                let (a, b) = (a.eval(db, t, r), b.eval(db, t, r));
                match (a, b) {
                    (Some(false), _) | (_, Some(false)) => false,
                    (Some(true), Some(true)) => true,
                    _ => return None,
                }
            }
            P::Or(a, b) => {
                let (a, b) = (a.eval(db, t, r), b.eval(db, t, r));
                match (a, b) {
                    (Some(true), _) | (_, Some(true)) => true,
                    (Some(false), Some(false)) => false,
                    _ => return None,
                }
            }
            P::Not(a) => !a.eval(db, t, r)?,
            P::All(v) => {
                let mut unk = false;
                for p in v {
                    match p.eval(db, t, r) {
                        Some(false) => return Some(false),
                        None => unk = true,
                        _ => {}
                    }
                }
                if unk {
                    return None;
                }
                true
            }
            P::Fk(c, rt, p) => {
                if r[*c] == V::N {
                    // NULL IN (...) is unknown unless the set is empty
                    let any = db.tab(rt).values().any(|x| p.eval(db, rt, x) == Some(true));
                    return if any { None } else { Some(false) };
                }
                db.tab(rt).get(&r[*c]).is_some_and(|x| p.eval(db, rt, x) == Some(true))
            }
            P::Has(m, rt, p) => db
                .many(m, &r[0])
                .iter()
                .any(|h| db.tab(rt).get(h).is_some_and(|x| p.eval(db, rt, x) == Some(true))),
        })
    }
    pub fn expr(&self, t: &'static str) -> BoolExpr {
        let cols = table(t).cols;
        let ty = tys(t);
        match self {
            P::True => BoolExpr::True,
            P::Cmp(c, op, v) => {
                let e = Expr::Val(sqlval(ty[*c], v));
                let n = cols[*c];
                match op {
                    Op::Eq => BoolExpr::Eq(n, e),
                    Op::Ne => BoolExpr::Ne(n, e),
                    Op::Lt => BoolExpr::Lt(n, e),
                    Op::Gt => BoolExpr::Gt(n, e),
                    Op::Le => BoolExpr::Le(n, e),
                    Op::Ge => BoolExpr::Ge(n, e),
                }
            }
            P::Like(c, p) => BoolExpr::Like(cols[*c], Expr::Val(SqlVal::Text(p.clone()))),
            P::In(c, vs) => BoolExpr::In(cols[*c], vs.iter().map(|v| sqlval(ty[*c], v)).collect()),
            P::And(a, b) => BoolExpr::And(Box::new(a.expr(t)), Box::new(b.expr(t))),
            P::Or(a, b) => BoolExpr::Or(Box::new(a.expr(t)), Box::new(b.expr(t))),
            P::Not(a) => BoolExpr::Not(Box::new(a.expr(t))),
            P::All(v) => BoolExpr::AllOf(v.iter().map(|p| p.expr(t)).collect()),
            P::Fk(c, rt, p) => match (t, cols[*c]) {
                ("Post", "blog") => Post::fields().blog().subfilter(p.expr(rt)),
                _ => BoolExpr::Subquery {
                    col: cols[*c],
                    tbl2: std::borrow::Cow::Borrowed(rt),
                    tbl2_col: table(rt).cols[0],
                    expr: Box::new(p.expr(rt)),
                },
            },
            P::Has(m, rt, p) => {
                let e = p.expr(rt);
                match *m {
                    "Post_tags_Many" => Post::fields().tags().contains(e),
                    "Post_labels_Many" => Post::fields().labels().contains(e),
                    "Page_tags_Many" => Page::fields().tags().contains(e),
                    _ => Page::fields().links().contains(e),
                }
            }
        }
    }
}

/// A value for column `c`: often one that occurs.
fn value(w: &mut Stream, db: &RefDb, t: &'static str, c: usize) -> V {
    let rows: Vec<&Row> = db.tab(t).values().collect();
    if !rows.is_empty() && w.chance(700) {
        return rows[w.below(rows.len() as u32) as usize][c].clone();
    }
    match tys(t)[c] {
        Ty::Int => V::I(int32(w) as i64),
        Ty::Big => V::I(int64(w)),
        Ty::Real => V::R(real(w).to_bits()),
        Ty::Bool => V::I(w.below(2) as i64),
        Ty::Text => vs(&text(w)),
        Ty::Blob => V::B(if t == "Doc" { vec![7; 16] } else { blob(w) }),
        Ty::Ts => vs(&ts_text(&stamp(w))),
        Ty::Day => vs(&day_text(&date(w))),
        Ty::Other => vs(&json(w).to_string()),
    }
}
fn col(w: &mut Stream, t: &'static str) -> usize {
    let ty = tys(t);
    let cs: Vec<usize> = (0..ty.len()).filter(|i| ty[*i] != Ty::Other).collect();
    cs[w.below(cs.len() as u32) as usize]
}
pub fn gen(w: &mut Stream, db: &RefDb, t: &'static str, depth: u32) -> P {
    let k = w.weighted(&[20, 10, 8, 8, if depth > 0 { 40 } else { 0 }, 6, 6]);
    match k {
        0 => {
            let c = match tys(t).iter().position(|x| *x == Ty::Other) {
                Some(j) if w.chance(100) => j,
                _ => col(w, t),
            };
            P::Cmp(c, Op::Eq, value(w, db, t, c))
        }
        1 => {
            let c = col(w, t);
            let op = *w.pick(&[Op::Ne, Op::Lt, Op::Gt, Op::Le, Op::Ge]);
            P::Cmp(c, op, value(w, db, t, c))
        }
        2 => {
            let c = col(w, t);
            // sometimes more values than a byte can count
            let n = w.draw(400, |r| if r.chance(970) { r.below(4) } else { 120 + r.below(280) });
            let v = (0..n).map(|_| value(w, db, t, c)).filter(|v| *v != V::N).collect();
            P::In(c, v)
        }
        3 => {
            let cs: Vec<usize> = (0..tys(t).len()).filter(|i| tys(t)[*i] == Ty::Text).collect();
            if cs.is_empty() {
                return P::True;
            }
            let c = cs[w.below(cs.len() as u32) as usize];
            P::Like(c, ["%a%", "a%", "%", "_", "O'%", "%\\%", "A_c", "%b"][w.below(8) as usize].to_string())
        }
        4 => match w.below(4) {
            0 => P::And(Box::new(gen(w, db, t, depth - 1)), Box::new(gen(w, db, t, depth - 1))),
            1 => P::Or(Box::new(gen(w, db, t, depth - 1)), Box::new(gen(w, db, t, depth - 1))),
            2 => P::Not(Box::new(gen(w, db, t, depth - 1))),
            _ => {
                let n = w.below(4);
                P::All((0..n).map(|_| gen(w, db, t, depth - 1)).collect())
            }
        },
        5 => match t {
            "Post" => {
                let (c, rt) = *w.pick(&[(3usize, "Blog"), (4, "Label"), (5, "Post")]);
                P::Fk(c, rt, Box::new(gen(w, db, rt, depth.saturating_sub(1))))
            }
            _ => P::True,
        },
        _ => match t {
            "Post" => {
                let (m, rt) = *w.pick(&[("Post_tags_Many", "Tag"), ("Post_labels_Many", "Label")]);
                P::Has(m, rt, Box::new(gen(w, db, rt, depth.saturating_sub(1))))
            }
            "Page" => {
                let (m, rt) = *w.pick(&[("Page_tags_Many", "Tag"), ("Page_links_Many", "Page")]);
                P::Has(m, rt, Box::new(gen(w, db, rt, depth.saturating_sub(1))))
            }
            _ => P::True,
        },
    }
}
