//! Queries: generation, conversion to DataFusion's own plans, and the comparison of two results.

use std::collections::BTreeMap;

use arrow_array::RecordBatch;
use datafusion::functions_aggregate::expr_fn::{count, count_distinct, max, min, sum};
use datafusion::logical_expr::expr::InList;
use datafusion::logical_expr::{Expr, JoinType, SortExpr};
use datafusion::prelude::{lit, DataFrame, SessionContext};
use datafusion_common::{Column, Result as DFResult, ScalarValue, TableReference};
use vortex_dtype::PType;
use vsim::gen::{gen_col, Table};
use vsim::pred::{comparable, is_float_ty, odd_float};
use vsim::runner::{v, Res};
use vsim::val::{int_bounds, Dt, Ty, Val};
use vsim::world::{gen, gen_bool, gen_range, pick, probe};

use crate::rows::{from_arrow, rows, show_row, to_arrow};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cmp {
    Eq,
    Ge,
    Lt,
    Ne,
    Gt,
    Le,
}
const CMPS: [Cmp; 6] = [Cmp::Eq, Cmp::Ge, Cmp::Lt, Cmp::Ne, Cmp::Gt, Cmp::Le];

/// A condition. Which parts of it the table may take over is up to the code under test.
#[derive(Clone, Debug)]
pub enum F {
    Lit(usize, Cmp, Val, bool),
    /// against a 64-bit integer literal, whatever the column's width
    Wide(usize, Cmp, i64),
    Cols(usize, Cmp, usize),
    Bool(usize),
    Null(usize, bool),
    In(usize, Vec<Val>, bool),
    Between(usize, Val, Val),
    Not(Box<F>),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
    /// two conditions compared for equality
    Same(Box<F>, Box<F>, bool),
}

#[derive(Clone, Debug)]
pub enum A {
    Rows,
    Count(usize),
    Distinct(usize),
    Min(usize),
    Max(usize),
    Sum(usize),
}

#[derive(Clone, Debug)]
pub enum Kind {
    Rows { cols: Vec<usize>, order: Vec<(usize, bool, bool)>, limit: Option<(usize, Option<usize>)>, distinct: bool },
    Agg { aggs: Vec<A>, group: Option<usize> },
    Union { cols: Vec<usize>, other: Option<F> },
    Join { kind: JoinType, on: usize, cols: Vec<usize>, other: Option<F> },
}

#[derive(Clone, Debug)]
pub struct Query {
    pub filter: Vec<F>,
    pub kind: Kind,
    /// the filter sits above the projection, as a subquery would put it
    pub late_filter: bool,
}

/// Columns whose values every customary order and equality treats alike.
fn orderly(t: &Table, c: usize) -> bool {
    comparable(&t.cols[c].1) && !(is_float_ty(&t.cols[c].1) && t.data[c].iter().any(odd_float))
}

fn literal(dt: &Dt, col: &[Val]) -> Val {
    let v = if !col.is_empty() && gen(4) != 3 {
        let v = col[gen(col.len() as u64) as usize].clone();
        match (&v, dt.storage(), gen(3)) {
            (Val::Int(i), Some(p), 1) if !is_float_ty(dt) => Val::Int((i + 1).clamp(int_bounds(p).0, int_bounds(p).1)),
            (Val::Int(i), Some(p), 2) if !is_float_ty(dt) => Val::Int((i - 1).clamp(int_bounds(p).0, int_bounds(p).1)),
            (Val::Bytes(b), _, 1) => {
                let mut b = b.clone();
                b.push(b'a');
                Val::Bytes(b)
            }
            _ => v,
        }
    } else {
        gen_col(&Dt::new(dt.ty.clone(), false), 1)[0].clone()
    };
    if v.is_null() || odd_float(&v) {
        match &dt.ty {
            Ty::Bool => Val::Bool(false),
            Ty::Utf8 | Ty::Binary => Val::Bytes(b"m".to_vec()),
            Ty::Prim(PType::F16) => Val::F16(0x3c00),
            Ty::Prim(PType::F32) => Val::F32(1f32.to_bits()),
            Ty::Prim(PType::F64) => Val::F64(1f64.to_bits()),
            _ => Val::Int(1),
        }
    } else {
        v
    }
}

pub fn gen_filter(t: &Table, depth: u32) -> Option<F> {
    let cols: Vec<usize> = (0..t.cols.len()).filter(|c| orderly(t, *c)).collect();
    if cols.is_empty() {
        return None;
    }
    Some(go(t, &cols, depth))
}

fn go(t: &Table, cols: &[usize], depth: u32) -> F {
    if depth > 0 {
        let sub = || Box::new(go(t, cols, depth - 1));
        match gen(12) {
            1..=3 => return F::And(sub(), sub()),
            4 | 5 => return F::Or(sub(), sub()),
            6 if gen_bool(1, 2) => return F::Not(sub()),
            7 if gen_bool(1, 3) => return F::Same(sub(), sub(), gen_bool(1, 2)),
            _ => {}
        }
    }
    let c = *pick(cols);
    let (dt, col) = (&t.cols[c].1, &t.data[c]);
    match gen(16) {
        0 | 1 if dt.ty == Ty::Bool => F::Bool(c),
        2 => F::Null(c, gen_bool(1, 2)),
        3 => F::In(c, (0..gen_range(1, 4)).map(|_| literal(dt, col)).collect(), gen_bool(1, 4)),
        4 if dt.ty != Ty::Bool => F::Between(c, literal(dt, col), literal(dt, col)),
        5 | 6 => {
            let same: Vec<usize> = cols.iter().copied().filter(|x| *x != c && t.cols[*x].1.ty == dt.ty).collect();
            if same.is_empty() {
                F::Lit(c, *pick(&CMPS), literal(dt, col), false)
            } else {
                F::Cols(c, *pick(&CMPS), *pick(&same))
            }
        }
        7 | 8 if matches!(dt.ty, Ty::Prim(_)) && !is_float_ty(dt) => {
            let l = match literal(dt, col) {
                Val::Int(i) => i,
                _ => 0,
            };
            let l = if gen_bool(1, 6) { l + 100_000_000_000 } else { l };
            F::Wide(c, *pick(&CMPS), l.clamp(i64::MIN as i128, i64::MAX as i128) as i64)
        }
        _ => F::Lit(c, *pick(&CMPS), literal(dt, col), gen_bool(1, 5)),
    }
}

fn some_cols(t: &Table, ok: impl Fn(usize) -> bool) -> Vec<usize> {
    let mut all: Vec<usize> = (0..t.cols.len()).filter(|c| ok(*c)).collect();
    if all.is_empty() {
        return all;
    }
    if gen_bool(1, 3) {
        return all;
    }
    let k = gen_range(1, all.len() as u64) as usize;
    let mut out = Vec::new();
    for _ in 0..k {
        out.push(all.remove(gen(all.len() as u64) as usize));
    }
    out
}

pub fn gen_query(t: &Table) -> Query {
    let mut filter = Vec::new();
    for _ in 0..*pick(&[1, 0, 1, 2]) {
        filter.extend(gen_filter(t, 2));
    }
    let cols = some_cols(t, |_| true);
    let aggable = |c: usize| orderly(t, c) && !matches!(t.cols[c].1.ty, Ty::Null | Ty::Struct(_));
    let kind = match gen(10) {
        0..=3 => {
            let sortable: Vec<usize> = cols.iter().copied().filter(|c| aggable(*c)).collect();
            let mut order: Vec<(usize, bool, bool)> = Vec::new();
            if !sortable.is_empty() && gen_bool(1, 3) {
                for _ in 0..gen_range(1, 2) {
                    let c = *pick(&sortable);
                    if !order.iter().any(|o| o.0 == c) {
                        order.push((c, gen_bool(1, 2), gen_bool(1, 2)));
                    }
                }
            }
            let limit = gen_bool(1, 4).then(|| {
                (
                    if gen_bool(1, 2) { 0 } else { gen(t.rows as u64 + 2) as usize },
                    if gen_bool(1, 5) { None } else { Some(gen(t.rows as u64 + 2) as usize) },
                )
            });
            let distinct = order.is_empty() && limit.is_none() && cols.iter().all(|c| aggable(*c)) && gen_bool(1, 6);
            Kind::Rows { cols, order, limit, distinct }
        }
        4..=6 => {
            let mut aggs = Vec::new();
            for _ in 0..gen_range(1, 3) {
                let cs: Vec<usize> = (0..t.cols.len()).filter(|c| aggable(*c)).collect();
                let any = gen(t.cols.len() as u64) as usize;
                aggs.push(match gen(8) {
                    0 | 1 => A::Rows,
                    // (the engine itself counts the rows of a null column as values)
                    2 if t.cols[any].1.ty != Ty::Null => A::Count(any),
                    _ if cs.is_empty() => A::Rows,
                    3 => A::Distinct(*pick(&cs)),
                    4 | 5 => A::Min(*pick(&cs)),
                    6 => A::Max(*pick(&cs)),
                    _ => {
                        let c = *pick(&cs);
                        match t.cols[c].1.ty {
                            Ty::Prim(PType::U8 | PType::U16 | PType::U32 | PType::I8 | PType::I16 | PType::I32) => A::Sum(c),
                            _ => A::Min(c),
                        }
                    }
                });
            }
            let cs: Vec<usize> = (0..t.cols.len()).filter(|c| aggable(*c)).collect();
            let group = (!cs.is_empty() && gen_bool(1, 3)).then(|| *pick(&cs));
            Kind::Agg { aggs, group }
        }
        7 => Kind::Union { cols, other: gen_filter(t, 1) },
        8 if t.rows <= 60 => {
            let cs: Vec<usize> = (0..t.cols.len())
                .filter(|c| aggable(*c) && matches!(t.cols[*c].1.ty, Ty::Prim(_) | Ty::Utf8))
                .collect();
            if cs.is_empty() || t.cols.iter().any(|c| c.0 != "a" && c.0 != "b" && c.0 != "c") {
                Kind::Agg { aggs: vec![A::Rows], group: None }
            } else {
                Kind::Join {
                    kind: *pick(&[JoinType::Inner, JoinType::LeftSemi, JoinType::LeftAnti, JoinType::Left]),
                    on: *pick(&cs),
                    cols,
                    other: gen_filter(t, 1),
                }
            }
        }
        _ => Kind::Agg { aggs: vec![A::Rows], group: None },
    };
    Query { filter, kind, late_filter: gen_bool(1, 4) }
}

impl F {
    fn uses(&self, out: &mut Vec<usize>) {
        match self {
            F::Lit(c, ..) | F::Wide(c, ..) | F::Bool(c) | F::Null(c, _) | F::In(c, ..) | F::Between(c, ..) => out.push(*c),
            F::Cols(a, _, b) => out.extend([*a, *b]),
            F::Not(a) => a.uses(out),
            F::And(a, b) | F::Or(a, b) | F::Same(a, b, _) => {
                a.uses(out);
                b.uses(out);
            }
        }
    }

    pub fn show(&self, t: &Table) -> String {
        let n = |c: &usize| t.cols[*c].0.clone();
        match self {
            F::Lit(c, o, l, flip) => {
                if *flip {
                    format!("{} {o:?}' {}", l.show(), n(c))
                } else {
                    format!("{} {o:?} {}", n(c), l.show())
                }
            }
            F::Wide(c, o, l) => format!("{} {o:?} {l}::bigint", n(c)),
            F::Cols(a, o, b) => format!("{} {o:?} {}", n(a), n(b)),
            F::Bool(c) => n(c),
            F::Null(c, b) => format!("{} is {}null", n(c), if *b { "not " } else { "" }),
            F::In(c, l, neg) => format!(
                "{} {}in [{}]",
                n(c),
                if *neg { "not " } else { "" },
                l.iter().map(Val::show).collect::<Vec<_>>().join(", ")
            ),
            F::Between(c, a, b) => format!("{} between {} and {}", n(c), a.show(), b.show()),
            F::Not(a) => format!("not ({})", a.show(t)),
            F::And(a, b) => format!("({} and {})", a.show(t), b.show(t)),
            F::Or(a, b) => format!("({} or {})", a.show(t), b.show(t)),
            F::Same(a, b, e) => format!("({}) {} ({})", a.show(t), if *e { "=" } else { "<>" }, b.show(t)),
        }
    }
}

impl Query {
    pub fn show(&self, t: &Table) -> String {
        let ns = |cs: &[usize]| cs.iter().map(|c| t.cols[*c].0.clone()).collect::<Vec<_>>().join(", ");
        let f = self.filter.iter().map(|f| f.show(t)).collect::<Vec<_>>().join(" where ");
        let k = match &self.kind {
            Kind::Rows { cols, order, limit, distinct } => format!(
                "select {}{}{}{}",
                if *distinct { "distinct " } else { "" },
                ns(cols),
                if order.is_empty() { String::new() } else { format!(" order {order:?}") },
                limit.map(|l| format!(" skip/limit {l:?}")).unwrap_or_default()
            ),
            Kind::Agg { aggs, group } => format!(
                "select {aggs:?}{}",
                group.map(|g| format!(" group by {}", t.cols[g].0)).unwrap_or_default()
            ),
            Kind::Union { cols, other } => format!(
                "select {} union all [{}]",
                ns(cols),
                other.as_ref().map(|f| f.show(t)).unwrap_or_default()
            ),
            Kind::Join { kind, on, cols, other } => format!(
                "{kind} join on {} select {} with [{}]",
                t.cols[*on].0,
                ns(cols),
                other.as_ref().map(|f| f.show(t)).unwrap_or_default()
            ),
        };
        format!("{k}{}{}", if f.is_empty() { String::new() } else { format!(" where {f}") }, if self.late_filter { " (late)" } else { "" })
    }
}

/// A table name and its columns.
struct Cx<'a> {
    t: &'a Table,
    types: &'a [arrow_schema::DataType],
    rel: Option<&'static str>,
}

impl Cx<'_> {
    fn col(&self, c: usize) -> Expr {
        let name = &self.t.cols[c].0;
        Expr::Column(match self.rel {
            None => Column::new_unqualified(name),
            Some(r) => Column::new(Some(TableReference::bare(r)), name),
        })
    }
    fn lit(&self, c: usize, v: &Val) -> Expr {
        let a = to_arrow(&self.types[c], std::slice::from_ref(v));
        lit(ScalarValue::try_from_array(&a, 0).expect("literal"))
    }
    fn expr(&self, f: &F) -> Expr {
        let op = |l: Expr, o: Cmp, r: Expr| match o {
            Cmp::Eq => l.eq(r),
            Cmp::Ge => l.gt_eq(r),
            Cmp::Lt => l.lt(r),
            Cmp::Ne => l.not_eq(r),
            Cmp::Gt => l.gt(r),
            Cmp::Le => l.lt_eq(r),
        };
        match f {
            F::Lit(c, o, l, flip) => {
                if *flip {
                    op(self.lit(*c, l), *o, self.col(*c))
                } else {
                    op(self.col(*c), *o, self.lit(*c, l))
                }
            }
            F::Wide(c, o, l) => op(self.col(*c), *o, lit(*l)),
            F::Cols(a, o, b) => op(self.col(*a), *o, self.col(*b)),
            F::Bool(c) => self.col(*c),
            F::Null(c, neg) => {
                if *neg {
                    self.col(*c).is_not_null()
                } else {
                    self.col(*c).is_null()
                }
            }
            F::In(c, l, neg) => Expr::InList(InList::new(
                Box::new(self.col(*c)),
                l.iter().map(|x| self.lit(*c, x)).collect(),
                *neg,
            )),
            F::Between(c, a, b) => self.col(*c).between(self.lit(*c, a), self.lit(*c, b)),
            F::Not(a) => !self.expr(a),
            F::And(a, b) => self.expr(a).and(self.expr(b)),
            F::Or(a, b) => self.expr(a).or(self.expr(b)),
            F::Same(a, b, e) => {
                if *e {
                    self.expr(a).eq(self.expr(b))
                } else {
                    self.expr(a).not_eq(self.expr(b))
                }
            }
        }
    }
}

impl Query {
    /// The query over tables "t" (and "u", the same table once more) of the context. Without the
    /// limit if `whole`.
    pub async fn plan(&self, ctx: &SessionContext, t: &Table, types: &[arrow_schema::DataType], whole: bool) -> DFResult<DataFrame> {
        let cx = Cx { t, types, rel: None };
        let mut df = ctx.table("t").await?;
        let late = match &self.kind {
            Kind::Rows { cols, .. } if self.late_filter => {
                let mut used = Vec::new();
                self.filter.iter().for_each(|f| f.uses(&mut used));
                used.iter().all(|c| cols.contains(c))
            }
            _ => false,
        };
        if let Kind::Join { kind, on, cols, other } = &self.kind {
            let (l, r) = (Cx { t, types, rel: Some("t") }, Cx { t, types, rel: Some("u") });
            let mut right = ctx.table("u").await?;
            for f in &self.filter {
                df = df.filter(l.expr(f))?;
            }
            if let Some(f) = other {
                right = right.filter(r.expr(f))?;
            }
            let df = df.join_on(right, *kind, [l.col(*on).eq(r.col(*on))])?;
            let sel: Vec<Expr> = match kind {
                JoinType::LeftSemi | JoinType::LeftAnti => cols.iter().map(|c| l.col(*c)).collect(),
                _ => cols.iter().map(|c| l.col(*c)).chain([r.col(cols[0]).alias("other")]).collect(),
            };
            return df.select(sel);
        }
        if !late {
            for f in &self.filter {
                df = df.filter(cx.expr(f))?;
            }
        }
        match &self.kind {
            Kind::Rows { cols, order, limit, distinct } => {
                df = df.select(cols.iter().map(|c| cx.col(*c)).collect())?;
                if late {
                    for f in &self.filter {
                        df = df.filter(cx.expr(f))?;
                    }
                }
                if *distinct {
                    df = df.distinct()?;
                }
                if !order.is_empty() {
                    let keys: Vec<SortExpr> = order.iter().map(|(c, asc, nf)| cx.col(*c).sort(*asc, *nf)).collect();
                    df = df.sort(keys)?;
                }
                if let (Some((skip, fetch)), false) = (limit, whole) {
                    df = df.limit(*skip, *fetch)?;
                }
                Ok(df)
            }
            Kind::Agg { aggs, group } => {
                let es: Vec<Expr> = aggs
                    .iter()
                    .enumerate()
                    .map(|(i, a)| {
                        match a {
                            A::Rows => count(lit(1i64)),
                            A::Count(c) => count(cx.col(*c)),
                            A::Distinct(c) => count_distinct(cx.col(*c)),
                            A::Min(c) => min(cx.col(*c)),
                            A::Max(c) => max(cx.col(*c)),
                            A::Sum(c) => sum(cx.col(*c)),
                        }
                        .alias(format!("agg{i}"))
                    })
                    .collect();
                df.aggregate(group.iter().map(|c| cx.col(*c)).collect(), es)
            }
            Kind::Union { cols, other } => {
                let sel: Vec<Expr> = cols.iter().map(|c| cx.col(*c)).collect();
                let mut right = ctx.table("t").await?;
                if let Some(f) = other {
                    right = right.filter(cx.expr(f))?;
                }
                df.select(sel.clone())?.union(right.select(sel)?)
            }
            Kind::Join { .. } => unreachable!(),
        }
    }
}

type Row = Vec<Val>;

fn bag(rows: &[Row]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for r in rows {
        *m.entry(format!("{r:?}")).or_insert(0) += 1;
    }
    m
}

fn diff(got: &[Row], want: &[Row]) -> String {
    let (g, w) = (bag(got), bag(want));
    for r in want {
        let k = format!("{r:?}");
        let (a, b) = (g.get(&k).copied().unwrap_or(0), w[&k]);
        if a < b {
            return format!("{} rows instead of {}; {} occurs {a} times instead of {b}", got.len(), want.len(), show_row(r));
        }
    }
    for r in got {
        let k = format!("{r:?}");
        let (a, b) = (g[&k], w.get(&k).copied().unwrap_or(0));
        if a > b {
            return format!("{} rows instead of {}; {} occurs {a} times instead of {b}", got.len(), want.len(), show_row(r));
        }
    }
    format!("{} rows instead of {}", got.len(), want.len())
}

/// What a query returned.
pub type Answer = (arrow_schema::SchemaRef, Vec<RecordBatch>);

/// `want` is the answer without the limit, in a valid order.
pub fn compare(q: &Query, got: &Answer, want: &Answer) -> Res {
    for b in &got.1 {
        let types = |s: &arrow_schema::Schema| s.fields().iter().map(|f| (f.name().clone(), f.data_type().clone())).collect::<Vec<_>>();
        if types(&b.schema()) != types(&got.0) {
            return v("wrong-result-type", format!("a batch of type {:?} in a result of type {:?}", types(&b.schema()), types(&got.0)));
        }
        for (f, c) in got.0.fields().iter().zip(b.columns()) {
            if !f.is_nullable() && c.null_count() > 0 {
                return v("null-in-non-nullable", format!("column {} is declared non-nullable and has nulls", f.name()));
            }
        }
    }
    if got.0.fields().iter().map(|f| f.data_type()).ne(want.0.fields().iter().map(|f| f.data_type())) {
        return v("wrong-result-type", format!("a result of type {:?} instead of {:?}", got.0, want.0));
    }
    let (g, w) = (rows(&got.1), rows(&want.1));
    let (order, limit) = match &q.kind {
        Kind::Rows { cols, order, limit, .. } => {
            let keys: Vec<usize> = order.iter().map(|o| cols.iter().position(|c| *c == o.0).expect("key is selected")).collect();
            (keys, *limit)
        }
        _ => (vec![], None),
    };
    let (skip, fetch) = limit.unwrap_or((0, None));
    let n = w.len().saturating_sub(skip).min(fetch.unwrap_or(usize::MAX));
    if g.len() != n {
        return v("wrong-result", if limit.is_some() { format!("{} rows instead of {n}", g.len()) } else { diff(&g, &w) });
    }
    if limit.is_none() {
        if bag(&g) != bag(&w) {
            return v("wrong-result", diff(&g, &w));
        }
    } else {
        let (bg, bw) = (bag(&g), bag(&w));
        for (k, c) in &bg {
            if bw.get(k).copied().unwrap_or(0) < *c {
                return v("wrong-result", format!("row {k} occurs {c} times, more often than in the table"));
            }
        }
    }
    if !order.is_empty() {
        let key = |r: &Row| order.iter().map(|k| r[*k].clone()).collect::<Vec<_>>();
        for (i, r) in g.iter().enumerate() {
            if key(r) != key(&w[skip + i]) {
                return v("wrong-order", format!("row {i} has key {} instead of {}", show_row(&key(r)), show_row(&key(&w[skip + i]))));
            }
        }
    }
    if !g.is_empty() {
        probe("rows_returned");
    }
    let _ = from_arrow;
    Ok(())
}
