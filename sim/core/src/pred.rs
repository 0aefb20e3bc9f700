//! Row predicates: the reference evaluation over plain values (and/or of an unknown is unknown,
//! as the repository's own documentation of filters shows) and the
//! conversion to the expression type a scan takes.

use std::cmp::Ordering;
use std::sync::Arc;

use vortex_dtype::field::Field;
use vortex_dtype::half::f16;
use vortex_dtype::PType;
use vortex_expr::{BinaryExpr, Column, Literal, Operator, VortexExpr};

use crate::gen::{gen_col, Table};
use crate::val::{int_bounds, scalar, Dt, Ty, Val};
use crate::world::{gen, gen_bool, pick};

#[derive(Clone, Debug)]
pub enum Pred {
    /// column op literal; `flip` writes it literal op column (with the operator turned round)
    Lit { col: usize, op: Operator, lit: Val, flip: bool, by_name: bool },
    /// column op column
    Cols { l: usize, op: Operator, r: usize, by_name: bool },
    /// a boolean column by itself
    Col { col: usize, by_name: bool },
    And(Box<Pred>, Box<Pred>),
    Or(Box<Pred>, Box<Pred>),
}

pub const CMPS: [Operator; 6] = [
    Operator::Eq,
    Operator::Gte,
    Operator::Lt,
    Operator::NotEq,
    Operator::Gt,
    Operator::Lte,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FloatOrder {
    Ieee,
    Total,
}

pub fn comparable(dt: &Dt) -> bool {
    match &dt.ty {
        Ty::Bool | Ty::Utf8 | Ty::Binary => true,
        Ty::Prim(_) => true,
        Ty::Date(_) | Ty::Time(_) | Ty::Timestamp(..) => true,
        Ty::Null | Ty::Struct(_) => false,
    }
}

fn float(v: &Val) -> Option<f64> {
    match v {
        Val::F16(b) => Some(f16::from_bits(*b).to_f64()),
        Val::F32(b) => Some(f32::from_bits(*b) as f64),
        Val::F64(b) => Some(f64::from_bits(*b)),
        _ => None,
    }
}

fn total(v: &Val) -> i128 {
    fn key(bits: u64, width: u32) -> i128 {
        let sign = 1u64 << (width - 1);
        if bits & sign != 0 {
            -(((bits & (sign - 1)) as i128) + 1)
        } else {
            bits as i128
        }
    }
    match v {
        Val::F16(b) => key(*b as u64, 16),
        Val::F32(b) => key(*b as u64, 32),
        Val::F64(b) => key(*b, 64),
        _ => 0,
    }
}

/// None: unordered (a NaN under IEEE rules).
fn compare(a: &Val, b: &Val, fo: FloatOrder) -> Option<Ordering> {
    match (a, b) {
        (Val::Bool(x), Val::Bool(y)) => Some(x.cmp(y)),
        (Val::Int(x), Val::Int(y)) => Some(x.cmp(y)),
        (Val::Bytes(x), Val::Bytes(y)) => Some(x.cmp(y)),
        _ => match (float(a), float(b)) {
            (Some(x), Some(y)) => match fo {
                FloatOrder::Ieee => x.partial_cmp(&y),
                FloatOrder::Total => Some(total(a).cmp(&total(b))),
            },
            _ => unreachable!("compared values have one type"),
        },
    }
}

fn holds(op: Operator, o: Option<Ordering>) -> bool {
    match o {
        None => op == Operator::NotEq,
        Some(o) => match op {
            Operator::Eq => o == Ordering::Equal,
            Operator::NotEq => o != Ordering::Equal,
            Operator::Gt => o == Ordering::Greater,
            Operator::Gte => o != Ordering::Less,
            Operator::Lt => o == Ordering::Less,
            Operator::Lte => o != Ordering::Greater,
            _ => unreachable!(),
        },
    }
}

const T: u8 = 1;
const F: u8 = 2;
const N: u8 = 4;

fn outcome(o: Option<bool>) -> u8 {
    match o {
        Some(true) => T,
        Some(false) => F,
        None => N,
    }
}

/// Every result a three-valued operation can have on the given sets of operands.
fn combine(a: u8, b: u8, f: impl Fn(u8, u8) -> u8) -> u8 {
    let mut out = 0;
    for x in [T, F, N] {
        for y in [T, F, N] {
            if a & x != 0 && b & y != 0 {
                out |= f(x, y);
            }
        }
    }
    out
}

impl Pred {
    /// The set of results a row may have: more than one only where the two customary orders of
    /// floats (IEEE, and Arrow's total order) disagree.
    pub fn outcomes(&self, t: &Table, row: usize) -> u8 {
        let cmp = |op: Operator, a: &Val, b: &Val| {
            if a.is_null() || b.is_null() {
                return N;
            }
            outcome(Some(holds(op, compare(a, b, FloatOrder::Ieee))))
                | outcome(Some(holds(op, compare(a, b, FloatOrder::Total))))
        };
        match self {
            Pred::Lit { col, op, lit, .. } => cmp(*op, &t.data[*col][row], lit),
            Pred::Cols { l, op, r, .. } => cmp(*op, &t.data[*l][row], &t.data[*r][row]),
            Pred::Col { col, .. } => outcome(match &t.data[*col][row] {
                Val::Bool(b) => Some(*b),
                _ => None,
            }),
            Pred::And(a, b) => combine(a.outcomes(t, row), b.outcomes(t, row), |x, y| match (x, y) {
                (N, _) | (_, N) => N,
                (T, T) => T,
                _ => F,
            }),
            Pred::Or(a, b) => combine(a.outcomes(t, row), b.outcomes(t, row), |x, y| match (x, y) {
                (N, _) | (_, N) => N,
                (F, F) => F,
                _ => T,
            }),
        }
    }

    /// The rows that may pass, each with whether it must.
    pub fn select(&self, t: &Table) -> Vec<(usize, bool)> {
        (0..t.rows)
            .filter_map(|r| {
                let o = self.outcomes(t, r);
                (o & T != 0).then_some((r, o == T))
            })
            .collect()
    }

    pub fn columns(&self, out: &mut Vec<usize>) {
        match self {
            Pred::Lit { col, .. } | Pred::Col { col, .. } => out.push(*col),
            Pred::Cols { l, r, .. } => {
                out.push(*l);
                out.push(*r);
            }
            Pred::And(a, b) | Pred::Or(a, b) => {
                a.columns(out);
                b.columns(out);
            }
        }
    }

    pub fn by_index(&self) -> bool {
        match self {
            Pred::Lit { by_name, .. } | Pred::Cols { by_name, .. } | Pred::Col { by_name, .. } => !*by_name,
            Pred::And(a, b) | Pred::Or(a, b) => a.by_index() || b.by_index(),
        }
    }

    pub fn expr(&self, t: &Table) -> Arc<dyn VortexExpr> {
        let field = |c: usize, by_name: bool| -> Arc<dyn VortexExpr> {
            Arc::new(Column::new(if by_name {
                Field::Name(t.cols[c].0.clone())
            } else {
                Field::Index(c)
            }))
        };
        match self {
            Pred::Lit { col, op, lit, flip, by_name } => {
                let l: Arc<dyn VortexExpr> = Arc::new(Literal::new(scalar(&t.cols[*col].1, lit)));
                let c = field(*col, *by_name);
                if *flip {
                    Arc::new(BinaryExpr::new(l, op.swap(), c))
                } else {
                    Arc::new(BinaryExpr::new(c, *op, l))
                }
            }
            Pred::Cols { l, op, r, by_name } => {
                Arc::new(BinaryExpr::new(field(*l, *by_name), *op, field(*r, *by_name)))
            }
            Pred::Col { col, by_name } => field(*col, *by_name),
            Pred::And(a, b) => Arc::new(BinaryExpr::new(a.expr(t), Operator::And, b.expr(t))),
            Pred::Or(a, b) => Arc::new(BinaryExpr::new(a.expr(t), Operator::Or, b.expr(t))),
        }
    }

    pub fn show(&self, t: &Table) -> String {
        let n = |c: usize, by: bool| if by { format!("${}", t.cols[c].0) } else { format!("[{c}]") };
        match self {
            Pred::Lit { col, op, lit, flip, by_name } => {
                if *flip {
                    format!("{} {} {}", lit.show(), op.swap(), n(*col, *by_name))
                } else {
                    format!("{} {op} {}", n(*col, *by_name), lit.show())
                }
            }
            Pred::Cols { l, op, r, by_name } => format!("{} {op} {}", n(*l, *by_name), n(*r, *by_name)),
            Pred::Col { col, by_name } => n(*col, *by_name),
            Pred::And(a, b) => format!("({} and {})", a.show(t), b.show(t)),
            Pred::Or(a, b) => format!("({} or {})", a.show(t), b.show(t)),
        }
    }
}

fn literal(dt: &Dt, col: &[Val]) -> Val {
    // mostly a value that occurs, or one next to it
    if !col.is_empty() && gen(4) != 3 {
        let v = col[gen(col.len() as u64) as usize].clone();
        if !v.is_null() {
            return match (&v, &dt.ty, gen(3)) {
                (Val::Int(i), Ty::Prim(p), 1) => {
                    let (lo, hi) = int_bounds(*p);
                    Val::Int((i + 1).clamp(lo, hi))
                }
                (Val::Int(i), Ty::Prim(p), 2) => {
                    let (lo, hi) = int_bounds(*p);
                    Val::Int((i - 1).clamp(lo, hi))
                }
                (Val::Bytes(b), _, 1) => {
                    let mut b = b.clone();
                    b.push(b'a');
                    Val::Bytes(b)
                }
                _ => v,
            };
        }
    }
    let c = gen_col(&Dt::new(dt.ty.clone(), false), 2);
    c[0].clone()
}

#[derive(Clone, Copy)]
pub struct PredOpts {
    pub by_index: bool,
    pub null_literals: bool,
    pub depth: u32,
}

/// A random predicate over the comparable columns of the table; None if there are none.
pub fn gen_pred(t: &Table, o: PredOpts) -> Option<Pred> {
    let cols: Vec<usize> = (0..t.cols.len()).filter(|c| comparable(&t.cols[*c].1)).collect();
    if cols.is_empty() {
        return None;
    }
    let by_index = o.by_index && gen_bool(1, 6);
    Some(go(t, &cols, o, by_index, o.depth))
}

fn go(t: &Table, cols: &[usize], o: PredOpts, by_index: bool, depth: u32) -> Pred {
    if depth > 0 {
        match gen(5) {
            1 | 2 => {
                return Pred::And(
                    Box::new(go(t, cols, o, by_index, depth - 1)),
                    Box::new(go(t, cols, o, by_index, depth - 1)),
                )
            }
            3 => {
                return Pred::Or(
                    Box::new(go(t, cols, o, by_index, depth - 1)),
                    Box::new(go(t, cols, o, by_index, depth - 1)),
                )
            }
            _ => {}
        }
    }
    let op = *pick(&CMPS);
    let col = *pick(cols);
    if t.cols[col].1.ty == Ty::Bool && gen_bool(1, 3) {
        return Pred::Col { col, by_name: !by_index };
    }
    if gen_bool(1, 6) {
        // another column of the same type
        let same: Vec<usize> = cols
            .iter()
            .copied()
            .filter(|c| *c != col && t.cols[*c].1.ty == t.cols[col].1.ty)
            .collect();
        if !same.is_empty() {
            return Pred::Cols { l: col, op, r: *pick(&same), by_name: !by_index };
        }
    }
    let lit = if o.null_literals && t.cols[col].1.nullable && gen_bool(1, 24) {
        Val::Null
    } else {
        literal(&t.cols[col].1, &t.data[col])
    };
    Pred::Lit { col, op, lit, flip: gen_bool(1, 5), by_name: !by_index }
}

/// Floats whose ordering the two customary float orders disagree on.
pub fn odd_float(v: &Val) -> bool {
    match float(v) {
        Some(f) => f.is_nan() || f == 0.0,
        None => false,
    }
}

pub fn is_float_ty(dt: &Dt) -> bool {
    matches!(dt.ty, Ty::Prim(PType::F16 | PType::F32 | PType::F64))
}
