//! Data generators: types, columns with many value shapes, tables, predicates.

use vortex_datetime_dtype::TimeUnit;
use vortex_dtype::half::f16;
use vortex_dtype::PType;

use crate::tape::Prng;
use crate::val::{int_bounds, Dt, Ty, Val};
use crate::world::{gen, gen_bool, gen_range, pick};

pub const INTS: [PType; 8] = [
    PType::I32,
    PType::I64,
    PType::U8,
    PType::U16,
    PType::U32,
    PType::U64,
    PType::I8,
    PType::I16,
];

/// Which types a scenario can handle.
#[derive(Clone, Copy)]
pub struct TyOpts {
    pub f16: bool,
    pub nested: bool,
    pub ext: bool,
    pub null: bool,
    pub binary: bool,
    pub null_structs: bool,
}

pub const ALL_TYPES: TyOpts = TyOpts {
    f16: true,
    nested: true,
    ext: true,
    null: true,
    binary: true,
    null_structs: true,
};

pub fn gen_dt(o: TyOpts) -> Dt {
    let nullable = gen(2) == 1;
    let ty = match gen(16) {
        0..=4 => Ty::Prim(*pick(&INTS)),
        5 => Ty::Prim(PType::F64),
        6 => Ty::Prim(PType::F32),
        7 => {
            if o.f16 && gen(2) == 0 {
                Ty::Prim(PType::F16)
            } else {
                Ty::Prim(PType::F64)
            }
        }
        8 | 9 => Ty::Bool,
        10..=12 => Ty::Utf8,
        13 => {
            if o.binary {
                Ty::Binary
            } else {
                Ty::Utf8
            }
        }
        14 => {
            if o.ext {
                match gen(5) {
                    0 => Ty::Timestamp(*pick(&[TimeUnit::Ms, TimeUnit::S, TimeUnit::Us, TimeUnit::Ns]), None),
                    1 => Ty::Timestamp(
                        *pick(&[TimeUnit::Us, TimeUnit::Ns, TimeUnit::Ms, TimeUnit::S]),
                        Some(pick(&["UTC", "Europe/London"]).to_string()),
                    ),
                    2 => Ty::Date(*pick(&[TimeUnit::D, TimeUnit::Ms])),
                    _ => Ty::Time(*pick(&[TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns])),
                }
            } else {
                Ty::Prim(PType::I64)
            }
        }
        _ => {
            if o.nested && gen(3) == 0 {
                let k = *pick(&[1u64, 2, 1, 2, 3, 0]);
                let fs = (0..k)
                    .map(|i| {
                        (
                            format!("n{i}"),
                            if gen(4) == 1 {
                                // structs in structs, columns of nulls in structs
                                match gen(3) {
                                    0 if o.null => Dt::new(Ty::Null, true),
                                    _ => {
                                        let d = gen_dt(TyOpts { nested: false, ..o });
                                        Dt::new(Ty::Struct(vec![("m".into(), d)]), o.null_structs && gen(2) == 1)
                                    }
                                }
                            } else {
                                gen_dt(TyOpts { nested: false, null: false, ..o })
                            },
                        )
                    })
                    .collect();
                return Dt::new(Ty::Struct(fs), o.null_structs && nullable);
            } else if o.null && gen(3) == 0 {
                return Dt::new(Ty::Null, true);
            }
            Ty::Prim(*pick(&INTS))
        }
    };
    Dt::new(ty, nullable)
}

/// A bulk source of values, seeded by one draw from the tape so that tapes stay short.
/// (Minimisation then works on row counts and shapes rather than on single values.)
pub struct Bulk(Prng);

impl Bulk {
    pub fn new() -> Self {
        Bulk(Prng::new(gen(0)))
    }
    pub fn n(&mut self, k: u64) -> u64 {
        if k == 0 {
            self.0.next()
        } else {
            self.0.next() % k
        }
    }
    pub fn wide(&mut self, lo: i128, hi: i128) -> i128 {
        let span = (hi - lo + 1) as u128;
        let r = ((self.0.next() as u128) << 64) | self.0.next() as u128;
        lo + (r % span) as i128
    }
}

/// A column of `n` values.
pub fn gen_col(dt: &Dt, n: usize) -> Vec<Val> {
    let null_mode = if dt.nullable { gen(6) } else { 0 };
    let mut vals = gen_nonnull(dt, n);
    if dt.ty == Ty::Null {
        return vec![Val::Null; n];
    }
    if null_mode == 0 {
        return vals;
    }
    let mut b = Bulk::new();
    match null_mode {
        1 => {
            for v in vals.iter_mut() {
                if b.n(8) == 0 {
                    *v = Val::Null;
                }
            }
        }
        2 => {
            for v in vals.iter_mut() {
                if b.n(2) == 0 {
                    *v = Val::Null;
                }
            }
        }
        3 => vals.iter_mut().for_each(|v| *v = Val::Null),
        4 => {
            // runs of nulls
            let mut i = 0;
            while i < n {
                let run = 1 + b.n(20) as usize;
                let null = b.n(2) == 0;
                for v in vals.iter_mut().skip(i).take(run) {
                    if null {
                        *v = Val::Null;
                    }
                }
                i += run;
            }
        }
        _ => {
            // almost all null / nulls at the ends
            let keep = b.n(n.max(1) as u64) as usize;
            for (i, v) in vals.iter_mut().enumerate() {
                if i != keep && b.n(30) != 0 {
                    *v = Val::Null;
                }
            }
        }
    }
    vals
}

/// More values of the same kind, used as the parts of a larger array that get sliced away.
pub fn more_like(dt: &Dt, vals: &[Val], n: usize) -> Vec<Val> {
    let mut b = Bulk::new();
    (0..n)
        .map(|_| {
            if !vals.is_empty() && b.n(2) == 0 {
                vals[b.n(vals.len() as u64) as usize].clone()
            } else {
                match &dt.ty {
                    Ty::Null => Val::Null,
                    Ty::Bool => Val::Bool(b.n(2) == 0),
                    Ty::Utf8 | Ty::Binary => Val::Bytes(b"padding outside the slice".to_vec()),
                    Ty::Struct(fs) => Val::Struct(
                        fs.iter().map(|(_, d)| more_like(d, &[], 1)[0].clone()).collect(),
                    ),
                    Ty::Prim(PType::F16) => Val::F16(f16::from_f32(9.5).to_bits()),
                    Ty::Prim(PType::F32) => Val::F32(9.5f32.to_bits()),
                    Ty::Prim(PType::F64) => Val::F64(9.5f64.to_bits()),
                    _ => Val::Int(99),
                }
            }
        })
        .collect()
}

fn gen_nonnull(dt: &Dt, n: usize) -> Vec<Val> {
    match &dt.ty {
        Ty::Null => vec![Val::Null; n],
        Ty::Bool => gen_bools(n),
        Ty::Prim(p) if matches!(p, PType::F16 | PType::F32 | PType::F64) => gen_floats(*p, n),
        Ty::Prim(p) => gen_ints(*p, n),
        Ty::Utf8 => gen_strings(n, true),
        Ty::Binary => gen_strings(n, false),
        Ty::Struct(fs) => {
            let cols: Vec<Vec<Val>> = fs.iter().map(|(_, d)| gen_col(d, n)).collect();
            (0..n)
                .map(|i| Val::Struct(cols.iter().map(|c| c[i].clone()).collect()))
                .collect()
        }
        Ty::Date(u) => {
            let mut b = Bulk::new();
            let base = b.wide(-20_000, 20_000);
            let mono = gen(2) == 0;
            (0..n)
                .map(|i| {
                    let d = if mono { base + i as i128 } else { base + b.wide(-300, 300) };
                    Val::Int(match u {
                        TimeUnit::D => d,
                        _ => d * 86_400_000,
                    })
                })
                .collect()
        }
        Ty::Time(u) => {
            let mut b = Bulk::new();
            let per = match u {
                TimeUnit::S => 1i128,
                TimeUnit::Ms => 1_000,
                TimeUnit::Us => 1_000_000,
                _ => 1_000_000_000,
            };
            (0..n).map(|_| Val::Int(b.wide(0, 86_400 * per - 1))).collect()
        }
        Ty::Timestamp(u, _) => {
            let per = match u {
                TimeUnit::S => 1i128,
                TimeUnit::Ms => 1_000,
                TimeUnit::Us => 1_000_000,
                _ => 1_000_000_000,
            };
            let mut b = Bulk::new();
            let shape = gen(4);
            let base = match shape {
                // instants before 1970 too
                1 => -b.wide(1, 2_000_000_000) * per,
                _ => b.wide(0, 2_000_000_000) * per,
            };
            (0..n)
                .map(|i| {
                    Val::Int(match shape {
                        0 => base + i as i128 * per,
                        1 => base + b.wide(-100_000, 100_000) * per / 7,
                        2 => base + b.wide(0, 86_400 * 3) * per,
                        _ => base + b.wide(0, 1_000_000),
                    })
                })
                .collect()
        }
    }
}

fn gen_bools(n: usize) -> Vec<Val> {
    let shape = gen(5);
    let mut b = Bulk::new();
    match shape {
        0 => (0..n).map(|i| Val::Bool(i % 3 == 0)).collect(),
        1 => (0..n).map(|_| Val::Bool(b.n(2) == 0)).collect(),
        2 => {
            let x = b.n(2) == 0;
            vec![Val::Bool(x); n]
        }
        3 => {
            let mut out = Vec::new();
            let mut cur = b.n(2) == 0;
            while out.len() < n {
                let run = 1 + b.n(40);
                for _ in 0..run {
                    if out.len() < n {
                        out.push(Val::Bool(cur));
                    }
                }
                cur = !cur;
            }
            out
        }
        _ => (0..n).map(|_| Val::Bool(b.n(50) == 0)).collect(),
    }
}

fn gen_ints(p: PType, n: usize) -> Vec<Val> {
    let (lo, hi) = int_bounds(p);
    let shape = gen(12);
    let mut b = Bulk::new();
    let cl = |x: i128| x.clamp(lo, hi);
    let v: Vec<i128> = match shape {
        0 => (0..n).map(|i| cl(i as i128)).collect(),
        1 => (0..n).map(|_| cl(b.wide(0, 9))).collect(),
        2 => {
            let c = match b.n(4) {
                0 => 0,
                1 => lo,
                2 => hi,
                _ => b.wide(lo, hi),
            };
            vec![c; n]
        }
        3 => {
            // runs
            let mut out = Vec::new();
            let long = *[3u64, 30, 400].get(b.n(3) as usize).unwrap_or(&3);
            while out.len() < n {
                let x = if b.n(3) == 0 { b.wide(lo, hi) } else { cl(b.wide(0, 1000)) };
                let run = 1 + b.n(long);
                for _ in 0..run {
                    if out.len() < n {
                        out.push(x);
                    }
                }
            }
            out
        }
        4 => {
            // few distinct, far apart
            let d: Vec<i128> = (0..2 + b.n(5)).map(|_| b.wide(lo, hi)).collect();
            (0..n).map(|_| d[b.n(d.len() as u64) as usize]).collect()
        }
        5 => {
            // sorted with random steps, clamped at the top
            let mut x = cl(b.wide(lo, hi) / 4);
            (0..n)
                .map(|_| {
                    x = cl(x + b.wide(0, 5));
                    x
                })
                .collect()
        }
        6 => (0..n).map(|_| b.wide(lo, hi)).collect(),
        7 => {
            // narrow band with rare outliers (bit-packing patches)
            let base = cl(b.wide(lo, hi));
            (0..n)
                .map(|_| {
                    if b.n(40) == 0 {
                        b.wide(lo, hi)
                    } else {
                        cl(base.min(hi - 20) + b.wide(0, 15))
                    }
                })
                .collect()
        }
        8 => {
            // extremes
            let d = [lo, hi, 0, 1, cl(-1), lo + 1, hi - 1];
            (0..n).map(|_| d[b.n(7) as usize]).collect()
        }
        9 => (0..n).map(|_| cl(b.wide(-20, 20))).collect(),
        10 => {
            // mostly one value
            let c = cl(b.wide(0, 50));
            (0..n).map(|_| if b.n(15) == 0 { cl(b.wide(0, 200)) } else { c }).collect()
        }
        _ => {
            // multiples of a power of two above a base (frame of reference with shift)
            let base = cl(b.wide(0, 1000));
            let sh = b.n(6);
            (0..n).map(|_| cl(base + (b.wide(0, 60) << sh))).collect()
        }
    };
    v.into_iter().map(Val::Int).collect()
}

fn gen_floats(p: PType, n: usize) -> Vec<Val> {
    let shape = gen(9);
    let mut b = Bulk::new();
    let mk = |x: f64| match p {
        PType::F16 => Val::F16(f16::from_f64(x).to_bits()),
        PType::F32 => Val::F32((x as f32).to_bits()),
        _ => Val::F64(x.to_bits()),
    };
    let special = |k: u64| match k % 12 {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => -0.0,
        4 => 0.0,
        5 => f64::MAX,
        6 => f64::MIN_POSITIVE,
        7 => 5e-324,
        8 => 1e-45,
        9 => -1.5,
        10 => 9.3e15,
        _ => -9.3e18,
    };
    match shape {
        0 => (0..n).map(|i| mk(i as f64)).collect(),
        1 => (0..n).map(|_| mk(b.n(10_000) as f64 / 100.0)).collect(),
        2 => {
            let c = b.n(1000) as f64 / 8.0;
            vec![mk(c); n]
        }
        3 => (0..n).map(|_| mk((b.n(2_000_000) as f64 - 1e6) / 1000.0)).collect(),
        4 => (0..n)
            .map(|_| match p {
                PType::F16 => Val::F16(b.n(0) as u16),
                // Not a signaling NaN: the library that stores scalars reads an f32 by way of
                // f64, which quiets it.
                PType::F32 => {
                    let x = b.n(0) as u32;
                    Val::F32(if f32::from_bits(x).is_nan() { x | 0x0040_0000 } else { x })
                }
                _ => Val::F64(b.n(0)),
            })
            .collect(),
        5 => (0..n)
            .map(|_| if b.n(3) == 0 { let k = b.n(12); mk(special(k)) } else { mk(b.n(500) as f64 / 10.0) })
            .collect(),
        6 => (0..n)
            .map(|_| if b.n(25) == 0 { mk(1.0 / (1.0 + b.n(1 << 40) as f64)) } else { mk(b.n(3000) as f64 / 100.0) })
            .collect(),
        7 => {
            // real doubles with a common exponent (ALP-RD territory)
            (0..n).map(|_| mk(1.0 + (b.n(1 << 50) as f64) / (1u64 << 50) as f64)).collect()
        }
        _ => {
            let d: Vec<f64> = (0..3).map(|_| b.n(1000) as f64 / 7.0).collect();
            (0..n).map(|_| mk(d[b.n(3) as usize])).collect()
        }
    }
}

const WORDS: [&str; 12] = [
    "", "a", "abc", "twelve chars", "thirteen char", "hello world, this is long",
    "https://example.com/path/to/", "żółć", "日本語テキスト", "\u{1F600}\u{1F601}", "z", "0",
];

fn gen_strings(n: usize, utf8: bool) -> Vec<Val> {
    let shape = gen(7);
    let mut b = Bulk::new();
    let v: Vec<Vec<u8>> = match shape {
        0 => (0..n).map(|i| format!("s{i}").into_bytes()).collect(),
        1 => (0..n).map(|_| WORDS[b.n(12) as usize].as_bytes().to_vec()).collect(),
        2 => {
            let w = WORDS[b.n(12) as usize].as_bytes().to_vec();
            vec![w; n]
        }
        3 => (0..n)
            .map(|_| format!("https://www.example.com/page/{}/item-{}", b.n(20), b.n(1000)).into_bytes())
            .collect(),
        4 => {
            let d: Vec<String> = (0..2 + b.n(3)).map(|i| format!("{}-{}", WORDS[b.n(12) as usize], i)).collect();
            (0..n).map(|_| d[b.n(d.len() as u64) as usize].clone().into_bytes()).collect()
        }
        5 => (0..n)
            .map(|_| {
                let l = b.n(30) as usize;
                (0..l).map(|_| b'a' + b.n(26) as u8).collect()
            })
            .collect(),
        _ => (0..n)
            .map(|_| {
                let l = if b.n(10) == 0 { 200 + b.n(300) } else { b.n(14) } as usize;
                if utf8 {
                    (0..l / 2).map(|_| WORDS[b.n(12) as usize]).collect::<String>().into_bytes()
                } else {
                    (0..l).map(|_| b.n(256) as u8).collect()
                }
            })
            .collect(),
    };
    v.into_iter().map(Val::Bytes).collect()
}

// ------------------------------------------------------------------ tables

#[derive(Clone, Debug)]
pub struct Table {
    pub cols: Vec<(String, Dt)>,
    /// column-major
    pub data: Vec<Vec<Val>>,
    pub rows: usize,
}

pub const NAMES: [&str; 8] = ["a", "b", "c", "a b", "Zed", "żółć", "a.b", "x1"];
/// Names that are easily taken for one another.
const CLOSE_NAMES: [&str; 14] = [
    "a", "A", "aa", "ab", "a ", " a", "a.a", "0", "1", "zed", "Zed", "ŻÓŁĆ", "żółć", "a_rather_long_name_of_a_column_that_no_inline_form_holds",
];

/// The names of k columns.
fn gen_names(k: usize) -> Vec<String> {
    if gen_bool(2, 3) {
        return (0..k).map(|i| NAMES[i % NAMES.len()].to_string()).collect();
    }
    let mut left = CLOSE_NAMES.to_vec();
    (0..k).map(|_| left.remove(gen(left.len().min(6) as u64) as usize).to_string()).collect()
}

impl Table {
    pub fn generate(rows: usize, max_cols: u64, o: TyOpts) -> Table {
        let k = gen_range(1, max_cols) as usize;
        let cols: Vec<(String, Dt)> = gen_names(k).into_iter().map(|n| (n, gen_dt(o))).collect();
        let data = cols.iter().map(|(_, d)| gen_col(d, rows)).collect();
        Table { cols, data, rows }
    }

    /// More columns than a byte can count, of few rows.
    pub fn wide(o: TyOpts) -> Table {
        let rows = gen(8) as usize;
        let k = 200 + gen(200);
        let cols: Vec<(String, Dt)> = (0..k).map(|i| (format!("c{i}"), gen_dt(o))).collect();
        let data = cols.iter().map(|(_, d)| gen_col(d, rows)).collect();
        Table { cols, data, rows }
    }

    pub fn row(&self, r: usize) -> Val {
        Val::Struct(self.data.iter().map(|c| c[r].clone()).collect())
    }

    pub fn rows_of(&self, cols: &[usize], rows: &[usize]) -> Vec<Val> {
        rows.iter()
            .map(|r| Val::Struct(cols.iter().map(|c| self.data[*c][*r].clone()).collect()))
            .collect()
    }

    pub fn show(&self) -> String {
        format!(
            "{} rows x ({})",
            self.rows,
            self.cols
                .iter()
                .map(|(n, d)| format!("{n}: {}", d.show()))
                .collect::<Vec<_>>()
                .join(", ")
        )
    }
}

/// Row counts that lean towards small but reach past the interesting thresholds.
pub fn gen_rows(max: u64) -> usize {
    let n = match gen(10) {
        0..=4 => gen(40),
        5..=7 => gen(300),
        8 => gen(1500),
        _ => gen(max + 1),
    };
    n.min(max) as usize
}

/// Splits `n` rows into chunk lengths; empty chunks allowed.
pub fn gen_splits(n: usize, max_parts: u64) -> Vec<usize> {
    let parts = gen_range(1, max_parts) as usize;
    let mut cuts: Vec<usize> = (0..parts - 1).map(|_| gen(n as u64 + 1) as usize).collect();
    if gen_bool(1, 4) && parts > 1 {
        // make an empty chunk likely
        cuts[0] = 0;
    }
    cuts.push(0);
    cuts.push(n);
    cuts.sort_unstable();
    cuts.windows(2).map(|w| w[1] - w[0]).collect()
}
