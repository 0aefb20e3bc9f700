//! Compression: lossless whatever is sampled, tried, or offered as a hint.

use vortex::array::ChunkedArray;
use vortex::{Array, ArrayDType, IntoArray, IntoCanonical};
use vortex_dtype::DType;
use vortex_error::VortexError;
use vortex_sampling_compressor::compressors::CompressionTree;
use vortex_serde::io::{TokioAdapter, VortexWrite};
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;

use super::streams::ctx;
use crate::comp::gen_compressor;
use crate::exec::{run, Task};
use crate::file::{first_diff, set_sample, show_tree, stalled};
use crate::gen::{gen_col, gen_dt, gen_rows, gen_splits, more_like, ALL_TYPES};
use crate::io::{Cut, Pipe};
use crate::runner::{v, Prop, Res, V};
use crate::val::{build, decode, decode_at, Dt, Ty, Val};
use crate::world::{self, choose, gen, gen_bool, gen_range, probe, Stream};

fn judge(what: &str, a: &Array, dtype: &DType, vals: &[Val]) -> Res {
    if a.dtype() != dtype {
        return v("wrong-type", format!("{what} has type {}, original {dtype}", a.dtype()));
    }
    if a.len() != vals.len() {
        return v("wrong-length", format!("{what} has {} rows, original {}", a.len(), vals.len()));
    }
    let got = match decode(a) {
        Ok(g) => g,
        Err(e) => return v("unreadable", format!("{what} cannot be decoded: {e}")),
    };
    if let Ok(c) = a.clone().into_canonical() {
        let c: Array = c.into();
        if c.dtype() != dtype {
            return v("wrong-type", format!("{what} ({}) decodes to {}, original {dtype}", a.encoding().id(), c.dtype()));
        }
    }
    if got != vals {
        return v("lossy", format!("{what}: {}", first_diff(&got, vals)));
    }
    if !vals.is_empty() {
        for _ in 0..2 {
            let i = gen(vals.len() as u64) as usize;
            match decode_at(a, i) {
                Ok(x) if x == vals[i] => {}
                Ok(x) => return v("lossy-scalar", format!("{what}: row {i} reads {} but should be {}", x.show(), vals[i].show())),
                Err(e) => return v("unreadable-scalar", format!("{what}: row {i}: {e}")),
            }
        }
    }
    Ok(())
}

/// Sends the array through a pipe and returns what arrives.
pub(super) fn through_stream(a: &Array) -> Result<Array, V> {
    let dtype = a.dtype().clone();
    let frag = if a.nbytes() > 20_000 { 0 } else { choose(Stream::Sched, 3) };
    let pipe = Pipe::new(if frag == 0 { 1 << 16 } else { 4096 }, Cut::None, frag, choose(Stream::Sched, 12));
    let mut sent: Option<Result<(), VortexError>> = None;
    let mut got: Option<Result<Vec<Array>, VortexError>> = None;
    {
        let (s, g) = (&mut sent, &mut got);
        let (wp, rp) = (pipe.clone(), pipe.clone());
        let a = a.clone();
        let w: Task<'_> = Box::pin(async move {
            *s = Some(
                async {
                    let mut io = StreamArrayWriter::new(TokioAdapter(wp)).write_array(a).await?.into_inner();
                    io.shutdown().await?;
                    Ok(())
                }
                .await,
            );
        });
        let r: Task<'_> = Box::pin(async move {
            use futures::TryStreamExt;
            let done = rp.clone();
            *g = Some(
                async {
                    let rd = StreamArrayReader::try_new(TokioAdapter(rp), ctx()).await?.load_dtype().await?;
                    rd.into_array_stream().try_collect::<Vec<Array>>().await
                }
                .await,
            );
            done.unblock_writer();
        });
        if let Err(s) = run(vec![Some(w), Some(r)]) {
            return stalled(s);
        }
    }
    if let Some(Err(e)) = sent {
        return v("unwritable", format!("the compressed array cannot be sent: {e}"));
    }
    match got {
        Some(Ok(c)) => Ok(ChunkedArray::try_new(c, dtype)
            .map_err(|e| V { class: "wrong-type".into(), detail: e.to_string() })?
            .into_array()),
        Some(Err(e)) => v("unreadable", format!("the compressed array cannot be received: {e}")),
        None => v("unreadable", "nothing received"),
    }
}

fn c01() -> Res {
    world::swarm();
    let dt = if gen_bool(1, 4) {
        let k = gen_range(1, 4) as usize;
        Dt::new(Ty::Struct((0..k).map(|i| (format!("f{i}"), gen_dt(ALL_TYPES))).collect()), false)
    } else {
        gen_dt(ALL_TYPES)
    };
    let dtype = dt.dtype();
    let n = gen_range(1, 4) as usize;
    let mut arrays: Vec<(Array, Vec<Val>)> = Vec::new();
    for i in 0..n {
        let rows = gen_rows(3000);
        let vals = if i > 0 && gen_bool(1, 2) {
            more_like(&dt, &arrays[i - 1].1, rows)
        } else {
            gen_col(&dt, rows)
        };
        let depth = gen(3) as u32;
        let a = if gen_bool(1, 5) {
            let mut r = 0;
            let chunks: Vec<Array> = gen_splits(vals.len(), 4)
                .into_iter()
                .map(|k| {
                    r += k;
                    build(&dt, &vals[r - k..r], depth)
                })
                .collect();
            ChunkedArray::try_new(chunks, dtype.clone()).expect("chunks").into_array()
        } else {
            build(&dt, &vals, depth)
        };
        show_tree(&a);
        arrays.push((a, vals));
    }
    let (c, desc) = gen_compressor();
    let (c2, desc2) = gen_compressor();
    set_sample(format!(
        "{} arrays of {} ({:?} rows) with {desc} / {desc2}",
        n,
        dt.show(),
        arrays.iter().map(|a| a.1.len()).collect::<Vec<_>>()
    ));
    crate::ev!("{n} of {} with {desc} / {desc2}", dt.show());
    let mut hint: Option<CompressionTree<'static>> = None;
    for (i, (a, vals)) in arrays.iter().enumerate() {
        let cc = if gen_bool(1, 4) { &c2 } else { &c };
        let with_hint = hint.is_some() && gen_bool(2, 3);
        let what = format!("array {i}{}", if with_hint { " compressed with a hint" } else { " compressed" });
        let out = match cc.compress(a, if with_hint { hint.as_ref() } else { None }) {
            Ok(x) => x,
            Err(e) => return v("compress-failed", format!("{what}: {e}")),
        };
        if with_hint {
            probe("hinted");
        }
        let (x, path) = out.into_parts();
        crate::ev!("{what}: {} rows, {} of {} bytes", vals.len(), x.encoding().id(), x.nbytes());
        show_tree(&x);
        judge(&what, &x, &dtype, vals)?;
        if path.is_some() {
            probe("nontrivial");
            hint = path;
        }
        match gen(4) {
            0 => {
                let y = through_stream(&x)?;
                judge(&format!("{what}, sent and received"), &y, &dtype, vals)?;
            }
            1 => {
                // compressing again what is compressed already
                let (cc, d) = gen_compressor();
                let y = match cc.compress(&x, if gen_bool(1, 2) { hint.as_ref() } else { None }) {
                    Ok(y) => y.into_array(),
                    Err(e) => return v("recompress-failed", format!("{what}, again with {d}: {e}")),
                };
                show_tree(&y);
                judge(&format!("{what}, again with {d}"), &y, &dtype, vals)?;
            }
            _ => {}
        }
    }
    Ok(())
}

pub const C01: Prop = Prop {
    id: "C01",
    run: c01,
    quick: 60_000,
    quick_secs: 25,
    thorough: 3_000_000,
    thorough_secs: 1800,
    level: "simulated",
    rule: "one run compresses one to four arrays of one type under drawn sample positions, enabled sets, trial order (hash seed) and hints; non-trivial if some array was really compressed; distinct by event digest",
    real: &["vortex-sampling-compressor, all encodings, vortex-array, stream writer and reader"],
    stub: &["random source of the sampler and of hash maps (simulator)", "byte transport (simulator)"],
    assumptions: &["sample positions are drawn through the compressor's own seed and sample-size fields"],
};
