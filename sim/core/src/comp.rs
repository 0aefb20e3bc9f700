//! Sampling compressors with a random subset of the compressors enabled.

use std::collections::HashSet;

use vortex::{Array, IntoArray, IntoArrayVariant};
use vortex_sampling_compressor::compressors::alp::ALPCompressor;
use vortex_sampling_compressor::compressors::alp_rd::ALPRDCompressor;
use vortex_sampling_compressor::compressors::bitpacked::{BITPACK_NO_PATCHES, BITPACK_WITH_PATCHES};
use vortex_sampling_compressor::compressors::date_time_parts::DateTimePartsCompressor;
use vortex_sampling_compressor::compressors::delta::DeltaCompressor;
use vortex_sampling_compressor::compressors::dict::DictCompressor;
use vortex_sampling_compressor::compressors::fsst::FSSTCompressor;
use vortex_sampling_compressor::compressors::r#for::FoRCompressor;
use vortex_sampling_compressor::compressors::roaring_bool::RoaringBoolCompressor;
use vortex_sampling_compressor::compressors::roaring_int::RoaringIntCompressor;
use vortex_sampling_compressor::compressors::runend::DEFAULT_RUN_END_COMPRESSOR;
use vortex_sampling_compressor::compressors::sparse::SparseCompressor;
use vortex_sampling_compressor::compressors::zigzag::ZigZagCompressor;
use vortex_sampling_compressor::compressors::CompressorRef;
use vortex_sampling_compressor::{CompressConfig, SamplingCompressor, DEFAULT_COMPRESSORS, FASTEST_COMPRESSORS};

use crate::world::{gen, gen_bool, gen_range, pick};

fn every() -> Vec<CompressorRef<'static>> {
    vec![
        &ALPCompressor,
        &BITPACK_WITH_PATCHES,
        &DateTimePartsCompressor,
        &DEFAULT_RUN_END_COMPRESSOR,
        &DictCompressor,
        &FoRCompressor,
        &FSSTCompressor,
        &SparseCompressor,
        &ZigZagCompressor,
        &DeltaCompressor,
        &RoaringBoolCompressor,
        &RoaringIntCompressor,
        &ALPRDCompressor,
        &BITPACK_NO_PATCHES,
    ]
}

/// A compressor whose enabled set, sampling parameters and seed come from the tape.
pub fn gen_compressor() -> (SamplingCompressor<'static>, String) {
    let set: Vec<CompressorRef<'static>> = match gen(5) {
        0 | 1 => DEFAULT_COMPRESSORS.to_vec(),
        2 => FASTEST_COMPRESSORS.to_vec(),
        3 => {
            let all = every();
            let n = all.len() as u64;
            let k = gen_range(1, 4);
            (0..k).map(|_| all[gen(n) as usize]).collect()
        }
        _ => every().into_iter().filter(|_| gen_bool(2, 3)).collect(),
    };
    let mut names: Vec<String> = set.iter().map(|c| c.id().to_string()).collect();
    names.sort();
    names.dedup();
    let set: HashSet<CompressorRef<'static>> = set.into_iter().collect();
    let cfg = gen_config();
    let desc = format!("{}{}", names.join("+"), cfg.1);
    (SamplingCompressor::new_with_options(set, cfg.0), desc)
}

fn gen_config() -> (CompressConfig, String) {
    if gen(2) == 0 {
        return (CompressConfig::default(), String::new());
    }
    let size = *pick(&[64u16, 1, 4, 16]);
    let count = *pick(&[16u16, 1, 2, 5]);
    let seed = gen(0);
    let cost = *pick(&[3u8, 1, 2, 5]);
    (
        CompressConfig::default().sim_tune(size, count, seed, cost),
        format!(" sample={size}x{count} seed={seed} max_cost={cost}"),
    )
}

pub fn compress_some(a: &Array) -> Option<Array> {
    let (c, _) = gen_compressor();
    // An error is not this caller's business; C01 checks that compression succeeds.
    c.compress(a, None).ok().map(|c| c.into_array())
}

/// One encoding alone, whether or not it is worth it.
pub fn encode_some(a: &Array) -> Option<Array> {
    let able: Vec<CompressorRef<'static>> = every().into_iter().filter(|c| c.can_compress(a).is_some()).collect();
    if let (Ok(p), true) = (a.clone().into_primitive(), gen_bool(1, 4)) {
        // any width: what does not fit becomes a patch
        if p.ptype().is_unsigned_int() {
            let w = gen(p.ptype().bit_width() as u64) as u8;
            return vortex_fastlanes::bitpack_encode(p, w).ok().map(|x| x.into_array());
        }
    }
    if able.is_empty() {
        return None;
    }
    let (inner, _) = gen_compressor();
    pick(&able).can_compress(a)?.compress(a, None, inner).ok().map(|c| c.into_array())
}
