use crate::runner::Prop;

mod compress;
mod files;
mod objects;
mod shared;
mod stats;
pub(crate) mod streams;
mod values;

pub static PROPS: &[Prop] = &[
    files::F01, files::F02, files::F03, files::F04, files::F05, files::F06, files::F07, files::F08, files::F09,
    streams::S01, streams::S02, streams::S03, streams::S04, compress::C01, stats::T02, objects::O01, objects::O02, shared::T01, values::T03,
];
