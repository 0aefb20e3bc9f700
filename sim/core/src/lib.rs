#![allow(clippy::all)]
pub mod arrows;
pub mod comp;
pub mod exec;
pub mod file;
pub mod gen;
pub mod io;
pub mod objstore;
pub mod pred;
pub mod runner;
pub mod tape;
pub mod threads;
pub mod val;
pub mod world;
pub mod props;
