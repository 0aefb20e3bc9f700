//! Simulation of the query-engine integration.
#![allow(clippy::all)]

mod props;
mod query;
mod rows;
mod session;

vsim::interpose_getrandom!();

fn main() {
    vsim::runner::main(props::PROPS);
}
