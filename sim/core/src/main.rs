vsim::interpose_getrandom!();

fn main() {
    vsim::runner::main(vsim::props::PROPS);
}
