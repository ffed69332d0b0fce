mod args;
fn main() {
    mccore::run_main(&[("E01", args::e01)])
}
