mod polys;
fn main() {
    mccore::run_main(&[("E02", polys::e02)])
}
