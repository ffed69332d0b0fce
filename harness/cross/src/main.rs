//! Properties that span all proof systems.
mod crash;
mod fs;
mod hiding;
mod roundtrip;
mod schedules;
mod setups;
fn main() {
    mccore::run_main(&[("F01", fs::f01), ("V01", crash::v01), ("K01", hiding::k01), ("Z01", roundtrip::z01), ("Q01", schedules::q01), ("U01", setups::u01), ("golden", fs::golden)])
}
