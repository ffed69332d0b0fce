mod alg;
mod bits;
mod merkle;
mod words;
fn main() {
    mccore::run_main(&[
        ("D01", bits::d01),
        ("D02", words::d02),
        ("D03", words::d03),
        ("D04", alg::d04),
        ("D05", alg::d05),
        ("D06", bits::d06),
        ("D07", bits::d07),
        ("D08", merkle::d08),
        ("D09", merkle::d09),
    ]);
}
