fn main() {
    mccore::run_main(mc_groth16::TABLE)
}
