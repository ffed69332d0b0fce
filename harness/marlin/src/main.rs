fn main() {
    mccore::run_main(mc_marlin::TABLE)
}
