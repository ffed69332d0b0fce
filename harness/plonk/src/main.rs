fn main() {
    mccore::run_main(mc_plonk::TABLE)
}
