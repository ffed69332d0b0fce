fn main() {
    mccore::run_main(mc_libra::TABLE)
}
