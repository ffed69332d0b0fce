fn main() {
    mccore::run_main(mc_asvc::TABLE)
}
