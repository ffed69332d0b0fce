fn main() {
    mccore::run_main(mc_spartan::TABLE)
}
