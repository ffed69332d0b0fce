fn main() {
    mccore::run_main(mc_hyrax::TABLE)
}
