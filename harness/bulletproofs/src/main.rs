fn main() {
    mccore::run_main(mc_bulletproofs::TABLE)
}
