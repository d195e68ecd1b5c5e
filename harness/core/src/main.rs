fn main() {
    vs::main(hcore::TABLE)
}
