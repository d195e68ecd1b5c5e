fn main() {
    vs::main(hrips::TABLE)
}
