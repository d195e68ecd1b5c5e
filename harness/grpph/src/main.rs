fn main() {
    vs::main(hgrpph::TABLE)
}
