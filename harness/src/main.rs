fn main() {
    vch::main()
}
