fn main() {
    h_slt::entry()
}
