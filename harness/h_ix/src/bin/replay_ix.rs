slxrt::runtime!();
fn main() {
    slxrt::native::main(h_ix::ENTRIES);
}
