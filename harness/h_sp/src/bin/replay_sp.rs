slxrt::runtime!();
fn main() {
    slxrt::native::main(h_sp::ENTRIES);
}
