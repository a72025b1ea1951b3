mod c24;
fn main() {
    hx::front::main(&[("C24", c24::run)]);
}
