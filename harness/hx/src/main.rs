fn main() {
    hx::front::main(&[("C01", hx::c01::run), ("C02", hx::c02::run), ("C04", hx::c04::run), ("C05", hx::c05::run), ("C06", hx::c06::run), ("C07", hx::c07::run), ("C15", hx::c15::run), ("C16", hx::c16::run), ("C17", hx::c17::run), ("C18", hx::c18::run), ("C19", hx::c19::run), ("C20", hx::c20::run), ("C21", hx::c21::run), ("C23", hx::c23::run), ("C10", hx::c10::run), ("C11", hx::c11::run), ("C09", hx::c09::run), ("C12", hx::c12::run), ("C13", hx::c13::run), ("C14", hx::c14::run), ("C26", hx::c26::run)]);
}
