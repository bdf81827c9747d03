//! What a combination of the library's features has, against the same model.
fn main() { vh::engine::main_with(vh::featreg::units(), |_| Ok(Vec::new())) }
