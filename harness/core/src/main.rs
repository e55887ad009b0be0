#[path = "../../common/native.rs"]
mod native;
fn main() {
    native::main_with(hcore::ENTRIES)
}
