#[path = "../../common/native.rs"]
mod native;
fn main() {
    native::main_with(henv::ENTRIES)
}
