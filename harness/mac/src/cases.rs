//! Shared by the cases: how a candidate is shown as programs for the real compiler.
use crate::rt::*;

/// The programs that decide natively whether this path's verdict is right. `expect`: "ok" (`text` compiles
/// and runs), "rejected" (`text` does not compile although `base` does), "same" (both compile and print the
/// same, or neither compiles). Printed by the native replay only.
pub fn program(expect: &str, base: impl FnOnce() -> String, text: impl FnOnce() -> String, features: impl FnOnce() -> Vec<String>) {
    #[cfg(not(lsym))]
    {
        let esc = |s: String| s.replace('\\', "\\\\").replace('\n', "\\n").replace('"', "\\\"");
        let f: Vec<String> = features().into_iter().map(|f| format!("\"{}\"", f)).collect();
        println!(
            "CASE {{\"expect\": \"{}\", \"base\": \"{}\", \"program\": \"{}\", \"features\": [{}]}}",
            expect,
            esc(base()),
            esc(text()),
            f.join(", ")
        );
    }
}
