//! The storage engine's entry points go through gate.rs
fn main() {
    for f in ["sqlite3_step", "sqlite3_exec", "sqlite3_busy_timeout"] {
        println!("cargo:rustc-link-arg-bins=-Wl,--wrap={f}");
    }
}
