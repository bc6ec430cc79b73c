// The schema constants, taken from the repository's schema/mod.rs.
fn main() {
    let p = "/repo/common/models/src/schema/mod.rs";
    println!("cargo:rerun-if-changed={p}");
    let s = std::fs::read_to_string(p).unwrap();
    let c: String = s.lines().filter(|l| l.starts_with("pub const") || l.starts_with("    \"")).map(|l| format!("{l}\n")).collect();
    std::fs::write(format!("{}/schema_consts.rs", std::env::var("OUT_DIR").unwrap()), c).unwrap();
}
