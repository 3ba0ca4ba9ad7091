//! Takes the real `main.rs` of the program in as a module.
fn main() {
    let src = "/repo/src/main.rs";
    println!("cargo:rerun-if-changed={}", src);
    println!("cargo:rerun-if-changed=build.rs");
    let text = std::fs::read_to_string(src).unwrap_or_default();
    let plain = "pub fn main() { let args: Vec<String> = std::env::args().collect(); waterbear::run_command(&args); }\n".to_string();
    let real = std::env::var_os("CARGO_FEATURE_PLAIN_MAIN").is_none() && text.contains("fn main()");
    let body = if real {
        let t: String = text.lines().filter(|l| !l.trim_start().starts_with("#![") && !l.trim_start().starts_with("//!")).map(|l| format!("{}\n", l)).collect();
        if t.contains("pub fn main()") { t } else { t.replacen("fn main()", "pub fn main()", 1) }
    } else { plain };
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("wbmain.rs");
    std::fs::write(out, body).unwrap();
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
