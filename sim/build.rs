//! Links the Python runtime and tells where the Python part of up4 lies.
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=Cargo.toml");
    if std::env::var_os("CARGO_CFG_UP4_SIM_PYTHON").is_none() {
        return;
    }
    println!("cargo:rustc-link-lib=python3.12");
    let toml = std::fs::read_to_string("Cargo.toml").expect("Cargo.toml");
    let at = toml.split("upppp_rust = { path = \"").nth(1).and_then(|x| x.split('"').next()).expect("path of up4");
    println!("cargo:rustc-env=UP4_PYTHON={}", at);
}
