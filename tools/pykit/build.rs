fn main() {
    println!("cargo:rustc-link-lib=python3.12");
}
