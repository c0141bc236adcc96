fn main() {
    println!("cargo:rustc-env=__TOMBI_VERSION=0.0.0-vh");
    println!("cargo:rustc-env=__TOMBI_TARGET_TRIPLE=vh");
    println!("cargo:rerun-if-changed=build.rs");
}
