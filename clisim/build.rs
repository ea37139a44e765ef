// main.rs of the tool prints these as its version.
fn main() {
    println!("cargo:rustc-env=VERGEN_GIT_DESCRIBE=sim");
    println!("cargo:rustc-env=VERGEN_RUSTC_SEMVER=sim");
    println!("cargo:rustc-check-cfg=cfg(feature, values(\"tracing-subscriber\"))");
    println!("cargo:rerun-if-changed=build.rs");
}
