fn main() {
    println!("cargo:rustc-env=VERGEN_GIT_SHA=0000000");
    println!("cargo:rustc-env=VERGEN_BUILD_DATE=2026-01-01");
}
