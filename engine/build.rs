fn main() {
    // libz3.so.4 ships without a development symlink on some images; link by file name.
    println!("cargo:rustc-link-search=native=/usr/lib/x86_64-linux-gnu");
    println!("cargo:rustc-link-lib=dylib=z3");
}
