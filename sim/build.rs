fn main() {
    // Memoise tree-sitter query compilation (a pure function of language and
    // source text): see src/tsmemo.rs.
    println!("cargo:rustc-link-arg-bins=-Wl,--wrap=ts_query_new");
    println!("cargo:rustc-link-arg-bins=-Wl,--wrap=ts_query_delete");
    println!("cargo:rerun-if-changed=build.rs");
}
