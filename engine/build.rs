fn main() {
    let new = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib";
    if std::path::Path::new(&format!("{new}/libz3.so")).exists() {
        println!("cargo:rustc-link-search=native={new}");
        println!("cargo:rustc-link-arg=-Wl,-rpath,{new}");
    }
    println!("cargo:rustc-link-lib=dylib=z3");
}
