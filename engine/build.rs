// Links the engine against the LLVM shared library of the Rust toolchain (used to read the
// compiler's IR) and against libz3.
use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = String::from_utf8(out.stdout).unwrap();
    let lib = format!("{}/lib", sysroot.trim());
    let mut name = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let n = e.unwrap().file_name().into_string().unwrap();
        if n.starts_with("libLLVM.so") { name = Some(n); }
    }
    let name = name.expect("no libLLVM.so* in the sysroot");
    println!("cargo:rustc-link-arg=-Wl,--allow-shlib-undefined");
    println!("cargo:rustc-link-arg={lib}/{name}");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{lib}");
    println!("cargo:rustc-link-lib=dylib=z3");
    println!("cargo:rerun-if-changed=build.rs");
}
