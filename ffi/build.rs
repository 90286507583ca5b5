//! The foreign-function crate of /repo is compiled here from its own sources. The one module it lacks (the code flatc
//! generates from /repo/fbs) is stood in for by consolidated_generated.rs beside this file.
use std::path::Path;
fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let (p, q) = (e.path(), to.join(e.file_name()));
        if p.is_dir() {
            copy(&p, &q);
        } else if p.extension().map_or(false, |x| x == "rs") {
            std::fs::copy(&p, &q).unwrap();
        }
    }
}
fn main() {
    let src = Path::new("/repo/rs_ffi/src");
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=consolidated_generated.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    let to = Path::new(&out).join("ffi");
    let _ = std::fs::remove_dir_all(&to);
    copy(src, &to);
    let g = to.join("consolidated_generated.rs");
    if !g.exists() {
        std::fs::copy("consolidated_generated.rs", &g).unwrap();
    }
    // its root becomes a module of this crate: `crate::` stays valid because everything is re-exported at our root
    let lib = std::fs::read_to_string(to.join("lib.rs")).unwrap();
    let mods: String = lib.lines().map(|l| format!("{}\n", fix(l, &to))).collect();
    std::fs::write(Path::new(&out).join("root.rs"), mods).unwrap();
}
/// `mod x;` of the crate root gets the path of the copied file
fn fix(l: &str, to: &Path) -> String {
    let t = l.trim();
    if let Some(n) = t.strip_suffix(';').and_then(|x| x.rsplit_once("mod ").map(|y| y.1.trim().to_string())) {
        let f = to.join(format!("{}.rs", n));
        let f = if f.exists() { f } else { to.join(&n).join("mod.rs") };
        return format!("#[path = {:?}]\n{}", f, t);
    }
    l.to_string()
}
