//! Puts links to the sources under OUT_DIR/src, so that the crate root can be included from there. Only the root is
//! copied, without the attributes and documentation of the crate itself, which an included file cannot have.
use std::path::Path;
const FROM: &str = "/repo/trading-engine/src";

fn main() {
    println!("cargo:rerun-if-changed={FROM}");
    let to = Path::new(&std::env::var("OUT_DIR").unwrap()).join("src");
    let _ = std::fs::remove_dir_all(&to);
    std::fs::create_dir_all(&to).unwrap();
    for e in std::fs::read_dir(FROM).unwrap() {
        let e = e.unwrap();
        if e.file_name() != "lib.rs" {
            std::os::unix::fs::symlink(e.path(), to.join(e.file_name())).unwrap();
        }
    }
    let root = std::fs::read_to_string(format!("{FROM}/lib.rs")).unwrap();
    let lines: Vec<&str> = root.lines().map(|l| if l.trim_start().starts_with("//!") || (l.trim_start().starts_with("#![") && l.trim_end().ends_with(']')) { "" } else { l }).collect();
    std::fs::write(to.join("lib.rs"), lines.join("\n") + "\n").unwrap();
}
