//! Takes the sources of the command line program as they are in /repo, with
//! three seams: the arguments, the end of the process, and the name of the
//! entry point.  Everything else a command does to the outside goes through
//! libc, which the simulator serves.
use std::path::{Path, PathBuf};
use std::{env, fs};

const BIN: &str = "/repo/src/bin";

fn seams(s: &str) -> String {
    s.replace("::std::process::exit", "::simkit::world::exit")
        .replace("std::process::exit", "simkit::world::exit")
        .replace(" process::exit(", " simkit::world::exit(")
        .replace("std::env::args()", "simkit::world::args().into_iter()")
        .replace(" env::args()", " simkit::world::args().into_iter()")
}

fn copy(from: &Path, to: &Path) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let q = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &q);
        } else if p.extension().map_or(false, |x| x == "rs") {
            fs::write(&q, seams(&fs::read_to_string(&p).unwrap())).unwrap();
        }
    }
}

fn main() {
    println!("cargo:rerun-if-changed={}", BIN);
    println!("cargo:rerun-if-changed=build.rs");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    let dir = out.join("bin");
    let _ = fs::remove_dir_all(&dir);
    copy(Path::new(BIN), &dir);
    let main = seams(&fs::read_to_string(Path::new(BIN).join("main.rs")).unwrap());
    let mut root = String::new();
    for line in main.lines() {
        let t = line.trim();
        if t.starts_with("#![") || t.starts_with("//!") {
            continue;
        }
        let name = t.trim_start_matches("pub ").trim_start_matches("mod ");
        if t.ends_with(';') && name != t && !name.contains(' ') && t.contains("mod ") {
            let m = name.trim_end_matches(';');
            let file = if dir.join(format!("{}.rs", m)).exists() {
                dir.join(format!("{}.rs", m))
            } else {
                dir.join(m).join("mod.rs")
            };
            root.push_str(&format!("#[path = {:?}]\nmod {};\n", file, m));
        } else {
            root.push_str(line);
            root.push('\n');
        }
    }
    let root = root
        .replace(".get_matches()", ".get_matches_from_safe(simkit::world::args()).unwrap_or_else(|_| simkit::world::exit(1))")
        .replace("fn main()", "fn the_main()");
    fs::write(out.join("front.rs"), root).unwrap();
}
