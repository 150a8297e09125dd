use std::path::Path;
use std::{env, fs};

fn main() {
    let repo = env::var("MEERKAT_REPO").unwrap_or_else(|_| "/repo".into());
    let out = env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-env-changed=MEERKAT_REPO");
    // content hash of the sources, set by the check script: never trust mtimes alone
    println!("cargo:rerun-if-env-changed=MEERKAT_SRC_HASH");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rustc-env=MEERKAT_SRC_HASH={}", env::var("MEERKAT_SRC_HASH").unwrap_or_default());
    println!("cargo:rustc-cfg=meerkat_sim");
    println!("cargo:rustc-check-cfg=cfg(meerkat_sim)");
    println!("cargo:rustc-check-cfg=cfg(meerkat_sim_log)");
    // second try of the check script, for a tree whose BlockIndex keeps its entries in other fields
    println!("cargo:rerun-if-env-changed=MEERKAT_SIM_LOG");
    if env::var_os("MEERKAT_SIM_LOG").is_some() {
        println!("cargo:rustc-cfg=meerkat_sim_log");
    }
    let proto = format!("{repo}/src/store/segment_metadata.proto");
    println!("cargo:rerun-if-changed={proto}");
    let mut cfg = prost_build::Config::new();
    cfg.out_dir(&out);
    cfg.compile_protos(&[proto.as_str()], &[format!("{repo}/src/store").as_str()]).expect("protobuf compilation failed");
    // /repo's crate is a binary without a library target, so its module tree is included by path.
    fs::write(
        Path::new(&out).join("store_mod.rs"),
        format!("#[path = {:?}]\npub mod store;\n", format!("{repo}/src/store/mod.rs")),
    )
    .unwrap();
}
