mod checks;
mod elf;
mod explore;
mod obj;
mod run;
mod structure;
mod util;
mod verify;

use explore::*;
use run::*;
use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s == "orders").unwrap_or(false) {
        return checks::cli::print_orders();
    }
    if a.len() < 6 {
        eprintln!("usage: mc (check|replay) PROPERTY DLD SHIM VERIF [CASE-ID]");
        std::process::exit(2);
    }
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let base = [PathBuf::from("/dev/shm"), std::env::temp_dir()].into_iter().find(|d| {
        let p = d.join(format!("dldmc.{}", std::process::id()));
        std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("t"), b"x").is_ok()
    });
    let scratch = match base {
        Some(b) => b.join(format!("dldmc.{}", std::process::id())),
        None => {
            eprintln!("no scratch directory");
            std::process::exit(3);
        }
    };
    // copies that an unprivileged user can run
    let copy = |from: &str, name: &str| {
        let to = scratch.join(name);
        std::fs::copy(from, &to).map(|_| to).unwrap_or_else(|_| PathBuf::from(from))
    };
    let mut cfg = Config { dld: copy(&a[3], "dld"), shim: copy(&a[4], "shim.so"), scratch: scratch.clone(), verif: PathBuf::from(&a[5]), unprivileged: false };
    let runs = |p: &PathBuf, user: Option<u32>| {
        let mut c = std::process::Command::new(p);
        if let Some(u) = user {
            std::os::unix::process::CommandExt::uid(&mut c, u);
        }
        c.arg("--help").current_dir("/").output().is_ok()
    };
    if !runs(&cfg.dld, None) {
        cfg.dld = PathBuf::from(&a[3]);
        cfg.shim = PathBuf::from(&a[4]);
    }
    let root = std::os::unix::fs::MetadataExt::uid(&std::fs::metadata("/proc/self").unwrap()) == 0;
    cfg.unprivileged = root && runs(&cfg.dld, Some(NOBODY));
    let mut c = Check::new(&a[2], tier, cfg, seed);
    if a[1] == "replay" {
        c.only = a.get(6).cloned();
    }
    if std::env::var("MC_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|i| eprintln!("machinery: {}", i)));
    }
    let r = checks::run(c);
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(r);
}
