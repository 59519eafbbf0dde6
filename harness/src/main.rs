#![cfg_attr(not(feature = "deep"), allow(dead_code, unused))]
mod engine;
mod debug_tree;
mod gen;
#[cfg(feature = "gen_ese")]
mod gen_ese;
#[cfg(feature = "gen_sct")]
mod gen_sct;
#[cfg(feature = "gen_sky")]
mod gen_sky;
#[cfg(feature = "gen_sym")]
mod gen_sym;
#[cfg(feature = "seeds")]
mod gram;
#[cfg(any(feature = "c20", feature = "c21", feature = "c23"))]
mod palette;
#[cfg(feature = "seeds")]
mod seeds;
#[cfg(feature = "world")]
mod world;
mod props;

use engine::{case_seed, run_prop, run_single, write_replay};
use std::os::unix::process::ExitStatusExt as _;
use std::process::Command;

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.trim().parse::<i64>().ok()).map_or(default, |v| v as u64)
}

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    let find = |id: &str| {
        props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let code = match args.iter().map(String::as_str).collect::<Vec<_>>().as_slice() {
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        ["worker", id, journal] => run_prop(&find(id), tier, seed, Some(journal.into())),
        ["inline", id] => run_prop(&find(id), tier, seed, None),
        ["single", id, sub, seed] => run_single(&find(id), sub, None, seed.parse().ok()),
        ["replay", file] => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).unwrap();
            let choices = v["choices"]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>());
            run_single(
                &find(v["property"].as_str().unwrap()),
                v["sub"].as_str().unwrap(),
                choices,
                v["seed"].as_u64(),
            )
        }
        ["run", id] => supervise(id, tier, seed, &find(id)),
        _ => {
            eprintln!("usage: vp-check run ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

/// Runs the search in a child process, so that an abort (stack or memory exhaustion, double
/// panic) of the code under test is attributed to the case that caused it.
fn supervise(id: &str, tier: &str, seed: u64, prop: &engine::Prop) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let base = std::env::temp_dir().join(format!("vp-check-{}", std::process::id()));
    std::fs::create_dir_all(&base).expect("scratch");
    let journal = base.join("journal");
    std::fs::write(&journal, [0u8; 16 * 64]).expect("journal");
    let status = Command::new(&exe)
        .args(["worker", id])
        .arg(&journal)
        .env("VERIF_TIER", tier)
        .env("VERIF_SEED", seed.to_string())
        .env("VP_SCRATCH", base.join("w"))
        .status()
        .expect("spawn");
    let mut code = status.code().unwrap_or(2);
    if status.signal().is_some() {
        let j = std::fs::read(&journal).unwrap_or_default();
        for c in j.chunks_exact(16) {
            let s = u64::from_le_bytes(c[..8].try_into().unwrap());
            let i = u64::from_le_bytes(c[8..].try_into().unwrap());
            if s == 0 {
                continue;
            }
            let sub = prop.subs[s as usize - 1].name;
            let cs = case_seed(seed, id, sub, i);
            let st = Command::new(&exe)
                .args(["single", id, sub, &cs.to_string()])
                .env("VP_SCRATCH", base.join("s"))
                .output()
                .expect("spawn");
            if let Some(sig) = st.status.signal() {
                let v = serde_json::json!({"property": id, "sub": sub, "seed": cs,
                    "message": format!("process killed by signal {sig}")});
                let p = write_replay(id, sub, &v);
                println!("process killed by signal {sig} in {sub}, case {i}");
                println!("VIOLATION property={id} replay={}", p.display());
                code = 1;
            }
        }
    }
    std::fs::remove_dir_all(&base).ok();
    code
}
