#![allow(non_snake_case, dead_code)]
mod core;
mod core2;
mod fw;
mod gadgets;
mod gprops;
mod gprops2;
mod gprops3;
mod prog;
mod refcs;
mod refhash;
mod solver;
mod src;

use fw::*;
use std::io::Write;
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::time::Duration;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

fn props() -> Vec<Prop> {
    vec![
        core::p01(),
        core::p02(),
        core::p03(),
        core::p04(),
        gprops3::p05(),
        core2::p06(),
        core2::p07(),
        core::p08(),
        core2::p09(),
        core2::p10(),
        core::p24(),
        gprops::p11(),
        gprops::p12(),
        gprops::p13(),
        gprops::p14(),
        gprops::p15(),
        gprops2::p16(),
        gprops::p17(),
        gprops2::p18(),
        gprops::p19(),
        gprops2::p20(),
        gprops2::p25(),
        gprops3::p21(),
        gprops3::p22(),
        gprops3::p23(),
    ]
}

/// The code under test prints timings: keep them out of our output.
fn quiet_stdout() -> std::fs::File {
    unsafe {
        let saved = dup(1);
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
        dup2(null.as_raw_fd(), 1);
        std::fs::File::from_raw_fd(saved)
    }
}

fn write_replay(verif: &str, id: &str, f: &Failure) -> String {
    let dir = format!("{}/replays", verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, id, f.sub);
    let j = serde_json::json!({
        "property": id, "sub": f.sub, "choices": f.choices, "reason": f.reason,
        "replay_cmd": format!("bash /verif/check.sh replay {}", path),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap() + "\n").expect("replay file");
    path
}

/// How often the quick counts of the sub-checks are run
fn quick_factor(id: &str) -> usize {
    match id {
        "P10" | "P16" => 20,
        "P09" | "P25" => 8,
        "P07" | "P08" | "P24" => 4,
        "P04" | "P05" | "P06" | "P11" | "P14" | "P15" | "P17" | "P18" | "P20" | "P21" | "P22" | "P23" => 3,
        "P13" => 2,
        _ => 1,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut out = quiet_stdout();
    install_panic_hook();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    match args.get(1).map(|x| x.as_str()) {
        Some("list") => {
            for p in props() {
                writeln!(out, "{}", p.id).unwrap();
            }
        }
        Some("run") => {
            let id = &args[2];
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let only = std::env::var("VERIF_SUB").ok();
            let mut prop = props().into_iter().find(|p| p.id == *id).unwrap_or_else(|| {
                eprintln!("unknown property {}", id);
                std::process::exit(2)
            });
            if let Some(o) = only {
                prop.subs.retain(|s| s.name == o);
            }
            // a case that never ends: report it from the watchdog, the worker cannot be stopped
            let hid = id.clone();
            let hverif = verif.clone();
            let hout = std::sync::Mutex::new(out.try_clone().expect("stdout"));
            let hang: Box<dyn Fn(Failure) + Send + Sync> = Box::new(move |f: Failure| {
                let path = write_replay(&hverif, &hid, &f);
                let mut out = hout.lock().unwrap();
                let _ = writeln!(out, "{}/{}: {}", hid, f.sub, f.reason);
                let _ = writeln!(out, "VIOLATION property={} replay={}", hid, path);
                std::process::exit(1);
            });
            // fixed amount of work per property, sized for about half a minute on eight cores
            if tier == "quick" {
                for sub in prop.subs.iter_mut() {
                    sub.quick *= quick_factor(id);
                }
            }
            let limit = Duration::from_secs(if tier == "quick" { 120 } else { 300 });
            let r = run_prop(&prop, tier, seed, scale, limit, hang);
            let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
            std::fs::write(
                format!("{}/evidence/{}.json", verif, id),
                serde_json::to_string_pretty(&r.evidence).unwrap() + "\n",
            )
            .expect("evidence file");
            let cov = &r.evidence["coverage"];
            writeln!(
                out,
                "{} {} evaluations={} distinct_nontrivial={} wall={:.1}s",
                id,
                tier,
                cov["evaluations"],
                cov["distinct_nontrivial"],
                r.evidence["wall_s"].as_f64().unwrap_or(0.0)
            )
            .unwrap();
            if let Some(f) = r.failure {
                let path = write_replay(&verif, id, &f);
                writeln!(out, "{}/{}: {}", id, f.sub, f.reason).unwrap();
                writeln!(out, "VIOLATION property={} replay={}", id, path).unwrap();
                std::process::exit(1);
            }
        }
        Some("replay") => {
            let j: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let id = j["property"].as_str().unwrap().to_string();
            let sub = j["sub"].as_str().unwrap().to_string();
            let ch: Vec<u64> = j["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            let prop = props().into_iter().find(|p| p.id == id).expect("property");
            match replay(&prop, &sub, &ch) {
                Ok(()) => writeln!(out, "{}/{}: holds on this input", id, sub).unwrap(),
                Err(e) => {
                    writeln!(out, "{}/{}: {}", id, sub, e).unwrap();
                    writeln!(out, "VIOLATION property={} replay={}", id, args[2]).unwrap();
                    std::process::exit(1);
                }
            }
        }
        _ => {
            eprintln!("usage: bpharness list | run <id> | replay <file>");
            std::process::exit(2);
        }
    }
}
