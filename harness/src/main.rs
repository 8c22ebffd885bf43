mod alloc;
mod card;
mod der;
mod keys;
mod mon;
mod mutate;
mod openssh;
mod p_allowed;
mod p_card;
mod p_cert;
mod p_exact;
mod p_fido;
mod p_files;
mod p_hist;
mod p_piv;
mod p_priv;
mod p_pub;
mod p_rand;
mod p_robust;
mod p_sig;
mod p_token;
mod p_wire;
mod refcert;
mod rng;
mod vectors;
mod wire;

use mon::Mon;
use std::path::PathBuf;

#[global_allocator]
static GLOBAL: alloc::MonAlloc = alloc::MonAlloc;

pub fn verif_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("..")
}

/// Known findings of a property: lines "known: property=<id> <text>" of KNOWN_FINDINGS; a
/// violation whose description contains <text> is that finding.
pub fn known_findings(pid: &str) -> Vec<String> {
    let s = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS")).unwrap_or_default();
    let pre = format!("known: property={} ", pid);
    s.lines().filter_map(|l| l.strip_prefix(&pre).map(|x| x.trim().to_string())).filter(|x| !x.is_empty()).collect()
}

fn dispatch(m: &'static Mon) -> bool {
    match m.pid.as_str() {
        "C01" => p_cert::c01(m),
        "C02" => p_cert::c02(m),
        "C03" => p_cert::c03(m),
        "C04" => p_cert::c04(m),
        "C05" => p_sig::c05(m),
        "C06" => p_sig::c06(m),
        "C07" => p_sig::c07(m),
        "C08" => p_pub::c08(m),
        "C09" => p_pub::c09(m),
        "C10" => p_priv::c10(m),
        "C11" => p_priv::c11(m),
        "C12" => p_priv::c12(m),
        "C13" => p_priv::c13(m),
        "C14" => p_priv::c14(m),
        "C15" => p_robust::c15(m),
        "C16" => p_wire::c16(m),
        "C17" => p_allowed::c17(m),
        "C18" => p_allowed::c18(m),
        "C19" => p_fido::c19(m),
        "C20" => p_fido::c20(m),
        "C21" => p_piv::c21(m),
        "C22" => p_piv::c22(m),
        "C23" => p_piv::c23(m),
        "C24" => p_rand::c24(m),
        "C25" => p_hist::c25(m),
        "C26" => p_cert::c26(m),
        "C27" => p_card::c27(m),
        "C28" => p_token::c28(m),
        "C29" => p_exact::c29(m),
        "C30" => p_files::c30(m),
        _ => return false,
    }
    true
}

/// The cases that were being run.
fn journaled(j: &[u8]) -> Vec<(String, u64)> {
    let mut v = vec![];
    for s in j.chunks(64) {
        let s = String::from_utf8_lossy(s).into_owned();
        let (sec, idx) = (s[..40.min(s.len())].trim().to_string(), s[40.min(s.len())..].trim().parse::<u64>());
        if let (false, Ok(i)) = (sec.is_empty(), idx) {
            v.push((sec, i));
        }
    }
    v
}

/// Runs the monitor in a child process; if the child dies (abort, stack overflow), finds the case
/// that kills it by running those it was busy with alone.
fn in_child(mon: &'static Mon, args: &[String]) -> i32 {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    let exe = std::env::current_exe().expect("own path");
    let journal = mon.scratch.join("journal");
    std::fs::write(&journal, vec![b' '; 64 * 64]).expect("journal");
    let limited = |c: &mut std::process::Command| unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    };
    let mut c = std::process::Command::new(&exe);
    c.args(&args[1..]).env("MON_JOURNAL", &journal);
    limited(&mut c);
    let st = c.status().expect("child");
    if let Some(code) = st.code() {
        let _ = std::fs::remove_dir_all(&mon.scratch);
        return code;
    }
    println!("the monitored process died: {}", st);
    let j = std::fs::read(&journal).unwrap_or_default();
    for (sec, idx) in journaled(&j) {
        let f = mon.scratch.join("case.json");
        let v = serde_json::json!({"property": mon.pid, "tier": if mon.thorough {"thorough"} else {"quick"}, "seed": mon.seed, "section": sec, "case": idx});
        let _ = std::fs::write(&f, v.to_string());
        let mut c = std::process::Command::new(&exe);
        c.arg("replay").arg(&f).env("MON_JOURNAL", &journal).stderr(std::process::Stdio::piped()).stdout(std::process::Stdio::null());
        limited(&mut c);
        if let Ok(o) = c.output() {
            let err = String::from_utf8_lossy(&o.stderr).lines().filter(|l| !l.is_empty()).take(3).collect::<Vec<_>>().join(" | ");
            if o.status.code().is_none() {
                mon.record(mon::Violation { section: sec, idx, what: format!("the call kills the process ({}): {}", o.status, err), detail: serde_json::json!(null) });
            } else if o.status.code() == Some(1) {
                mon.record(mon::Violation { section: sec, idx, what: "the call takes too much time or memory".into(), detail: serde_json::json!(null) });
            }
        }
    }
    if mon.violations() == 0 && st.signal() != Some(libc::SIGKILL) {
        // The monitors trap panics and contain no code that kills its process: something called did.
        let (sec, idx) = journaled(&j).into_iter().next().unwrap_or(("unknown".into(), 0));
        mon.record(mon::Violation { section: sec, idx, what: format!("the process is killed while calls are made ({}), though by none of the last calls alone", st), detail: serde_json::json!(null) });
    }
    let code = mon.finish();
    if code == 0 { 2 } else { code }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let replays = verif_dir().join("replays");
    let mon = match a.get(1).map(|s| s.as_str()) {
        Some("run") if a.len() >= 3 => {
            let thorough = match a.get(3).map(|s| s.as_str()) {
                Some("thorough") => true,
                Some("quick") => false,
                _ => thorough,
            };
            Mon::new(&a[2], thorough, seed, replays)
        }
        Some("tzchild") if a.len() == 5 => {
            mon::install_panic_hook();
            let n = |i: usize| a[i].parse().unwrap_or(0u64);
            p_allowed::c18_child(n(2), n(3), n(4));
            return;
        }
        Some("histchild") if a.len() == 4 => {
            mon::install_panic_hook();
            p_hist::c25_child(&a[2], &a[3]);
            return;
        }
        Some("replay") if a.len() >= 3 => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("replay file");
            let mut m = Mon::new(
                j["property"].as_str().unwrap(),
                j["tier"].as_str() == Some("thorough"),
                j["seed"].as_u64().unwrap(),
                std::env::temp_dir(),
            );
            m.only = Some((j["section"].as_str().unwrap().to_string(), j["case"].as_u64().unwrap()));
            m
        }
        _ => {
            eprintln!("usage: monitor run <property> [quick|thorough] | monitor replay <file>");
            std::process::exit(2);
        }
    };
    mon::install_panic_hook();
    let mon: &'static Mon = Box::leak(Box::new(mon));
    mon::start_watchdog(mon);
    if mon.pid == "C15" && mon.only.is_none() && std::env::var_os("MON_JOURNAL").is_none() {
        std::process::exit(in_child(mon, &a));
    }
    if !dispatch(mon) {
        eprintln!("unknown property {}", mon.pid);
        std::process::exit(2);
    }
    std::process::exit(mon.finish());
}
