//! Running the installed ssh-keygen inside a scratch directory.
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::refcert::Spec;
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::process::{Command, Stdio};

/// Whether ssh-keygen is there at all.
pub fn available() -> bool {
    use std::sync::OnceLock;
    static A: OnceLock<bool> = OnceLock::new();
    *A.get_or_init(|| Command::new("ssh-keygen").arg("-?").stdin(Stdio::null()).output().is_ok())
}

pub fn keygen(args: &[&str], stdin: &[u8]) -> (bool, String) {
    let mut ch = match Command::new("ssh-keygen")
        .args(args)
        .env("TZ", "UTC")
        .env_remove("SSH_AUTH_SOCK")
        .env_remove("SSH_ASKPASS")
        .env_remove("DISPLAY")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return (false, e.to_string()),
    };
    let mut si = ch.stdin.take().unwrap();
    let data = stdin.to_vec();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(&data);
    });
    let o = ch.wait_with_output().unwrap();
    let _ = h.join();
    (
        o.status.success(),
        format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)),
    )
}

pub fn write_private_text(p: &Path, text: &str) {
    std::fs::write(p, text).unwrap();
    std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o600)).unwrap();
}
pub fn write_private(p: &Path, k: &Key) {
    write_private_text(p, &PrivFile::new(k, &PrivExtra::default(), "ca", 99).text());
}

/// A section whose cases get a scratch directory of their own. Skipped (and recorded as such)
/// when ssh-keygen is missing.
pub fn section<F: Fn(&mut Case<'_>, &Path) + Sync>(m: &Mon, name: &str, n: u64, f: F) {
    if !available() {
        m.event("ssh-keygen missing", 1);
        m.assume("ssh-keygen was not installed, the comparison with it was skipped");
        return;
    }
    m.section(name, n, |c| {
        let dir = m.scratch.join(format!("{}-{}", name, c.idx));
        let _ = std::fs::create_dir_all(&dir);
        f(c, &dir);
        let _ = std::fs::remove_dir_all(&dir);
    });
}

/// Lines `ssh-keygen -L` must show.
pub fn expect_listing(s: &Spec, sub: &Key, ca: &Key) -> Vec<String> {
    let fp = |b: &[u8]| format!("SHA256:{}", base64::encode(openssl::sha::sha256(b)).trim_end_matches('='));
    let st = |v: &[u8]| String::from_utf8_lossy(v).to_string();
    let short = |k: KT| match k {
        KT::Rsa => "RSA",
        KT::Ed => "ED25519",
        KT::SkEd => "ED25519-SK",
        KT::SkEc => "ECDSA-SK",
        _ => "ECDSA",
    };
    let alg = match ca.kt {
        KT::Rsa => "rsa-sha2-512",
        k => k.name(),
    };
    let mut v = vec![
        format!("Type: {} {} certificate", s.kt.cert_name(), if s.ctype == 1 { "user" } else { "host" }),
        format!("Public key: {}-CERT {}", short(sub.kt), fp(&sub.blob())),
        format!("Signing CA: {} {} (using {})", short(ca.kt), fp(&ca.blob()), alg),
        format!("Key ID: \"{}\"", st(&s.key_id)),
        format!("Serial: {}", s.serial),
    ];
    if s.after == 0 && s.before == u64::MAX {
        v.push("Valid: forever".into());
    } else {
        v.push(format!("Valid: from {} to {}", iso(s.after), iso(s.before)));
    }
    if s.principals.is_empty() {
        v.push("Principals: (none)".into());
    }
    v.extend(s.principals.iter().map(|p| st(p)));
    if s.crit.is_empty() {
        v.push("Critical Options: (none)".into());
    }
    v.extend(s.crit.iter().map(|(k, x)| format!("{} {}", st(k), st(x)).trim().to_string()));
    if s.ext.is_empty() {
        v.push("Extensions: (none)".into());
    }
    v.extend(s.ext.iter().map(|(k, x)| format!("{} {}", st(k), st(x)).trim().to_string()));
    v
}

/// UTC calendar form of a Unix time (proleptic Gregorian).
pub fn civil(t: i64) -> (i64, u32, u32, u32, u32, u32) {
    let days = t.div_euclid(86400);
    let s = t.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let mo = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if mo <= 2 { 1 } else { 0 };
    (y, mo as u32, d as u32, (s / 3600) as u32, (s / 60 % 60) as u32, (s % 60) as u32)
}
pub fn iso(t: u64) -> String {
    let (y, mo, d, h, mi, s) = civil(t as i64);
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", y, mo, d, h, mi, s)
}
