//! C28: security-key signing and enrolment against emulated FIDO2 tokens. Every case is a process
//! of its own (bin/token.rs) whose HID transport is replaced; the monitor judges what the tokens
//! were asked for and what the calls returned.
use crate::keys::*;
use crate::mon::*;
use crate::rng::Rng;
use crate::vectors::*;
use crate::{p_fido, p_priv, p_sig, refcert};
use openssl::sha::sha256;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

/// A call has this long to return; the token operations give up after 15 seconds.
const LIMIT_S: u64 = 45;

enum Run {
    Report(Value),
    /// killed in the middle of this operation
    Hangs(usize),
    Broken(String),
}
fn run(c: &Case<'_>, plan: &Value, n: usize) -> Run {
    let exe = std::env::current_exe().ok().and_then(|p| p.parent().map(|d| d.join("token"))).expect("path");
    let dir = c.mon.scratch.join(format!("t-{}-{}-{}", c.section, c.idx, n));
    let _ = std::fs::create_dir_all(&dir);
    let (p, r) = (dir.join("plan"), dir.join("report"));
    std::fs::write(&p, plan.to_string()).expect("plan");
    let mut ch = std::process::Command::new(&exe)
        .arg(&p)
        .arg(&r)
        .current_dir(&dir)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("token process");
    let ops = plan["ops"].as_array().map(|v| v.len()).unwrap_or(1) as u64;
    let t0 = Instant::now();
    let mut status = None;
    while t0.elapsed().as_secs() < LIMIT_S * ops {
        if let Ok(Some(s)) = ch.try_wait() {
            status = Some(s);
            break;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 400 { 4 } else { 25 }));
        // one operation must not use up the time of all
        if t0.elapsed().as_secs() > LIMIT_S {
            if let Ok(m) = std::fs::metadata(&r).and_then(|m| m.modified()) {
                if m.elapsed().map_or(false, |e| e.as_secs() > LIMIT_S) {
                    break;
                }
            }
        }
    }
    if status.is_none() {
        let _ = ch.kill();
        let _ = ch.wait();
    }
    let t = std::fs::read_to_string(&r).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    let v: Value = match serde_json::from_str(&t) {
        Ok(v) => v,
        Err(_) => return Run::Broken(format!("no report, {:?}", status)),
    };
    match (status, v["done"] == json!(true)) {
        (_, true) => Run::Report(v),
        (None, _) => Run::Hangs(v["results"].as_array().map_or(0, |x| x.len())),
        (Some(s), _) => Run::Broken(format!("ended with {:?} in operation {}", s, v["results"].as_array().map_or(0, |x| x.len()))),
    }
}
/// Runs a plan; a plan that seems to hang is run once more.
fn play(c: &mut Case<'_>, plan: &Value, what: &str) -> Option<Value> {
    for n in 0..2 {
        match run(c, plan, n) {
            Run::Report(v) => {
                c.mon.event("messages seen by tokens", v["log"].as_array().map_or(0, |l| l.len()) as u64);
                return Some(v);
            }
            Run::Hangs(i) if n == 1 => {
                c.fail(format!("{}: a call on a token never returns", what), json!({"operation": i, "plan": plan}));
                return None;
            }
            Run::Broken(s) if n == 1 => {
                c.fail(format!("{}: the process of a token operation dies", what), json!({"how": s, "plan": plan}));
                return None;
            }
            _ => (),
        }
    }
    None
}

#[derive(Clone)]
struct Ident {
    key: Key,
    handle: Vec<u8>,
    app: String,
}
impl Ident {
    fn gen(r: &mut Rng) -> Ident {
        let kt = *r.pick(&[KT::SkEd, KT::SkEc]);
        let n = *r.pick(&[1, 16, 32, 57, 58, 64, 64, 64, 70, 96, 128, 144, 200, 255, 256, 300, 1000]);
        let key = Key::gen(r, kt);
        let app = String::from_utf8(key.app.clone()).unwrap();
        let mut handle = r.bytes(n);
        match r.below(6) {
            0 => handle[0] = 0,
            1 => *handle.last_mut().unwrap() = 0,
            2 => {
                let h = sha256(app.as_bytes());
                let n = handle.len().min(32);
                handle[..n].copy_from_slice(&h[..n]);
            }
            _ => (),
        }
        Ident { key, handle, app }
    }
    fn file(&self, r: &mut Rng) -> String {
        let x = PrivExtra {
            flags: r.byte(),
            handle: self.handle.clone(),
            reserved: if r.chance(1, 8) { r.bytes(5) } else { vec![] },
        };
        PrivFile::new(&self.key, &x, &r.word(20), r.val32()).text()
    }
    fn cred(&self) -> Value {
        json!({"kind": if self.key.kt == KT::SkEd {"ed"} else {"ec"}, "secret": hex(&self.key.secret), "app": self.app, "handle": hex(&self.handle)})
    }
}
fn pin(r: &mut Rng) -> String {
    match r.below(4) {
        0 => format!("{:04}", r.below(10000)),
        1 => "é1名23".to_string() + &r.word(8),
        _ => format!("{}x{}", r.below(100000), r.word(30)),
    }
}
/// A token without keys, never touched.
fn token(r: &mut Rng, late: bool) -> Value {
    let versions = match r.below(4) {
        0 => json!(["FIDO_2_0"]),
        1 => json!(["U2F_V2", "FIDO_2_0"]),
        2 => json!(["FIDO_2_0", "FIDO_2_1_PRE"]),
        _ => json!(["FIDO_2_0", "FIDO_2_1"]),
    };
    let mut t = json!({"versions": versions, "options": {"rk": true, "up": true, "plat": false}, "counter": r.val32(), "creds": [], "faults": []});
    if versions[1] == json!("FIDO_2_1") {
        t["options"]["makeCredUvNotRqd"] = json!(r.chance(1, 2));
        t["options"]["pinUvAuthToken"] = json!(r.chance(3, 4));
    }
    t["protocols"] = match r.below(3) {
        0 => json!([1]),
        1 => json!([2, 1]),
        _ => json!([1, 2]),
    };
    if r.chance(1, 2) {
        t["maxlist"] = json!(r.range(1, 20));
    }
    if r.chance(1, 3) {
        t["maxid"] = json!(1024);
    }
    if r.chance(1, 6) {
        t["frozen"] = json!(true);
    }
    if r.chance(1, 3) {
        t["omit"] = json!(true);
    }
    if late {
        t["plug"] = json!(r.range(1, 150));
    }
    t
}
/// Sets a PIN on the token; with `always` it is needed for everything.
fn with_pin(r: &mut Rng, t: &mut Value, always: bool) -> String {
    let p = pin(r);
    t["pin"] = json!(p);
    t["options"]["clientPin"] = json!(true);
    if always {
        t["versions"] = json!(["FIDO_2_0", "FIDO_2_1"]);
        t["options"]["alwaysUv"] = json!(true);
        t["options"]["makeCredUvNotRqd"] = json!(false);
        t["options"]["pinUvAuthToken"] = json!(true);
    }
    p
}

/// The signing operation and, given the report, the bytes that were to be signed and the result.
fn an_op(r: &mut Rng, id: &Ident) -> Value {
    let mut op = match r.below(6) {
        0 => {
            let sub = Key::gen_verifiable(r);
            json!({"op": "cert", "subject": sub.line(), "serial": r.val64(), "id": r.text(30), "principal": r.word(10)})
        }
        1 => json!({"op": "sshsig", "data": hex(&p_sig::message(r)), "ns": format!("n{}", r.word(12))}),
        _ => {
            let d = match r.below(5) {
                0 => vec![],
                1 => r.bytes(32),
                2 => sha256(&r.bytes(4)).to_vec(),
                3 => {
                    let n = if r.chance(1, 20) { *r.pick(&[65_537usize, 100_000, (1 << 20) + 1]) } else { r.size(20000) };
                    r.bytes(n)
                }
                _ => r.blob(300),
            };
            json!({"op": "sign", "data": hex(&d)})
        }
    };
    op["key"] = json!(id.file(r));
    if r.chance(1, 10) {
        op["path"] = json!("/dev/hidraw9");
    }
    op
}
/// (returned a signature, whether it is genuine, the SSH signature bytes)
fn outcome(op: &Value, res: &Value, id: &Ident) -> (bool, V, Vec<u8>, Option<Vec<u8>>) {
    let blob = id.key.blob();
    match op["op"].as_str().unwrap() {
        "sign" => {
            let d = unhex(op["data"].as_str().unwrap());
            match res["sig"].as_str() {
                Some(s) => {
                    let s = unhex(s);
                    (true, ref_verify(&blob, &s, &d), s, Some(d))
                }
                None => (false, V::Invalid, vec![], Some(d)),
            }
        }
        "cert" => {
            let tbs = res["tbs"].as_str().map(unhex);
            match res["cert"].as_str() {
                Some(s) => {
                    let b = s.split(' ').nth(1).and_then(|x| base64::decode(x).ok()).unwrap_or_default();
                    let v = match refcert::split(&b) {
                        Some((t, ca, sig)) if ca == &blob[..] && Some(t) == tbs.as_deref() => (refcert::judge(&b), sig.to_vec()),
                        _ => (V::Invalid, vec![]),
                    };
                    (true, v.0, v.1, tbs)
                }
                None => (false, V::Invalid, vec![], tbs),
            }
        }
        _ => {
            let d = unhex(op["data"].as_str().unwrap());
            let ns = op["ns"].as_str().unwrap();
            match res["sshsig"].as_str() {
                Some(s) => {
                    let b = p_sig::body_of(s).unwrap_or_default();
                    let p = p_sig::parts(&b);
                    let h = p.as_ref().map(|p| String::from_utf8_lossy(&p.hash).to_string()).unwrap_or_default();
                    let tbs = if h == "sha256" || h == "sha512" {
                        Some(sshsig_tbs(ns.as_bytes(), b"", h.as_bytes(), &sshsig_digest(&h, &d)))
                    } else {
                        None
                    };
                    (true, p_sig::verdict(&b, &d, ns, Some(&blob)), p.map(|p| p.sig).unwrap_or_default(), tbs)
                }
                None => (false, V::Invalid, vec![], None),
            }
        }
    }
}
/// What the tokens were asked for during one signing operation.
fn asked(log: &[&Value], op: &Value, id: &Ident, tbs: Option<&[u8]>, broken: bool) -> Vec<String> {
    let mut bad = vec![];
    let sshsig: Vec<Vec<u8>> = match op["op"].as_str() {
        Some("sshsig") => ["sha256", "sha512"]
            .iter()
            .map(|h| {
                let d = unhex(op["data"].as_str().unwrap());
                sha256(&sshsig_tbs(op["ns"].as_str().unwrap().as_bytes(), b"", h.as_bytes(), &sshsig_digest(h, &d))).to_vec()
            })
            .collect(),
        _ => tbs.map(|t| vec![sha256(t).to_vec()]).unwrap_or_default(),
    };
    let mut signatures = 0;
    let mut guesses = 0;
    for l in log {
        if l.get("make").is_some() {
            bad.push("signing makes a new credential".into());
        }
        if l.get("u2f").is_some() {
            bad.push("signing falls back to the protocol without PINs".into());
        }
        if l.get("assert").is_some() {
            let up = l["up"] == json!(true);
            if l["rp"] != json!(id.app) {
                bad.push("a token is asked to sign for another application".into());
            }
            // the handle of an answer to an earlier question may be repeated, damaged
            if l["allow"] != json!([hex(&id.handle)]) && !broken {
                bad.push("a token is asked to sign with another credential".into());
            }
            let h = unhex(l["hash"].as_str().unwrap_or(""));
            if up && !sshsig.contains(&h) {
                bad.push("a token is asked to sign something else than the data".into());
            }
        }
        if l.get("signed").map_or(false, |s| s["up"] == json!(true)) {
            signatures += 1;
        }
        if l.get("pin") == Some(&json!("wrong")) {
            guesses += 1;
        }
        if let Some(rp) = l.get("rp") {
            if l.get("pin").is_some() && !rp.is_null() && *rp != json!(id.app) {
                bad.push("a PIN is used for another application".into());
            }
        }
    }
    // a token that answers with an error after its work may be asked again
    if signatures > 1 && !log.iter().any(|l| l.get("fault").is_some()) {
        bad.push("one call makes tokens sign more than once".into());
    }
    if guesses > 1 && !log.iter().any(|l| l.get("fault").is_some()) {
        bad.push("one call tries a wrong PIN more than once".into());
    }
    bad
}
fn tell(c: &mut Case<'_>, bad: Vec<String>, plan: &Value, rep: &Value) {
    if let Some(b) = bad.first().cloned() {
        let cut = |v: &Value| v.to_string().chars().take(6000).collect::<String>();
        c.fail(b, json!({"all": bad, "plan": plan, "report": cut(rep)}));
    }
}
fn logs(rep: &Value, n: usize) -> Vec<&Value> {
    rep["log"].as_array().map(|v| v.iter().filter(|l| l["op"] == json!(n)).collect()).unwrap_or_default()
}

fn signing(c: &mut Case<'_>, hostile: bool) {
    let mut r = c.rng.clone();
    // no two keys share application and handle: a token could not tell them apart
    let mut ids: Vec<Ident> = vec![];
    for _ in 0..r.range(1, 3) {
        let id = Ident::gen(&mut r);
        if !ids.iter().any(|x| x.app == id.app && x.handle == id.handle) {
            ids.push(id);
        }
    }
    let n = *r.pick(&[1, 1, 1, 1, 2, 3]);
    let mut toks: Vec<Value> = (0..n)
        .map(|_| {
            let late = r.chance(1, if n == 1 { 6 } else { 30 });
            token(&mut r, late)
        })
        .collect();
    // the keys are on one token, or on none
    let home = r.below(n);
    let stranger = r.chance(1, 8);
    for id in &ids {
        for (i, t) in toks.iter_mut().enumerate() {
            let v = t["creds"].as_array_mut().unwrap();
            let mut near = id.clone();
            if r.chance(1, 2) {
                near.app = match r.below(4) {
                    0 => "ssh:".into(),
                    1 => format!("{} ", id.app),
                    2 => "".into(),
                    _ => hex(&sha256(id.app.as_bytes())),
                };
                if !ids.iter().any(|x| x.app == near.app && x.handle == near.handle) {
                    v.push(near.cred());
                }
            }
            if r.chance(1, 2) {
                let mut near = id.clone();
                let j = r.below(near.handle.len());
                near.handle[j] ^= 1 << r.below(8);
                if !ids.iter().any(|x| x.app == near.app && x.handle == near.handle) {
                    v.push(near.cred());
                }
            }
            if i == home && !stranger {
                v.insert(r.below(v.len() + 1), id.cred());
            }
        }
    }
    let always = r.chance(1, 4);
    let mut secret = None;
    if always || r.chance(1, 4) {
        secret = Some(with_pin(&mut r, &mut toks[home], always));
        if r.chance(1, 12) {
            toks[home]["retries"] = json!(r.below(3));
        }
    }
    let touched = if n > 1 && r.chance(1, 6) { r.below(n) } else { home };
    // nobody is there, or nothing
    let idle = c.idx % 160;
    if idle != 7 {
        toks[touched]["touch"] = json!(*r.pick(&[0, 0, 1, 2, 5, 20]));
    }
    if r.chance(1, 8) {
        toks[home]["flags"] = json!(*r.pick(&[0x08, 0x18]));
    }
    let mut ops = vec![];
    let mut who = vec![];
    for _ in 0..r.range(1, if hostile || n > 1 { 2 } else { 4 }) {
        let k = r.below(ids.len());
        let mut op = an_op(&mut r, &ids[k]);
        if let Some(p) = &secret {
            match r.below(8) {
                0 => (),
                1 => {
                    let mut w = p.clone();
                    w.pop();
                    op["pin"] = json!(w)
                }
                2 => op["pin"] = json!(format!("{}0", p)),
                _ => op["pin"] = json!(p),
            }
        } else if r.chance(1, 6) {
            op["pin"] = json!(pin(&mut r));
        }
        ops.push(op);
        who.push(k);
    }
    let mut kind = "";
    if hostile {
        let t = r.below(n);
        let cmd = *r.pick(&[2, 2, 2, 4, 6, 1, 11]);
        let nth = r.range(1, 3);
        let code = *r.pick(&[
            0x01, 0x02, 0x06, 0x0b, 0x11, 0x12, 0x14, 0x22, 0x27, 0x2b, 0x2c, 0x2e, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x39, 0x3a, 0x7f, 0xf1, 0xff,
        ]);
        kind = *r.pick(&[
            "close",
            "noise",
            "keepalives",
            "refuse",
            "refuse",
            "refuse",
            "late",
            "late",
            "lateclose",
            "short",
            "flip",
            "flip",
            "hiderror",
            "badseq",
            "gone",
        ]);
        if kind == "gone" {
            toks[t]["unplug"] = json!(r.range(1, 120));
        } else {
            let code = if kind == "flip" {
                1 << r.below(8)
            } else if kind == "hiderror" {
                r.range(1, 7)
            } else {
                code
            };
            toks[t]["faults"] = json!([{"cmd": cmd, "nth": nth, "act": kind, "code": code, "at": r.below(400)}]);
        }
    }
    if idle == 7 || idle == 8 {
        ops.truncate(1);
    }
    let plan = json!({"tokens": if idle == 8 { vec![] } else { toks.clone() }, "ops": ops});
    c.eval(plan.to_string().as_bytes());
    for attempt in 0..2 {
        let rep = match play(c, &plan, "signing") {
            Some(v) => v,
            None => return,
        };
        let mut bad = vec![];
        let mut fails = vec![];
        for (i, op) in ops.iter().enumerate() {
            let id = &ids[who[i]];
            let log = logs(&rep, i);
            let res = &rep["results"][i];
            let hit = log.iter().any(|l| l.get("fault").is_some());
            let broken = hit && matches!(kind, "short" | "flip" | "hiderror" | "badseq");
            c.mon.event_max("longest call in ms", res["ms"].as_u64().unwrap_or(0));
            if hit {
                c.ev(&format!("fault {}", kind));
            }
            if let Some(p) = res.get("panic") {
                c.ev("panicked");
                if !broken {
                    bad.push(format!("signing panics: {}", p));
                }
                continue;
            }
            let (some, v, sig, tbs) = outcome(op, res, id);
            bad.extend(asked(&log, op, id, tbs.as_deref(), broken));
            let made: Vec<&Value> = log.iter().filter_map(|l| l.get("signed")).filter(|s| s["up"] == json!(true)).collect();
            c.ev(if some { "signatures" } else { "refusals" });
            if some {
                if v != V::Valid && !broken {
                    bad.push("a signature is returned that is not valid".into());
                }
                if made.is_empty() {
                    bad.push("a signature is returned that no token was asked for".into());
                } else if !broken && sig.len() > 5 {
                    let t = &sig[sig.len() - 5..];
                    if !made
                        .iter()
                        .any(|m| t[0] as u64 == m["flags"].as_u64().unwrap() && t[1..] == (m["counter"].as_u64().unwrap() as u32).to_be_bytes())
                    {
                        bad.push("the flags or the counter are not those of the token".into());
                    }
                }
            }
            // what has to happen
            if hit || kind == "gone" {
                continue;
            }
            let p = op["pin"].as_str();
            let right = secret.as_deref() == p && p.is_some();
            let retries = toks[home]["retries"].as_i64();
            let holds = !stranger;
            let want = if !holds || touched != home || idle == 7 || idle == 8 {
                Some(false)
            } else if n > 1 && toks.iter().any(|t| t.get("plug").is_some()) {
                // the token that comes first may be settled on
                None
            } else if always {
                if right && retries.is_none() && !wrong_before(&ops[..i], secret.as_deref()) {
                    Some(true)
                } else if right {
                    None
                } else {
                    Some(false)
                }
            } else if secret.is_some() && !right && p.is_some() {
                // a wrong PIN that is not needed
                None
            } else {
                Some(true)
            };
            match want {
                Some(true) if !some => fails.push("signing fails although the token is ready and touched".into()),
                Some(false) if some => bad.push("signing succeeds although it cannot have".into()),
                _ => (),
            }
        }
        if bad.is_empty() && !fails.is_empty() && attempt == 0 {
            // not because this machine was too slow
            continue;
        }
        bad.extend(fails);
        tell(c, bad, &plan, &rep);
        c.sample(|| json!({"tokens": n, "ops": ops.len(), "fault": kind, "log": rep["log"].as_array().map(|l| l.len())}));
        break;
    }
}
fn wrong_before(ops: &[Value], secret: Option<&str>) -> bool {
    ops.iter().any(|o| o["pin"].as_str().is_some() && o["pin"].as_str() != secret)
}

// ---------- enrolment ----------
/// Client data hashes of enrolments with the system's own randomness.
static FRESH: std::sync::Mutex<Option<std::collections::HashSet<String>>> = std::sync::Mutex::new(None);

struct Real {
    auth: Vec<u8>,
    sig: Vec<u8>,
    hash: Vec<u8>,
    cert: Vec<u8>,
}
fn real(i: usize) -> Real {
    let x = [
        (YUBIKEY_BIO_AUTH_DATA_ED25519, YUBIKEY_BIO_AUTH_SIG_ED25519, YUBIKEY_BIO_CHALLENGE_ED25519, YUBIKEY_BIO_INTERMEDIATE),
        (YUBIKEY_5C_NFC_AUTH_DATA_ED25519, YUBIKEY_5C_NFC_AUTH_SIG_ED25519, YUBIKEY_5C_NFC_CHALLENGE_ED25519, YUBIKEY_5C_NFC_INTERMEDIATE),
    ][i % 2];
    Real { auth: unhex(x.0), sig: unhex(x.1), hash: sha256(&unhex(x.2)).to_vec(), cert: unhex(x.3) }
}

fn enrolment(c: &mut Case<'_>, hostile: bool) {
    let mut r = c.rng.clone();
    let x = real(r.below(2));
    let y = real(r.below(2));
    let mut app = "test".to_string();
    let mut random = Some(x.hash.clone());
    let mut e = json!({"fmt": "packed", "authData": hex(&x.auth), "sig": hex(&x.sig), "x5c": [hex(&x.cert)], "alg": -7});
    let mut genuine = false;
    let what = match if c.idx < 8 { 0 } else { r.below(if hostile { 6 } else { 23 }) } {
        0..=5 => {
            genuine = true;
            "recorded"
        }
        6 | 7 => {
            random = None;
            "replayed"
        }
        8 | 9 => {
            app = match r.below(6) {
                0 => "Test".into(),
                1 => "test ".into(),
                2 => "ssh:".into(),
                3 => "".into(),
                4 => "tes".into(),
                _ => r.text(60),
            };
            if app == "test" {
                app = "tset".into();
            }
            "for another application"
        }
        10 => {
            let mut b = x.auth.clone();
            let j = r.below(b.len());
            b[j] ^= 1 << r.below(8);
            e["authData"] = json!(hex(&b));
            "with altered data"
        }
        11 => {
            let mut b = x.sig.clone();
            // within the numbers
            let j = b.len() - 1 - r.below(30);
            b[j] ^= 1 << r.below(8);
            e["sig"] = json!(hex(&b));
            "with an altered signature"
        }
        12 => {
            let mut b = x.cert.clone();
            let n = crate::der::parse_cert(&b).unwrap().tbs.len();
            let j = 4 + r.below(n);
            b[j] ^= 1 << r.below(8);
            e["x5c"] = json!([hex(&b)]);
            "with an altered certificate"
        }
        13 => {
            let mut h = x.hash.clone();
            let j = r.below(32);
            h[j] ^= 1 << r.below(8);
            random = Some(h);
            "for another challenge"
        }
        14 => {
            let mut a = p_fido::att(&mut r);
            while a.challenge.len() != 32 {
                a = p_fido::att(&mut r);
            }
            app = "test".into();
            let mut d = a.data.clone();
            d[..32].copy_from_slice(&sha256(b"test"));
            let sig = crate::der::sign_with(&a.att_key, crate::der::Md::Sha256, &[&d[..], &a.challenge].concat());
            random = Some(a.challenge.clone());
            e = json!({"fmt": "packed", "authData": hex(&d), "sig": hex(&sig), "x5c": [hex(&a.cert_der)], "alg": -7});
            "from an unknown maker"
        }
        15 => {
            // the key of the certificate is another one
            let a = p_fido::att(&mut r);
            let sig = crate::der::sign_with(&a.att_key, crate::der::Md::Sha256, &[&x.auth[..], &x.hash].concat());
            e["sig"] = json!(hex(&sig));
            e["x5c"] = if r.chance(1, 2) { json!([hex(&x.cert)]) } else { json!([hex(&a.cert_der), hex(&x.cert)]) };
            "with a foreign signature"
        }
        16 => {
            e["x5c"] = json!([]);
            "without certificates"
        }
        17 => {
            e.as_object_mut().unwrap().remove("x5c");
            "without a chain"
        }
        18 => {
            e["fmt"] = json!(*r.pick(&["none", "fido-u2f", "tpm", "android-key", "other"]));
            "of another format"
        }
        19 => {
            e["alg"] = json!(*r.pick(&[-8, -257, -37, -35, 7, 0]));
            "of another algorithm"
        }
        20 => {
            e = json!({"status": *r.pick(&[0x01, 0x02, 0x12, 0x14, 0x19, 0x26, 0x27, 0x28, 0x2b, 0x2c, 0x2d, 0x2f, 0x30, 0x3a, 0x7f])});
            "refused by the token"
        }
        21 => {
            if y.auth == x.auth {
                e["sig"] = json!(hex(&real(0).sig));
                e["authData"] = json!(hex(&real(1).auth));
            } else {
                e["authData"] = json!(hex(&y.auth));
            }
            "mixed"
        }
        _ => {
            let n = r.below(x.auth.len());
            e["authData"] = json!(hex(&x.auth[..n]));
            "with data cut off"
        }
    };
    let n = if r.chance(1, 6) { 2 } else { 1 };
    let mut toks: Vec<Value> = (0..n).map(|_| token(&mut r, false)).collect();
    let home = r.below(n);
    let always = r.chance(1, 5);
    let mut secret = None;
    if always || r.chance(1, 5) {
        secret = Some(with_pin(&mut r, &mut toks[home], always));
    }
    toks[home]["touch"] = json!(*r.pick(&[0, 1, 3, 10]));
    toks[home]["enrol"] = e.clone();
    let idlen = u16::from_be_bytes([x.auth[53], x.auth[54]]) as usize;
    let handle = x.auth[55..55 + idlen].to_vec();
    // a key to answer with when the new one is used
    let stand_in = Key::ed(KT::SkEd, &r.bytes(32), b"test".to_vec());
    let id = Ident { key: stand_in, handle: handle.clone(), app: "test".into() };
    toks[home]["creds"] = json!([id.cred()]);
    let comment = match r.below(3) {
        0 => String::new(),
        1 => r.word(30),
        _ => r.text(60),
    };
    let mut op = json!({"op": "enrol", "app": app, "comment": comment, "as": "k"});
    if let Some(h) = &random {
        op["random"] = json!(hex(h));
    }
    if let Some(p) = &secret {
        match r.below(6) {
            0 => (),
            1 => op["pin"] = json!(format!("{}0", p)),
            _ => op["pin"] = json!(p),
        }
    } else if r.chance(1, 5) {
        op["pin"] = json!(pin(&mut r));
    }
    let data = r.blob(100);
    let mut kind = "";
    if hostile {
        let t = r.below(n);
        let cmd = *r.pick(&[1, 1, 1, 4, 6, 11]);
        kind = *r.pick(&["close", "noise", "keepalives", "refuse", "refuse", "refuse", "late", "late", "lateclose", "short", "flip", "flip", "hiderror", "badseq", "gone"]);
        if kind == "gone" {
            toks[t]["unplug"] = json!(r.range(1, 60));
        } else {
            let code = *r.pick(&[0x01, 0x06, 0x0b, 0x11, 0x14, 0x19, 0x26, 0x27, 0x2b, 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x39, 0x3a, 0x7f, 0xff]);
            let code = if kind == "flip" { 1 << r.below(8) } else if kind == "hiderror" { r.range(1, 7) } else { code };
            toks[t]["faults"] = json!([{"cmd": cmd, "nth": r.range(1, 2), "act": kind, "code": code, "at": r.below(1200)}]);
        }
    }
    let mut use_it = json!({"op": "sign", "enrolled": "k", "data": hex(&data)});
    if let Some(p) = &secret {
        use_it["pin"] = json!(p);
    }
    let plan = json!({"tokens": toks, "ops": [op, use_it]});
    c.eval(plan.to_string().as_bytes());
    for attempt in 0..2 {
        let rep = match play(c, &plan, "enrolment") {
            Some(v) => v,
            None => return,
        };
        let mut bad = vec![];
        let mut fails = vec![];
        let log = logs(&rep, 0);
        let res = &rep["results"][0];
        let hit = log.iter().any(|l| l.get("fault").is_some());
        let broken = hit && matches!(kind, "short" | "flip" | "hiderror" | "badseq");
        c.mon.event_max("longest call in ms", res["ms"].as_u64().unwrap_or(0));
        if hit {
            c.ev(&format!("enrolment fault {}", kind));
        }
        let makes: Vec<&Value> = log.iter().filter(|l| l.get("make").is_some()).copied().collect();
        for l in &log {
            if let Some(m) = l.get("make") {
                if m["2"]["id"] != json!(app) {
                    bad.push("a token is asked for a key of another application".to_string());
                }
                if m["4"].as_array().map_or(true, |a| a.is_empty() || a.iter().any(|p| p["alg"] != json!(-8))) {
                    bad.push("a token is asked for a key of another type".into());
                }
                if random.is_none() {
                    let h = m["1"].as_str().unwrap_or("").to_string();
                    // one message may be sent again with a PIN
                    let first = makes[0]["make"]["1"] == m["1"] && !std::ptr::eq(*l, makes[0]);
                    if !first && attempt == 0 {
                        // not even in part
                        let mut f = FRESH.lock().unwrap();
                        let f = f.get_or_insert_with(Default::default);
                        let again = h.len() != 64 || (0..4).filter(|i| !f.insert(h[16 * i..16 * i + 16].to_string())).count() > 0;
                        if again {
                            bad.push("two enrolments use the same challenge, or the same part of one".into());
                        }
                    }
                }
            }
            if l.get("u2f").is_some() {
                bad.push("enrolment falls back to the protocol without PINs".into());
            }
            if l.get("assert").is_some() {
                bad.push("enrolment asks for a signature".into());
            }
        }
        if log.iter().filter(|l| l["pin"] == json!("wrong")).count() > 1 && !hit {
            bad.push("one call tries a wrong PIN more than once".into());
        }
        if log.iter().filter(|l| l.get("made").is_some()).count() > 1 && !hit {
            bad.push("one call makes more than one key".into());
        }
        if let Some(p) = res.get("panic") {
            c.ev("panicked");
            if !broken && !what.starts_with("with") && !what.starts_with("of another") {
                bad.push(format!("enrolment panics: {}", p));
            }
        }
        let seen = makes.last().and_then(|m| m["make"]["1"].as_str()).map(unhex).unwrap_or_default();
        match res.get("enrolled") {
            Some(g) => {
                c.ev(&format!("enrolled, {}", what));
                if !genuine {
                    bad.push(format!("a key is enrolled from an answer {}", what));
                } else if makes.is_empty() {
                    bad.push("a key is enrolled that no token was asked for".into());
                }
                let b = |n: &str| unhex(g[n].as_str().unwrap_or(""));
                if !broken {
                    for (n, w) in [("authData", &x.auth), ("sig", &x.sig), ("x5c", &x.cert), ("challenge", &seen)] {
                        if b(n) != *w && genuine {
                            bad.push(format!("the attestation of an enrolled key has another {}", n));
                        }
                    }
                }
                if g["verifies"] != json!(true) {
                    bad.push("a key is enrolled with an attestation that does not verify".into());
                }
                if let (true, Some(Some((k, alg)))) = (genuine, p_fido::ref_auth(&x.auth)) {
                    let want = p_fido::want_blob(&k, alg, &app);
                    let line = g["public"].as_str().unwrap_or("").split(' ').nth(1).and_then(|t| base64::decode(t).ok()).unwrap_or_default();
                    if line != want {
                        bad.push("the public key of an enrolled key is not the one attested".into());
                    }
                    if g["comment"] != json!(comment) {
                        bad.push("an enrolled key has another comment".into());
                    }
                    match p_priv::priv_body(g["file"].as_str().unwrap_or("")).as_deref().map(p_priv::ref_priv) {
                        Some(Ok(p)) => {
                            if p.public != want {
                                bad.push("the private key file of an enrolled key holds another public key".into());
                            }
                            if !p.fields.contains(&handle) {
                                bad.push("the private key file of an enrolled key holds another handle".into());
                            }
                            if p.comment != comment.as_bytes() {
                                bad.push("the private key file of an enrolled key has another comment".into());
                            }
                        }
                        _ => bad.push("the private key file of an enrolled key cannot be read".into()),
                    }
                    // and it is used as that key
                    let log = logs(&rep, 1);
                    bad.extend(asked(&log, &json!({"op": "sign"}), &id, Some(&data), false));
                    if log.iter().any(|l| l.get("signed").map_or(false, |s| s["up"] == json!(true))) {
                        c.ev("enrolled keys used");
                    }
                }
            }
            None => {
                c.ev(&format!("not enrolled, {}", what));
                let p = op["pin"].as_str();
                let needs = always || toks[home]["options"]["makeCredUvNotRqd"] != json!(true);
                let right = secret.as_deref() == p;
                let ready = match &secret {
                    Some(_) => right || (!needs && p.is_none()),
                    None => p.is_none(),
                };
                if genuine && !hit && kind != "gone" && ready && res.get("panic").is_none() {
                    if seen == x.hash || (makes.is_empty() && n == 1) {
                        fails.push("enrolment fails although the token is ready and its answer genuine".to_string());
                    } else {
                        c.ev("undecided: the challenge is not drawn by the calling thread");
                    }
                }
            }
        }
        if bad.is_empty() && !fails.is_empty() && attempt == 0 {
            continue;
        }
        bad.extend(fails);
        tell(c, bad, &plan, &rep);
        c.sample(|| json!({"enrolment": what, "fault": kind, "log": rep["log"].as_array().map(|l| l.len())}));
        break;
    }
}

pub fn c28(m: &'static Mon) {
    m.rule("signing on emulated FIDO2 tokens: every request for a signature names the key's application and credential and the SHA-256 of exactly the data; a returned signature was made by a touched token in this call and is valid under the key; a token that is ready gives a signature, others an error; every call returns");
    m.rule("faults (refusals, removal, lost, cut and damaged answers) at every command: no signature that does not verify, no endless wait");
    m.rule("enrolment: the token is asked for a key of the given application with a fresh challenge; only an answer that carries a genuine attestation of a known maker for this challenge and application leads to a key, and the key, its file and the attestation are those of the answer");
    m.assume("genuine attestations are two recorded ones, replayed with their challenge as scripted randomness");
    m.assume("the token is emulated below the HID transport (CTAPHID, CTAP 2.0/2.1 as the authenticator crate uses them)");
    m.section_threads("signing", m.n(2500), 64, |c| signing(c, false));
    m.section_threads("refusals", m.n(400), 64, |c| signing(c, true));
    m.section_threads("enrolment", m.n(2000), 64, |c| enrolment(c, false));
    m.section_threads("enrolment faults", m.n(400), 64, |c| enrolment(c, true));
}
