//! C24: freshness of nonces, serials, generated keys and check values.
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::p_cert::lib_private;
use crate::rng::Rng;
use crate::wire::{hexs, unhex};
use serde_json::json;
use sshcerts::ssh::{CertType, Certificate, KeyTypeKind, PrivateKey, PrivateKeyKind, PublicKey};
use std::collections::HashMap;

#[derive(Clone)]
struct Made {
    /// nonce ‖ serial, or seed ‖ check value
    v: Vec<u8>,
    who: String,
}

fn cert_sample(c: &Certificate) -> Vec<u8> {
    [&c.nonce[..], &c.serial.to_be_bytes()].concat()
}
fn key_sample(k: &PrivateKey) -> Option<Vec<u8>> {
    match &k.kind {
        PrivateKeyKind::Ed25519(p) => Some([p.key.get(..32)?, &k.magic.to_be_bytes()].concat()),
        _ => None,
    }
}

/// No 8-byte word of any value may turn up twice anywhere (chance < 1e-6 for ten million words).
fn repeats(c: &mut Case<'_>, all: &[&Made], what: &str) {
    let mut seen: HashMap<u64, (usize, usize)> = HashMap::with_capacity(all.len() * 5);
    let mut told = 0;
    for (n, m) in all.iter().enumerate() {
        for at in (0..m.v.len() / 8 * 8).step_by(8) {
            let w = u64::from_be_bytes(m.v[at..at + 8].try_into().unwrap());
            if let Some((p, q)) = seen.insert(w, (n, at)) {
                told += 1;
                if told <= 3 {
                    let (x, y) = (&all[p], m);
                    c.fail(format!("{}: 8 bytes turn up twice: at {} of {} and at {} of {}", what, q, x.who, at, y.who), json!({"first": hexs(&x.v), "second": hexs(&y.v)}));
                }
            }
        }
        // constant values within one sample
        if m.v.len() >= 32 {
            let mut k = [0u32; 256];
            m.v[..32].iter().for_each(|b| k[*b as usize] += 1);
            if k.iter().any(|n| *n > 16) {
                c.fail(format!("{}: a value of {} consists mostly of one byte", what, m.who), json!({"value": hexs(&m.v)}));
            }
        }
    }
}

/// Frequencies that must be those of uniform independent bytes, within 9 standard deviations.
fn bias(c: &mut Case<'_>, s: &[Vec<u8>], what: &str) {
    let n = s.len();
    if n < 2000 {
        return;
    }
    let len = s[0].len();
    let far = |k: u64, n: usize, p: f64| {
        let (e, sd) = (n as f64 * p, (n as f64 * p * (1.0 - p)).sqrt());
        // for small expectations the tail is fatter than the normal one
        (k as f64 - e).abs() > 9.0 * sd + 12.0
    };
    let mut tests = 0u64;
    let mut bad: Vec<String> = vec![];
    for i in 0..len {
        let mut bits = [0u64; 8];
        let mut val = [0u64; 256];
        for v in s {
            for b in 0..8 {
                bits[b] += u64::from(v[i] >> b & 1);
            }
            val[v[i] as usize] += 1;
        }
        for (b, k) in bits.iter().enumerate() {
            tests += 1;
            if far(*k, n, 0.5) {
                bad.push(format!("bit {} of byte {} is set {} times in {}", b, i, k, n));
            }
        }
        for (x, k) in val.iter().enumerate() {
            tests += 1;
            if far(*k, n, 1.0 / 256.0) {
                bad.push(format!("byte {} is {:#04x} {} times in {}", i, x, k, n));
            }
        }
    }
    for i in 0..len {
        for j in 0..len {
            let (mut same, mut next, mut xor) = (0u64, 0u64, [0u64; 8]);
            for (t, v) in s.iter().enumerate() {
                if i < j {
                    same += u64::from(v[i] == v[j]);
                    for b in 0..8 {
                        xor[b] += u64::from((v[i] ^ v[j]) >> b & 1);
                    }
                }
                if t > 0 {
                    next += u64::from(s[t - 1][i] == v[j]);
                }
            }
            tests += 10;
            if i < j && far(same, n, 1.0 / 256.0) {
                bad.push(format!("bytes {} and {} are equal {} times in {}", i, j, same, n));
            }
            if i < j && xor.iter().any(|k| far(*k, n, 0.5)) {
                bad.push(format!("bits of bytes {} and {} are correlated", i, j));
            }
            if far(next, n - 1, 1.0 / 256.0) {
                bad.push(format!("byte {} equals byte {} of the value before {} times in {}", j, i, next, n));
            }
        }
    }
    c.mon.event(&format!("frequency tests, {}", what), tests);
    if !bad.is_empty() {
        c.fail(format!("{} is not random: {}", what, bad[0]), json!({"all": bad.iter().take(20).collect::<Vec<_>>()}));
    }
    // successive values close to each other (counters, clocks), as big- and little-endian words
    for (at, w) in [(0usize, 8usize), (8, 8), (16, 8), (24, 8), (32, len.min(40) - 32)] {
        if w < 8 {
            continue;
        }
        for le in [false, true] {
            let word = |v: &Vec<u8>| {
                let b: [u8; 8] = v[at..at + 8].try_into().unwrap();
                if le {
                    u64::from_le_bytes(b)
                } else {
                    u64::from_be_bytes(b)
                }
            };
            let near = s.windows(2).filter(|p| word(&p[1]).wrapping_sub(word(&p[0])).wrapping_add(1 << 40) < 1 << 41).count();
            if near > 5 {
                c.fail(format!("{}: the word at {} is close to its predecessor {} times", what, at, near), json!({"value": hexs(&s[0])}));
            }
        }
    }
}

fn subjects(r: &mut Rng) -> Vec<Key> {
    let mut v = vec![];
    for kt in [KT::Rsa, KT::P256, KT::P384, KT::P521, KT::Ed, KT::SkEc, KT::SkEd] {
        v.push(if kt == KT::Rsa { Key::rsa(r.below(3)) } else { Key::gen(r, kt) });
    }
    v
}

pub fn c24(m: &'static Mon) {
    m.rule("values made (nonce with serial, or seed with check value), by hash");
    m.assume("a value is called repeated if 8 aligned bytes of it turn up in another value, and biased beyond 9 standard deviations: chance under 1e-6 for real randomness");
    m.assume("a value whose making draws system randomness on every call, but fewer bytes than it has, is called predictable");
    let per = m.n(40_000) as usize;
    m.section_threads("in one process", 1, 1, |c| {
        let subs: Vec<PublicKey> = subjects(&mut c.rng).iter().map(|k| PublicKey::from_bytes(&k.blob()).expect("key")).collect();
        let seed = c.rng.u64();
        let made: Vec<(Vec<Made>, Vec<Made>, Vec<String>)> = std::thread::scope(|sc| {
            let h: Vec<_> = (0..8u64)
                .map(|t| {
                    let subs = &subs;
                    sc.spawn(move || {
                        let mut r = Rng::new(seed, "thread", t);
                        let (mut certs, mut keys, mut errs) = (vec![], vec![], vec![]);
                        for i in 0..per {
                            let k = r.below(subs.len());
                            let ct = if r.chance(1, 2) { CertType::User } else { CertType::Host };
                            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Certificate::builder(&subs[k], ct, &subs[r.below(7)]))) {
                                Ok(Ok(b)) => {
                                    if b.nonce.len() != 32 {
                                        errs.push(format!("nonce of {} bytes", b.nonce.len()));
                                        break;
                                    }
                                    let v = cert_sample(&b);
                                    // using the builder changes neither value, except the serial when set
                                    if i % 64 == 0 {
                                        let s = r.val64();
                                        let b2 = b.clone().key_id("k").principal("p").serial(s).valid_before(9);
                                        if b2.serial != s || b2.nonce != v[..32] || !b2.tbs_certificate().windows(8).any(|w| w == s.to_be_bytes()) {
                                            errs.push(format!("serial {} set by the caller is not kept", s));
                                        }
                                    }
                                    certs.push(Made { v, who: format!("certificate {} of thread {}", i, t) });
                                }
                                _ => errs.push("builder failed".into()),
                            }
                            // other work in between
                            match r.below(40) {
                                0 => {
                                    let _ = PublicKey::from_bytes(&[1, 2, 3]);
                                }
                                1 => {
                                    let _ = Certificate::from_string("x y");
                                }
                                2..=19 => match PrivateKey::new(KeyTypeKind::Ed25519, "c").ok().as_ref().and_then(key_sample) {
                                    Some(v) => keys.push(Made { v, who: format!("key {} of thread {}", i, t) }),
                                    None => errs.push("key generation failed".into()),
                                },
                                _ => (),
                            }
                        }
                        (certs, keys, errs)
                    })
                })
                .collect();
            h.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        let mut all = vec![];
        for (cs, ks, es) in &made {
            for e in es.iter().take(2) {
                c.fail(e.clone(), json!(null));
            }
            all.extend(cs.iter().chain(ks.iter()));
        }
        for m in &all {
            c.eval(&m.v);
        }
        c.mon.event("certificates made on 8 threads", made.iter().map(|m| m.0.len() as u64).sum());
        c.mon.event("keys made on 8 threads", made.iter().map(|m| m.1.len() as u64).sum());
        repeats(c, &all, "values made by 8 threads");
        let cs: Vec<Vec<u8>> = made.iter().flat_map(|m| m.0.iter().map(|x| x.v.clone())).collect();
        let ks: Vec<Vec<u8>> = made.iter().flat_map(|m| m.1.iter().map(|x| x.v.clone())).collect();
        if cs.iter().all(|v| v.len() == 40) {
            bias(c, &cs, "nonce and serial");
        }
        if ks.iter().all(|v| v.len() == 36) {
            bias(c, &ks, "key seed and check value");
        }
    });
    // issued certificates: what ends up in the signed bytes
    let issued = std::sync::Mutex::new(Vec::<Made>::new());
    m.section("issued", m.n(6000), |c| {
        let subs = subjects(&mut c.rng);
        let sub = PublicKey::from_bytes(&c.rng.pick(&subs).blob()).expect("key");
        let ca = Key::gen(&mut c.rng, KT::Ed);
        let lp = match lib_private(&ca) {
            Some(k) => k,
            None => return,
        };
        let set = c.rng.chance(1, 3).then(|| c.rng.val64());
        let r = c.call("sign", || {
            let mut b = Certificate::builder(&sub, CertType::User, &lp.pubkey)?.key_id("id").valid_before(u64::MAX);
            if let Some(s) = set {
                b = b.serial(s)
            }
            let before = cert_sample(&b);
            b.sign(&lp).map(|x| (before, x))
        });
        if let Ok(Ok((before, cert))) = r {
            let d = match crate::refcert::Spec::decode(&cert.serialized) {
                Ok((s, _, _)) => s,
                Err(_) => return,
            };
            let now = [&d.nonce[..], &d.serial.to_be_bytes()].concat();
            c.eval(&now);
            c.ev("certificates issued");
            if now != before {
                c.fail("the issued certificate does not carry the nonce and serial of its builder", json!({"builder": hexs(&before), "issued": hexs(&now)}));
            }
            if d.nonce.len() != 32 {
                c.fail("nonce is not 32 bytes long", json!({"nonce": hexs(&d.nonce)}));
            }
            match set {
                Some(s) if d.serial != s => c.fail("the serial set by the caller is not kept", json!({"set": s, "got": d.serial})),
                Some(_) => issued.lock().unwrap().push(Made { v: d.nonce.clone(), who: format!("certificate {}", c.idx) }),
                None => issued.lock().unwrap().push(Made { v: now, who: format!("certificate {}", c.idx) }),
            }
        }
    });
    m.section_threads("issued together", 1, 1, |c| {
        let v = issued.lock().unwrap();
        let all: Vec<&Made> = v.iter().collect();
        c.eval_trivial();
        repeats(c, &all, "issued certificates");
    });
    // generated keys are whole keys
    m.section("keys", m.n(4000), |c| {
        let comment = c.rng.text(40);
        match c.call("PrivateKey::new", || PrivateKey::new(KeyTypeKind::Ed25519, &comment)) {
            Ok(Ok(k)) => {
                if let PrivateKeyKind::Ed25519(p) = &k.kind {
                    c.eval(&p.key);
                    let want = openssl::pkey::PKey::private_key_from_raw_bytes(p.key.get(..32).unwrap_or(&[]), openssl::pkey::Id::ED25519).and_then(|k| k.raw_public_key()).unwrap_or_default();
                    if p.key.len() != 64 || p.key[32..] != want[..] || crate::refcert::pub_blob(&k.pubkey) != crate::wire::W::new().s(b"ssh-ed25519").s(&want).0 {
                        c.fail("the generated public key is not that of the generated seed", json!({"pub": hexs(&want)}));
                    }
                    if k.comment != comment {
                        c.fail("the comment of a generated key is not kept", json!({"comment": comment}));
                    }
                    let again = c.call("PrivateKey::write", || {
                        let mut v = vec![];
                        k.write(&mut v).ok()?;
                        PrivateKey::from_string(std::str::from_utf8(&v).ok()?).ok()
                    });
                    match again {
                        Ok(Some(j)) if key_sample(&j) == key_sample(&k) => (),
                        _ => c.fail("a generated key does not survive being written", json!({"comment": comment})),
                    }
                    let mag = k.magic.to_be_bytes();
                    if p.key.windows(4).any(|w| w == mag) {
                        c.ev("check value found in the key (chance 1e-8 each)");
                        // two in one run would not be chance
                        c.mon.event("check values found in keys", 1);
                    }
                }
            }
            Ok(Err(_)) | Err(_) => c.fail("key generation failed", json!({"comment": comment})),
        }
    });
    let exe = std::env::current_exe().ok().and_then(|p| p.parent().map(|d| d.join("entropy"))).expect("path");
    const MODES: [&str; 9] = ["pass", "pass-frozen", "short", "fail-frozen", "some", "eintr", "nosys", "some-frozen", "short-frozen"];
    m.section("processes", m.n(90), |c| {
        let mode = MODES[c.idx as usize % MODES.len()];
        let dir = c.mon.scratch.join(format!("e{}", c.idx));
        let _ = std::fs::create_dir_all(&dir);
        let (warm, calls, children, seed) = (c.rng.below(40), c.rng.range(6, 400), c.rng.range(2, 5), c.rng.below(1000));
        let subs = subjects(&mut c.rng);
        let st = std::process::Command::new(&exe)
            .args([mode, &dir.to_string_lossy(), &warm.to_string(), &calls.to_string(), &children.to_string(), &seed.to_string()])
            .args(subs.iter().map(|k| k.line()))
            .status();
        let ok = st.map(|s| s.success()).unwrap_or(false);
        let mut all = vec![];
        let (mut cdrawn, mut kdrawn) = (vec![], vec![]);
        let mut refused = 0;
        for i in 0..children {
            let t = std::fs::read_to_string(dir.join(i.to_string())).unwrap_or_default();
            for (n, l) in t.lines().enumerate() {
                let f: Vec<&str> = l.split(' ').collect();
                if f.len() == 4 {
                    let d: u64 = f[3].parse().unwrap_or(0);
                    if f[0] == "B" {
                        cdrawn.push(d)
                    } else {
                        kdrawn.push(d)
                    }
                    let mut v = unhex(f[1]);
                    if f[0] == "B" {
                        v.extend(unhex(f[2]));
                    }
                    all.push(Made { v, who: format!("{} {} of process {}", if f[0] == "B" { "certificate" } else { "key" }, n, i) });
                } else {
                    refused += 1;
                }
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        if !ok || all.len() + refused != calls * children {
            panic!("entropy child failed in mode {}: {} values, {} refusals", mode, all.len(), refused);
        }
        for m in &all {
            c.eval(&m.v);
        }
        c.mon.event(&format!("mode {}: values", mode), all.len() as u64);
        c.mon.event(&format!("mode {}: refusals", mode), refused as u64);
        let refs: Vec<&Made> = all.iter().collect();
        repeats(c, &refs, &format!("values made by {} processes forked from one, mode {}", children, mode));
        if mode.starts_with("pass") && refused > 0 {
            c.fail("making a certificate or key failed with randomness available", json!({"mode": mode}));
        }
        for (what, need, d) in [("certificate", 40, &cdrawn), ("key", 36, &kdrawn)] {
            if d.len() < 20 || !mode.starts_with("pass") {
                continue;
            }
            let least = d.iter().filter(|x| **x > 0).count();
            c.mon.event_max(&format!("most random bytes drawn for a {}", what), *d.iter().max().unwrap_or(&0));
            if least == d.len() && d.iter().filter(|x| **x < need).count() * 2 > d.len() {
                c.fail(format!("each {} draws only {} random bytes for its {}", what, d.iter().min().unwrap_or(&0), need), json!({"mode": mode}));
            }
        }
    });
}
