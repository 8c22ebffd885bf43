//! C08, C09: public keys and fingerprints.
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::mutate::havoc;
use crate::p_sig::{near_keys, same_key};
use crate::refcert::{pub_blob, Spec};
use crate::rng::Rng;
use crate::wire::{b64, hexs, mpint_body, R, W};
use serde_json::json;
use sshcerts::ssh::{Fingerprint, FingerprintKind, PrivateKey, PublicKeyKind};
use sshcerts::{Certificate, PublicKey};

/// Blob of a public key of the given type. RSA moduli are arbitrary odd numbers of any length.
/// A public key of this type and its size; RSA keys of any numbers.
pub fn any_blob(r: &mut Rng, kt: KT) -> (Vec<u8>, usize) {
    if kt != KT::Rsa {
        let k = Key::gen(r, kt);
        let bits = match kt {
            KT::P384 => 384,
            KT::P521 => 521,
            _ => 256,
        };
        return (k.blob(), bits);
    }
    if r.chance(1, 3) {
        let i = r.below(14);
        return (Key::rsa(i).blob(), RSA_POOL[i].1);
    }
    let bits = match r.below(5) {
        0 => *r.pick(&[1024usize, 2048, 3072, 4096, 768, 16384]),
        1 => r.range(1016, 1032),
        2 => r.range(2040, 2060),
        _ => r.range(512, 5000),
    };
    let mut n = r.bytes((bits + 7) / 8);
    let top = (bits - 1) % 8;
    n[0] &= ((1u16 << (top + 1)) - 1) as u8;
    n[0] |= 1 << top;
    let l = n.len();
    n[l - 1] |= 1;
    if r.chance(1, 8) && l > 4 {
        n[1] = 0;
        n[2] = 0;
    }
    let e: Vec<u8> = match r.below(6) {
        0 => vec![3],
        1 => vec![0x80 | r.byte() | 1],
        2 => vec![17],
        3 => {
            let mut v = r.bytes(4);
            v[0] |= 1;
            v[3] |= 1;
            v
        }
        4 => vec![0x7f],
        _ => vec![1, 0, 1],
    };
    (W::new().s(b"ssh-rsa").mpint(&e).mpint(&n).0, bits)
}

/// A key and others that share most of it: all but one byte of one field, all but one whole field,
/// the same bytes divided differently.
fn relatives(r: &mut Rng, kt: KT) -> Vec<(Vec<u8>, usize)> {
    if kt == KT::Rsa {
        let n = r.range(64, 300);
        let mut m = r.bytes(n);
        m[0] |= 0x80;
        let bits = n * 8;
        let mk = |e: &[u8], m: &[u8], bits: usize| (W::new().s(b"ssh-rsa").mpint(e).mpint(m).0, bits);
        let e = vec![1, 0, 1];
        let mut v = vec![mk(&e, &m, bits), mk(&[3], &m, bits), mk(&[1, 0, 3], &m, bits), mk(&[0x81], &m, bits), mk(&[2, 0, 1], &m, bits)];
        for at in [0, 1, 7, 8, 31, 32, n / 2, n - 33, n - 32, n - 9, n - 2, n - 1] {
            let mut x = m.clone();
            x[at] ^= 1 << r.below(7);
            v.push(mk(&e, &x, bits));
        }
        v.push(mk(&e, &[&[1u8][..], &m].concat(), bits + 1));
        let other = r.bytes(n - 40);
        v.push(mk(&e, &[&m[..40], &other].concat(), bits));
        return v;
    }
    let bits = match kt {
        KT::P384 => 384,
        KT::P521 => 521,
        _ => 256,
    };
    let k = Key::gen(r, kt);
    let blob = k.blob();
    let mut rd = R::new(&blob);
    let name = rd.s().unwrap().to_vec();
    let curve = kt.curve().map(|_| rd.s().unwrap().to_vec());
    let point = rd.s().unwrap().to_vec();
    let mk = |p: &[u8], app: &[u8]| {
        let mut w = W::new().s(&name);
        if let Some(cv) = &curve {
            w = w.s(cv);
        }
        w = w.s(p);
        if kt.is_sk() {
            w = w.s(app);
        }
        (w.0, bits)
    };
    let len = *r.pick(&[0usize, 1, 4, 16, 27, 28, 32, 33, 40, 60, 64, 100, 300]);
    let app: Vec<u8> = format!("ssh:{}", r.word(400).repeat(40)).into_bytes().into_iter().filter(|b| b.is_ascii_graphic()).chain(std::iter::repeat(b'a')).take(len).collect();
    let mut v = vec![mk(&point, &app)];
    let n = point.len();
    let first = if curve.is_some() { 1 } else { 0 };
    for at in [first, first + 1, 7, 15, 16, n / 2, n - 17, n - 16, n - 2, n - 1] {
        let mut x = point.clone();
        x[at] ^= 1 << r.below(8);
        v.push(mk(&x, &app));
    }
    for _ in 0..3 {
        let o = Key::gen(r, kt).blob();
        let mut rd = R::new(&o);
        rd.s();
        if curve.is_some() {
            rd.s();
        }
        v.push(mk(rd.s().unwrap(), &app));
    }
    let mut swapped = point.clone();
    let half = (n - first) / 2;
    swapped[first..].rotate_left(half);
    v.push(mk(&swapped, &app));
    let whole = r.bytes(n - first);
    v.push(mk(&[&point[..first], &whole].concat(), &app));
    if kt.is_sk() {
        for a in [&b""[..], b"ssh:", b"ssh:x", b"SSH:", &app[..app.len() / 2], &[&app[..], b"x"].concat(), &[b"x", &app[..]].concat()] {
            v.push(mk(&point, a));
        }
        for at in [0, app.len() / 2, app.len().saturating_sub(1)] {
            let mut a = app.clone();
            if at < a.len() {
                a[at] ^= 1;
                v.push(mk(&point, &a));
            }
        }
    }
    v
}

fn name_of(blob: &[u8]) -> String {
    R::new(blob).s().map(|n| String::from_utf8_lossy(n).to_string()).unwrap_or_default()
}

/// Whether the line or blob has to be accepted: canonical in every respect.
pub fn must_accept(blob: &[u8]) -> bool {
    match parse_pub(blob) {
        Some((kt, p, false)) => {
            name_of(blob) == kt.name()
                && match p {
                    Pub::Rsa { e, n } => !e.is_empty() && !n.is_empty(),
                    Pub::Ed { key, app } => key.len() == 32 && app.map(|a| std::str::from_utf8(&a).is_ok()).unwrap_or(true),
                    Pub::Ec { kt, point, app } => {
                        point.len() == 2 * kt.field() + 1 && point[0] == 4 && app.map(|a| std::str::from_utf8(&a).is_ok()).unwrap_or(true)
                    }
                }
        }
        _ => false,
    }
}

fn check_key(c: &mut Case<'_>, k: &PublicKey, blob: &[u8], comment: Option<&str>, what: &str) -> bool {
    let (kt, p, _) = parse_pub(blob).unwrap();
    let mut bad = vec![];
    if k.key_type.name != kt.name() || k.key_type.plain != kt.name() || k.key_type.is_sk != kt.is_sk() || k.key_type.is_cert {
        bad.push("key type");
    }
    let app_eq = |a: &Option<String>, b: &Option<Vec<u8>>| a.as_ref().map(|s| s.as_bytes().to_vec()) == *b;
    match (&k.kind, &p) {
        (PublicKeyKind::Rsa(x), Pub::Rsa { e, n }) => {
            if strip(&x.e) != strip(e) {
                bad.push("exponent");
            }
            if strip(&x.n) != strip(n) {
                bad.push("modulus");
            }
        }
        (PublicKeyKind::Ecdsa(x), Pub::Ec { kt, point, app }) => {
            if x.curve.identifier != kt.curve().unwrap() {
                bad.push("curve");
            }
            if &x.key != point {
                bad.push("point");
            }
            if !app_eq(&x.sk_application, app) {
                bad.push("application");
            }
        }
        (PublicKeyKind::Ed25519(x), Pub::Ed { key, app }) => {
            if &x.key != key {
                bad.push("key bytes");
            }
            if !app_eq(&x.sk_application, app) {
                bad.push("application");
            }
        }
        _ => bad.push("kind"),
    }
    if k.comment.as_deref() != comment {
        bad.push("comment");
    }
    let line = match comment {
        Some(t) => format!("{} {} {}", kt.name(), b64(blob), t),
        None => format!("{} {}", kt.name(), b64(blob)),
    };
    let enc = c.call("encode", || k.encode());
    if enc.as_deref().ok() != Some(blob) {
        bad.push("encode()");
    }
    let disp = c.call("Display", || format!("{}", k));
    if disp.as_deref().ok() != Some(&line) {
        bad.push("Display");
    }
    let mut buf = vec![];
    let w = c.call("write", || k.write(&mut buf));
    if !matches!(w, Ok(Ok(()))) || buf != format!("{}\n", line).as_bytes() {
        bad.push("write()");
    }
    // clone, equality and re-reading
    let again = c.call("PublicKey::from_string", || PublicKey::from_string(&line));
    match again {
        Ok(Ok(a)) => {
            if &a != k || &k.clone() != k {
                bad.push("equality after re-reading");
            }
        }
        _ => bad.push("re-reading"),
    }
    if !bad.is_empty() {
        c.fail(format!("public key differs in {:?} ({})", bad, what), json!({"blob": hexs(blob), "comment": comment, "got": hexs(&pub_blob(k))}));
        return false;
    }
    true
}
fn strip(v: &[u8]) -> &[u8] {
    let z = v.iter().take_while(|b| **b == 0).count();
    &v[z..]
}

/// Reads a blob and applies the full accept/reject oracle.
fn judge_blob(c: &mut Case<'_>, blob: &[u8], what: &str) {
    let as_line = c.rng.chance(1, 3);
    let line = format!("{} {}", name_of(blob), b64(blob));
    // names with blanks cannot be put in a line
    let as_line = as_line && line.split_whitespace().count() == 2 && !line.starts_with(char::is_whitespace);
    let r = c.call("PublicKey", || if as_line { PublicKey::from_string(&line) } else { PublicKey::from_bytes(blob) });
    let acc = matches!(r, Ok(Ok(_)));
    c.ev(if acc { "judged.accepted" } else { "judged.rejected" });
    match r {
        Ok(Ok(k)) => {
            if parse_pub(blob).is_none() {
                c.fail(format!("malformed public key accepted: {}", what), json!({"blob": hexs(blob), "as_line": as_line}));
                return;
            }
            let got = pub_blob(&k);
            if !same_key(&got, blob) {
                c.fail(format!("public key read as another key: {}", what), json!({"blob": hexs(blob), "got": hexs(&got), "as_line": as_line}));
                return;
            }
            if must_accept(blob) && c.rng.chance(1, 4) {
                check_key(c, &k, blob, None, what);
            }
        }
        Ok(Err(e)) => {
            if must_accept(blob) {
                c.fail(format!("well-formed public key refused: {} ({:?})", what, e), json!({"blob": hexs(blob), "as_line": as_line}));
            }
        }
        Err(p) => {
            if must_accept(blob) {
                c.fail(format!("reading a well-formed public key panicked: {} ({})", what, p.0), json!({"blob": hexs(blob)}));
            }
        }
    }
}

const CURVES: [&str; 8] = ["nistp256", "nistp384", "nistp521", "nistp224", "", "NISTP256", "nistp256 ", "curve25519"];

pub fn c08(m: &'static Mon) {
    m.rule("one evaluation = one public key line or blob read by the library and compared with an independent decoder (components, re-encoding, printed forms, accept/reject); distinct = distinct blob and way of reading");
    m.section("exact", m.n(14000), |c| {
        let kt = ALL[c.idx as usize % ALL.len()];
        let (blob, _) = any_blob(&mut c.rng, kt);
        let comment = match c.rng.below(4) {
            0 => None,
            1 => Some(match c.rng.below(3) {
                0 => "me@host".to_string(),
                1 => format!("{}{}", c.rng.pick(&["#", "//", ";", "-", "=", "\"", "'", "@", "\\", "é", "0"]), c.rng.word(9)),
                // several words, exactly as they stand
                _ => {
                    let (a, b) = (c.rng.word(12), c.rng.word(12));
                    format!("{}{}{}{}", a, c.rng.pick(&[" ", "  ", " - ", "\t", " # ", " \t "]), b, c.rng.pick(&["", " x", " (work)", " ssh-rsa AAAA"]))
                }
            }),
            2 => Some(c.rng.word(60)),
            _ => Some(format!("{}é{}\"#,=", c.rng.word(4), c.rng.word(4))),
        };
        let base = format!("{} {}", kt.name(), b64(&blob));
        let line = match (&comment, c.rng.below(4)) {
            (Some(t), 0) => format!("  {}\t{} \n", base.replace(' ', "   "), t),
            (Some(t), _) => format!("{} {}", base, t),
            (None, 0) => format!("\t{}\r\n", base),
            (None, _) => base,
        };
        let via = c.rng.below(8);
        let r = match via {
            0..=2 => c.call("PublicKey::from_bytes", || PublicKey::from_bytes(&blob)),
            3 => {
                let p = c.mon.scratch.join(format!("pk-{}", c.idx));
                std::fs::write(&p, &line).unwrap();
                let r = c.call("PublicKey::from_path", || PublicKey::from_path(&p));
                let _ = std::fs::remove_file(&p);
                r
            }
            _ => c.call("PublicKey::from_string", || PublicKey::from_string(&line)),
        };
        let want = if via <= 2 { None } else { comment.as_deref() };
        c.eval(&[&blob[..], &[via as u8]].concat());
        c.ev(&format!("{:?}", kt));
        c.sample(|| json!({"line": line, "via": via}));
        match r {
            Ok(Ok(k)) => {
                check_key(c, &k, &blob, want, "valid key");
            }
            Ok(Err(e)) => c.fail(format!("valid {:?} public key refused: {:?}", kt, e), json!({"line": line})),
            Err(p) => c.fail(format!("reading a valid {:?} public key panicked: {}", kt, p.0), json!({"line": line})),
        }
    });
    // every truncation and every byte changed
    m.section("byte-sweep", m.n(70), |c| {
        let kt = ALL[c.idx as usize % ALL.len()];
        let (blob, _) = any_blob(&mut c.rng, kt);
        for i in 0..blob.len() {
            c.eval(&[kt as u8, 0, (i >> 8) as u8, i as u8]);
            judge_blob(c, &blob[..i], &format!("{:?} key cut to {} of {} bytes", kt, i, blob.len()));
            let mut b = blob.clone();
            b[i] ^= 1 << c.rng.below(8);
            c.eval(&[kt as u8, 1, (i >> 8) as u8, i as u8]);
            judge_blob(c, &b, &format!("{:?} key with byte {} changed", kt, i));
        }
        let mut b = blob.clone();
        b.push(0);
        judge_blob(c, &b, "byte appended");
    });
    // label against inner type, type against curve, certificate types
    m.section("disagreement", (ALL.len() * 24 * if m.thorough { 20 } else { 2 }) as u64, |c| {
        let kt = ALL[c.idx as usize % ALL.len()];
        let (blob, _) = any_blob(&mut c.rng, kt);
        let labels: Vec<&str> = ALL.iter().map(|k| k.name()).chain(ALL.iter().map(|k| k.cert_name())).chain(["rsa-sha2-256", "rsa-sha2-512", "ssh-dss", "SSH-RSA", "ssh-ed25519x", "ssh-ed2551", "nistp256", "Ecdsa-sha2-nistp256", "*", "cert-authority"]).collect();
        let l = labels[(c.idx as usize / ALL.len()) % labels.len()];
        // outer label
        if l != kt.name() {
            let line = format!("{} {} c", l, b64(&blob));
            c.eval(format!("{:?}/outer/{}", kt, l).as_bytes());
            if let Ok(Ok(k)) = c.call("PublicKey::from_string", || PublicKey::from_string(&line)) {
                c.fail(format!("line labelled {} accepted for a {} key", l, kt.name()), json!({"line": line, "got": hexs(&pub_blob(&k))}));
            } else {
                c.ev("label rejected");
            }
        }
        // inner type replaced (and the line's with it)
        let mut r = R::new(&blob);
        r.s().unwrap();
        let rest = blob[blob.len() - r.left()..].to_vec();
        let b2 = W::new().s(l.as_bytes()).raw(&rest).0;
        c.eval(format!("{:?}/inner/{}", kt, l).as_bytes());
        judge_blob(c, &b2, &format!("{} fields under the type {}", kt.name(), l));
        // curves
        if let Some(_) = kt.curve() {
            let cv = CURVES[c.rng.below(CURVES.len())];
            let mut r = R::new(&rest);
            r.s().unwrap();
            let tail = rest[rest.len() - r.left()..].to_vec();
            let b3 = W::new().s(kt.name().as_bytes()).s(cv.as_bytes()).raw(&tail).0;
            c.eval(format!("{:?}/curve/{}", kt, cv).as_bytes());
            judge_blob(c, &b3, &format!("{} with curve {:?}", kt.name(), cv));
        }
        // fields of another length than the type calls for: refused, or read and written as they are
        for _ in 0..6 {
            let mut f: Vec<Vec<u8>> = vec![];
            let mut r = R::new(&blob);
            while let Some(x) = r.s() {
                f.push(x.to_vec());
            }
            let i = c.rng.range(1, f.len() - 1);
            let n = *c.rng.pick(&[1usize, 1, 2, 31, 32, 33, 64]);
            let l = f[i].len();
            let how = c.rng.below(5);
            match how {
                0 => f[i].truncate(l.saturating_sub(n)),
                1 => f[i] = f[i].split_off(n.min(l)),
                2 => f[i] = vec![],
                3 => {
                    let x = f[i].clone();
                    f[i].extend(x);
                }
                _ => {
                    let x = c.rng.bytes(n);
                    f[i].extend(x);
                }
            }
            let b = f.iter().fold(W::new(), |w, x| w.s(x)).0;
            c.eval(format!("{:?}/length/{}/{}/{}", kt, i, how, n).as_bytes());
            judge_blob(c, &b, &format!("{} with field {} of {} bytes instead of {}", kt.name(), i, f[i].len(), l));
        }
        // a certificate offered as a key
        let sub = Key::gen(&mut c.rng, kt);
        let ca = Key::gen(&mut c.rng, KT::Ed);
        let cert = Spec::gen(&mut c.rng, &sub, &ca, false).signed(&ca, SigOpt::default());
        c.eval(format!("{:?}/cert", kt).as_bytes());
        judge_blob(c, &cert, "certificate as a public key");
        let line = format!("{} {}", kt.cert_name(), b64(&cert));
        if let Ok(Ok(_)) = c.call("PublicKey::from_string", || PublicKey::from_string(&line)) {
            c.fail("certificate line accepted as a public key", json!({"line": line}));
        }
        // missing parts of a line
        for bad in [String::new(), kt.name().to_string(), format!("{} ", kt.name()), b64(&blob), format!("{} {}", b64(&blob), kt.name()), format!("{} {}!", kt.name(), b64(&blob)), format!("{},{}", kt.name(), b64(&blob)), format!("{} A{}", kt.name(), b64(&blob))] {
            c.eval(format!("{:?}/line/{}", kt, bad.len() % 7).as_bytes());
            if let Ok(Ok(_)) = c.call("PublicKey::from_string", || PublicKey::from_string(&bad)) {
                c.fail("malformed public key line accepted", json!({"line": bad}));
            }
        }
        // integers that are negative or not minimal
        if kt == KT::Rsa {
            let (_, p, _) = parse_pub(&blob).unwrap();
            if let Pub::Rsa { e, n } = p {
                let (e, n) = (mpint_body(strip(&e)), mpint_body(strip(&n)));
                let z = |v: &[u8]| [&[0][..], v].concat();
                for (w, a, b) in [
                    ("non-minimal exponent", z(&e), n.clone()),
                    ("non-minimal modulus", e.clone(), z(&n)),
                    ("negative modulus", e.clone(), if n[0] == 0 { n[1..].to_vec() } else { [&[0x80][..], &n].concat() }),
                    ("negative exponent", vec![0x81], n.clone()),
                ] {
                    c.eval(w.as_bytes());
                    judge_blob(c, &W::new().s(b"ssh-rsa").s(&a).s(&b).0, w);
                }
            }
        }
    });
    m.section("havoc", m.n(12000), |c| {
        let kt = *c.rng.pick(&ALL);
        let (mut blob, _) = any_blob(&mut c.rng, kt);
        for _ in 0..c.rng.range(1, 3) {
            havoc(&mut c.rng, &mut blob);
        }
        c.eval(&blob);
        judge_blob(c, &blob, "havoc");
    });
    m.section("distinct", m.n(700), |c| {
        let kt = ALL[c.idx as usize % ALL.len()];
        let k = Key::gen(&mut c.rng, kt);
        let a = match PublicKey::from_bytes(&k.blob()) {
            Ok(a) => a,
            Err(_) => return,
        };
        for (w, b) in near_keys(&mut c.rng, &k) {
            if b == k.blob() {
                continue;
            }
            c.eval(&[&[kt as u8], w.as_bytes()].concat());
            if let Ok(Ok(x)) = c.call("PublicKey::from_bytes", || PublicKey::from_bytes(&b)) {
                let eq = x == a || a == x || x.kind == a.kind && x.key_type == a.key_type;
                if eq || x.encode() == a.encode() || format!("{}", x) == format!("{}", a) || x.fingerprint() == a.fingerprint() {
                    c.fail(format!("different keys are equal: {}", w), json!({"a": hexs(&k.blob()), "b": hexs(&b)}));
                }
                c.ev("pair compared");
            }
        }
        let b = PublicKey::from_string(&k.line());
        if b.map(|b| b != a).unwrap_or(true) {
            c.fail("the same key read twice is not equal", json!({"key": k.line()}));
        }
    });
}

// ------------------------------------------------------------------------------------------ C09

fn want_fp(kind: usize, data: &[u8]) -> (String, &'static str) {
    let (d, n) = match kind {
        0 => (openssl::sha::sha256(data).to_vec(), "SHA256"),
        1 => (openssl::sha::sha384(data).to_vec(), "SHA384"),
        _ => (openssl::sha::sha512(data).to_vec(), "SHA512"),
    };
    (b64(&d).trim_end_matches('=').to_string(), n)
}
fn fk(kind: usize) -> FingerprintKind {
    match kind {
        0 => FingerprintKind::Sha256,
        1 => FingerprintKind::Sha384,
        _ => FingerprintKind::Sha512,
    }
}
fn check_fp(c: &mut Case<'_>, k: &PublicKey, blob: &[u8], bits: usize, what: &str) -> bool {
    for kind in 0..4 {
        let r = c.call("fingerprint", || if kind == 3 { k.fingerprint() } else { k.fingerprint_with(fk(kind)) });
        let (h, n) = want_fp(if kind == 3 { 0 } else { kind }, blob);
        match r {
            Ok(f) => {
                if f.hash != h || f.kind != fk(if kind == 3 { 0 } else { kind }) || format!("{}", f) != format!("{}:{}", n, h) {
                    c.fail(format!("wrong fingerprint ({}, {})", n, what), json!({"blob": hexs(blob), "got": format!("{}", f), "want": format!("{}:{}", n, h)}));
                    return false;
                }
            }
            Err(p) => {
                c.fail(format!("fingerprint panicked ({}): {}", what, p.0), json!({"blob": hexs(blob)}));
                return false;
            }
        }
    }
    let b = c.call("bits", || k.bits());
    if b.as_ref().ok() != Some(&bits) {
        c.fail(format!("wrong key size ({})", what), json!({"blob": hexs(blob), "got": b.ok(), "want": bits}));
        return false;
    }
    true
}

pub fn c09(m: &'static Mon) {
    m.rule("one evaluation = one key loaded in one way whose three fingerprints and size are compared with libcrypto's digests of its independently encoded blob (and with ssh-keygen -l); distinct = distinct (key, way of loading)");
    m.assume("libcrypto's digests and ssh-keygen are correct");
    m.section("loaded", m.n(5000), |c| {
        let kt = ALL[c.idx as usize % ALL.len()];
        let (blob, bits) = any_blob(&mut c.rng, kt);
        let line = format!("{} {}", kt.name(), b64(&blob));
        let comment = c.rng.word(12);
        let ways: Vec<(&str, Option<PublicKey>)> = vec![
            ("blob", c.call("p", || PublicKey::from_bytes(&blob).ok()).ok().flatten()),
            ("line", c.call("p", || PublicKey::from_string(&line).ok()).ok().flatten()),
            ("line with comment", c.call("p", || PublicKey::from_string(&format!("{} {}", line, comment)).ok()).ok().flatten()),
            ("path", {
                let p = c.mon.scratch.join(format!("fp-{}", c.idx));
                std::fs::write(&p, format!("{} {}\n", line, comment)).unwrap();
                let r = c.call("p", || PublicKey::from_path(&p).ok()).ok().flatten();
                let _ = std::fs::remove_file(&p);
                r
            }),
        ];
        for (w, k) in ways {
            if let Some(k) = k {
                c.eval(&[&blob[..], w.as_bytes()].concat());
                c.ev(w);
                if !check_fp(c, &k, &blob, bits, w) {
                    return;
                }
                // again, after the others, and for a copy
                let mut k2 = k.clone();
                check_fp(c, &k2, &blob, bits, "clone");
                k2.comment = match c.rng.below(4) {
                    0 => None,
                    1 => Some(String::new()),
                    _ => Some(c.rng.text(40)),
                };
                check_fp(c, &k2, &blob, bits, "with another comment");
                check_fp(c, &k, &blob, bits, "again");
            } else {
                c.ev("not loaded");
            }
        }
        c.sample(|| json!({"line": line, "bits": bits}));
    });
    m.section("from-private-and-certificate", m.n(3000), |c| {
        let kt = ALL[c.idx as usize % ALL.len()];
        let k = Key::gen(&mut c.rng, kt);
        let bits = |k: &Key| match k.kt {
            KT::Rsa => RSA_POOL[k.rsa].1,
            KT::P384 => 384,
            KT::P521 => 521,
            _ => 256,
        };
        let text = PrivFile::new(&k, &PrivExtra { flags: 1, handle: c.rng.bytes(40), reserved: vec![] }, &c.rng.word(20), c.rng.val32()).text();
        match c.call("PrivateKey::from_string", || PrivateKey::from_string(&text)) {
            Ok(Ok(p)) => {
                c.eval(&[&k.blob()[..], b"private"].concat());
                c.ev("private");
                check_fp(c, &p.pubkey, &k.blob(), bits(&k), "public key of a private key");
            }
            _ => c.ev("not loaded"),
        }
        let ckt = *c.rng.pick(&VERIFIABLE);
        let ca = Key::gen(&mut c.rng, ckt);
        let spec = Spec::gen(&mut c.rng, &k, &ca, false);
        let bytes = spec.signed(&ca, SigOpt::default());
        let l = format!("{} some-comment", spec.line_of(&bytes));
        match c.call("Certificate::from_string", || Certificate::from_string(&l)) {
            Ok(Ok(cert)) => {
                c.eval(&[&k.blob()[..], b"certificate"].concat());
                c.ev("certificate");
                check_fp(c, &cert.key, &k.blob(), bits(&k), "subject of a certificate");
                check_fp(c, &cert.signature_key, &ca.blob(), bits(&ca), "CA of a certificate");
            }
            _ => c.ev("not loaded"),
        }
    });
    m.section("relatives", m.n(1500), |c| {
        // keys that are easily taken for each other, asked about in any order
        let kt = ALL[c.idx as usize % ALL.len()];
        let fam = relatives(&mut c.rng, kt);
        let mut keys = vec![];
        for (blob, bits) in fam {
            if let Ok(Some(k)) = c.call("PublicKey::from_bytes", || PublicKey::from_bytes(&blob).ok()) {
                keys.push((k, blob, bits));
            }
        }
        c.ev("family of keys");
        if keys.is_empty() {
            return;
        }
        c.eval(&keys.iter().flat_map(|k| k.1.clone()).collect::<Vec<u8>>());
        let rounds = 60;
        let mut kind = 0;
        let mut i = 0;
        for _ in 0..rounds {
            if c.rng.chance(2, 3) {
                i = c.rng.below(keys.len());
            }
            if c.rng.chance(1, 3) {
                kind = c.rng.below(4);
            }
            let (k, blob, bits) = &keys[i];
            let way = c.rng.below(3);
            let r = c.call("fingerprint", || match (way, kind) {
                (0, _) => Fingerprint::compute(fk(kind % 3), &k.encode()),
                (_, 3) => k.fingerprint(),
                _ => k.fingerprint_with(fk(kind)),
            });
            let (h, n) = want_fp(if kind == 3 { 0 } else { kind }, blob);
            c.ev("asked about a key after others like it");
            match r {
                Ok(f) if format!("{}", f) == format!("{}:{}", n, h) => (),
                Ok(f) => {
                    c.fail("wrong fingerprint after those of similar keys", json!({"blob": hexs(blob), "got": format!("{}", f), "want": format!("{}:{}", n, h)}));
                    return;
                }
                Err(p) => {
                    c.fail(format!("fingerprint panicked: {}", p.0), json!({"blob": hexs(blob)}));
                    return;
                }
            }
            if c.rng.chance(1, 8) && k.bits() != *bits {
                c.fail("wrong key size after similar keys", json!({"blob": hexs(blob), "got": k.bits(), "want": bits}));
                return;
            }
        }
    });
    m.section("compute", m.n(6000), |c| {
        let d = if c.rng.chance(1, 20) {
            let n = c.rng.below(300_000);
            c.rng.bytes(n)
        } else {
            c.rng.blob(70000)
        };
        for kind in 0..3 {
            let r = c.call("Fingerprint::compute", || Fingerprint::compute(fk(kind), &d));
            let (h, n) = want_fp(kind, &d);
            c.eval(&[&d[..], &[kind as u8]].concat());
            match r {
                Ok(f) if f.hash == h && format!("{}", f) == format!("{}:{}", n, h) => (),
                Ok(f) => c.fail("wrong fingerprint of data", json!({"data": hexs(&d), "got": format!("{}", f), "want": format!("{}:{}", n, h)})),
                Err(p) => c.fail(format!("fingerprint panicked: {}", p.0), json!({"data": hexs(&d)})),
            }
        }
    });
    m.section("every-rsa-size", 0x600, |c| {
        let bits = 1 + c.idx as usize * 3;
        let mut n = c.rng.bytes((bits + 7) / 8);
        let top = (bits - 1) % 8;
        n[0] &= ((1u16 << (top + 1)) - 1) as u8;
        n[0] |= 1 << top;
        let blob = W::new().s(b"ssh-rsa").mpint(&[1, 0, 1]).mpint(&n).0;
        c.eval(&blob);
        match c.call("PublicKey::from_bytes", || PublicKey::from_bytes(&blob)) {
            Ok(Ok(k)) => {
                check_fp(c, &k, &blob, bits, "rsa");
            }
            _ => c.ev("not loaded"),
        }
    });
    crate::openssh::section(m, "openssh", m.n(42), |c, dir| {
        let kt = ALL[c.idx as usize % ALL.len()];
        let k = if kt == KT::Rsa { Key::rsa(c.rng.below(14)) } else { Key::gen(&mut c.rng, kt) };
        // applications with NUL bytes are refused by OpenSSH
        let k = k.for_openssh(&mut c.rng);
        let lib = match c.call("PublicKey::from_bytes", || PublicKey::from_bytes(&k.blob())) {
            Ok(Ok(l)) => l,
            _ => return,
        };
        let p = dir.join("k.pub");
        let mut buf = vec![];
        let _ = lib.write(&mut buf);
        std::fs::write(&p, &buf).unwrap();
        for (kind, n) in [(0, "sha256"), (1, "sha384"), (2, "sha512")] {
            let (ok, out) = crate::openssh::keygen(&["-l", "-E", n, "-f", p.to_str().unwrap()], b"");
            if !ok {
                c.ev("openssh refused");
                c.sample(|| json!({"ssh-keygen": out}));
                if RSA_POOL[k.rsa].1 >= 1024 {
                    c.fail(format!("ssh-keygen cannot read the key line written for a {:?} key", kt), json!({"line": String::from_utf8_lossy(&buf), "ssh-keygen": out}));
                }
                return;
            }
            let want = format!("{} {}", lib.bits(), lib.fingerprint_with(fk(kind)));
            c.eval(&[&k.blob()[..], n.as_bytes()].concat());
            c.ev("openssh compared");
            if !out.starts_with(&want) {
                c.fail(format!("ssh-keygen prints another fingerprint or size for a {:?} key", kt), json!({"ssh-keygen": out, "library": want}));
            }
        }
    });
}
