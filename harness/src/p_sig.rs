//! C05-C07: signatures and detached signatures.
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::mutate::havoc;
use crate::p_cert::{build, lib_private};
use crate::refcert::{pub_blob, Spec};
use crate::rng::Rng;
use crate::wire::{b64, hexs, mpint_body, R, W};
use openssl::bn::{BigNum, BigNumContext};
use openssl::ec::EcGroup;
use openssl::ecdsa::EcdsaSig;
use openssl::hash::MessageDigest;
use openssl::rsa::Padding;
use serde_json::json;
use sshcerts::ssh::{HashAlgorithm, PrivateKey, SshSignature, VerifiedSshSignature};
use sshcerts::PublicKey;

// ------------------------------------------------------------------------------------------ C05

#[derive(Clone, Copy, PartialEq, Debug)]
enum Route {
    Cert,
    Detached,
    Attach,
}
const ROUTES: [Route; 3] = [Route::Cert, Route::Detached, Route::Attach];

/// Offers a signature made by `f` over whatever this route signs, for verification under `blob`.
/// Returns (accepted, independent verdict).
fn offer(c: &mut Case<'_>, route: Route, key: &Key, blob: &[u8], f: &mut dyn FnMut(&mut Rng, &[u8]) -> Vec<u8>) -> Option<(bool, V, Vec<u8>)> {
    match route {
        Route::Cert => {
            let sub = Key::gen(&mut c.rng, KT::Ed);
            let mut spec = Spec::gen(&mut c.rng, &sub, key, false);
            spec.ca = blob.to_vec();
            let tbs = spec.tbs();
            let sig = f(&mut c.rng, &tbs);
            let mut b = tbs.clone();
            b.extend(W::new().s(&sig).0);
            let r = c.call("Certificate::from_bytes", || sshcerts::Certificate::from_bytes(&b));
            Some((matches!(r, Ok(Ok(_))), ref_verify(blob, &sig, &tbs), sig))
        }
        Route::Detached => {
            let n = c.rng.size(3000);
            let msg = c.rng.bytes(n);
            let ns = c.rng.word(10);
            let hash = *c.rng.pick(&["sha256", "sha512"]);
            let tbs = sshsig_tbs(ns.as_bytes(), b"", hash.as_bytes(), &sshsig_digest(hash, &msg));
            let sig = f(&mut c.rng, &tbs);
            let text = armor("SSH SIGNATURE", &sshsig_blob(blob, ns.as_bytes(), b"", hash.as_bytes(), &sig), 70, true);
            let r = c.call("from_ssh_signature", || {
                SshSignature::from_armored_string(&text).and_then(|s| VerifiedSshSignature::from_ssh_signature(&msg, s, &ns, None))
            });
            Some((matches!(r, Ok(Ok(_))), ref_verify(blob, &sig, &tbs), sig))
        }
        Route::Attach => {
            let ca = PublicKey::from_bytes(blob).ok()?;
            let sub = Key::gen(&mut c.rng, KT::Ed);
            let spec = Spec::gen(&mut c.rng, &sub, key, false);
            let subk = PublicKey::from_bytes(&sub.blob()).ok()?;
            let b = build(&mut c.rng, &spec, &subk, &ca, false);
            let tbs = b.tbs_certificate();
            let sig = f(&mut c.rng, &tbs);
            let r = c.call("add_signature", || b.add_signature(&sig));
            Some((matches!(r, Ok(Ok(_))), ref_verify(blob, &sig, &tbs), sig))
        }
    }
}

fn judge_offer(c: &mut Case<'_>, route: Route, key: &Key, blob: &[u8], what: &str, f: &mut dyn FnMut(&mut Rng, &[u8]) -> Vec<u8>) {
    let (acc, v, sig) = match offer(c, route, key, blob, f) {
        Some(x) => x,
        None => {
            c.ev("key refused");
            return;
        }
    };
    c.eval(format!("{:?}/{:?}/{}", route, key.kt, what).as_bytes());
    c.ev(&format!("{:?}.{:?}.{}", route, v, if acc { "accepted" } else { "rejected" }));
    if acc && v == V::Invalid {
        c.fail(
            format!("signature accepted that does not count under its key: {} ({:?} key, via {:?})", what, key.kt, route),
            json!({"key": hexs(blob), "signature": hexs(&sig)}),
        );
    }
}

fn sig_key(r: &mut Rng, kt: KT) -> Key {
    if kt == KT::Rsa {
        let i = if r.chance(1, 6) { r.below(12) } else { *r.pick(&[0usize, 1, 2, 5, 7]) };
        Key::rsa(i)
    } else {
        Key::gen(r, kt)
    }
}

const LABELS: [&str; 26] = [
    "ssh-rsa",
    "rsa-sha2-256",
    "rsa-sha2-512",
    "ssh-ed25519",
    "ecdsa-sha2-nistp256",
    "ecdsa-sha2-nistp384",
    "ecdsa-sha2-nistp521",
    "sk-ssh-ed25519@openssh.com",
    "sk-ecdsa-sha2-nistp256@openssh.com",
    "ssh-rsa-cert-v01@openssh.com",
    "rsa-sha2-256-cert-v01@openssh.com",
    "rsa-sha2-512-cert-v01@openssh.com",
    "ssh-ed25519-cert-v01@openssh.com",
    "ecdsa-sha2-nistp256-cert-v01@openssh.com",
    "ecdsa-sha2-nistp384-cert-v01@openssh.com",
    "ecdsa-sha2-nistp521-cert-v01@openssh.com",
    "sk-ssh-ed25519-cert-v01@openssh.com",
    "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com",
    "ssh-dss",
    "",
    "SSH-ED25519",
    "Ssh-Rsa",
    "ssh-ed25519 ",
    " ecdsa-sha2-nistp256",
    "rsa-sha2-384",
    "webauthn-sk-ecdsa-sha2-nistp256@openssh.com",
];

/// All raw ways this key can sign data: (description, body of the signature field, token bytes).
fn raw_variants(k: &Key, o: SigOpt, data: &[u8], i: usize) -> (String, Vec<u8>, Vec<u8>) {
    let mds = [
        ("sha1", MessageDigest::sha1()),
        ("sha256", MessageDigest::sha256()),
        ("sha384", MessageDigest::sha384()),
        ("sha512", MessageDigest::sha512()),
    ];
    let token = W::new().raw(&[o.flags]).u32(o.counter).0;
    let with_token = i % 2 == 1;
    let signed = if with_token { sk_signed(&k.app, o.flags, o.counter, data) } else { data.to_vec() };
    let tok = if with_token { token } else { vec![] };
    match k.kt {
        KT::Rsa => {
            let (n, md) = mds[(i / 2) % 4];
            let mut s = openssl::sign::Signer::new(md, &k.pkey).unwrap();
            s.set_rsa_padding(Padding::PKCS1).unwrap();
            (format!("pkcs1 {} token={}", n, with_token), s.sign_oneshot_to_vec(&signed).unwrap(), tok)
        }
        KT::Ed | KT::SkEd => (format!("ed token={}", with_token), k.sign_raw(&signed, o.rsa), tok),
        _ => {
            let (n, md) = mds[(i / 2) % 4];
            let mut s = openssl::sign::Signer::new(md, &k.pkey).unwrap();
            let der = s.sign_oneshot_to_vec(&signed).unwrap();
            let e = EcdsaSig::from_der(&der).unwrap();
            (format!("ecdsa {} token={}", n, with_token), W::new().mpint(&e.r().to_vec()).mpint(&e.s().to_vec()).0, tok)
        }
    }
}

pub fn c05(m: &'static Mon) {
    m.rule("one evaluation = one (verifying key, signature blob) pair offered through a certificate, a detached signature or add_signature, compared with libcrypto's verdict under the algorithm the key prescribes; distinct = distinct (route, key type, alteration)");
    m.assume("libcrypto's verification is correct; a panic counts as a refusal here");
    // every key type x label x way of signing x route
    let per = LABELS.len() * 8 * 3;
    m.section("label-matrix", (VERIFIABLE.len() * per * if m.thorough { 8 } else { 1 }) as u64, |c| {
        let i = c.idx as usize;
        let kt = VERIFIABLE[i % VERIFIABLE.len()];
        let j = i / VERIFIABLE.len();
        let label = LABELS[j % LABELS.len()];
        let j = j / LABELS.len();
        let variant = j % 8;
        let route = ROUTES[(j / 8) % 3];
        let k = sig_key(&mut c.rng, kt);
        let o = SigOpt::random(&mut c.rng);
        let mut d = String::new();
        let blob = k.blob();
        judge_offer(c, route, &k, &blob, &format!("label {:?}, variant {}", label, variant), &mut |_, data| {
            let (n, body, tok) = raw_variants(&k, o, data, variant);
            d = n;
            W::new().s(label.as_bytes()).s(&body).raw(&tok).0
        });
        c.sample(|| json!({"key": format!("{:?}", kt), "label": label, "signed_as": d, "route": format!("{:?}", route)}));
    });
    // the same raw signature under keys of the same point/bytes but another type
    m.section("cross-type", m.n(900), |c| {
        let route = ROUTES[c.idx as usize % 3];
        let o = SigOpt::random(&mut c.rng);
        // plain key and security key with the same public part
        let pairs = [(KT::Ed, KT::SkEd), (KT::SkEd, KT::Ed), (KT::P256, KT::SkEc), (KT::SkEc, KT::P256)];
        let (akt, bkt) = *c.rng.pick(&pairs);
        let a = Key::gen(&mut c.rng, akt);
        let mut b = a.clone();
        b.kt = bkt;
        if c.rng.chance(1, 3) {
            b.app = vec![];
        }
        let mode = c.rng.below(5);
        let blob = b.blob();
        judge_offer(c, route, &b, &blob, &format!("{:?} signature relabelled or not for a {:?} key, mode {}", akt, bkt, mode), &mut |_, data| {
            match mode {
                0 => a.sign(data, o),
                1 => {
                    // relabelled
                    let s = a.sign(data, o);
                    let mut r = R::new(&s);
                    r.s().unwrap();
                    let rest = s[s.len() - r.left()..].to_vec();
                    W::new().s(b.kt.name().as_bytes()).raw(&rest).0
                }
                2 => {
                    // relabelled with token data added
                    let s = a.sign(data, o);
                    let mut r = R::new(&s);
                    r.s().unwrap();
                    let rest = s[s.len() - r.left()..].to_vec();
                    W::new().s(b.kt.name().as_bytes()).raw(&rest).raw(&[o.flags]).u32(o.counter).0
                }
                3 => {
                    // right label, token part cut off
                    let s = b.sign(data, o);
                    if b.kt.is_sk() {
                        s[..s.len() - 5].to_vec()
                    } else {
                        [&s[..], &[o.flags, 0, 0, 0, 1]].concat()
                    }
                }
                _ => {
                    // plain signature of the token message
                    let raw = a.sign_raw(&sk_signed(&a.app, o.flags, o.counter, data), o.rsa);
                    b.wrap(&raw, o)
                }
            }
        });
    });
    // flags, counter and application of security keys
    m.section("token-data", m.n(420), |c| {
        let route = ROUTES[c.idx as usize % 3];
        let kt = *c.rng.pick(&[KT::SkEd, KT::SkEc]);
        let k = Key::gen(&mut c.rng, kt);
        let o = SigOpt::random(&mut c.rng);
        let blob = k.blob();
        judge_offer(c, route, &k, &blob, "unaltered", &mut |_, d| k.sign(d, o));
        let with = |f: u8, n: u32, d: &[u8]| {
            let mut s = k.sign(d, o);
            let l = s.len();
            s[l - 5] = f;
            s[l - 4..].copy_from_slice(&n.to_be_bytes());
            s
        };
        for bit in 0..8 {
            judge_offer(c, route, &k, &blob, &format!("flags bit {} altered", bit), &mut |_, d| with(o.flags ^ (1 << bit), o.counter, d));
        }
        for bit in 0..32 {
            judge_offer(c, route, &k, &blob, &format!("counter bit {} altered", bit), &mut |_, d| with(o.flags, o.counter ^ (1 << bit), d));
        }
        let (rf, rn) = (c.rng.byte(), c.rng.val32());
        judge_offer(c, route, &k, &blob, "flags and counter replaced", &mut |_, d| with(rf, rn, d));
        judge_offer(c, route, &k, &blob, "counter byte order", &mut |_, d| with(o.flags, o.counter.swap_bytes(), d));
        for cut in 1..=5 {
            judge_offer(c, route, &k, &blob, &format!("token data short by {}", cut), &mut |_, d| {
                let s = k.sign(d, o);
                s[..s.len() - cut].to_vec()
            });
        }
        judge_offer(c, route, &k, &blob, "counter before flags", &mut |_, d| {
            let s = k.sign(d, o);
            let body = &s[..s.len() - 5];
            W::new().raw(body).u32(o.counter).raw(&[o.flags]).0
        });
        // other applications: the verifying key carries another one than was signed
        let mut apps: Vec<(String, Vec<u8>)> = vec![
            ("empty application".into(), vec![]),
            ("ssh:".into(), b"ssh:".to_vec()),
            ("application extended".into(), [&k.app[..], b"x"].concat()),
            ("application with blank".into(), [&k.app[..], b" "].concat()),
            ("application with NUL".into(), [&k.app[..], b"\0"].concat()),
            ("application case".into(), k.app.to_ascii_uppercase()),
        ];
        // and everything that some normalisation would add or remove
        for t in ["/", ":", ".", ";", "*", "\n", "\t", "\u{feff}", "@", "-", "0", "//"] {
            apps.push((format!("application followed by {:?}", t), [&k.app[..], t.as_bytes()].concat()));
        }
        for t in ["ssh:", "http://", "https://", " ", "/", "www.", "\0", "\u{feff}", "SSH:"] {
            apps.push((format!("application preceded by {:?}", t), [t.as_bytes(), &k.app[..]].concat()));
        }
        if !k.app.is_empty() {
            apps.push(("application cut".into(), k.app[..k.app.len() - 1].to_vec()));
            apps.push(("application start cut".into(), k.app[1..].to_vec()));
        }
        for (n, a) in apps {
            let other = k.with_app(&a);
            let ob = other.blob();
            judge_offer(c, route, &other, &ob, &n, &mut |_, d| k.sign(d, o));
        }
        c.sample(|| json!({"kt": format!("{:?}", kt), "app": String::from_utf8_lossy(&k.app), "flags": o.flags, "counter": o.counter}));
    });
    // malformed integers and raw signatures
    m.section("scalars", m.n(900), |c| {
        let route = ROUTES[c.idx as usize % 3];
        let kt = *c.rng.pick(&[KT::P256, KT::P384, KT::SkEc]);
        let k = Key::gen(&mut c.rng, kt);
        let o = SigOpt::random(&mut c.rng);
        let blob = k.blob();
        for mode in 0..34 {
            judge_offer(c, route, &k, &blob, &format!("ecdsa integers, mode {}", mode), &mut |r, d| ecdsa_variant(r, &k, o, d, mode));
        }
    });
    m.section("ed25519-forms", m.n(600), |c| {
        let route = ROUTES[c.idx as usize % 3];
        let kt = *c.rng.pick(&[KT::Ed, KT::SkEd]);
        let k = Key::gen(&mut c.rng, kt);
        let o = SigOpt::random(&mut c.rng);
        let blob = k.blob();
        for mode in 0..12 {
            judge_offer(c, route, &k, &blob, &format!("ed25519 form {}", mode), &mut |r, d| ed_variant(r, &k, o, d, mode));
        }
        // degenerate public keys, for which anything may look signed
        for mode in 0..8 {
            let mut key = vec![0u8; 32];
            match mode {
                0 => (),
                1 => key[0] = 1,
                2 => key = vec![0xff; 32],
                3 => key[31] = 0x80,
                4 => key = k.public[..31].to_vec(),
                5 => key = [&k.public[..], &[0]].concat(),
                6 => key = vec![],
                _ => key = crate::wire::unhex("c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a"),
            }
            let mut k2 = k.clone();
            k2.public = key;
            let b2 = k2.blob();
            judge_offer(c, route, &k2, &b2, &format!("degenerate ed25519 key {}", mode), &mut |r, d| match r.below(3) {
                0 => k.sign(d, o),
                1 => k2.wrap(&[0u8; 64], o),
                _ => {
                    let mut s = [0u8; 64];
                    s[0] = 1;
                    k2.wrap(&s, o)
                }
            });
        }
    });
    m.section("rsa-forms", m.n(240), |c| {
        let route = ROUTES[c.idx as usize % 3];
        let i = *c.rng.pick(&[0usize, 1, 5, 6, 7, 8, 12, 13]);
        let k = Key::rsa(i);
        let blob = k.blob();
        for mode in 0..26 {
            let h = *c.rng.pick(&[RsaHash::Sha1, RsaHash::Sha256, RsaHash::Sha512]);
            judge_offer(c, route, &k, &blob, &format!("rsa form {}, {:?}", mode, h), &mut |r, d| rsa_variant(r, &k, h, d, mode));
        }
    });
    // anything at all in the signature field
    m.section("havoc", m.n(9000), |c| {
        let route = ROUTES[c.idx as usize % 3];
        let kt = *c.rng.pick(&VERIFIABLE);
        let k = sig_key(&mut c.rng, kt);
        let o = SigOpt::random(&mut c.rng);
        let blob = k.blob();
        let n = c.rng.range(1, 3);
        judge_offer(c, route, &k, &blob, "havoc", &mut |r, d| {
            let mut s = k.sign(d, o);
            for _ in 0..n {
                havoc(r, &mut s);
            }
            s
        });
    });
}

fn ecdsa_variant(r: &mut Rng, k: &Key, o: SigOpt, data: &[u8], mode: usize) -> Vec<u8> {
    let signed = if k.kt.is_sk() { sk_signed(&k.app, o.flags, o.counter, data) } else { data.to_vec() };
    let der = k.sign_raw(&signed, o.rsa);
    let e = EcdsaSig::from_der(&der).unwrap();
    let (rv, sv) = (e.r().to_vec(), e.s().to_vec());
    let f = k.kt.field();
    let g = EcGroup::from_curve_name(k.kt.nid()).unwrap();
    let mut ctx = BigNumContext::new().unwrap();
    let mut order = BigNum::new().unwrap();
    g.order(&mut order, &mut ctx).unwrap();
    let plus = |v: &[u8]| {
        let mut x = BigNum::new().unwrap();
        x.checked_add(&BigNum::from_slice(v).unwrap(), &order).unwrap();
        x.to_vec()
    };
    let minus = |v: &[u8]| {
        let mut x = BigNum::new().unwrap();
        x.checked_sub(&order, &BigNum::from_slice(v).unwrap()).unwrap();
        x.to_vec()
    };
    let pad = |v: &[u8], n: usize| {
        let mut p = vec![0; n.saturating_sub(v.len())];
        p.extend_from_slice(v);
        p
    };
    let (mr, ms) = (mpint_body(&rv), mpint_body(&sv));
    let z = |n: usize, v: &[u8]| [&vec![0u8; n][..], v].concat();
    // bodies of the two integers as they are put on the wire
    let (a, b): (Vec<u8>, Vec<u8>) = match mode {
        0 => (mr, ms),
        1 => (ms, mr),
        2 => (vec![], ms),
        3 => (mr, vec![]),
        4 => (vec![0], ms),
        5 => (mr, vec![0]),
        6 => (vec![], vec![]),
        7 => (mpint_body(&plus(&rv)), ms),
        8 => (mr, mpint_body(&plus(&sv))),
        9 => (mr, mpint_body(&minus(&sv))),
        10 => (mpint_body(&minus(&rv)), ms),
        11 => (z(1, &mr), ms),
        12 => (mr, z(1, &ms)),
        13 => (z(r.range(2, 40), &mr), ms),
        14 => (mr, z(r.range(2, 40), &ms)),
        // fixed width without regard to the sign
        15 => (pad(&rv, f), pad(&sv, f)),
        16 => (pad(&rv, f + 1), pad(&sv, f + 1)),
        17 => (rv.clone(), ms),
        18 => (mr, sv.clone()),
        19 => ([&mr[..], &[0]].concat(), ms),
        20 => (mr, [&ms[..], &[0]].concat()),
        21 => (mpint_body(&order.to_vec()), ms),
        22 => (mr, mpint_body(&order.to_vec())),
        23 => (mpint_body(&vec![0xff; f]), mpint_body(&vec![0xff; f])),
        24 => (vec![1], vec![1]),
        25 => (mr[..mr.len() - 1].to_vec(), ms),
        26 => (mr, ms[1..].to_vec()),
        27 => (vec![1], ms),
        28 => (mr, vec![1]),
        29 => (vec![0x80], vec![0x80]),
        30 => (z(f, &mr), z(f, &ms)),
        31 => ([&[1], &pad(&rv, f)[..]].concat(), ms),
        32 => (mr, [&[1], &pad(&sv, f)[..]].concat()),
        _ => {
            // DER instead of two integers
            let w = W::new().s(k.kt.name().as_bytes()).s(&der).0;
            return if k.kt.is_sk() { W::new().raw(&w).raw(&[o.flags]).u32(o.counter).0 } else { w };
        }
    };
    let w = W::new().s(k.kt.name().as_bytes()).s(&W::new().s(&a).s(&b).0).0;
    if k.kt.is_sk() {
        W::new().raw(&w).raw(&[o.flags]).u32(o.counter).0
    } else {
        w
    }
}

fn ed_variant(r: &mut Rng, k: &Key, o: SigOpt, data: &[u8], mode: usize) -> Vec<u8> {
    let signed = if k.kt.is_sk() { sk_signed(&k.app, o.flags, o.counter, data) } else { data.to_vec() };
    let mut raw = k.sign_raw(&signed, o.rsa);
    match mode {
        0 => (),
        1 => {
            // s + L
            let l = crate::wire::unhex("edd3f55c1a631258d69cf7a2def9de1400000000000000000000000000000010");
            let mut carry = 0u16;
            for i in 0..32 {
                let v = raw[32 + i] as u16 + l[i] as u16 + carry;
                raw[32 + i] = v as u8;
                carry = v >> 8;
            }
        }
        2 => {
            raw.pop();
        }
        3 => raw.push(0),
        4 => raw = vec![],
        5 => raw = vec![0; 64],
        6 => raw.rotate_left(32),
        7 => raw[63] ^= 0x80,
        8 => raw[31] ^= 0x80,
        9 => raw = [&raw[..], &raw[..]].concat(),
        10 => raw.truncate(32),
        _ => {
            let i = r.below(64);
            raw[i] ^= 1 << r.below(8);
        }
    }
    k.wrap(&raw, o)
}

fn digest_info(h: RsaHash) -> &'static [u8] {
    match h {
        RsaHash::Sha1 => &[0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14],
        RsaHash::Sha256 => &[0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20],
        RsaHash::Sha512 => &[0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40],
    }
}
fn rsa_variant(r: &mut Rng, k: &Key, h: RsaHash, data: &[u8], mode: usize) -> Vec<u8> {
    let rsa = k.rsa_key();
    let n = rsa.size() as usize;
    let dg = openssl::hash::hash(h.md(), data).unwrap().to_vec();
    let t = [digest_info(h), &dg[..]].concat();
    let lab = h.label().as_bytes();
    // private operation on a full block
    let raw = |em: Vec<u8>| {
        let mut o = vec![0; n];
        match rsa.private_encrypt(&em, &mut o, Padding::NONE) {
            Ok(_) => o,
            Err(_) => vec![0; n],
        }
    };
    let block = |bt: u8, fill: u8, sep: u8, t: &[u8], trail: &[u8]| {
        let ps = n.saturating_sub(3 + t.len() + trail.len());
        [&[0, bt][..], &vec![fill; ps], &[sep], t, trail].concat()
    };
    let good = k.sign_raw(data, h);
    let body = match mode {
        0 => good,
        1 => raw(block(1, 0xff, 0, &t, &[])),
        2 => raw(block(1, 0xff, 0, &t, &r.bytes(16))),
        3 => {
            // short padding, rest garbage
            let g = n - 3 - 8 - t.len();
            let tail = r.bytes(g);
            raw(block(1, 0xff, 0, &t, &tail))
        }
        4 => raw(block(2, 0xff, 0, &t, &[])),
        5 => raw(block(1, 0xfe, 0, &t, &[])),
        6 => raw(block(1, 0xff, 1, &t, &[])),
        7 => raw(block(1, 0xff, 0, &dg, &[])),
        8 => {
            // digest info of another hash
            let o = if h == RsaHash::Sha256 { RsaHash::Sha512 } else { RsaHash::Sha256 };
            raw(block(1, 0xff, 0, &[digest_info(o), &dg[..]].concat(), &[]))
        }
        9 => {
            // another hash altogether under this label
            let o = *r.pick(&[RsaHash::Sha1, RsaHash::Sha256, RsaHash::Sha512]);
            k.sign_raw(data, o)
        }
        10 => [&[0][..], &good].concat(),
        11 => [&good[..], &[0]].concat(),
        12 => good[1..].to_vec(),
        13 => good[..n - 1].to_vec(),
        14 => vec![],
        15 => vec![0; n],
        16 => {
            let mut v = vec![0; n];
            v[n - 1] = 1;
            v
        }
        17 => {
            // s + n
            let mut x = BigNum::new().unwrap();
            x.checked_add(&BigNum::from_slice(&good).unwrap(), rsa.n()).unwrap();
            x.to_vec()
        }
        18 => {
            // n - s
            let mut x = BigNum::new().unwrap();
            x.checked_sub(rsa.n(), &BigNum::from_slice(&good).unwrap()).unwrap();
            let v = x.to_vec();
            [&vec![0; n - v.len()][..], &v].concat()
        }
        19 => rsa.n().to_vec(),
        20 => mpint_body(&good),
        21 => {
            let mut g = good;
            let i = r.below(n);
            g[i] ^= 1 << r.below(8);
            g
        }
        22 => {
            // no NULL parameter in the digest info
            let d = digest_info(h);
            let l = d.len();
            let mut x = d[..l - 4].to_vec();
            x.extend_from_slice(&d[l - 2..]);
            x[1] -= 2;
            x[3] -= 2;
            raw(block(1, 0xff, 0, &[&x[..], &dg].concat(), &[]))
        }
        23 => {
            // digest cut short
            let mut x = t.clone();
            x.truncate(t.len() - 4);
            raw(block(1, 0xff, 0, &x, &[]))
        }
        24 => {
            // PSS instead of PKCS#1
            let mut s = openssl::sign::Signer::new(h.md(), &k.pkey).unwrap();
            s.set_rsa_padding(Padding::PKCS1_PSS).unwrap();
            s.sign_oneshot_to_vec(data).unwrap_or_default()
        }
        _ => {
            let l = *r.pick(&LABELS);
            return W::new().s(l.as_bytes()).s(&good).0;
        }
    };
    W::new().s(lab).s(&body).0
}

// ------------------------------------------------------------------------------------------ C06

pub struct Parts {
    pub key: Vec<u8>,
    pub ns: Vec<u8>,
    pub hash: Vec<u8>,
    pub sig: Vec<u8>,
}
/// Independent decoding of a detached signature. None: not one (magic, version, structure).
pub fn parts(body: &[u8]) -> Option<Parts> {
    let mut r = R::new(body);
    if r.raw(6)? != b"SSHSIG" || r.u32()? != 1 {
        return None;
    }
    let key = r.s()?.to_vec();
    let ns = r.s()?.to_vec();
    r.s()?;
    let hash = r.s()?.to_vec();
    let sig = r.s()?.to_vec();
    Some(Parts { key, ns, hash, sig })
}
/// Body of an armored text, decoded leniently (all base64 characters between the markers).
pub fn body_of(text: &str) -> Option<Vec<u8>> {
    let a = text.find("-----BEGIN SSH SIGNATURE-----")? + 29;
    let b = text[a..].find("-----END SSH SIGNATURE-----")? + a;
    let t: String = text[a..b].chars().filter(|c| c.is_ascii_alphanumeric() || *c == '+' || *c == '/' || *c == '=').collect();
    base64::decode(&t).ok()
}
pub fn verdict(body: &[u8], msg: &[u8], ns: &str, expect: Option<&[u8]>) -> V {
    let p = match parts(body) {
        Some(p) => p,
        None => return V::Invalid,
    };
    let hash = match &p.hash[..] {
        b"sha256" => "sha256",
        b"sha512" => "sha512",
        _ => return V::Invalid,
    };
    if p.ns != ns.as_bytes() || ns.is_empty() {
        return V::Invalid;
    }
    if let Some(e) = expect {
        if !same_key(e, &p.key) {
            return V::Invalid;
        }
    }
    ref_verify(&p.key, &p.sig, &sshsig_tbs(ns.as_bytes(), b"", hash.as_bytes(), &sshsig_digest(hash, msg)))
}
/// Equality of keys as keys (trailing bytes of a blob and rsa type aliases do not make another key).
pub fn same_key(a: &[u8], b: &[u8]) -> bool {
    match (parse_pub(a), parse_pub(b)) {
        (Some((ka, pa, _)), Some((kb, pb, _))) => {
            ka == kb
                && match (pa, pb) {
                    (Pub::Rsa { e, n }, Pub::Rsa { e: e2, n: n2 }) => e == e2 && n == n2,
                    (Pub::Ec { point, app, .. }, Pub::Ec { point: p2, app: a2, .. }) => point == p2 && app == a2,
                    (Pub::Ed { key, app }, Pub::Ed { key: k2, app: a2 }) => key == k2 && app == a2,
                    _ => false,
                }
        }
        _ => false,
    }
}

fn to_pub(blob: &[u8], comment: bool) -> Option<PublicKey> {
    if comment {
        let n = R::new(blob).s().map(|n| String::from_utf8_lossy(n).to_string())?;
        PublicKey::from_string(&format!("{} {} someone@host", n, b64(blob))).ok()
    } else {
        PublicKey::from_bytes(blob).ok()
    }
}

/// Verifies text with the library and judges the outcome. Returns whether it was accepted.
fn check06(c: &mut Case<'_>, text: &str, msg: &[u8], ns: &str, expect: Option<&[u8]>, what: &str) -> bool {
    let comment = c.rng.chance(1, 3);
    let ek = match expect {
        Some(e) => match to_pub(e, comment) {
            Some(k) => Some(k),
            None => {
                c.ev("expected key refused");
                return false;
            }
        },
        None => None,
    };
    let r = c.call("from_ssh_signature", || {
        SshSignature::from_armored_string(text).and_then(|s| VerifiedSshSignature::from_ssh_signature(msg, s, ns, ek))
    });
    let acc = matches!(r, Ok(Ok(_)));
    c.ev(&format!("{}", if acc { "accepted" } else { "rejected" }));
    if let Ok(Ok(v)) = r {
        let body = body_of(text).unwrap_or_default();
        if verdict(&body, msg, ns, expect) == V::Invalid {
            c.fail(
                format!("detached signature verified although it is not one of this message, namespace and key: {}", what),
                json!({"text": text, "namespace": ns, "message": hexs(msg), "expected_key": expect.map(hexs)}),
            );
            return true;
        }
        let p = parts(&body).unwrap();
        if v.message != msg || v.signature.namespace.as_bytes() != &p.ns[..] || v.signature.namespace != ns || !same_key(&pub_blob(&v.signature.pubkey), &p.key) || v.signature.signature != p.sig || v.signature.hash_algorithm.as_str().as_bytes() != &p.hash[..] {
            c.fail(
                format!("verified object reports something else than was verified ({})", what),
                json!({"text": text, "namespace": ns, "message": hexs(msg)}),
            );
        }
    }
    acc
}

pub fn message(r: &mut Rng) -> Vec<u8> {
    match r.below(16) {
        0 => vec![],
        1 if r.chance(1, 25) => {
            let n = *r.pick(&[(1usize << 20) + 1, 1 << 20, 2_500_000, (4 << 20) + 3]);
            let mut v = vec![r.byte(); n];
            v[n - 1] ^= 1;
            v
        }
        1 => vec![0; r.below(300)],
        2 => {
            let n = *r.pick(&[55, 56, 57, 63, 64, 65, 111, 112, 113, 119, 120, 127, 128, 129, 255, 256]);
            r.bytes(n)
        }
        3 => {
            let n = r.range(4096, 70000);
            r.bytes(n)
        }
        4 => r.text(500).into_bytes(),
        5 => b"hello world\n".to_vec(),
        _ => r.blob(2000),
    }
}
pub fn namespace(r: &mut Rng) -> String {
    loop {
        let s = match r.below(8) {
            0 => "file".to_string(),
            1 => "git".to_string(),
            2 => "email@example.com".to_string(),
            3 => r.text(2000),
            _ => r.word(30),
        };
        if !s.is_empty() {
            return s;
        }
    }
}

fn near_messages(r: &mut Rng, m: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![
        ("message with a NUL appended", [m, b"\0"].concat()),
        ("message with a newline appended", [m, b"\n"].concat()),
        ("message with CRLF appended", [m, b"\r\n"].concat()),
        ("message with a blank appended", [m, b" "].concat()),
        ("message with a byte put in front", [b"\0", m].concat()),
        ("message doubled", [m, m].concat()),
        ("empty message", vec![]),
        ("digest as message", openssl::sha::sha512(m).to_vec()),
        ("digest as message", openssl::sha::sha256(m).to_vec()),
        ("random message", r.bytes(m.len().max(1))),
    ];
    if !m.is_empty() {
        let n = m.len();
        v.push(("message cut by one", m[..n - 1].to_vec()));
        v.push(("message start cut", m[1..].to_vec()));
        v.push(("half message", m[..n / 2].to_vec()));
        v.push(("trimmed message", m.iter().copied().filter(|b| !b.is_ascii_whitespace()).collect()));
        v.push(("upper-case message", m.to_ascii_uppercase()));
        let mut rev = m.to_vec();
        rev.reverse();
        v.push(("reversed message", rev));
        for at in [0, n - 1, n / 2, r.below(n), r.below(n)] {
            let mut x = m.to_vec();
            x[at] ^= 1 << r.below(8);
            v.push(("message bit flipped", x));
        }
    }
    v
}
fn near_namespaces(r: &mut Rng, ns: &str) -> Vec<(&'static str, String)> {
    let ch: Vec<char> = ns.chars().collect();
    let mut v = vec![
        ("empty namespace", String::new()),
        ("upper-case namespace", ns.to_uppercase()),
        ("lower-case namespace", ns.to_lowercase()),
        ("namespace with blank", format!("{} ", ns)),
        ("namespace with leading blank", format!(" {}", ns)),
        ("namespace with newline", format!("{}\n", ns)),
        ("namespace with NUL", format!("{}\0", ns)),
        ("namespace extended", format!("{}x", ns)),
        ("namespace doubled", format!("{}{}", ns, ns)),
        ("namespace with prefix", format!("x{}", ns)),
        ("namespace list", format!("{},{}", ns, ns)),
        ("namespace cut", ch[..ch.len() - 1].iter().collect()),
        ("namespace start cut", ch[1..].iter().collect()),
        ("namespace first character", ch[..1].iter().collect()),
        ("wildcard namespace", "*".into()),
        ("namespace file", "file".into()),
        ("other namespace", namespace(r)),
        ("namespace with dot", format!("{}.", ns)),
        ("trimmed namespace", ns.trim().to_string()),
        ("quoted namespace", format!("\"{}\"", ns)),
    ];
    if ch.len() > 1 {
        let mut x = ch.clone();
        let i = r.below(ch.len());
        x[i] = if x[i] == 'q' { 'p' } else { 'q' };
        v.push(("namespace with one character changed", x.iter().collect()));
        let mut y = ch.clone();
        y.reverse();
        v.push(("namespace reversed", y.iter().collect()));
    }
    v
}
/// Keys that are not `k` but close to it.
pub fn near_keys(r: &mut Rng, k: &Key) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let mut add = |n: &str, b: Vec<u8>| v.push((n.to_string(), b));
    for kt in ALL {
        let o = if kt == KT::Rsa { Key::rsa((k.rsa + 1 + r.below(2)) % 3) } else { Key::gen(r, kt) };
        add(&format!("another {:?} key", kt), o.blob());
    }
    match k.kt {
        KT::Rsa => {
            let n = k.rsa_key().n().to_vec();
            let e = k.rsa_key().e().to_vec();
            add("same modulus, other exponent", W::new().s(b"ssh-rsa").mpint(if e == [3] { &[1, 0, 1] } else { &[3] }).mpint(&n).0);
            let mut n2 = n.clone();
            let l = n2.len();
            n2[l - 1] ^= 2;
            add("modulus last byte changed", W::new().s(b"ssh-rsa").mpint(&e).mpint(&n2).0);
            let mut n3 = n.clone();
            n3[1] ^= 1;
            add("modulus second byte changed", W::new().s(b"ssh-rsa").mpint(&e).mpint(&n3).0);
            n3 = n.clone();
            n3.push(1);
            add("modulus extended", W::new().s(b"ssh-rsa").mpint(&e).mpint(&n3).0);
        }
        KT::Ed | KT::SkEd => {
            for i in [0, 31, r.below(32)] {
                let mut o = k.clone();
                o.public[i] ^= 1 << r.below(8);
                add("one bit of the key changed", o.blob());
            }
            let mut o = k.clone();
            o.kt = if k.kt == KT::Ed { KT::SkEd } else { KT::Ed };
            add("plain / security key with the same bytes", o.blob());
        }
        _ => {
            let f = k.kt.field();
            let mut o = k.clone();
            // the other point with the same x
            if let Some(s) = neg_scalar(k) {
                if let Some(x) = Key::ec(k.kt, &s, k.app.clone()) {
                    add("negated point", x.blob());
                }
            }
            o.public[f] ^= 1;
            add("one bit of the point changed", o.blob());
            let mut o = k.clone();
            if k.kt == KT::P256 || k.kt == KT::SkEc {
                o.kt = if k.kt == KT::P256 { KT::SkEc } else { KT::P256 };
                add("plain / security key with the same point", o.blob());
            }
        }
    }
    if k.kt.is_sk() {
        add("other application", k.with_app(b"ssh:other").blob());
        add("extended application", k.with_app(&[&k.app[..], b"x"].concat()).blob());
        add("application with NUL", k.with_app(&[&k.app[..], b"\0"].concat()).blob());
        add("empty application", k.with_app(b"").blob());
    }
    v
}
pub fn neg_scalar(k: &Key) -> Option<Vec<u8>> {
    let g = EcGroup::from_curve_name(k.kt.nid()).ok()?;
    let mut ctx = BigNumContext::new().ok()?;
    let mut order = BigNum::new().ok()?;
    g.order(&mut order, &mut ctx).ok()?;
    let mut x = BigNum::new().ok()?;
    let d = BigNum::from_slice(&k.secret).ok()?;
    x.checked_sub(&order, &d).ok()?;
    Some(x.to_vec())
}

fn wrap(body: &[u8]) -> String {
    armor("SSH SIGNATURE", body, 70, true)
}

pub fn c06(m: &'static Mon) {
    m.rule("one evaluation = one verification request (signature text, message, namespace, expected key) answered by the library and, when accepted, judged by an independent decoder and libcrypto; distinct = distinct (key type, hash, altered component)");
    m.assume("libcrypto's verification and hashing are correct; a panic counts as a refusal here");
    m.section("components", m.n(1200), |c| {
        let kt = VERIFIABLE[c.idx as usize % VERIFIABLE.len()];
        let k = sig_key(&mut c.rng, kt);
        let msg = message(&mut c.rng);
        let ns = namespace(&mut c.rng);
        let hash = *c.rng.pick(&["sha256", "sha512"]);
        let o = SigOpt::random(&mut c.rng);
        let text = sshsig(&k, &msg, &ns, hash, o);
        let body = body_of(&text).unwrap();
        let kb = k.blob();
        let tag = |w: &str| format!("{:?}/{}/{}", kt, hash, w).into_bytes();
        c.eval(&tag("genuine"));
        let ok = check06(c, &text, &msg, &ns, Some(&kb), "genuine");
        c.ev(if ok { "genuine.accepted" } else { "genuine.rejected" });
        c.sample(|| json!({"key": format!("{:?}", kt), "ns": ns, "msg_len": msg.len(), "hash": hash, "accepted": ok}));
        for (w, x) in near_messages(&mut c.rng, &msg) {
            c.eval(&tag(w));
            check06(c, &text, &x, &ns, None, w);
        }
        for (w, x) in near_namespaces(&mut c.rng, &ns) {
            c.eval(&tag(w));
            check06(c, &text, &msg, &x, None, w);
            // and the other way round: the text changed to carry the requested namespace
            let p = parts(&body).unwrap();
            let b2 = sshsig_blob(&p.key, x.as_bytes(), b"", &p.hash, &p.sig);
            c.eval(&tag(&format!("carried {}", w)));
            check06(c, &wrap(&b2), &msg, &x, None, &format!("{} carried in the signature", w));
            check06(c, &wrap(&b2), &msg, &ns, None, &format!("{} carried in the signature", w));
            // really made for the other namespace
            if !x.is_empty() {
                let s2 = k.sign(&sshsig_tbs(x.as_bytes(), b"", hash.as_bytes(), &sshsig_digest(hash, &msg)), o);
                let b3 = sshsig_blob(&p.key, x.as_bytes(), b"", hash.as_bytes(), &s2);
                c.eval(&tag(&format!("made for {}", w)));
                check06(c, &wrap(&b3), &msg, &ns, None, &format!("made for {}", w));
            }
        }
        for (w, x) in near_keys(&mut c.rng, &k) {
            c.eval(&tag(&w));
            check06(c, &text, &msg, &ns, Some(&x), &format!("expected: {}", w));
            let p = parts(&body).unwrap();
            let b2 = sshsig_blob(&x, ns.as_bytes(), b"", &p.hash, &p.sig);
            c.eval(&tag(&format!("embedded {}", w)));
            check06(c, &wrap(&b2), &msg, &ns, Some(&x), &format!("embedded: {}", w));
            check06(c, &wrap(&b2), &msg, &ns, Some(&kb), &format!("embedded: {}", w));
            check06(c, &wrap(&b2), &msg, &ns, None, &format!("embedded: {}", w));
        }
        let p = parts(&body).unwrap();
        for h in ["sha256", "sha512", "sha384", "sha1", "SHA512", "SHA256", "", "md5", "sha512 ", "sha5122", "sha-512"] {
            let b2 = sshsig_blob(&p.key, ns.as_bytes(), b"", h.as_bytes(), &p.sig);
            c.eval(&tag(&format!("hash {}", h)));
            check06(c, &wrap(&b2), &msg, &ns, Some(&kb), &format!("hash name {:?} in place of {}", h, hash));
            // really signed under that hash name, digest of another size
            let dg = if c.rng.chance(1, 2) { openssl::sha::sha256(&msg).to_vec() } else { openssl::sha::sha512(&msg).to_vec() };
            let s2 = k.sign(&sshsig_tbs(ns.as_bytes(), b"", h.as_bytes(), &dg), o);
            let b3 = sshsig_blob(&p.key, ns.as_bytes(), b"", h.as_bytes(), &s2);
            c.eval(&tag(&format!("signed hash {}", h)));
            check06(c, &wrap(&b3), &msg, &ns, Some(&kb), &format!("signed with hash name {:?} over another digest", h));
        }
        for v in [0u32, 2, 3, 255, 256, 0x0100_0000, u32::MAX, 0x8000_0001] {
            let mut b2 = body.clone();
            b2[6..10].copy_from_slice(&v.to_be_bytes());
            c.eval(&tag(&format!("version {}", v)));
            check06(c, &wrap(&b2), &msg, &ns, Some(&kb), &format!("version {}", v));
        }
        for i in 0..6 {
            for bit in 0..8 {
                let mut b2 = body.clone();
                b2[i] ^= 1 << bit;
                c.eval(&tag(&format!("magic {} {}", i, bit)));
                check06(c, &wrap(&b2), &msg, &ns, Some(&kb), "magic altered");
            }
        }
        // signatures over something that is not the defined structure
        let raws: Vec<(&str, Vec<u8>)> = vec![
            ("plain message signed", msg.clone()),
            ("digest signed", sshsig_digest(hash, &msg)),
            ("structure without magic", sshsig_tbs(ns.as_bytes(), b"", hash.as_bytes(), &sshsig_digest(hash, &msg))[6..].to_vec()),
            ("message not hashed", sshsig_tbs(ns.as_bytes(), b"", hash.as_bytes(), &msg)),
            ("namespace left out", W::new().raw(b"SSHSIG").s(b"").s(hash.as_bytes()).s(&sshsig_digest(hash, &msg)).0),
            ("namespace emptied", sshsig_tbs(b"", b"", hash.as_bytes(), &sshsig_digest(hash, &msg))),
            ("other namespace signed", sshsig_tbs(b"other", b"", hash.as_bytes(), &sshsig_digest(hash, &msg))),
            ("other hash name signed", sshsig_tbs(ns.as_bytes(), b"", if hash == "sha256" { b"sha512" } else { b"sha256" }, &sshsig_digest(hash, &msg))),
            ("fields shifted", W::new().raw(b"SSHSIG").s(&[ns.as_bytes(), hash.as_bytes()].concat()).s(b"").s(b"").s(&sshsig_digest(hash, &msg)).0),
        ];
        for (w, d) in raws {
            let s2 = k.sign(&d, o);
            let b2 = sshsig_blob(&p.key, ns.as_bytes(), b"", &p.hash, &s2);
            c.eval(&tag(w));
            check06(c, &wrap(&b2), &msg, &ns, Some(&kb), w);
        }
        // edits of the parsed object before verification
        in_memory(c, &text, &msg, &ns, &k, &kb);
    });
    // every byte of the body
    m.section("byte-sweep", m.n(60), |c| {
        let kt = VERIFIABLE[c.idx as usize % VERIFIABLE.len()];
        let k = sig_key(&mut c.rng, kt);
        let n = c.rng.below(200);
        let msg = c.rng.bytes(n);
        let ns = c.rng.word(20);
        let hash = *c.rng.pick(&["sha256", "sha512"]);
        let text = sshsig(&k, &msg, &ns, hash, SigOpt { rsa: RsaHash::Sha512, ..SigOpt::random(&mut c.rng) });
        let body = body_of(&text).unwrap();
        let kb = k.blob();
        for i in 0..body.len() {
            let mut b = body.clone();
            b[i] ^= 1 << c.rng.below(8);
            c.eval(&[kt as u8, (i >> 8) as u8, i as u8]);
            let exp = if c.rng.chance(1, 2) { Some(&kb[..]) } else { None };
            check06(c, &wrap(&b), &msg, &ns, exp, &format!("bit flip at byte {}", i));
        }
        // every truncation
        for i in (0..body.len()).step_by(3) {
            check06(c, &wrap(&body[..i]), &msg, &ns, None, &format!("cut to {} bytes", i));
        }
    });
    m.section("havoc", m.n(12000), |c| {
        let kt = *c.rng.pick(&VERIFIABLE);
        let k = sig_key(&mut c.rng, kt);
        let msg = message(&mut c.rng);
        let ns = namespace(&mut c.rng);
        let hash = *c.rng.pick(&["sha256", "sha512"]);
        let text = sshsig(&k, &msg, &ns, hash, SigOpt::random(&mut c.rng));
        let kb = k.blob();
        let exp = if c.rng.chance(1, 2) { Some(&kb[..]) } else { None };
        if c.rng.chance(1, 2) {
            let mut b = body_of(&text).unwrap();
            for _ in 0..c.rng.range(1, 3) {
                havoc(&mut c.rng, &mut b);
            }
            c.eval(&b);
            check06(c, &wrap(&b), &msg, &ns, exp, "havoc of the body");
        } else {
            let mut b = text.into_bytes();
            for _ in 0..c.rng.range(1, 3) {
                havoc(&mut c.rng, &mut b);
            }
            let t = String::from_utf8_lossy(&b).to_string();
            c.eval(&b);
            check06(c, &t, &msg, &ns, exp, "havoc of the text");
        }
    });
    // sequences: answers must not depend on what was verified before
    m.section("sequences", m.n(150), |c| {
        let mut pool = vec![];
        for _ in 0..4 {
            let kt = *c.rng.pick(&VERIFIABLE);
            let k = sig_key(&mut c.rng, kt);
            let msg = message(&mut c.rng);
            let ns = c.rng.word(8);
            let hash = *c.rng.pick(&["sha256", "sha512"]);
            let t = sshsig(&k, &msg, &ns, hash, SigOpt::random(&mut c.rng));
            pool.push((t, msg, ns, k.blob()));
        }
        for _ in 0..60 {
            let (a, b, d, e) = (c.rng.below(4), c.rng.below(4), c.rng.below(4), c.rng.below(4));
            let d = if c.rng.chance(1, 2) { a } else { d };
            let b = if c.rng.chance(1, 2) { a } else { b };
            let e = if c.rng.chance(1, 2) { a } else { e };
            let exp = if c.rng.chance(2, 3) { Some(pool[e].3.clone()) } else { None };
            c.eval_trivial();
            let (t, msg, ns) = (pool[a].0.clone(), pool[b].1.clone(), pool[d].2.clone());
            check06(c, &t, &msg, &ns, exp.as_deref(), "mixed with the parts of another signature");
        }
    });
    m.section("forbidden-forms", m.n(300), |c| {
        // really signed by the key, but nothing the format allows
        let kt = VERIFIABLE[c.idx as usize % VERIFIABLE.len()];
        let k = sig_key(&mut c.rng, kt);
        let msg = message(&mut c.rng);
        let h0 = *c.rng.pick(&["sha256", "sha512"]);
        let (mut ns, mut hash) = (String::new(), h0);
        let what = if c.idx / 6 % 3 == 0 {
            "made for an empty namespace"
        } else {
            ns = namespace(&mut c.rng);
            hash = *c.rng.pick(&["", "SHA256", "SHA512", "sha1", "sha384", "md5", "none", "sha-256", "sha-512", "sha256 ", "sha512\0", "sha2-256", "sha512-256"]);
            "made with another hash name"
        };
        let digest = sshsig_digest(h0, &msg);
        let tbs = sshsig_tbs(ns.as_bytes(), b"", hash.as_bytes(), &digest);
        let o = SigOpt { rsa: *c.rng.pick(&[RsaHash::Sha256, RsaHash::Sha512]), ..SigOpt::random(&mut c.rng) };
        let sig = k.sign(&tbs, o);
        let text = armor("SSH SIGNATURE", &sshsig_blob(&k.blob(), ns.as_bytes(), b"", hash.as_bytes(), &sig), 70, true);
        c.eval(text.as_bytes());
        check06(c, &text, &msg, &ns, None, what);
        check06(c, &text, &msg, &ns, Some(&k.blob()), what);
    });
    m.section("long-messages", m.n(24), |c| {
        let k = Key::gen(&mut c.rng, KT::Ed);
        let n = c.rng.range(200_000, 2_000_000);
        let msg = c.rng.bytes(n);
        let ns = "file";
        let hash = *c.rng.pick(&["sha256", "sha512"]);
        let text = sshsig(&k, &msg, ns, hash, SigOpt::default());
        let ok = check06(c, &text, &msg, ns, None, "genuine");
        c.ev(if ok { "genuine.accepted" } else { "genuine.rejected" });
        for at in [0usize, 4095, 4096, 65535, 65536, 131072, n / 2, n - 1, c.rng.below(n), c.rng.below(n)] {
            let mut x = msg.clone();
            x[at] ^= 1;
            c.eval(&at.to_le_bytes());
            check06(c, &text, &x, ns, None, &format!("long message altered at {}", at));
        }
        for cut in [1usize, 2, 64, 4096, 65536, 100_000] {
            c.eval(&[1, cut as u8]);
            check06(c, &text, &msg[..n - cut], ns, None, "long message cut");
        }
    });
}

fn in_memory(c: &mut Case<'_>, text: &str, msg: &[u8], ns: &str, k: &Key, kb: &[u8]) {
    for mode in 0..5 {
        let mut s = match c.call("from_armored_string", || SshSignature::from_armored_string(text)) {
            Ok(Ok(s)) => s,
            _ => return,
        };
        let mut want_ns = ns.to_string();
        let mut exp: Option<Vec<u8>> = None;
        match mode {
            0 => {
                want_ns = format!("{}x", ns);
                s.namespace = want_ns.clone();
            }
            1 => {
                let o = if k.kt == KT::Rsa { Key::rsa((k.rsa + 1) % 3) } else { Key::gen(&mut c.rng, k.kt) };
                let ob = o.blob();
                if ob == kb {
                    continue;
                }
                s.pubkey = match PublicKey::from_bytes(&ob) {
                    Ok(p) => p,
                    Err(_) => continue,
                };
                exp = Some(ob);
            }
            2 => {
                s.hash_algorithm = match s.hash_algorithm {
                    HashAlgorithm::Sha256 => HashAlgorithm::Sha512,
                    HashAlgorithm::Sha512 => HashAlgorithm::Sha256,
                }
            }
            3 => {
                let n = s.signature.len();
                let i = n - 1 - c.rng.below(20.min(n));
                s.signature[i] ^= 1 << c.rng.below(8);
            }
            _ => {
                // the expected key is another one
                let o = if k.kt == KT::Rsa { Key::rsa((k.rsa + 1) % 3) } else { Key::gen(&mut c.rng, k.kt) };
                if o.blob() == kb {
                    continue;
                }
                exp = Some(o.blob());
            }
        }
        let ek = match exp.as_deref().map(|e| to_pub(e, false)) {
            Some(Some(k)) => Some(k),
            Some(None) => continue,
            None => None,
        };
        // a reference verdict of the edited object
        let hash = s.hash_algorithm.as_str();
        let emb = pub_blob(&s.pubkey);
        let v = if s.namespace != want_ns || exp.as_ref().map(|e| !same_key(e, &emb)).unwrap_or(false) {
            V::Invalid
        } else {
            ref_verify(&emb, &s.signature, &sshsig_tbs(s.namespace.as_bytes(), b"", hash.as_bytes(), &sshsig_digest(hash, msg)))
        };
        c.eval(format!("{:?}/memory {}", k.kt, mode).as_bytes());
        let r = c.call("from_ssh_signature", || VerifiedSshSignature::from_ssh_signature(msg, s, &want_ns, ek));
        if matches!(r, Ok(Ok(_))) && v == V::Invalid {
            c.fail(format!("edited signature object verified (edit {})", mode), json!({"text": text, "message": hexs(msg)}));
        }
    }
}

// ------------------------------------------------------------------------------------------ C07

fn expect_genuine(c: &mut Case<'_>, text: &str, k: &Key, msg: &[u8], ns: &str, hash: &str, what: &str) -> Option<VerifiedSshSignature> {
    let kb = k.blob();
    let kl = k.line();
    let mut last = None;
    for mode in 0..3 {
        let r = c.call("from_ssh_signature", || {
            let exp = match mode {
                0 => None,
                1 => Some(PublicKey::from_bytes(&kb)?),
                _ => Some(PublicKey::from_string(&format!("{} me@host", kl))?),
            };
            let s = SshSignature::from_armored_string(text)?;
            VerifiedSshSignature::from_ssh_signature(msg, s, ns, exp)
        });
        match r {
            Ok(Ok(v)) => {
                let body = body_of(text).unwrap();
                let p = parts(&body).unwrap();
                if pub_blob(&v.signature.pubkey) != kb || v.signature.namespace != ns || v.signature.hash_algorithm.as_str() != hash || v.signature.signature != p.sig || v.message != msg {
                    c.fail(format!("genuine signature decoded differently ({})", what), json!({"text": text}));
                    return None;
                }
                last = Some(v);
            }
            Ok(Err(e)) => {
                c.fail(
                    format!("genuine detached signature refused ({}, {}): {:?}", what, ["no expected key", "expected key", "expected key with a comment"][mode], e),
                    json!({"text": text, "message": hexs(msg), "namespace": ns, "key": k.line()}),
                );
                return None;
            }
            Err(p) => {
                c.fail(format!("verifying a genuine detached signature panicked ({}): {}", what, p.0), json!({"text": text, "message": hexs(msg), "namespace": ns}));
                return None;
            }
        }
    }
    last
}

fn roundtrip(c: &mut Case<'_>, v: &VerifiedSshSignature, k: &Key, msg: &[u8], ns: &str, hash: &str, what: &str) -> Option<String> {
    let t1 = format!("{}", v);
    let t2 = format!("{}", v.signature);
    let want = sshsig_blob(&k.blob(), ns.as_bytes(), b"", hash.as_bytes(), &v.signature.signature);
    let well = t1.starts_with("-----BEGIN SSH SIGNATURE-----\n") && t1.trim_end().ends_with("\n-----END SSH SIGNATURE-----");
    if t1 != t2 || !well || body_of(&t1).as_deref() != Some(&want[..]) || t1.lines().any(|l| l.len() > 80) {
        c.fail(format!("printed signature is not the armored form of the signature ({})", what), json!({"printed": t1, "expected_body": hexs(&want)}));
        return None;
    }
    expect_genuine(c, &t1, k, msg, ns, hash, &format!("{}, printed and read back", what))?;
    Some(t1)
}

pub fn c07(m: &'static Mon) {
    m.rule("one evaluation = one genuine detached signature (made by the reference signer, ssh-keygen or the library) verified by the other side, printed and read back; distinct = distinct (maker, key type and size, hash, message, namespace)");
    m.assume("libcrypto and ssh-keygen decide what a genuine signature is");
    m.section("reference-made", m.n(4000), |c| {
        let kt = VERIFIABLE[c.idx as usize % VERIFIABLE.len()];
        let k = sig_key(&mut c.rng, kt);
        let msg = message(&mut c.rng);
        let ns = namespace(&mut c.rng);
        let hash = *c.rng.pick(&["sha256", "sha512"]);
        let o = SigOpt { rsa: *c.rng.pick(&[RsaHash::Sha256, RsaHash::Sha512]), ..SigOpt::random(&mut c.rng) };
        let tbs = sshsig_tbs(ns.as_bytes(), b"", hash.as_bytes(), &sshsig_digest(hash, &msg));
        let sig = if kt.is_ec() && c.rng.chance(1, 6) {
            let d = if kt.is_sk() { sk_signed(&k.app, o.flags, o.counter, &tbs) } else { tbs.clone() };
            match k.sign_short_raw(&d, 600) {
                Some(raw) => {
                    c.ev("short integers");
                    k.wrap(&raw, o)
                }
                None => k.sign(&tbs, o),
            }
        } else {
            k.sign(&tbs, o)
        };
        // the lines may be of any length
        let width = match c.rng.below(8) {
            0 => c.rng.range(1, 300),
            1 => 1 << 20,
            _ => *c.rng.pick(&[70, 70, 76, 64]),
        };
        // what is reserved is to be ignored
        let reserved = if c.rng.chance(1, 8) { c.rng.text(40) } else { String::new() };
        let mut text = armor("SSH SIGNATURE", &sshsig_blob(&k.blob(), ns.as_bytes(), reserved.as_bytes(), hash.as_bytes(), &sig), width, c.rng.chance(3, 4));
        if c.rng.chance(1, 10) {
            text = text.replace('\n', "\r\n");
        }
        c.eval(text.as_bytes());
        c.ev(&format!("{:?}", kt));
        c.sample(|| json!({"key": format!("{:?}", kt), "ns": ns, "msg_len": msg.len(), "hash": hash}));
        if let Some(v) = expect_genuine(c, &text, &k, &msg, &ns, hash, "made by the reference signer") {
            roundtrip(c, &v, &k, &msg, &ns, hash, "made by the reference signer");
        }
    });
    m.section("library-made", m.n(3000), |c| {
        let k = Key::gen_signing(&mut c.rng);
        library_made(c, &k);
    });
    m.section("library-made-large", m.n(12), |c| {
        let k = Key::gen_signing(&mut c.rng);
        let n = c.rng.range(100_000, 1_500_000);
        let msg = c.rng.bytes(n);
        made(c, &k, &msg, "file", Some("sha512"));
    });
    crate::openssh::section(m, "openssh-verifies", m.n(40), |c, dir| {
        let k = Key::gen_signing(&mut c.rng);
        let msg = message(&mut c.rng);
        let ns = c.rng.word(16).replace(['!', '?', '*'], "x");
        let ns = if ns.starts_with('-') { "ns".to_string() } else { ns };
        let hash = *c.rng.pick(&[None, Some("sha256"), Some("sha512")]);
        let t = match made(c, &k, &msg, &ns, hash) {
            Some(t) => t,
            None => return,
        };
        let sp = dir.join("sig");
        std::fs::write(&sp, format!("{}\n", t)).unwrap();
        let (ok, out) = crate::openssh::keygen(&["-Y", "check-novalidate", "-n", &ns, "-s", sp.to_str().unwrap()], &msg);
        c.eval(t.as_bytes());
        c.ev("openssh verified");
        if !ok || !out.contains("Good") {
            c.fail(format!("ssh-keygen refuses a detached signature made by the library ({:?} key)", k.kt), json!({"text": t, "ns": ns, "message": hexs(&msg), "ssh-keygen": out}));
        }
        // through an allowed signers file as well
        let asf = dir.join("allowed");
        std::fs::write(&asf, format!("me {}\n", k.line())).unwrap();
        let (ok, out) = crate::openssh::keygen(&["-Y", "verify", "-f", asf.to_str().unwrap(), "-I", "me", "-n", &ns, "-s", sp.to_str().unwrap()], &msg);
        if !ok {
            c.fail(format!("ssh-keygen -Y verify refuses a signature made by the library ({:?} key)", k.kt), json!({"text": t, "ssh-keygen": out}));
        }
    });
    crate::openssh::section(m, "openssh-made", m.n(40), |c, dir| {
        let kt = *c.rng.pick(&[KT::Rsa, KT::P256, KT::P384, KT::Ed]);
        let k = sig_key(&mut c.rng, kt).for_openssh(&mut c.rng);
        let msg = message(&mut c.rng);
        let ns = c.rng.word(16).replace(['!', '?', '*'], "x");
        let ns = if ns.starts_with('-') { "ns".to_string() } else { ns };
        let kp = dir.join("key");
        crate::openssh::write_private(&kp, &k);
        let hash = *c.rng.pick(&["sha256", "sha512"]);
        let (ok, out) = crate::openssh::keygen(&["-Y", "sign", "-f", kp.to_str().unwrap(), "-n", &ns, "-O", &format!("hashalg={}", hash)], &msg);
        if !ok {
            c.ev("openssh could not sign");
            c.sample(|| json!({"ssh-keygen": out}));
            return;
        }
        let text: String = match out.find("-----BEGIN SSH SIGNATURE-----") {
            Some(i) => {
                let e = out.find("-----END SSH SIGNATURE-----").map(|e| e + 27).unwrap_or(out.len());
                format!("{}\n", &out[i..e])
            }
            None => return,
        };
        c.eval(text.as_bytes());
        c.ev("openssh signed");
        if let Some(v) = expect_genuine(c, &text, &k, &msg, &ns, hash, "made by ssh-keygen") {
            roundtrip(c, &v, &k, &msg, &ns, hash, "made by ssh-keygen");
        }
    });
    // an empty namespace is nothing a signature may be made for
    m.section("empty-namespace", 10, |c| {
        let k = Key::gen_signing(&mut c.rng);
        if let Some(p) = lib_private(&k) {
            c.eval(&[k.kt as u8]);
            let r = c.call("new_with_private_key", || VerifiedSshSignature::new_with_private_key(b"m", "", p, None));
            if let Ok(Ok(v)) = r {
                let t = format!("{}", v);
                if SshSignature::from_armored_string(&t).is_err() {
                    c.fail("a signature was created that cannot be read back (empty namespace)", json!({"text": t}));
                }
            }
        }
    });
}

fn library_made(c: &mut Case<'_>, k: &Key) {
    let msg = message(&mut c.rng);
    let ns = namespace(&mut c.rng);
    let hash = *c.rng.pick(&[None, Some("sha256"), Some("sha512")]);
    made(c, k, &msg, &ns, hash);
}

fn made(c: &mut Case<'_>, k: &Key, msg: &[u8], ns: &str, hash: Option<&str>) -> Option<String> {
    let text = PrivFile::new(k, &PrivExtra::default(), "a comment", 77).text();
    let p = match c.call("PrivateKey::from_string", || PrivateKey::from_string(&text)) {
        Ok(Ok(p)) => p,
        _ => {
            c.fail(format!("private key refused ({:?})", k.kt), json!({"key": text}));
            return None;
        }
    };
    let h = match hash {
        Some("sha256") => Some(HashAlgorithm::Sha256),
        Some(_) => Some(HashAlgorithm::Sha512),
        None => None,
    };
    let v = match c.call("new_with_private_key", || VerifiedSshSignature::new_with_private_key(msg, ns, p, h)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => {
            c.fail(format!("no detached signature created with a {:?} key: {:?}", k.kt, e), json!({"key": text, "ns": ns, "message": hexs(msg)}));
            return None;
        }
        Err(p) => {
            c.fail(format!("creating a detached signature panicked ({:?} key): {}", k.kt, p.0), json!({"key": text, "ns": ns}));
            return None;
        }
    };
    let hn = v.signature.hash_algorithm.as_str().to_string();
    c.eval(&[&v.signature.signature[..], ns.as_bytes()].concat());
    c.ev(&format!("made {:?}", k.kt));
    if hash.map(|h| h != hn).unwrap_or(false) {
        c.fail("created signature names another hash than asked for", json!({"asked": hash, "got": hn}));
        return None;
    }
    if ref_verify(&k.blob(), &v.signature.signature, &sshsig_tbs(ns.as_bytes(), b"", hn.as_bytes(), &sshsig_digest(&hn, msg))) != V::Valid {
        c.fail(format!("created detached signature is not valid ({:?} key)", k.kt), json!({"key": text, "ns": ns, "message": hexs(msg), "signature": hexs(&v.signature.signature)}));
        return None;
    }
    if v.message != msg || v.signature.namespace != ns {
        c.fail("created signature object reports another message or namespace", json!({}));
        return None;
    }
    roundtrip(c, &v, k, msg, ns, &hn, "made by the library")
}
