//! C27: operations on PIV tokens, watched from the token's side of the PC/SC interface.
use crate::card::*;
use crate::der;
use crate::keys::*;
use crate::mon::{Case, Mon, Panicked};
use crate::p_piv;
use crate::refcert;
use crate::rng::Rng;
use crate::wire::{hexs, W};
use openssl::hash::{hash, MessageDigest};
use openssl::pkey::Id;
use openssl::x509::{X509NameRef, X509Req, X509};
use serde_json::{json, Value};
use sshcerts::ssh::{CertType, Certificate, PublicKey, SSHCertificateSigner};
use sshcerts::yubikey::piv::*;
use std::cell::RefCell;
use std::convert::TryFrom;
use yubikey::certificate::PublicKeyInfo;

fn all_slots() -> Vec<u8> {
    let mut v = vec![0x9a, 0x9c, 0x9d, 0x9e, 0xf9];
    v.extend(0x82..=0x95);
    v
}
fn sid(s: u8) -> SlotId {
    SlotId::try_from(s).expect("slot")
}
fn alg_id(a: u8) -> AlgorithmId {
    match a {
        ALG_RSA1024 => AlgorithmId::Rsa1024,
        ALG_P256 => AlgorithmId::EccP256,
        ALG_P384 => AlgorithmId::EccP384,
        _ => AlgorithmId::Rsa2048,
    }
}
fn md_of(a: u8) -> MessageDigest {
    if a == ALG_P384 {
        MessageDigest::sha384()
    } else {
        MessageDigest::sha256()
    }
}
fn pin_policy(p: u8) -> PinPolicy {
    match p {
        1 => PinPolicy::Never,
        2 => PinPolicy::Once,
        3 => PinPolicy::Always,
        _ => PinPolicy::Default,
    }
}
fn touch_policy(p: u8) -> TouchPolicy {
    match p {
        1 => TouchPolicy::Never,
        2 => TouchPolicy::Always,
        3 => TouchPolicy::Cached,
        _ => TouchPolicy::Default,
    }
}

/// The key of the certificate a slot holds.
#[derive(Clone, PartialEq, Debug)]
enum Held {
    Nothing,
    Ec { alg: u8, point: Vec<u8>, blob: Vec<u8> },
    Rsa { blob: Vec<u8> },
    Other,
}
fn spki_key(spki: &[u8]) -> Held {
    let k = match der::load_spki(spki) {
        Some(k) => k,
        None => return Held::Other,
    };
    if k.id() == Id::RSA {
        let r = k.rsa().unwrap();
        if r.n().num_bits() != 2048 {
            return Held::Other;
        }
        return Held::Rsa { blob: W::new().s(b"ssh-rsa").mpint(&r.e().to_vec()).mpint(&r.n().to_vec()).0 };
    }
    let (c, pt) = match der::ec_of_spki(spki) {
        Some(x) => x,
        None => return Held::Other,
    };
    for (alg, oid, nm) in [(ALG_P256, "1.2.840.10045.3.1.7", "nistp256"), (ALG_P384, "1.3.132.0.34", "nistp384")] {
        if c == der::oid_body(oid) && pt.first() == Some(&4) {
            let blob = W::new().s(format!("ecdsa-sha2-{}", nm).as_bytes()).s(nm.as_bytes()).s(&pt).0;
            return Held::Ec { alg, point: pt, blob };
        }
    }
    Held::Other
}
fn held(t: &Token, slot: u8) -> Held {
    match t.objects.get(&object_of(slot).unwrap()) {
        None => Held::Nothing,
        Some(o) => match cert_in(o).and_then(der::parse_cert) {
            Some(p) => spki_key(p.spki),
            None => Held::Other,
        },
    }
}
/// Whether the private key of the slot is that of its certificate.
fn coherent(t: &Token, slot: u8) -> bool {
    match (held(t, slot), t.slots.get(&slot)) {
        (Held::Ec { alg, point, .. }, Some(k)) => k.alg == alg && k.key.public == point,
        _ => false,
    }
}
fn common_names(n: &X509NameRef) -> Vec<Vec<u8>> {
    n.entries().map(|e| e.data().as_slice().to_vec()).collect()
}

fn sized_cert(r: &mut Rng, spki: Vec<u8>, cn: &str) -> Vec<u8> {
    let mut c = der::Cert::new(r, "issuer", cn, spki);
    if r.chance(1, 2) {
        let n = *r.pick(&[1, 50, 120, 200, 256, 400, 700, 1000, 1500, 2000, 2300]);
        let n = n + r.below(30);
        c.ext.push(("1.2.3.4.5".into(), false, der::octets(&r.bytes(n))));
    }
    let k = Key::gen(r, KT::P256);
    c.signed(&k, der::Md::Sha256)
}
fn fill(r: &mut Rng, t: &mut Token, slot: u8) {
    let obj = object_of(slot).unwrap();
    let (pin, touch) = (r.below(4) as u8, r.below(4) as u8);
    t.slots.remove(&slot);
    t.objects.remove(&obj);
    t.attest.remove(&slot);
    let cn = format!("slot {:x} {}", slot, r.word(12));
    match r.below(12) {
        0..=6 => {
            let kt = *r.pick(&[KT::P256, KT::P384]);
            let k = Key::gen(r, kt);
            let c = sized_cert(r, der::spki(&k), &cn);
            t.objects.insert(obj, cert_object(&c));
            t.slots.insert(slot, SlotKey { key: k, alg: alg_of(kt), pin, touch, made: None });
        }
        7 => {
            let k = rsa_2048(r);
            let c = sized_cert(r, der::spki(&k), &cn);
            t.objects.insert(obj, cert_object(&c));
            t.slots.insert(slot, SlotKey { key: k, alg: ALG_RSA2048, pin, touch, made: None });
        }
        8 => {
            // a certificate of another key, perhaps of the other curve
            let (a, b) = (*r.pick(&[KT::P256, KT::P384]), *r.pick(&[KT::P256, KT::P384]));
            let (k, o) = (Key::gen(r, a), Key::gen(r, b));
            let c = sized_cert(r, der::spki(&o), &cn);
            t.objects.insert(obj, cert_object(&c));
            t.slots.insert(slot, SlotKey { key: k, alg: alg_of(a), pin, touch, made: None });
        }
        9 => {
            let k = p_piv::other_spki(r);
            let c = sized_cert(r, k, &cn);
            t.objects.insert(obj, cert_object(&c));
        }
        10 => {
            // a key without a certificate
            let kt = *r.pick(&[KT::P256, KT::P384]);
            let k = Key::gen(r, kt);
            t.slots.insert(slot, SlotKey { key: k, alg: alg_of(kt), pin, touch, made: None });
        }
        _ => {
            let n = r.range(1, 40);
            let o = r.bytes(n);
            t.objects.insert(obj, if r.chance(1, 2) { cert_object(&o) } else { o });
        }
    }
    if r.chance(1, 2) {
        let s = der::spki(&Key::gen(r, KT::P256));
        let c = sized_cert(r, s, "YubiKey PIV Attestation");
        t.attest.insert(slot, c);
    }
}

struct Signer<'a>(RefCell<&'a mut Yubikey>, SlotId);
impl SSHCertificateSigner for Signer<'_> {
    fn sign(&self, b: &[u8]) -> Option<Vec<u8>> {
        self.0.borrow_mut().ssh_cert_signer(b, &self.1).ok()
    }
}

#[derive(Clone, Debug)]
enum Op {
    Open(u32),
    New,
    Unlock(Vec<u8>, Vec<u8>),
    Configured(u8),
    Subject(u8),
    Fetch(u8),
    Write(u8, Vec<u8>, bool),
    Attest(u8),
    Csr(u8, String),
    Provision(u8, String, u8, u8, u8),
    Sign(u8, Vec<u8>, u8),
    PubKey(u8),
    KeyType(u8),
    Signer(u8, Vec<u8>),
    Issue(u8, Vec<u8>, String),
    Reconnect,
}
impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Open(_) => "open",
            Op::New => "new",
            Op::Unlock(..) => "unlock",
            Op::Configured(_) => "configured",
            Op::Subject(_) => "fetch_subject",
            Op::Fetch(_) => "fetch_certificate",
            Op::Write(..) => "write_certificate",
            Op::Attest(_) => "fetch_attestation",
            Op::Csr(..) => "generate_csr",
            Op::Provision(..) => "provision",
            Op::Sign(..) => "sign_data",
            Op::PubKey(_) => "ssh_cert_fetch_pubkey",
            Op::KeyType(_) => "get_ssh_key_type",
            Op::Signer(..) => "ssh_cert_signer",
            Op::Issue(..) => "issue",
            Op::Reconnect => "reconnect",
        }
    }
    fn slot(&self) -> Option<u8> {
        match self {
            Op::Configured(s) | Op::Subject(s) | Op::Fetch(s) | Op::Attest(s) | Op::PubKey(s) | Op::KeyType(s) => Some(*s),
            Op::Write(s, ..) | Op::Csr(s, ..) | Op::Provision(s, ..) | Op::Sign(s, ..) | Op::Signer(s, ..) | Op::Issue(s, ..) => Some(*s),
            _ => None,
        }
    }
}

enum Out {
    Unit,
    Info(PublicKeyInfo),
    Text(String),
    Bytes(Vec<u8>),
    Key(PublicKey),
    Alg(AlgorithmId),
    Cert(Box<Certificate>),
    Yk(Yubikey),
}

fn perform(op: &Op, yk: &mut Option<Yubikey>) -> std::result::Result<Out, String> {
    let e = |e: Error| {
        // every error can be told to the user
        format!("{} / {:?}", e, e)
    };
    let y = yk.as_mut();
    Ok(match op {
        Op::Open(s) => Out::Yk(Yubikey::open(*s).map_err(e)?),
        Op::New => Out::Yk(Yubikey::new().map_err(e)?),
        _ => {
            let y = y.expect("a token");
            match op {
                Op::Unlock(p, m) => {
                    y.unlock(p, m).map_err(e)?;
                    Out::Unit
                }
                Op::Configured(s) => Out::Info(y.configured(&sid(*s)).map_err(e)?),
                Op::Subject(s) => Out::Text(y.fetch_subject(&sid(*s)).map_err(e)?),
                Op::Fetch(s) => Out::Bytes(y.fetch_certificate(&sid(*s)).map_err(e)?),
                Op::Write(s, d, _) => {
                    y.write_certificate(&sid(*s), d).map_err(e)?;
                    Out::Unit
                }
                Op::Attest(s) => Out::Bytes(y.fetch_attestation(&sid(*s)).map_err(e)?),
                Op::Csr(s, cn) => Out::Bytes(y.generate_csr(&sid(*s), cn).map_err(e)?),
                Op::Provision(s, cn, a, t, p) => Out::Key(y.provision(&sid(*s), cn, alg_id(*a), touch_policy(*t), pin_policy(*p)).map_err(e)?),
                Op::Sign(s, d, a) => Out::Bytes(y.sign_data(d, alg_id(*a), &sid(*s)).map_err(e)?),
                Op::PubKey(s) => Out::Key(y.ssh_cert_fetch_pubkey(&sid(*s)).map_err(e)?),
                Op::KeyType(s) => Out::Alg(y.get_ssh_key_type(&sid(*s)).map_err(e)?),
                Op::Signer(s, d) => Out::Bytes(y.ssh_cert_signer(d, &sid(*s)).map_err(e)?),
                Op::Issue(s, sub, id) => {
                    let ca = y.ssh_cert_fetch_pubkey(&sid(*s)).map_err(e)?;
                    let sub = PublicKey::from_bytes(sub).map_err(|x| format!("{:?}", x))?;
                    let c = Certificate::builder(&sub, CertType::User, &ca).map_err(|x| format!("{:?}", x))?;
                    let c = c.serial(7).key_id(id).principal("me").valid_after(0).valid_before(u64::MAX);
                    Out::Cert(Box::new(c.sign(&Signer(RefCell::new(y), sid(*s))).map_err(|x| format!("{:?}", x))?))
                }
                Op::Reconnect => {
                    y.reconnect().map_err(e)?;
                    Out::Unit
                }
                _ => unreachable!(),
            }
        }
    })
}

/// What the calls leading to this point look like.
fn story(log: &[Rec]) -> Value {
    json!(log.iter().rev().take(12).rev().map(|r| format!("token {} {:02x} {:02x} {:02x} {} -> {:04x} {}", r.token, r.ins, r.p1, r.p2, hexs(&r.data), r.sw, hexs(&r.reply))).collect::<Vec<_>>())
}

struct Step<'a> {
    op: &'a Op,
    /// index of the token the handle is for
    target: Option<usize>,
    before: &'a [Token],
    after: &'a [Token],
    log: &'a [Rec],
    /// a fault altered an answer: the values read are the fault's
    altered: bool,
    struck: bool,
}

/// Rules on what the tokens saw, whatever the result.
fn watch(s: &Step<'_>) -> Vec<String> {
    let mut bad = vec![];
    let slot = s.op.slot();
    let op = s.op.name();
    for r in s.log {
        let (using, at): (&str, Option<u8>) = match r.ins {
            0x20 if !r.data.is_empty() => ("verify a PIN", None),
            0x87 if r.p2 == 0x9b => ("authenticate for management", None),
            0x87 => ("use a private key", Some(r.p2)),
            0x47 => ("generate a key", Some(r.p2)),
            0xf9 => ("attest a key", Some(r.p1)),
            0xdb => {
                let id = next_tlv(&r.data).map(|x| x.1.iter().fold(0u32, |a, b| a << 8 | *b as u32));
                match all_slots().into_iter().find(|x| object_of(*x) == id) {
                    Some(x) => ("store an object", Some(x)),
                    None => {
                        bad.push(format!("{} asks the token to store an object that is no certificate", op));
                        continue;
                    }
                }
            }
            0xa4 | 0xfd | 0xf8 | 0x01 | 0xcb | 0x20 | 0xf7 => continue,
            i => {
                bad.push(format!("{} sends the command {:02x}", op, i));
                continue;
            }
        };
        if Some(r.token) != s.target {
            bad.push(format!("{} asks another token to {}", op, using));
        }
        if at.is_some() && at != slot {
            bad.push(format!("{} asks the token to {} in another slot", op, using));
        }
        let fits = match r.ins {
            0x20 => matches!(op, "unlock" | "reconnect"),
            0x87 if r.p2 == 0x9b => op == "unlock",
            0x87 => matches!(op, "sign_data" | "ssh_cert_signer" | "issue" | "generate_csr" | "provision"),
            0x47 => op == "provision",
            0xf9 => op == "fetch_attestation",
            _ => matches!(op, "provision" | "write_certificate"),
        };
        if !fits {
            bad.push(format!("{} asks the token to {}", op, using));
        }
        // what is asked to be signed
        if r.ins == 0x87 && r.p2 != 0x9b {
            let d = next_tlv(&r.data).and_then(|x| {
                let mut d = x.1;
                while let Some((t, v, rest)) = next_tlv(d) {
                    if t == 0x81 {
                        return Some(v.to_vec());
                    }
                    d = rest;
                }
                None
            });
            let want = match s.op {
                Op::Sign(_, data, a) => Some((*a, data)),
                Op::Signer(_, data) => match held(&s.before[r.token], r.p2) {
                    Held::Ec { alg, .. } => Some((alg, data)),
                    _ => None,
                },
                _ => None,
            };
            match (s.op, want) {
                (Op::Sign(..) | Op::Signer(..), Some((a, data))) if !s.altered => {
                    if r.p1 != a {
                        bad.push(format!("{} asks for another algorithm", op));
                    }
                    if d.as_deref() != Some(&*hash(md_of(a), data).unwrap()) {
                        bad.push(format!("{} asks for the signature of something that is not the digest of the data", op));
                    }
                }
                (Op::Sign(..) | Op::Signer(..), None) if !s.altered => bad.push(format!("{} asks for a signature although the slot has no key it can sign with", op)),
                _ => (),
            }
        }
    }
    for (i, (b, a)) in s.before.iter().zip(s.after).enumerate() {
        let mine = Some(i) == s.target;
        if b.tries > a.tries + 1 || (b.tries > a.tries && !mine) {
            bad.push(format!("{} uses up {} PIN attempts", op, b.tries - a.tries));
        }
        for sl in all_slots() {
            let (x, y) = (b.slots.get(&sl), a.slots.get(&sl));
            let same = match (x, y) {
                (None, None) => true,
                (Some(x), Some(y)) => x.key.public == y.key.public && x.key.rsa == y.key.rsa && x.made == y.made,
                _ => false,
            };
            let allowed = mine && slot == Some(sl) && op == "provision";
            if !same && !allowed {
                bad.push(format!("{} replaces the key of a slot", op));
            }
        }
        for (o, v) in &b.objects {
            let allowed = mine && slot.and_then(object_of) == Some(*o) && matches!(op, "provision" | "write_certificate");
            if a.objects.get(o) != Some(v) && !allowed {
                bad.push(format!("{} replaces a stored object", op));
            }
        }
    }
    bad
}

/// Rules on a result that is reported as a success.
fn truthful(s: &Step<'_>, out: &Out) -> Vec<String> {
    let mut bad = vec![];
    let op = s.op.name();
    let t = match s.target {
        Some(t) => t,
        None => return bad,
    };
    let (b, a) = (&s.before[t], &s.after[t]);
    let signed: Vec<(Vec<u8>, &Rec)> = s
        .log
        .iter()
        .filter(|r| r.ins == 0x87 && r.p2 != 0x9b && r.sw == 0x9000)
        .filter_map(|r| next_tlv(&r.reply).and_then(|x| next_tlv(x.1)).map(|x| (x.1.to_vec(), r)))
        .collect();
    match (s.op, out) {
        (Op::Unlock(p, m), Out::Unit) => {
            if !a.pin_ok || (!p.is_empty() && *p != a.pin) {
                bad.push("unlock succeeds although the token has not taken the PIN".into());
            }
            if !a.mgm_ok || m[..] != a.mgm[..] {
                bad.push("unlock succeeds although the token has not taken the management key".into());
            }
        }
        (Op::Configured(sl), Out::Info(i)) if !s.altered => {
            let ok = match (held(b, *sl), i) {
                (Held::Ec { alg: ALG_P256, point, .. }, PublicKeyInfo::EcP256(p)) => p.as_bytes() == point,
                (Held::Ec { alg: ALG_P384, point, .. }, PublicKeyInfo::EcP384(p)) => p.as_bytes() == point,
                (Held::Rsa { .. }, PublicKeyInfo::Rsa { .. }) => true,
                (Held::Other, _) => true,
                _ => false,
            };
            if !ok {
                bad.push("configured reports a key that is not the slot's".into());
            }
        }
        (Op::Subject(sl), Out::Text(x)) if !s.altered => {
            let c = b.objects.get(&object_of(*sl).unwrap()).and_then(|o| cert_in(o));
            let want = c.and_then(|c| X509::from_der(c).ok()).map(|c| common_names(c.subject_name())).unwrap_or_default();
            match want.first().and_then(|w| std::str::from_utf8(w).ok()) {
                Some(w) if w.chars().all(|c| c.is_ascii_alphanumeric() || c == ' ') => {
                    if *x != format!("CN={}", w) {
                        bad.push("fetch_subject reports another subject".into());
                    }
                }
                Some(_) => (),
                None if held(b, *sl) == Held::Nothing => bad.push("fetch_subject reports a subject for an empty slot".into()),
                None => (),
            }
        }
        (Op::Fetch(sl), Out::Bytes(x)) if !s.altered => {
            let o = b.objects.get(&object_of(*sl).unwrap());
            if o.is_none() || (o.and_then(|o| cert_in(o)) != Some(x) && o.map(|o| o.first() == Some(&0x70)) == Some(true)) {
                bad.push("fetch_certificate returns something that is not the slot's certificate".into());
            }
        }
        (Op::Write(sl, d, valid), Out::Unit) => {
            if a.objects.get(&object_of(*sl).unwrap()).and_then(|o| cert_in(o)) != Some(d) {
                bad.push("write_certificate succeeds although the token holds something else".into());
            }
            if a.objects.get(&object_of(*sl).unwrap()).is_some_and(|o| says_compressed(o)) {
                bad.push("write_certificate stores a plain certificate as a compressed one".into());
            }
            if !valid {
                bad.push("write_certificate stores what is no certificate".into());
            }
        }
        (Op::Attest(sl), Out::Bytes(x)) if !s.altered => {
            if b.attest.get(sl) != Some(x) {
                bad.push("fetch_attestation returns something else than the token".into());
            }
        }
        (Op::Sign(_, data, al), Out::Bytes(x)) => {
            let dg = hash(md_of(*al), data).unwrap();
            if !signed.iter().any(|(v, r)| v == x && r.data.windows(dg.len()).any(|w| w == &*dg)) {
                bad.push("sign_data returns a signature the token did not make of this data".into());
            }
        }
        (Op::PubKey(sl), Out::Key(k)) if !s.altered => match held(b, *sl) {
            Held::Ec { blob, .. } | Held::Rsa { blob } => {
                if refcert::pub_blob(k) != blob || k.encode().to_vec() != blob {
                    bad.push("the key reported for the slot is not the one in its certificate".into());
                }
            }
            Held::Nothing => bad.push("a key is reported for an empty slot".into()),
            Held::Other => (),
        },
        (Op::KeyType(sl), Out::Alg(x)) if !s.altered => match held(b, *sl) {
            Held::Ec { alg, .. } => {
                if *x != alg_id(alg) {
                    bad.push("get_ssh_key_type reports another kind of key".into());
                }
            }
            Held::Rsa { .. } => {
                if *x != AlgorithmId::Rsa2048 {
                    bad.push("get_ssh_key_type reports another kind of key".into());
                }
            }
            Held::Nothing => bad.push("a kind of key is reported for an empty slot".into()),
            Held::Other => (),
        },
        (Op::Signer(sl, data), Out::Bytes(x)) => {
            if signed.is_empty() {
                bad.push("ssh_cert_signer succeeds without a signature of the token".into());
            } else if !s.altered {
                match held(b, *sl) {
                    Held::Ec { blob, .. } => {
                        // honest token: a valid signature under the reported key
                        if matches!(b.lie, Lie::None | Lie::Short) && coherent(b, *sl) && ref_verify(&blob, x, data) != V::Valid {
                            bad.push("ssh_cert_signer returns a signature that is not valid under the slot's key".into());
                        }
                    }
                    _ => bad.push("ssh_cert_signer succeeds for a slot without an elliptic curve key".into()),
                }
            }
        }
        (Op::Issue(sl, _, _), Out::Cert(c)) => {
            if refcert::judge(&c.serialized) != V::Valid {
                bad.push("a certificate is issued whose signature is not valid".into());
            }
            if !s.altered {
                if let Held::Ec { blob, .. } = held(b, *sl) {
                    if refcert::pub_blob(&c.signature_key) != blob {
                        bad.push("a certificate is issued in the name of another key".into());
                    }
                }
            }
        }
        (Op::Csr(sl, cn), Out::Bytes(x)) => match X509Req::from_der(x) {
            Err(_) => bad.push("generate_csr returns what is no request".into()),
            Ok(q) => {
                let k = q.public_key().ok();
                if matches!(b.lie, Lie::None | Lie::Short) && !s.altered && coherent(b, *sl) && !k.as_ref().map(|k| q.verify(k).unwrap_or(false)).unwrap_or(false) {
                    bad.push("generate_csr returns a request that does not verify".into());
                }
                let spki = k.and_then(|k| k.public_key_to_der().ok()).unwrap_or_default();
                if !s.altered && spki_key(&spki) != held(b, *sl) {
                    bad.push("generate_csr returns a request for another key".into());
                }
                if common_names(q.subject_name()) != vec![cn.as_bytes().to_vec()] {
                    bad.push("generate_csr returns a request for another name".into());
                }
            }
        },
        (Op::Provision(sl, cn, al, to, pi), Out::Key(k)) => {
            let made = a.slots.get(sl).filter(|x| x.made.is_some() && b.slots.get(sl).map(|y| y.made != x.made).unwrap_or(true));
            match made {
                None => bad.push("provision succeeds without a new key in the slot".into()),
                Some(n) => {
                    if n.alg != *al {
                        bad.push("provision makes another kind of key".into());
                    }
                    if n.pin != *pi {
                        bad.push("provision makes a key with another PIN policy".into());
                    }
                    if n.touch != *to {
                        bad.push("provision makes a key with another touch policy".into());
                    }
                    if !s.altered {
                        match held(a, *sl) {
                            Held::Ec { blob, point, .. } => {
                                if n.key.public != point {
                                    bad.push("provision stores a certificate of another key".into());
                                }
                                if refcert::pub_blob(k) != blob {
                                    bad.push("provision reports another key".into());
                                }
                            }
                            Held::Rsa { blob } => {
                                if refcert::pub_blob(k) != blob || n.key.blob() != blob {
                                    bad.push("provision reports another key".into());
                                }
                            }
                            _ => bad.push("provision leaves no certificate".into()),
                        }
                        let c = a.objects.get(&object_of(*sl).unwrap()).and_then(|o| cert_in(o)).and_then(|c| X509::from_der(c).ok());
                        match c {
                            Some(c) => {
                                let honest = matches!(b.lie, Lie::None | Lie::Short);
                                if honest && !c.public_key().map(|k| c.verify(&k).unwrap_or(false)).unwrap_or(false) {
                                    bad.push("provision stores a certificate that does not verify".into());
                                }
                                if common_names(c.subject_name()) != vec![cn.as_bytes().to_vec()] {
                                    bad.push("provision stores a certificate for another name".into());
                                }
                            }
                            None => bad.push("provision stores what is no certificate".into()),
                        }
                    }
                }
            }
        }
        _ => (),
    }
    let _ = (op, s.struck);
    bad
}

/// Whether the operation has to succeed (Some(true)), has to fail (Some(false)), or either.
fn expected(op: &Op, t: &Token, plugged: bool, stale: bool) -> Option<bool> {
    if let Op::Reconnect = op {
        return Some(plugged);
    }
    if !plugged || stale {
        return Some(false);
    }
    if !t.selected() {
        // left in another applet by an opening that was interrupted
        return None;
    }
    let ec = |s: u8| match held(t, s) {
        Held::Ec { alg, .. } => Some(alg),
        _ => None,
    };
    let honest = matches!(t.lie, Lie::None | Lie::Short);
    match op {
        Op::Unlock(p, m) => {
            let mgm = m[..] == t.mgm[..];
            let pin = if p.is_empty() { t.pin_ok } else { *p == t.pin && t.tries > 0 };
            Some(mgm && pin)
        }
        Op::Configured(s) | Op::Fetch(s) | Op::Subject(s) | Op::PubKey(s) => match held(t, *s) {
            Held::Ec { .. } => Some(true),
            Held::Nothing => Some(false),
            // RSA keys are converted or refused
            Held::Rsa { .. } if matches!(op, Op::PubKey(_)) => None,
            Held::Rsa { .. } => Some(true),
            Held::Other => None,
        },
        Op::KeyType(s) => match held(t, *s) {
            Held::Ec { .. } => Some(true),
            Held::Nothing => Some(false),
            _ => None,
        },
        Op::Write(_, d, valid) => match (valid, t.mgm_ok) {
            (true, true) if d.len() < 2500 => Some(true),
            (true, true) => None,
            _ => Some(false),
        },
        Op::Attest(s) => Some(t.attest.contains_key(s)),
        Op::Sign(s, _, a) => match ec(*s) {
            Some(x) if x != *a => Some(false),
            Some(x) => match t.slots.get(s) {
                Some(k) if k.alg == x => Some(t.may_sign(*s)),
                _ => Some(false),
            },
            None => match held(t, *s) {
                Held::Other if t.slots.contains_key(s) => None,
                Held::Rsa { .. } if *a == ALG_RSA2048 => None,
                _ => Some(false),
            },
        },
        Op::Signer(s, _) => match ec(*s) {
            Some(x) => match t.slots.get(s) {
                Some(k) if k.alg == x => {
                    if !t.may_sign(*s) {
                        Some(false)
                    } else if honest {
                        Some(true)
                    } else {
                        None
                    }
                }
                _ => Some(false),
            },
            None => match held(t, *s) {
                Held::Nothing => Some(false),
                _ => None,
            },
        },
        Op::Issue(s, ..) => match ec(*s) {
            Some(x) => match t.slots.get(s) {
                Some(k) if k.alg == x => {
                    if !t.may_sign(*s) || !coherent(t, *s) {
                        Some(false)
                    } else if honest {
                        Some(true)
                    } else {
                        None
                    }
                }
                _ => Some(false),
            },
            None => match held(t, *s) {
                Held::Nothing => Some(false),
                _ => None,
            },
        },
        Op::Csr(s, cn) => match ec(*s) {
            Some(x) => match t.slots.get(s) {
                Some(k) if k.alg == x => {
                    let never = Token::pin_rule(*s, k.pin) == 1;
                    let sure = never || (!t.select_resets && t.version[0] >= 5 && t.may_sign(*s));
                    // a request signed through a connection of its own: the PIN entered may not count
                    if sure && coherent(t, *s) && !cn.contains('\0') && cn.chars().count() <= 64 && !cn.is_empty() {
                        Some(true)
                    } else if !never && !t.pin_ok {
                        Some(false)
                    } else {
                        None
                    }
                }
                _ => Some(false),
            },
            None => Some(false),
        },
        Op::Provision(s, cn, a, _, p) => {
            if !t.mgm_ok || *a == ALG_RSA1024 {
                return Some(false);
            }
            let sign = match Token::pin_rule(*s, *p) {
                1 => true,
                2 => t.pin_ok,
                _ => t.pin_ok && t.pin_fresh,
            };
            if !sign {
                return Some(false);
            }
            // the certificate in the slot has room for 64 bytes of name
            if cn.len() <= 64 && honest && *a != ALG_RSA2048 {
                Some(true)
            } else {
                None
            }
        }
        _ => None,
    }
}

fn data(r: &mut Rng) -> Vec<u8> {
    let n = *r.pick(&[0, 1, 20, 31, 32, 33, 47, 48, 49, 64, 127, 128, 129, 255, 256, 300, 1000, 5000]);
    if r.chance(1, 60) {
        let n = *r.pick(&[65_537usize, 70_000, (1 << 20) + 1]);
        let mut v = vec![r.byte(); n];
        v[n - 1] ^= 1;
        return v;
    }
    match r.below(4) {
        // already a digest
        0 => hash(*r.pick(&[MessageDigest::sha256(), MessageDigest::sha384(), MessageDigest::sha512()]), &r.bytes(9)).unwrap().to_vec(),
        1 => vec![*r.pick(&[0u8, 0x30, 0xff]); n],
        _ => r.bytes(n),
    }
}
fn common_name(r: &mut Rng) -> String {
    match r.below(10) {
        0 => {
            let n = *r.pick(&[62, 63, 64]);
            "n".repeat(n)
        }
        1 => "é".repeat(*r.pick(&[1, 31, 32])),
        2 => "a, CN=b+O=c/CN=d \\\"#".into(),
        3 => "名前".repeat(r.range(1, 10)),
        4 => format!("{}@{}", r.word(9), r.word(9)),
        _ => {
            let mut s = r.text(40);
            while s.len() > 64 {
                s.pop();
            }
            if s.is_empty() || s.contains('\0') {
                s = r.word(8) + "x";
            }
            s
        }
    }
}

fn an_op(r: &mut Rng, t: &Token, fuller: &[u8]) -> Op {
    let s = if r.chance(9, 10) { *r.pick(fuller) } else { *r.pick(&all_slots()) };
    let own = t.slots.get(&s).map(|k| k.alg).unwrap_or(ALG_P256);
    let alg = if r.chance(3, 4) { own } else { *r.pick(&[ALG_P256, ALG_P384, ALG_RSA2048, ALG_RSA1024]) };
    match r.below(34) {
        0..=5 => {
            let p = match r.below(12) {
                0 => vec![],
                1 => r.bytes(6),
                2 => r.bytes(9),
                3 => {
                    let mut p = t.pin.clone();
                    p.pop();
                    p
                }
                4 => {
                    let mut p = t.pin.clone();
                    let i = r.below(p.len());
                    p[i] ^= 1;
                    p
                }
                _ => t.pin.clone(),
            };
            let m = match r.below(12) {
                0 => r.bytes(24),
                1 => {
                    let n = *r.pick(&[0, 1, 8, 16, 23, 25, 32]);
                    r.bytes(n)
                }
                2 => vec![1; 24],
                3 => {
                    let mut m = t.mgm.to_vec();
                    let i = r.below(24);
                    // beyond the parity bit
                    m[i] ^= 2 << r.below(7);
                    m
                }
                _ => t.mgm.to_vec(),
            };
            Op::Unlock(p, m)
        }
        6 => Op::Configured(s),
        7 => Op::Subject(s),
        8 | 9 => Op::Fetch(s),
        10 | 11 => {
            let k = match t.slots.get(&s) {
                Some(k) if r.chance(2, 3) => k.key.clone(),
                _ => {
                    let kt = *r.pick(&[KT::P256, KT::P384]);
                    Key::gen(r, kt)
                }
            };
            let w = r.word(9);
            let mut d = sized_cert(r, der::spki(&k), &w);
            let mut valid = true;
            if r.chance(1, 5) {
                valid = false;
                match r.below(3) {
                    0 => d = vec![],
                    1 => {
                        let n = r.below(d.len());
                        d.truncate(n)
                    }
                    _ => {
                        let n = r.range(1, 60);
                        d = r.bytes(n);
                        d[0] = 4;
                    }
                }
            }
            Op::Write(s, d, valid)
        }
        12 | 13 => Op::Attest(s),
        14..=16 => Op::Csr(s, common_name(r)),
        17..=19 => {
            let a = *r.pick(&[ALG_P256, ALG_P384, ALG_P256, ALG_P384, ALG_RSA2048, ALG_RSA1024]);
            let mut cn = common_name(r);
            if r.chance(1, 6) {
                cn = match r.below(3) {
                    0 => "é".repeat(r.range(33, 64)),
                    1 => "名".repeat(r.range(22, 64)),
                    _ => "x".repeat(r.range(65, 300)),
                };
            }
            Op::Provision(s, cn, a, r.below(4) as u8, r.below(4) as u8)
        }
        20..=23 => Op::Sign(s, data(r), alg),
        24 | 25 => Op::PubKey(s),
        26 => Op::KeyType(s),
        27..=29 => Op::Signer(s, data(r)),
        30 | 31 => {
            let k = Key::gen_verifiable(r);
            Op::Issue(s, k.blob(), r.word(20))
        }
        32 => Op::Reconnect,
        _ => Op::PubKey(s),
    }
}

fn tokens(r: &mut Rng) -> (Vec<Token>, Vec<u8>) {
    let mut slots = all_slots();
    r.shuffle(&mut slots);
    slots.truncate(r.range(2, 5));
    let n = *r.pick(&[1, 1, 1, 2, 3]);
    let mut v: Vec<Token> = vec![];
    for i in 0..n {
        let mut t = Token::new(r);
        while v.iter().any(|x| x.serial == t.serial) {
            t.serial = t.serial.wrapping_add(1);
        }
        if i > 0 && r.chance(1, 2) {
            // the same PIN and management key everywhere
            t.pin = v[0].pin.clone();
            t.mgm = v[0].mgm;
        }
        for s in &slots {
            fill(r, &mut t, *s);
        }
        v.push(t);
    }
    (v, slots)
}

fn run_history(c: &mut Case<'_>, faults: bool) {
    let mut r = c.rng.clone();
    let (toks, slots) = tokens(&mut r);
    let fork = Rng::new(r.u64(), "card", 1);
    let mut target = r.below(toks.len());
    let serials: Vec<u32> = toks.iter().map(|t| t.serial).collect();
    fresh(toks, fork);
    let mut yk: Option<Yubikey> = None;
    let mut stale = false;
    let steps = r.range(4, 24);
    let mut done: Vec<String> = vec![];
    for step in 0..steps {
        // events around the library
        if !faults && yk.is_some() && r.chance(1, 14) {
            let i = r.below(serials.len());
            let what = r.below(4);
            world(|w| {
                let t = &mut w.tokens[i];
                match what {
                    0 => {
                        t.plugged = false;
                        t.generation += 1;
                        t.reset();
                    }
                    1 => {
                        // pulled and put back
                        t.plugged = true;
                        t.generation += 1;
                        t.reset();
                    }
                    2 => t.plugged = true,
                    _ => t.tries = 3,
                }
                if what < 2 && i == target {
                    stale = true;
                }
            });
            done.push(format!("event {} on token {}", what, i));
        }
        if r.chance(1, 8) {
            let l = *r.pick(&[Lie::None, Lie::None, Lie::Short, Lie::OtherKey, Lie::OtherDigest, Lie::Swapped, Lie::Damaged, Lie::Shape(0), Lie::Shape(1), Lie::Shape(2), Lie::Shape(3), Lie::Shape(4), Lie::Shape(5), Lie::Shape(6), Lie::Shape(7)]);
            world(|w| w.tokens[target].lie = l);
        } else if r.chance(1, 3) {
            world(|w| w.tokens[target].lie = Lie::None);
        }
        let op = if yk.is_none() || r.chance(1, 16) {
            match r.below(6) {
                0 => Op::New,
                1 => Op::Open(r.val32()),
                2 => Op::Open(*r.pick(&serials)),
                _ => Op::Open(serials[target]),
            }
        } else {
            let t = world(|w| w.tokens[target].clone());
            an_op(&mut r, &t, &slots)
        };
        let before = world(|w| w.tokens.clone());
        let from = world(|w| w.log.len());
        let mut kind = None;
        if faults && yk.is_some() && r.chance(1, 3) {
            let f = match r.below(8) {
                0..=2 => Fault::Sw(*r.pick(&[0x6982, 0x6983, 0x6985, 0x63c2, 0x6a80, 0x6a82, 0x6a86, 0x6b00, 0x6d00, 0x6f00, 0x6700, 0x6881, 0x6900, 0x6a81])),
                3 => Fault::Transport(*r.pick(&[0x8010_0013i64, 0x8010_002f, 0x8010_0068, 0x8010_000a])),
                4 => Fault::Remove,
                5 => {
                    let n = r.below(40);
                    Fault::Data(r.bytes(n))
                }
                6 => Fault::Cut(r.below(300)),
                _ => Fault::Flip(r.below(20000)),
            };
            let at = r.below(6);
            kind = Some(f.clone());
            world(|w| w.fault = Some((at, f)));
        }
        world(|w| w.struck = false);
        let res: std::result::Result<_, Panicked> = c.call(op.name(), || perform(&op, &mut yk));
        let (after, log, struck) = world(|w| {
            let struck = w.struck;
            w.fault = None;
            (w.tokens.clone(), w.log[from..].to_vec(), struck)
        });
        let altered = struck && matches!(kind, Some(Fault::Data(_)) | Some(Fault::Cut(_)) | Some(Fault::Flip(_)));
        if struck && matches!(kind, Some(Fault::Remove)) && after[target].generation != before[target].generation {
            stale = true;
        }
        let ok = matches!(res, Ok(Ok(_)));
        done.push(format!("{} slot {:?} -> {}", op.name(), op.slot(), if ok { "ok" } else { "error" }));
        let opening = matches!(op, Op::Open(_) | Op::New);
        let st = Step { op: &op, target: if opening { None } else { Some(target) }, before: &before, after: &after, log: &log, altered, struck };
        let mut bad = watch(&st);
        let mut tell = String::new();
        match &res {
            Ok(Ok(out)) => bad.extend(truthful(&st, out)),
            Ok(Err(e)) => tell = e.clone(),
            Err(p) => {
                tell = p.0.clone();
                // a token that talks nonsense may be given up in any way
                let nonsense = op.slot().map(|s| matches!(held(&before[target], s), Held::Other)).unwrap_or(false);
                if !altered && !nonsense && !matches!(before[target].lie, Lie::Shape(_) | Lie::Damaged) {
                    bad.push(format!("{} panics", op.name()));
                }
                c.ev("panicked");
            }
        }
        if !struck {
            let want = match &op {
                Op::New => {
                    let n = before.iter().filter(|t| t.plugged).count();
                    // more than one token: refused
                    Some(n == 1)
                }
                Op::Open(s) => Some(before.iter().any(|t| t.plugged && t.serial == *s)),
                o => expected(o, &before[target], before[target].plugged, stale),
            };
            match want {
                Some(true) if !ok => bad.push(format!("{} fails although the token is ready", op.name())),
                Some(false) if ok => bad.push(format!("{} succeeds although it cannot have", op.name())),
                _ => (),
            }
            // a name that cannot be put into the certificate must not cost the key of the slot
            if let (Op::Provision(s, cn, ..), false) = (&op, ok) {
                if cn.len() > 64 && log.iter().any(|r| r.ins == 0x47 && r.sw == 0x9000) && before[target].mgm_ok && {
                    let p = match &op {
                        Op::Provision(_, _, _, _, p) => *p,
                        _ => 0,
                    };
                    match Token::pin_rule(*s, p) {
                        1 => true,
                        2 => before[target].pin_ok,
                        _ => before[target].pin_ok && before[target].pin_fresh,
                    }
                } && matches!(before[target].lie, Lie::None)
                {
                    bad.push("provision replaces the key of the slot and then fails because of the name".into());
                }
            }
        }
        // events for the evidence
        c.ev(&format!("{} {}", op.name(), if ok { "ok" } else { "refused" }));
        if struck {
            c.ev("faults injected");
        }
        c.mon.event("commands seen by tokens", log.len() as u64);
        c.eval(format!("{:?}{}{}{:?}", op, ok, step, log.iter().map(|r| (r.ins, r.sw)).collect::<Vec<_>>()).as_bytes());
        if !bad.is_empty() {
            c.fail(
                bad[0].clone(),
                json!({"all": bad, "operation": format!("{:?}", op).chars().take(400).collect::<String>(), "result": tell, "fault": format!("{:?}", kind), "token": {"lie": format!("{:?}", before[target].lie), "pin_ok": before[target].pin_ok, "mgm_ok": before[target].mgm_ok, "version": before[target].version, "plugged": before[target].plugged, "stale": stale, "select resets": before[target].select_resets}, "held": op.slot().map(|s| format!("{:?}", held(&before[target], s))), "history": done, "commands": story(&log)}),
            );
            return;
        }
        if altered && after[target].objects != before[target].objects {
            // what is stored now came out of a damaged answer
            c.ev("slots left with a damaged certificate");
            break;
        }
        match (op, res) {
            (Op::Open(_) | Op::New, Ok(Ok(_))) if altered => yk = None,
            (Op::Open(s), Ok(Ok(Out::Yk(y)))) => {
                if y.yk.serial().0 != s || !format!("{:?}", y).contains(&s.to_string()) {
                    c.fail("open opens another token", json!({"asked": s, "history": done}));
                    return;
                }
                target = serials.iter().position(|x| *x == s).unwrap();
                yk = Some(y);
                stale = false;
            }
            (Op::New, Ok(Ok(Out::Yk(y)))) => {
                match serials.iter().position(|x| *x == y.yk.serial().0) {
                    Some(p) if before[p].plugged => target = p,
                    _ => {
                        c.fail("new opens a token that is not there", json!({"history": done}));
                        return;
                    }
                }
                yk = Some(y);
                stale = false;
            }
            (Op::Reconnect, Ok(Ok(_))) => {
                if yk.as_ref().map(|y| y.yk.serial().0) != Some(serials[target]) {
                    c.fail("reconnect leads to another token", json!({"history": done}));
                    return;
                }
                stale = false;
            }
            (_, Err(_)) => yk = None,
            _ => (),
        }
    }
    drop(yk);
    c.sample(|| json!({"history": done}));
}

pub fn c27(m: &'static Mon) {
    m.rule("histories of token operations on emulated tokens: every command that uses a key, stores, generates or attests goes to the opened token and the given slot and to no other, with the algorithm asked for and the digest of exactly the data; results reported as success are those of the token and verify; operations the token can do succeed, those it cannot or will not do are errors");
    m.rule("faults (refusals, lost answers, removal, damaged answers) at every command of an operation: no false success, no use of another token or slot, at most one PIN attempt");
    m.assume("the token is emulated at the PC/SC interface (commands of SP 800-73-4 and the YubiKey additions the yubikey crate sends)");
    m.section("histories", m.n(5000), |c| run_history(c, false));
    m.section("faults", m.n(5000), |c| run_history(c, true));
}
