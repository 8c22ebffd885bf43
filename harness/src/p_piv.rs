//! C21 PIV attestation chains, C22 keys from X.509 and DER, C23 conversion of signatures.
use crate::der::{self, Cert, Md};
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::mutate::havoc;
use crate::p_fido::root_key;
use crate::refcert::pub_blob;
use crate::rng::Rng;
use crate::vectors::*;
use crate::wire::{hexs, unhex, R, W};
use openssl::ec::{EcGroup, EcKey};
use openssl::nid::Nid;
use openssl::pkey::PKey;
use serde_json::{json, Value};
use sshcerts::ssh::PublicKey;
use sshcerts::utils::{asn_der_to_r_s, format_signature_for_ssh, signature_convert_asn1_ecdsa_to_ssh};
use sshcerts::x509::{der_encoding_to_ssh_public_key, extract_ssh_pubkey_from_x509_certificate, extract_ssh_pubkey_from_x509_csr};
use sshcerts::yubikey::verification::{verify_certificate_chain, ValidPIVKey};

const FW: &str = "1.3.6.1.4.1.41482.3.3";
const SERIAL: &str = "1.3.6.1.4.1.41482.3.7";
const POLICY: &str = "1.3.6.1.4.1.41482.3.8";
const NAMES: [&str; 3] = ["Yubico PIV Root CA Serial 263751", "Yubico PIV Attestation", "YubiKey PIV Attestation 9a"];

/// A key of a kind a PIV slot of this crate can hold.
fn slot_key(r: &mut Rng) -> Key {
    let kt = *r.pick(&[KT::P256, KT::P384]);
    Key::gen(r, kt)
}

pub struct Piv {
    pub root: Key,
    pub root_md: Md,
    pub root_cert: Cert,
    pub root_pem: String,
    pub int: Key,
    pub int_md: Md,
    pub int_cert: Cert,
    pub int_der: Vec<u8>,
    pub key: Key,
    pub dev: Cert,
    pub dev_der: Vec<u8>,
    pub fw: [u8; 3],
    pub serial: u64,
    pub pin: u8,
    pub touch: u8,
}

fn ca(r: &mut Rng, issuer: &str, subject: &str, k: &Key) -> Cert {
    let mut c = Cert::new(r, issuer, subject, der::spki(k));
    c.ext.push(("2.5.29.19".into(), true, der::seq(&[&der::tlv(1, &[0xff])])));
    c
}

fn serial_value(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => *r.pick(&[0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, i64::MAX as u64]),
        1 => r.u64() >> 1,
        2 => 1u64 << r.below(63),
        _ => r.u64() & 0xffff_ffff,
    }
}

pub fn piv(r: &mut Rng) -> Piv {
    let (root, root_md) = root_key(r);
    let (int, int_md) = root_key(r);
    let rn = if r.chance(1, 2) { NAMES[0].to_string() } else { r.word(20) };
    // a chosen root need not have signed itself
    let above = if r.chance(1, 3) { Some((r.word(20), root_key(r))) } else { None };
    let root_cert = ca(r, above.as_ref().map_or(&rn, |a| &a.0), &rn, &root);
    let root_pem = der::pem("CERTIFICATE", &match &above {
        Some((_, (k, md))) => root_cert.signed(k, *md),
        None => root_cert.signed(&root, root_md),
    });
    let int_cert = ca(r, &rn, NAMES[1], &int);
    let int_der = int_cert.signed(&root, root_md);
    let key = slot_key(r);
    let mut dev = Cert::new(r, NAMES[1], NAMES[2], der::spki(&key));
    let f = r.bytes(5);
    let fw = [f[0], f[1], f[2]];
    let (pin, touch) = if r.chance(1, 2) { (r.range(0, 3) as u8, r.range(0, 3) as u8) } else { (f[3], f[4]) };
    let serial = serial_value(r);
    dev.ext.push((FW.into(), r.chance(1, 8), fw.to_vec()));
    dev.ext.push((SERIAL.into(), false, der::int(&serial.to_be_bytes())));
    dev.ext.push((POLICY.into(), r.chance(1, 8), vec![pin, touch]));
    if r.chance(1, 2) {
        dev.ext.push(("1.3.6.1.4.1.41482.3.9".into(), false, vec![r.byte()]));
    }
    if r.chance(1, 3) {
        // neighbours of the meaningful extensions
        for (o, n) in [("1.3.6.1.4.1.41482.3.1", 3), ("1.3.6.1.4.1.41482.3.2", 3), ("1.3.6.1.4.1.41482.3.10", 2), ("1.3.6.1.4.1.41482.3.3.1", 3), ("1.3.6.1.4.1.41482.13.1", 3), ("1.3.6.1.4.1.41482.3.4", 2)] {
            let v = r.bytes(n);
            dev.ext.push((o.into(), false, v));
        }
        let v = serial_value(r);
        dev.ext.push(("1.3.6.1.4.1.41482.3.6".into(), false, der::int(&v.to_be_bytes())));
    }
    r.shuffle(&mut dev.ext);
    let dev_der = dev.signed(&int, int_md);
    Piv { root, root_md, root_cert, root_pem, int, int_md, int_cert, int_der, key, dev, dev_der, fw, serial, pin, touch }
}

struct In {
    dev: Vec<u8>,
    int: Vec<u8>,
    root: Option<String>,
}
impl In {
    fn of(p: &Piv) -> In {
        In { dev: p.dev_der.clone(), int: p.int_der.clone(), root: Some(p.root_pem.clone()) }
    }
    fn json(&self) -> Value {
        json!({"client": hexs(&self.dev), "intermediate": hexs(&self.int), "root": self.root})
    }
    fn key(&self) -> Vec<u8> {
        [&self.dev[..], &self.int, self.root.as_deref().unwrap_or("").as_bytes()].concat()
    }
    fn call(&self, c: &mut Case<'_>) -> Result<Result<ValidPIVKey, sshcerts::error::Error>, crate::mon::Panicked> {
        c.call("verify_certificate_chain", || verify_certificate_chain(&self.dev, &self.int, self.root.as_deref()))
    }
}

/// Whether root -> intermediate -> device is intact.
fn chain_ok(i: &In) -> bool {
    let root = match i.root.as_deref().and_then(der::first_pem) {
        Some(d) => d,
        None => return false,
    };
    match (der::parse_cert(&root), der::parse_cert(&i.int), der::parse_cert(&i.dev)) {
        (Some(r), Some(n), Some(d)) => der::signed_by(&n, r.spki) && der::signed_by(&d, n.spki),
        _ => false,
    }
}

/// The SSH blob of an EC key (curve OID body, point).
fn ec_blob(curve: &[u8], point: &[u8]) -> Option<Vec<u8>> {
    let kt = if curve == &der::oid_body(der::P256_OID)[..] {
        KT::P256
    } else if curve == &der::oid_body(der::P384_OID)[..] {
        KT::P384
    } else {
        return None;
    };
    Some(W::new().s(kt.name().as_bytes()).s(kt.curve().unwrap().as_bytes()).s(point).0)
}

/// Compares the reported values with those in the device certificate, whatever its origin.
fn report_diff(v: &ValidPIVKey, dev: &[u8]) -> Vec<&'static str> {
    let mut d = vec![];
    let p = match der::parse_cert(dev) {
        Some(p) => p,
        None => return vec!["certificate"],
    };
    let blob = der::ec_of_spki(p.spki).and_then(|(c, pt)| ec_blob(&c, &pt));
    if blob != Some(pub_blob(&v.public_key)) {
        d.push("public key");
    }
    let vals = |o: &str| p.ext.iter().filter(|(x, _)| *x == der::oid_body(o)).map(|(_, v)| v.to_vec()).collect::<Vec<_>>();
    if !vals(FW).iter().any(|f| f.len() == 3 && format!("{}.{}.{}", f[0], f[1], f[2]) == v.firmware) {
        d.push("firmware");
    }
    if !vals(POLICY).iter().any(|f| f[..] == [v.pin_policy, v.touch_policy]) {
        d.push("policy");
    }
    let ok = vals(SERIAL).iter().any(|s| match der::next(s) {
        // a properly encoded serial exactly; a negative or oddly encoded one is not judged
        Some((2, c, _, _)) if !c.is_empty() && c[0] < 0x80 => {
            let b: Vec<u8> = c.iter().copied().skip_while(|x| *x == 0).collect();
            b.len() <= 8 && b.iter().fold(0u64, |a, x| a << 8 | *x as u64) == v.serial
        }
        Some((2, _, _, _)) => true,
        Some((t, _, _, _)) => t != 2 && t & 0x1f == 2,
        None => s.first() == Some(&2) && s.len() > 2 && s[1] >= 0x80,
    });
    if !ok {
        d.push("serial");
    }
    d
}

pub fn c21(m: &'static Mon) {
    m.rule("one evaluation = one call of the PIV chain verifier; genuine chains must be accepted with exactly the values of the device certificate, every acceptance is re-verified link by link by libcrypto over independently parsed DER; distinct = distinct inputs");
    m.assume("encodings of the same signed content (trailing bytes, outer tags) and damage of a root that keeps its key may be accepted; negative or over-long serials are not judged");
    m.section("genuine", m.n(6000), |c| {
        let p = piv(&mut c.rng);
        let i = In::of(&p);
        c.eval(&i.key());
        c.sample(|| i.json());
        c.mon.event(&format!("chain.{:?}.{:?}.{:?}", p.root.kt, p.int.kt, p.key.kt), 1);
        let v = match i.call(c) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => return c.fail(format!("genuine PIV attestation refused: {:?}", e), i.json()),
            Err(e) => return c.fail(format!("genuine PIV attestation panicked: {}", e.0), i.json()),
        };
        let mut d = vec![];
        if pub_blob(&v.public_key) != p.key.blob() {
            d.push("public key");
        }
        if v.firmware != format!("{}.{}.{}", p.fw[0], p.fw[1], p.fw[2]) {
            d.push("firmware");
        }
        if v.serial != p.serial {
            d.push("serial");
        }
        if v.pin_policy != p.pin {
            d.push("pin policy");
        }
        if v.touch_policy != p.touch {
            d.push("touch policy");
        }
        if !d.is_empty() {
            c.fail(format!("PIV attestation reports {:?} differently", d), json!({"in": i.json(), "got": format!("{:?}", v)}));
        }
    });
    m.section("altered", m.n(24000), |c| {
        let p = piv(&mut c.rng);
        let mut i = In::of(&p);
        let what = alter(&mut c.rng, &p, &mut i);
        c.eval(&i.key());
        c.mon.event(&format!("altered.{}", what), 1);
        if let Ok(Ok(v)) = i.call(c) {
            let kept = what == "root"
                && match (der::first_pem(&p.root_pem), i.root.as_deref().and_then(der::first_pem)) {
                    (Some(g), Some(d)) => der::same_anchor(&g, &d),
                    _ => false,
                };
            if !kept && !chain_ok(&i) {
                return c.fail(format!("PIV attestation accepted with altered {}", what), i.json());
            }
            c.ev("altered.accepted_equivalent");
            let d = report_diff(&v, &i.dev);
            if !d.is_empty() {
                c.fail(format!("PIV attestation reports {:?} differently (altered {})", d, what), json!({"in": i.json(), "got": format!("{:?}", v)}));
            }
        }
    });
    m.section("contents", m.n(9000), |c| {
        // properly signed chains whose device certificate lacks something or holds something odd
        let mut p = piv(&mut c.rng);
        let (what, must_refuse) = odd(&mut c.rng, &mut p);
        let i = In::of(&p);
        c.eval(&i.key());
        c.mon.event(&format!("contents.{}", what), 1);
        if let Ok(Ok(v)) = i.call(c) {
            if must_refuse {
                return c.fail(format!("PIV attestation accepted with {}", what), json!({"in": i.json(), "got": format!("{:?}", v)}));
            }
            c.ev("contents.accepted");
            let d = report_diff(&v, &i.dev);
            if !d.is_empty() {
                c.fail(format!("PIV attestation reports {:?} that the certificate does not hold ({})", d, what), json!({"in": i.json(), "got": format!("{:?}", v)}));
            }
        }
    });
    m.section("yubico", m.n(2500), |c| {
        let mut i = In { dev: unhex(YUBIKEY_5CI_ATTESTATION), int: unhex(YUBIKEY_5CI_INTERMEDIATE), root: None };
        let good = c.idx < 2 || c.rng.chance(1, 10);
        let mut what = "nothing";
        let t = (der::parse_cert(&i.dev).unwrap().tbs.len(), der::parse_cert(&i.int).unwrap().tbs.len());
        let n = (i.dev.len(), i.int.len());
        if !good {
            what = match c.rng.below(7) {
                0 => {
                    let j = 4 + c.rng.below(t.0);
                    i.dev[j] ^= 1 << c.rng.below(8);
                    "client"
                }
                1 => {
                    let j = 4 + c.rng.below(t.1);
                    i.int[j] ^= 1 << c.rng.below(8);
                    "intermediate"
                }
                2 => {
                    let j = n.0 - 1 - c.rng.below(256);
                    i.dev[j] ^= 1 << c.rng.below(8);
                    "client signature"
                }
                3 => {
                    let j = n.1 - 1 - c.rng.below(256);
                    i.int[j] ^= 1 << c.rng.below(8);
                    "intermediate signature"
                }
                4 => {
                    i.root = Some(piv(&mut c.rng).root_pem);
                    "root"
                }
                5 => {
                    let p = piv(&mut c.rng);
                    i.dev = p.dev_der;
                    i.int = p.int_der;
                    "chain of another root"
                }
                _ => {
                    let p = piv(&mut c.rng);
                    i.dev = p.dev_der;
                    "client of another chain"
                }
            };
        }
        c.eval(&i.key());
        match (i.call(c), good) {
            (Ok(Ok(v)), true) => {
                c.ev("yubico.accepted");
                let d = report_diff(&v, &i.dev);
                if !d.is_empty() {
                    c.fail(format!("attestation of a real device reports {:?} differently", d), json!({"in": i.json(), "got": format!("{:?}", v)}));
                }
            }
            (Ok(Err(e)), true) => c.fail(format!("attestation of a real device refused: {:?}", e), i.json()),
            (Err(e), true) => c.fail(format!("attestation of a real device panicked: {}", e.0), i.json()),
            (Ok(Ok(_)), false) => c.fail(format!("PIV attestation accepted under the built-in root with altered {}", what), i.json()),
            _ => c.ev("yubico.refused"),
        }
    });
}

fn set(p: &mut Piv, o: &str, v: Vec<u8>) {
    if let Some(e) = p.dev.ext.iter_mut().find(|e| e.0 == o) {
        e.2 = v;
    }
}

fn odd(r: &mut Rng, p: &mut Piv) -> (&'static str, bool) {
    let res = match r.below(9) {
        0 => {
            let o = *r.pick(&[FW, SERIAL, POLICY]);
            p.dev.ext.retain(|e| e.0 != o);
            ("an extension missing", true)
        }
        1 => {
            p.dev.ext.clear();
            ("no extensions", true)
        }
        2 => {
            let n = *r.pick(&[0, 1, 2, 4, 5, 16]);
            let v = r.bytes(n);
            set(p, FW, v);
            ("a firmware of the wrong length", true)
        }
        3 => {
            let n = *r.pick(&[0, 1, 3, 4, 5, 16]);
            let v = r.bytes(n);
            set(p, POLICY, v);
            ("a policy of the wrong length", true)
        }
        4 => {
            let n = r.range(1, 8);
            let b = r.bytes(n);
            let v = match r.below(6) {
                0 => vec![],
                1 => der::octets(&b),
                2 => der::tlv(5, &[]),
                3 => der::seq(&[&der::int(&b)]),
                4 => vec![2, b.len() as u8 + 1 + r.below(20) as u8].into_iter().chain(b).collect(),
                _ => der::tlv(0x0c, b"1234567"),
            };
            set(p, SERIAL, v);
            ("a serial that is no integer", true)
        }
        5 => {
            let n = r.range(9, 20);
            let mut b = r.bytes(n);
            b[0] = b[0] & 0x7f | 1;
            set(p, SERIAL, der::tlv(2, &b));
            ("a serial of more than 64 bits", true)
        }
        6 => {
            // sets the top bit: 9 bytes in DER, or negative
            let v = r.u64() | 1 << 63;
            let b = v.to_be_bytes();
            let enc = if r.chance(1, 2) { der::int(&b) } else { der::tlv(2, &b) };
            set(p, SERIAL, enc);
            ("a serial of 64 bits", false)
        }
        7 => {
            // a key the crate does not convert
            let spki = other_spki(r);
            p.dev.spki = spki;
            ("another kind of key", true)
        }
        _ => {
            // a second copy of an extension: either of them may be reported, nothing else
            let o = r.below(p.dev.ext.len());
            let mut e = p.dev.ext[o].clone();
            if e.0 == SERIAL {
                e.2 = der::int(&serial_value(r).to_be_bytes());
            } else if !e.2.is_empty() {
                let n = e.2.len();
                e.2 = r.bytes(n);
            }
            p.dev.ext.push(e);
            ("a repeated extension", false)
        }
    };
    p.dev_der = p.dev.signed(&p.int, p.int_md);
    res
}

fn alter(r: &mut Rng, p: &Piv, i: &mut In) -> &'static str {
    let flip = |r: &mut Rng, v: &mut Vec<u8>| {
        let j = r.below(v.len());
        v[j] ^= 1 << r.below(8);
    };
    match r.below(23) {
        0 | 1 => {
            flip(r, &mut i.dev);
            "client"
        }
        2 | 3 => {
            flip(r, &mut i.int);
            "intermediate"
        }
        4 => {
            let mut d = der::first_pem(&p.root_pem).unwrap();
            for _ in 0..r.range(1, 3) {
                flip(r, &mut d);
            }
            i.root = Some(der::pem("CERTIFICATE", &d));
            "root"
        }
        5 => {
            i.root = None;
            "root (built-in instead)"
        }
        6 => {
            i.root = Some(piv(r).root_pem);
            "root (another)"
        }
        7 => {
            let q = piv(r);
            i.int = q.int_der;
            "intermediate (another)"
        }
        8 => {
            let q = piv(r);
            i.dev = q.dev_der;
            "client (another)"
        }
        9 => {
            std::mem::swap(&mut i.dev, &mut i.int);
            "order"
        }
        10 => {
            // same contents, another issuer key
            let (k, md) = root_key(r);
            i.int = p.int_cert.signed(&k, md);
            "intermediate (signed by another root)"
        }
        11 => {
            let (k, md) = root_key(r);
            i.dev = p.dev.signed(&k, md);
            "client (signed by another intermediate)"
        }
        12 => {
            i.int = p.int_cert.signed(&p.int, p.int_md);
            "intermediate (self-signed)"
        }
        13 => {
            i.dev = p.dev.signed(&p.key, der::usual_md(&p.key));
            "client (self-signed)"
        }
        14 => {
            // the root signed the device certificate directly
            i.dev = p.dev.signed(&p.root, p.root_md);
            "client (signed by the root)"
        }
        15 => {
            // another key in the intermediate, which then signs the device certificate
            let (k, md) = root_key(r);
            let mut ic = p.int_cert.clone();
            ic.spki = der::spki(&k);
            let alg = der::sig_alg(&p.root, p.root_md);
            let old = der::parse_cert(&p.int_der).unwrap().sig.to_vec();
            i.int = der::seq(&[&ic.tbs(&alg), &alg, &der::bits(&old, 0)]);
            i.dev = p.dev.signed(&k, md);
            "intermediate (key replaced)"
        }
        16 => {
            // one value of the device certificate replaced under the old signature
            let mut dc = p.dev.clone();
            match r.below(4) {
                0 => dc.spki = der::spki(&slot_key(r)),
                1 => dc.subject.push('x'),
                2 => {
                    let o = r.below(dc.ext.len());
                    let e = &mut dc.ext[o];
                    if let Some(b) = e.2.last_mut() {
                        *b ^= 1;
                    } else {
                        e.1 = !e.1;
                    }
                }
                _ => dc.serial.push(1),
            }
            let alg = der::sig_alg(&p.int, p.int_md);
            let old = der::parse_cert(&p.dev_der).unwrap().sig.to_vec();
            i.dev = der::seq(&[&dc.tbs(&alg), &alg, &der::bits(&old, 0)]);
            "client (contents)"
        }
        17 => {
            // the digest named in the certificate is not the one signed
            let other: Vec<Md> = [Md::Sha256, Md::Sha384, Md::Sha512, Md::Sha1].into_iter().filter(|m| *m != p.int_md).collect();
            let o = *r.pick(&other);
            let alg = der::sig_alg(&p.int, p.int_md);
            let tbs = p.dev.tbs(&alg);
            let mut sig = der::sign_with(&p.int, o, &tbs);
            if r.chance(1, 2) {
                sig = der::sign_with(&p.int, p.int_md, &tbs[..tbs.len() - 1]);
            }
            i.dev = der::seq(&[&tbs, &alg, &der::bits(&sig, 0)]);
            // judged by verification under the named digest only
            "client (digest)"
        }
        19 | 20 => {
            // an intermediate that looks like the root, or says it is its own issuer
            let mut ic = p.int_cert.clone();
            ic.imitate(r, &p.root_cert);
            if r.chance(1, 4) {
                ic.issuer = ic.subject.clone();
            }
            i.int = if r.chance(1, 2) {
                ic.signed(&p.int, p.int_md)
            } else {
                let (k, md) = root_key(r);
                ic.signed(&k, md)
            };
            "intermediate (looks like the root)"
        }
        21 => {
            let mut dc = p.dev.clone();
            let o = if r.chance(1, 2) { p.int_cert.clone() } else { p.root_cert.clone() };
            dc.imitate(r, &o);
            if r.chance(1, 4) {
                dc.issuer = dc.subject.clone();
            }
            i.dev = if r.chance(1, 2) {
                dc.signed(&p.key, der::usual_md(&p.key))
            } else {
                let (k, md) = root_key(r);
                dc.signed(&k, md)
            };
            "client (looks like its issuer)"
        }
        18 => {
            let v = if r.chance(1, 2) { &mut i.dev } else { &mut i.int };
            for _ in 0..r.range(1, 3) {
                havoc(r, v);
            }
            "certificate (damaged)"
        }
        _ => {
            i.root = Some(match r.below(5) {
                0 => String::new(),
                1 => "-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----\n".into(),
                2 => p.root_pem.replace("CERTIFICATE", "PUBLIC KEY").replacen("MII", "MIJ", 1),
                3 => {
                    let n = r.below(p.root_pem.len());
                    p.root_pem[..n].to_string()
                }
                _ => r.text(200),
            });
            "root (unusable)"
        }
    }
}

fn ec_other(nid: Nid) -> Option<(Vec<u8>, Vec<u8>)> {
    let g = EcGroup::from_curve_name(nid).ok()?;
    let k = EcKey::generate(&g).ok()?;
    let mut ctx = openssl::bn::BigNumContext::new().ok()?;
    let pt = k.public_key().to_bytes(&g, openssl::ec::PointConversionForm::UNCOMPRESSED, &mut ctx).ok()?;
    Some((PKey::from_ec_key(k).ok()?.public_key_to_der().ok()?, pt))
}
/// A subject public key info that is not a named P-256 or P-384 key.
pub fn other_spki(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        8 | 9 => {
            // everything as it should be, except for what holds the key or how it is put together
            let k = slot_key(r);
            let (c, pt) = der::ec_of_spki(&der::spki(&k)).unwrap();
            let alg = der::seq(&[&der::oid(der::EC_OID), &der::tlv(6, &c)]);
            let key = der::bits(&pt, 0);
            match r.below(9) {
                0 => der::seq(&[&alg, &der::octets(&pt)]),
                1 => der::seq(&[&alg, &der::tlv(*r.pick(&[2, 5, 0x0c, 0x13, 0x1e, 0x80, 0x81]), &pt)]),
                2 => der::seq(&[&key, &alg]),
                3 => der::seq(&[&alg, &der::octets(&key)]),
                4 => der::seq(&[&alg]),
                5 => der::seq(&[&key]),
                6 => der::tlv(0x31, &[&alg[..], &key].concat()),
                7 => der::seq(&[&der::seq(&[&der::tlv(6, &c), &der::oid(der::EC_OID)]), &key]),
                _ => der::seq(&[&der::tlv(0x31, &[&der::oid(der::EC_OID)[..], &der::tlv(6, &c)].concat()), &key]),
            }
        }
        0 => der::spki(&Key::gen(r, KT::Rsa)),
        1 => der::spki(&Key::gen(r, KT::P521)),
        2 => der::spki(&Key::gen(r, KT::Ed)),
        3 => {
            let n = *r.pick(&[Nid::SECP256K1, Nid::BRAINPOOL_P256R1, Nid::BRAINPOOL_P384R1, Nid::SECP224R1, Nid::X9_62_PRIME192V1]);
            ec_other(n).map(|x| x.0).unwrap_or_else(|| der::spki(&Key::gen(r, KT::P521)))
        }
        4 => {
            // the bits of a P-256/P-384 key under another curve or algorithm
            let k = slot_key(r);
            let (_, pt) = der::ec_of_spki(&der::spki(&k)).unwrap();
            let o = *r.pick(&["1.3.132.0.10", "1.3.132.0.35", "1.3.132.0.33", "1.2.840.10045.3.1.1", "1.2.840.10045.3.1.6", "1.2.840.10045.3.1.70", "1.3.132.0.3", "1.3.132.0.340", "1.2.840.10045.3.1"]);
            der::ec_spki(o, &pt)
        }
        5 => {
            let k = slot_key(r);
            let (c, pt) = der::ec_of_spki(&der::spki(&k)).unwrap();
            let o = *r.pick(&["1.2.840.10045.2.2", "1.2.840.113549.1.1.1", "1.3.132.1.12", "1.2.840.10045.2", "1.2.840.10045.2.1.1", "1.3.101.112"]);
            der::seq(&[&der::seq(&[&der::oid(o), &der::tlv(6, &c)]), &der::bits(&pt, 0)])
        }
        6 => {
            // no parameters, or explicit or other ones
            let k = slot_key(r);
            let (_, pt) = der::ec_of_spki(&der::spki(&k)).unwrap();
            let par = match r.below(3) {
                0 => vec![],
                1 => der::tlv(5, &[]),
                _ => {
                    let mut g = EcGroup::from_curve_name(k.kt.nid()).unwrap();
                    g.set_asn1_flag(openssl::ec::Asn1Flag::EXPLICIT_CURVE);
                    let e = EcKey::from_public_key(&g, k.pkey.ec_key().unwrap().public_key()).unwrap();
                    return PKey::from_ec_key(e).unwrap().public_key_to_der().unwrap();
                }
            };
            der::seq(&[&der::seq(&[&der::oid(der::EC_OID), &par]), &der::bits(&pt, 0)])
        }
        _ => {
            let k = slot_key(r);
            let (c, _) = der::ec_of_spki(&der::spki(&k)).unwrap();
            der::seq(&[&der::seq(&[&der::oid(der::EC_OID), &der::seq(&[&der::tlv(6, &c)])]), &der::bits(&[4; 65], 0)])
        }
    }
}

// ---- C22 ----

pub fn any_cert(r: &mut Rng, spki: Vec<u8>) -> Vec<u8> {
    let (s, i) = (r.text(40), r.word(30));
    let mut c = Cert::new(r, &i, &s, spki);
    for _ in 0..r.below(4) {
        let o = *r.pick(&["1.3.6.1.4.1.41482.3.3", "1.3.6.1.4.1.311.20", "1.2.3.4", "1.2.3.4.5"]);
        let v = r.blob(60);
        if c.ext.iter().all(|e| e.0 != o) {
            c.ext.push((o.into(), r.chance(1, 4), v));
        }
    }
    let (k, md) = root_key(r);
    c.signed(&k, md)
}
pub fn any_csr(r: &mut Rng, spki: &[u8]) -> Vec<u8> {
    let s = r.text(40);
    let (k, md) = root_key(r);
    let attrs = if r.chance(1, 2) {
        vec![]
    } else {
        let ext = der::seq(&[&der::seq(&[&der::oid("2.5.29.15"), &der::octets(&der::bits(&[0x80], 7))])]);
        der::seq(&[&der::oid("1.2.840.113549.1.9.14"), &der::tlv(0x31, &ext)])
    };
    der::csr(&s, spki, &k, md, &attrs)
}
/// A request really made by its key.
fn own_csr(r: &mut Rng, k: &Key) -> Vec<u8> {
    let s = r.text(40);
    der::csr(&s, &der::spki(k), k, der::usual_md(k), &[])
}
fn csr_spki(d: &[u8]) -> Option<&[u8]> {
    let (_, c, _, _) = der::next(d)?;
    let (_, info, _, _) = der::next(c)?;
    let (_, _, r, _) = der::next(info)?;
    let (_, _, r, _) = der::next(r)?;
    der::next(r).map(|x| x.3)
}

type Conv = fn(&[u8]) -> Result<PublicKey, sshcerts::error::Error>;
const CONV: [(&str, Conv); 3] = [
    ("der", der_encoding_to_ssh_public_key as Conv),
    ("certificate", extract_ssh_pubkey_from_x509_certificate as Conv),
    ("request", extract_ssh_pubkey_from_x509_csr as Conv),
];
fn spki_in(which: usize, d: &[u8]) -> Option<Vec<u8>> {
    match which {
        0 => Some(d.to_vec()),
        1 => der::parse_cert(d).map(|p| p.spki.to_vec()),
        _ => csr_spki(d).map(|x| x.to_vec()),
    }
}

fn expect_key(c: &mut Case<'_>, which: usize, input: &[u8], k: &Key) {
    let (n, f) = CONV[which];
    c.eval(&[n.as_bytes(), input].concat());
    c.mon.event(&format!("{}.{:?}", n, k.kt), 1);
    match c.call(n, || f(input)) {
        Ok(Ok(p)) => {
            if pub_blob(&p) != k.blob() || p.encode().to_vec() != k.blob() || p.key_type.name != k.kt.name() {
                c.fail(format!("{} converts to a different key", n), json!({"in": hexs(input), "want": k.line(), "got": format!("{:?}", p)}));
            }
        }
        Ok(Err(e)) => c.fail(format!("{} with a supported key refused: {:?}", n, e), json!({"in": hexs(input)})),
        Err(e) => c.fail(format!("{} with a supported key panicked: {}", n, e.0), json!({"in": hexs(input)})),
    }
}

pub fn c22(m: &'static Mon) {
    m.rule("one evaluation = one conversion; supported keys must convert to exactly the generated key, other keys and objects must be refused, and whatever damaged input is converted must carry the curve and point found by an independent DER reader; distinct = distinct inputs");
    m.assume("points that are not on the curve and trailing bytes are not judged");
    m.section("genuine", m.n(12000), |c| {
        let k = slot_key(&mut c.rng);
        let s = der::spki(&k);
        expect_key(c, 0, &s, &k);
        let d = any_cert(&mut c.rng, s.clone());
        expect_key(c, 1, &d, &k);
        let d = if c.rng.chance(1, 2) { own_csr(&mut c.rng, &k) } else { any_csr(&mut c.rng, &s) };
        c.sample(|| json!({"request": hexs(&d)}));
        expect_key(c, 2, &d, &k);
    });
    m.section("openssl", m.n(600), |c| {
        // objects made by libcrypto itself
        let k = slot_key(&mut c.rng);
        let mut nb = openssl::x509::X509NameBuilder::new().unwrap();
        let cn = c.rng.word(30);
        nb.append_entry_by_text("CN", &cn).unwrap();
        nb.append_entry_by_text("O", "org").unwrap();
        let name = nb.build();
        let mut b = openssl::x509::X509ReqBuilder::new().unwrap();
        b.set_subject_name(&name).unwrap();
        b.set_pubkey(&k.pkey).unwrap();
        b.sign(&k.pkey, openssl::hash::MessageDigest::sha256()).unwrap();
        let csr = b.build().to_der().unwrap();
        expect_key(c, 2, &csr, &k);
        let mut b = openssl::x509::X509Builder::new().unwrap();
        if c.rng.chance(1, 2) {
            b.set_version(2).unwrap();
        }
        b.set_subject_name(&name).unwrap();
        b.set_issuer_name(&name).unwrap();
        b.set_serial_number(&openssl::asn1::Asn1Integer::from_bn(&openssl::bn::BigNum::from_u32(c.rng.range(1, 1 << 30) as u32).unwrap()).unwrap()).unwrap();
        b.set_not_before(&openssl::asn1::Asn1Time::from_unix(c.rng.range(0, 4_000_000_000) as i64).unwrap()).unwrap();
        b.set_not_after(&openssl::asn1::Asn1Time::from_unix(c.rng.range(0, 4_000_000_000) as i64).unwrap()).unwrap();
        b.set_pubkey(&k.pkey).unwrap();
        b.sign(&k.pkey, openssl::hash::MessageDigest::sha384()).unwrap();
        let cert = b.build().to_der().unwrap();
        expect_key(c, 1, &cert, &k);
    });
    m.section("other", m.n(12000), |c| {
        // other keys, and other objects holding a supported key
        let which = c.rng.below(3);
        let (n, f) = CONV[which];
        let k = slot_key(&mut c.rng);
        let good = der::spki(&k);
        let (d, what): (Vec<u8>, &str) = if c.rng.chance(1, 2) {
            let s = other_spki(&mut c.rng);
            let d = match which {
                0 => s,
                1 => any_cert(&mut c.rng, s),
                _ => any_csr(&mut c.rng, &s),
            };
            (d, "another key")
        } else {
            let other = match which {
                0 => c.rng.below(2) + 1,
                1 => *c.rng.pick(&[0, 2]),
                _ => c.rng.below(2),
            };
            match c.rng.below(6) {
                0 => (k.pkey.private_key_to_pkcs8().unwrap(), "private key"),
                1 => (k.pkey.ec_key().unwrap().private_key_to_der().unwrap(), "private key"),
                2 => (k.blob(), "SSH blob"),
                3 => {
                    let (_, pt) = der::ec_of_spki(&good).unwrap();
                    (if c.rng.chance(1, 2) { pt.clone() } else { der::bits(&pt, 0) }, "bare point")
                }
                _ => {
                    let d = match other {
                        0 => good,
                        1 => any_cert(&mut c.rng, good),
                        _ => any_csr(&mut c.rng, &good),
                    };
                    (d, "another object")
                }
            }
        };
        c.eval(&[n.as_bytes(), &d].concat());
        c.mon.event(&format!("other.{}.{}", n, what), 1);
        if let Ok(Ok(p)) = c.call(n, || f(&d)) {
            c.fail(format!("{}: {} converted", n, what), json!({"in": hexs(&d), "got": format!("{:?}", p)}));
        }
    });
    odd_points(m);
    m.section("damaged", m.n(60000), |c| {
        let which = c.rng.below(3);
        let (n, f) = CONV[which];
        let k = slot_key(&mut c.rng);
        let s = der::spki(&k);
        let mut d = match which {
            0 => s,
            1 => any_cert(&mut c.rng, s),
            _ => any_csr(&mut c.rng, &s),
        };
        if which > 0 && c.rng.chance(2, 3) {
            // concentrate on the key
            let s2 = spki_in(which, &d).unwrap();
            let at = d.windows(s2.len()).position(|w| w == &s2[..]).unwrap();
            let j = at + c.rng.below(26);
            d[j] ^= 1 << c.rng.below(8);
        } else {
            for _ in 0..c.rng.range(1, 3) {
                havoc(&mut c.rng, &mut d);
            }
        }
        c.eval(&[n.as_bytes(), &d].concat());
        if let Ok(Ok(p)) = c.call(n, || f(&d)) {
            c.ev("damaged.converted");
            let got = pub_blob(&p);
            let want = spki_in(which, &d).and_then(|s| der::ec_of_spki(&s)).and_then(|(o, pt)| ec_blob(&o, &pt));
            let ok = match want {
                Some(w) => w == got,
                // not readable strictly: at least the parts must come from the input
                None => parts_of(&got, &d),
            };
            if !ok {
                c.fail(format!("damaged {} converts to a key it does not hold", n), json!({"in": hexs(&d), "got": format!("{:?}", p)}));
            }
        }
    });
}
fn odd_points(m: &'static Mon) {
    m.section("points", m.n(6000), |c| {
        // a point that is too long, too short, compressed or of the other curve: refused, or kept
        // exactly as it is, but never turned into another key
        let which = c.rng.below(3);
        let (n, f) = CONV[which];
        let k = slot_key(&mut c.rng);
        let (o, mut pt) = der::ec_of_spki(&der::spki(&k)).unwrap();
        match c.rng.below(6) {
            0 => {
                let m = *c.rng.pick(&[1usize, 1, 2, 8, 32]);
                pt.extend(c.rng.bytes(m));
            }
            1 => pt.truncate(pt.len() - *c.rng.pick(&[1usize, 2, 32])),
            2 => {
                let l = (pt.len() - 1) / 2;
                pt[0] = 2 + (pt[2 * l] & 1);
                pt.truncate(1 + l);
            }
            3 => pt = Key::gen(&mut c.rng, if pt.len() == 65 { KT::P384 } else { KT::P256 }).public,
            4 => pt[0] = *c.rng.pick(&[0u8, 1, 5, 6, 7, 0x84]),
            _ => pt.insert(0, *c.rng.pick(&[0u8, 4])),
        }
        let s = der::seq(&[&der::seq(&[&der::oid(der::EC_OID), &der::tlv(6, &o)]), &der::bits(&pt, 0)]);
        let d = match which {
            0 => s,
            1 => any_cert(&mut c.rng, s),
            _ => any_csr(&mut c.rng, &s),
        };
        c.eval(&[n.as_bytes(), &d].concat());
        match c.call(n, || f(&d)) {
            Ok(Ok(p)) => {
                c.ev("points.kept");
                if Some(pub_blob(&p)) != ec_blob(&o, &pt) {
                    c.fail(format!("{}: an odd point became another key", n), json!({"in": hexs(&d), "got": format!("{:?}", p)}));
                }
            }
            _ => c.ev("points.refused"),
        }
    });
}
fn has(d: &[u8], n: &[u8]) -> bool {
    n.is_empty() || d.windows(n.len()).any(|w| w == n)
}
fn parts_of(blob: &[u8], d: &[u8]) -> bool {
    let mut r = R::new(blob);
    let (t, _, pt) = (r.s(), r.s(), r.s());
    let o = match t {
        Some(b"ecdsa-sha2-nistp256") => der::P256_OID,
        Some(b"ecdsa-sha2-nistp384") => der::P384_OID,
        _ => return false,
    };
    pt.map(|p| has(d, p)).unwrap_or(false) && has_oid(d, o) && has_oid(d, der::EC_OID)
}
/// The arcs of an OID, tolerating padding and an unfinished last arc.
fn arcs(b: &[u8]) -> Vec<u64> {
    let mut out = vec![];
    let mut v = 0u64;
    for (i, x) in b.iter().enumerate() {
        v = v << 7 | (*x & 0x7f) as u64;
        if *x < 0x80 || i + 1 == b.len() {
            out.push(v);
            v = 0;
        }
    }
    out
}
fn has_oid(d: &[u8], o: &str) -> bool {
    let want = arcs(&der::oid_body(o));
    (0..d.len()).any(|i| (3..24usize).any(|n| i + n <= d.len() && arcs(&d[i..i + n]) == want))
}

// ---- C23 ----

fn der_sig(r: &[u8], s: &[u8]) -> Vec<u8> {
    der::seq(&[&der::int(r), &der::int(s)])
}
/// The two integers of a strictly encoded DER signature, as their DER contents.
fn strict(d: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (t, c, rest, _) = der::next(d)?;
    let (t1, a, r, _) = der::next(c)?;
    let (t2, b, r2, _) = der::next(r)?;
    let min = |x: &[u8]| !x.is_empty() && !(x.len() > 1 && ((x[0] == 0 && x[1] < 0x80) || (x[0] == 0xff && x[1] >= 0x80)));
    if (t, t1, t2) != (0x30, 2, 2) || !rest.is_empty() || !r2.is_empty() || !min(a) || !min(b) || der::tlv(0x30, c) != d {
        return None;
    }
    Some((a.to_vec(), b.to_vec()))
}
/// A DER pair of integers in any encoding of their lengths and values; trailing bytes allowed.
fn loose(d: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (t, c, _, _) = der::next(d)?;
    let (t1, a, r, _) = der::next(c)?;
    let (t2, b, _, _) = der::next(r)?;
    if (t, t1, t2) != (0x30, 2, 2) || a.is_empty() || b.is_empty() {
        return None;
    }
    Some((a.to_vec(), b.to_vec()))
}
/// Signed value of an integer's bytes in a canonical form.
fn canon(b: &[u8]) -> Vec<u8> {
    let mut b = b;
    while b.len() > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80)) {
        b = &b[1..];
    }
    if b == [0] {
        &b[1..]
    } else {
        b
    }
    .to_vec()
}
fn two(d: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let mut r = R::new(d);
    let (a, b) = (r.s()?.to_vec(), r.s()?.to_vec());
    if r.left() == 0 {
        Some((a, b))
    } else {
        None
    }
}
/// Scalars of all lengths, with and without a top bit.
fn scalar(r: &mut Rng, field: usize) -> Vec<u8> {
    let n = if r.chance(1, 2) { field } else { r.range(1, field) };
    let mut v = r.bytes(n);
    match r.below(5) {
        0 => v[0] = 0,
        1 => v[0] = 0x80,
        2 => v[0] = 0x7f,
        3 => v[0] |= 0x80,
        _ => {}
    }
    if v.iter().all(|x| *x == 0) {
        v[n - 1] = 1;
    }
    v
}
fn load(k: &Key) -> PublicKey {
    PublicKey::from_string(&k.line()).unwrap()
}

pub fn c23(m: &'static Mon) {
    m.rule("one evaluation = one conversion of an external signature by each of the three conversion functions; results are compared with an independent encoder and genuine signatures re-verified by libcrypto after conversion; distinct = distinct signatures");
    m.assume("non-minimal or negative integers and trailing bytes may be converted or refused; security-key and P-521 conversions are judged only if made");
    let judge = |c: &mut Case<'_>, k: &Key, pk: &PublicKey, d: &[u8], must: bool| {
        let detail = || json!({"sig": hexs(d), "key": k.line()});
        let want = loose(d);
        let rs = c.call("asn_der_to_r_s", || asn_der_to_r_s(d).map(|(a, b)| (a.to_vec(), b.to_vec())));
        let conv = c.call("signature_convert", || signature_convert_asn1_ecdsa_to_ssh(d));
        let full = c.call("format_signature", || format_signature_for_ssh(pk, d));
        for (n, got) in [
            ("asn_der_to_r_s", rs),
            ("signature_convert_asn1_ecdsa_to_ssh", conv.map(|o| o.map(|v| two(&v).unwrap_or_default()))),
            (
                "format_signature_for_ssh",
                full.map(|o| {
                    o.map(|v| {
                        let mut r = R::new(&v);
                        match (r.s().map(|x| x.to_vec()), r.s().map(|x| x.to_vec()), r.left()) {
                            (Some(l), Some(b), 0) if l == k.kt.name().as_bytes() => two(&b).unwrap_or_default(),
                            _ => Default::default(),
                        }
                    })
                }),
            ),
        ] {
            match got {
                Err(p) => {
                    if must {
                        c.fail(format!("{} panicked: {}", n, p.0), detail());
                    }
                }
                Ok(None) => {
                    if must {
                        c.fail(format!("{} refuses a genuine DER signature", n), detail());
                    } else {
                        c.ev("refused");
                    }
                }
                Ok(Some((a, b))) => match &want {
                    None => c.fail(format!("{} converts what is not a DER pair of integers", n), detail()),
                    Some((x, y)) => {
                        let exact = strict(d).is_some();
                        if (exact && (&a, &b) != (x, y)) || (canon(&a), canon(&b)) != (canon(x), canon(y)) {
                            c.fail(format!("{} changes the integers", n), json!({"sig": hexs(d), "r": hexs(&a), "s": hexs(&b)}));
                        } else {
                            c.ev("exact");
                        }
                    }
                },
            }
        }
    };
    m.section("integers", m.n(60000), |c| {
        let k = slot_key(&mut c.rng);
        let pk = load(&k);
        let f = k.kt.field();
        let d = der_sig(&scalar(&mut c.rng, f), &scalar(&mut c.rng, f));
        c.eval(&d);
        c.sample(|| json!({"sig": hexs(&d)}));
        c.mon.event(&format!("integers.{:?}.{}", k.kt, d.len() / 8 * 8), 1);
        judge(c, &k, &pk, &d, true);
    });
    m.section("signatures", m.n(4000), |c| {
        // real signatures stay valid
        let kt = *c.rng.pick(&[KT::P256, KT::P384, KT::Ed, KT::Rsa]);
        let k = loop {
            let k = Key::gen(&mut c.rng, kt);
            if k.can_verify() {
                break k;
            }
        };
        let pk = load(&k);
        let data = c.rng.blob(300);
        let sig = if kt == KT::Rsa { der::sign_with(&k, Md::Sha512, &data) } else { der::sign_with(&k, der::usual_md(&k), &data) };
        c.eval(&[&k.blob()[..], &sig].concat());
        c.mon.event(&format!("signatures.{:?}", kt), 1);
        let full = match c.call("format_signature", || format_signature_for_ssh(&pk, &sig)) {
            Ok(Some(v)) => v,
            Ok(None) => return c.fail("a genuine signature is not converted", json!({"sig": hexs(&sig), "key": k.line()})),
            Err(p) => return c.fail(format!("conversion panicked: {}", p.0), json!({"sig": hexs(&sig), "key": k.line()})),
        };
        let mut r = R::new(&full);
        let label = r.s().unwrap_or(b"").to_vec();
        let body = r.s().unwrap_or(b"").to_vec();
        let want = if kt == KT::Rsa { "rsa-sha2-512" } else { kt.name() };
        if label != want.as_bytes() || r.left() != 0 {
            return c.fail("a converted signature has the wrong label or extra bytes", json!({"got": hexs(&full), "want": want}));
        }
        if !kt.is_ec() && body != sig {
            return c.fail("an RSA or Ed25519 signature was changed", json!({"got": hexs(&full), "sig": hexs(&sig)}));
        }
        if ref_verify(&k.blob(), &full, &data) != V::Valid {
            return c.fail("a converted signature is no longer valid", json!({"got": hexs(&full), "sig": hexs(&sig), "key": k.line(), "data": hexs(&data)}));
        }
        if kt.is_ec() {
            judge(c, &k, &pk, &sig, true);
        }
    });
    m.section("wrapped", m.n(6000), |c| {
        // Ed25519 and RSA signatures are wrapped unchanged, whatever they are
        let kt = *c.rng.pick(&[KT::Ed, KT::Rsa]);
        let k = Key::gen(&mut c.rng, kt);
        let pk = load(&k);
        let sig = if c.rng.chance(1, 3) { der_sig(&scalar(&mut c.rng, 32), &scalar(&mut c.rng, 32)) } else { c.rng.blob(600) };
        c.eval(&[&k.blob()[..], &sig].concat());
        let label = if kt == KT::Rsa { "rsa-sha2-512" } else { kt.name() };
        match c.call("format_signature", || format_signature_for_ssh(&pk, &sig)) {
            Ok(Some(v)) if v == W::new().s(label.as_bytes()).s(&sig).0 => {}
            Ok(None) => c.ev("wrapped.refused"),
            Ok(Some(v)) => c.fail("an RSA or Ed25519 signature is not wrapped unchanged", json!({"sig": hexs(&sig), "got": hexs(&v)})),
            Err(_) => c.ev("wrapped.panicked"),
        }
    });
    m.section("damaged", m.n(200000), |c| {
        let k = slot_key(&mut c.rng);
        let pk = load(&k);
        let f = k.kt.field();
        let (a, b) = (scalar(&mut c.rng, f), scalar(&mut c.rng, f));
        let mut d = match c.rng.below(8) {
            0 => der::seq(&[&der::int(&a), &der::octets(&b)]),
            1 => der::seq(&[&der::octets(&a), &der::int(&b)]),
            2 => der::tlv(0x31, &[der::int(&a), der::int(&b)].concat()),
            3 => der::seq(&[&der::int(&a)]),
            4 => der::seq(&[&der::tlv(2, &[&[0, 0][..], &a].concat()), &der::int(&b)]),
            5 => der::seq(&[&der::tlv(2, &a), &der::tlv(2, &b)]),
            6 => [a.clone(), b.clone()].concat(),
            _ => der_sig(&a, &b),
        };
        if c.rng.chance(3, 4) {
            for _ in 0..c.rng.range(1, 2) {
                havoc(&mut c.rng, &mut d);
            }
        }
        c.eval(&d);
        let must = strict(&d).map(|(a, b)| a[0] < 0x80 && b[0] < 0x80 && d.len() <= 104 && a != [0] && b != [0]).unwrap_or(false);
        judge(c, &k, &pk, &d, must);
    });
    m.section("exhaustive lengths", 1, |c| {
        // every pair of lengths with every interesting leading byte
        let (k2, k3) = (Key::gen(&mut c.rng, KT::P256), Key::gen(&mut c.rng, KT::P384));
        for k in [k2, k3] {
            let pk = load(&k);
            let f = k.kt.field();
            for n in 1..=f {
                for l in 1..=f {
                    for lead in [1u8, 0x7f, 0x80, 0xff] {
                        let mut a = vec![0x55; n];
                        a[0] = lead;
                        let mut b = vec![0xaa; l];
                        b[0] = lead;
                        let d = der_sig(&a, &b);
                        c.eval(&d);
                        judge(c, &k, &pk, &d, true);
                    }
                }
            }
        }
    });
}
