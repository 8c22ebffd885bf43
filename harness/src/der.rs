//! Independent DER encoding and decoding, X.509 certificates and requests made from scratch, and
//! an independent judgement of who signed a certificate.
use crate::keys::*;
use crate::rng::Rng;
use crate::wire::b64;
use openssl::hash::MessageDigest;
use openssl::pkey::{Id, PKey, Public};
use openssl::sign::{Signer, Verifier};

pub fn tlv(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = c.len();
    if n < 0x80 {
        v.push(n as u8);
    } else {
        let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        v.push(0x80 | b.len() as u8);
        v.extend(b);
    }
    v.extend_from_slice(c);
    v
}
pub fn seq(parts: &[&[u8]]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
pub fn int(v: &[u8]) -> Vec<u8> {
    let b = crate::wire::mpint_body(v);
    tlv(2, if b.is_empty() { &[0] } else { &b })
}
pub fn octets(v: &[u8]) -> Vec<u8> {
    tlv(4, v)
}
pub fn bits(v: &[u8], unused: u8) -> Vec<u8> {
    let mut c = vec![unused];
    c.extend_from_slice(v);
    tlv(3, &c)
}
pub fn oid(s: &str) -> Vec<u8> {
    tlv(6, &oid_body(s))
}
pub fn oid_body(s: &str) -> Vec<u8> {
    let p: Vec<u64> = s.split('.').map(|x| x.parse().unwrap()).collect();
    let mut out = vec![];
    let mut push = |mut v: u64| {
        let mut b = vec![(v & 0x7f) as u8];
        v >>= 7;
        while v > 0 {
            b.push(0x80 | (v & 0x7f) as u8);
            v >>= 7;
        }
        b.reverse();
        out.extend(b);
    };
    push(p[0] * 40 + p[1]);
    p[2..].iter().for_each(|x| push(*x));
    out
}
/// One element: (tag, content, rest, whole element).
pub fn next(d: &[u8]) -> Option<(u8, &[u8], &[u8], &[u8])> {
    let tag = *d.first()?;
    let l0 = *d.get(1)? as usize;
    let (len, h) = if l0 < 0x80 {
        (l0, 2)
    } else {
        let n = l0 & 0x7f;
        if n == 0 || n > 4 {
            return None;
        }
        let b = d.get(2..2 + n)?;
        (b.iter().fold(0usize, |a, x| a << 8 | *x as usize), 2 + n)
    };
    let c = d.get(h..h.checked_add(len)?)?;
    Some((tag, c, &d[h + len..], &d[..h + len]))
}

pub const P256_OID: &str = "1.2.840.10045.3.1.7";
pub const P384_OID: &str = "1.3.132.0.34";
pub const P521_OID: &str = "1.3.132.0.35";
pub const EC_OID: &str = "1.2.840.10045.2.1";

/// How a certificate is signed.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Md {
    Sha1,
    Sha256,
    Sha384,
    Sha512,
}
impl Md {
    fn md(self) -> MessageDigest {
        match self {
            Md::Sha1 => MessageDigest::sha1(),
            Md::Sha256 => MessageDigest::sha256(),
            Md::Sha384 => MessageDigest::sha384(),
            Md::Sha512 => MessageDigest::sha512(),
        }
    }
}
pub fn sig_alg(k: &Key, md: Md) -> Vec<u8> {
    let null = tlv(5, &[]);
    match k.kt {
        KT::Rsa => {
            let o = match md {
                Md::Sha1 => "1.2.840.113549.1.1.5",
                Md::Sha256 => "1.2.840.113549.1.1.11",
                Md::Sha384 => "1.2.840.113549.1.1.12",
                Md::Sha512 => "1.2.840.113549.1.1.13",
            };
            seq(&[&oid(o), &null])
        }
        KT::Ed | KT::SkEd => seq(&[&oid("1.3.101.112")]),
        _ => {
            let o = match md {
                Md::Sha1 => "1.2.840.10045.4.1",
                Md::Sha256 => "1.2.840.10045.4.3.2",
                Md::Sha384 => "1.2.840.10045.4.3.3",
                Md::Sha512 => "1.2.840.10045.4.3.4",
            };
            seq(&[&oid(o)])
        }
    }
}
/// The digest normally used with a key.
pub fn usual_md(k: &Key) -> Md {
    match k.kt {
        KT::P384 => Md::Sha384,
        KT::P521 => Md::Sha512,
        _ => Md::Sha256,
    }
}
pub fn sign_with(k: &Key, md: Md, data: &[u8]) -> Vec<u8> {
    let mut s = if k.kt.is_ed() { Signer::new_without_digest(&k.pkey).unwrap() } else { Signer::new(md.md(), &k.pkey).unwrap() };
    s.sign_oneshot_to_vec(data).unwrap()
}
pub fn spki(k: &Key) -> Vec<u8> {
    k.pkey.public_key_to_der().unwrap()
}
pub fn ec_spki(curve: &str, point: &[u8]) -> Vec<u8> {
    seq(&[&seq(&[&oid(EC_OID), &oid(curve)]), &bits(point, 0)])
}

pub fn name(cn: &str) -> Vec<u8> {
    seq(&[&tlv(0x31, &seq(&[&oid("2.5.4.3"), &tlv(0x0c, cn.as_bytes())]))])
}

#[derive(Clone)]
pub struct Cert {
    pub serial: Vec<u8>,
    pub issuer: String,
    pub subject: String,
    pub spki: Vec<u8>,
    /// (oid, critical, value)
    pub ext: Vec<(String, bool, Vec<u8>)>,
    pub years: (u32, u32),
}
impl Cert {
    pub fn new(r: &mut Rng, issuer: &str, subject: &str, spki: Vec<u8>) -> Cert {
        let n = r.range(1, 19);
        let mut serial = r.bytes(n);
        serial[0] |= 1;
        Cert { serial, issuer: issuer.into(), subject: subject.into(), spki, ext: vec![], years: (r.range(1990, 2020) as u32, r.range(2040, 2049) as u32) }
    }
    pub fn tbs(&self, alg: &[u8]) -> Vec<u8> {
        let time = |y: u32| {
            if y < 2050 {
                tlv(0x17, format!("{:02}0101000000Z", y % 100).as_bytes())
            } else {
                tlv(0x18, format!("{:04}0101000000Z", y).as_bytes())
            }
        };
        let mut ext = vec![];
        for (o, c, v) in &self.ext {
            let cr = if *c { tlv(1, &[0xff]) } else { vec![] };
            ext.extend(seq(&[&oid(o), &cr, &octets(v)]));
        }
        let ext = if self.ext.is_empty() { vec![] } else { tlv(0xa3, &tlv(0x30, &ext)) };
        seq(&[
            &tlv(0xa0, &int(&[2])),
            &int(&self.serial),
            alg,
            &name(&self.issuer),
            &seq(&[&time(self.years.0), &time(self.years.1)]),
            &name(&self.subject),
            &self.spki,
            &ext,
        ])
    }
    /// Takes over some or all of what another certificate says of itself, except its key.
    pub fn imitate(&mut self, r: &mut Rng, o: &Cert) {
        let all = r.chance(1, 3);
        if all || r.chance(2, 3) {
            self.subject = o.subject.clone();
        }
        if all || r.chance(2, 3) {
            self.issuer = o.issuer.clone();
        }
        if all || r.chance(1, 2) {
            self.serial = o.serial.clone();
        }
        if all || r.chance(1, 2) {
            self.years = o.years;
        }
        if all || r.chance(1, 2) {
            for e in &o.ext {
                if !self.ext.iter().any(|x| x.0 == e.0) {
                    self.ext.push(e.clone());
                }
            }
        }
    }
    pub fn signed(&self, k: &Key, md: Md) -> Vec<u8> {
        let alg = sig_alg(k, md);
        let tbs = self.tbs(&alg);
        let sig = sign_with(k, md, &tbs);
        seq(&[&tbs, &alg, &bits(&sig, 0)])
    }
}
pub fn csr(subject: &str, spki: &[u8], k: &Key, md: Md, attrs: &[u8]) -> Vec<u8> {
    let info = seq(&[&int(&[0]), &name(subject), spki, &tlv(0xa0, attrs)]);
    let sig = sign_with(k, md, &info);
    seq(&[&info, &sig_alg(k, md), &bits(&sig, 0)])
}
pub fn pem(what: &str, d: &[u8]) -> String {
    let b = b64(d);
    let mut s = format!("-----BEGIN {}-----\n", what);
    for c in b.as_bytes().chunks(64) {
        s.push_str(std::str::from_utf8(c).unwrap());
        s.push('\n');
    }
    s + &format!("-----END {}-----\n", what)
}

/// The parts of a certificate: (tbs as signed, signature, subject public key info, extensions).
pub struct Parsed<'a> {
    pub tbs: &'a [u8],
    pub sig: &'a [u8],
    pub spki: &'a [u8],
    pub ext: Vec<(Vec<u8>, &'a [u8])>,
    pub trailing: bool,
}
/// Tolerant of wrong tags: what matters here is which bytes were signed and by whom.
pub fn parse_cert(d: &[u8]) -> Option<Parsed<'_>> {
    let (_, c, rest, _) = next(d)?;
    let (_, tb, r, tbs) = next(c)?;
    let (_, _, r, _) = next(r)?;
    let (_, bs, r2, _) = next(r)?;
    if bs.is_empty() {
        return None;
    }
    let mut p = tb;
    if p.first() == Some(&0xa0) {
        p = next(p)?.2;
    }
    for _ in 0..5 {
        p = next(p)?.2; // serial, algorithm, issuer, validity, subject
    }
    let (_, _, mut p, sp) = next(p)?;
    let mut ext = vec![];
    while let Some((t, c, r, _)) = next(p) {
        if t == 0xa3 {
            let (_, mut list, _, _) = next(c)?;
            while let Some((_, e, r, _)) = next(list) {
                let (_, o, er, _) = next(e)?;
                let (mut tg, mut val, er2, _) = next(er)?;
                if tg == 1 {
                    let x = next(er2)?;
                    tg = x.0;
                    val = x.1;
                }
                if tg != 4 {
                    return None;
                }
                ext.push((o.to_vec(), val));
                list = r;
            }
        }
        p = r;
    }
    Some(Parsed { tbs, sig: &bs[1..], spki: sp, ext, trailing: !rest.is_empty() || !r2.is_empty() })
}
pub fn load_spki(spki: &[u8]) -> Option<PKey<Public>> {
    PKey::public_key_from_der(spki).ok()
}
/// Whether sig is a signature of data under the key, with any of the usual digests.
pub fn verifies(k: &PKey<Public>, data: &[u8], sig: &[u8]) -> bool {
    if k.id() == Id::ED25519 {
        return Verifier::new_without_digest(k).and_then(|mut v| v.verify_oneshot(sig, data)).unwrap_or(false);
    }
    [Md::Sha256, Md::Sha384, Md::Sha512, Md::Sha1]
        .iter()
        .any(|m| Verifier::new(m.md(), k).and_then(|mut v| v.verify_oneshot(sig, data)).unwrap_or(false))
}
/// Whether the certificate was really signed by the holder of the key in `issuer_spki`.
pub fn signed_by(cert: &Parsed<'_>, issuer_spki: &[u8]) -> bool {
    key_readings(issuer_spki).iter().any(|k| verifies(k, cert.tbs, cert.sig))
}
/// The key of a subject public key info, and every key its bits can be read as where the
/// algorithm identifier around them is damaged.
pub fn key_readings(spki: &[u8]) -> Vec<PKey<Public>> {
    let mut out: Vec<PKey<Public>> = load_spki(spki).into_iter().collect();
    let body = next(spki).and_then(|(_, c, _, _)| next(c)).and_then(|(_, _, r, _)| next(r));
    if let Some((_, bs, _, _)) = body {
        if bs.len() > 1 {
            let rsa_alg = seq(&[&oid("1.2.840.113549.1.1.1"), &[5, 0]]);
            out.extend(load_spki(&seq(&[&rsa_alg, &bits(&bs[1..], 0)])));
            for c in ["1.2.840.10045.3.1.7", "1.3.132.0.34", "1.3.132.0.35"] {
                out.extend(load_spki(&seq(&[&seq(&[&oid(EC_OID), &oid(c)]), &bits(&bs[1..], 0)])));
            }
        }
    }
    out
}
/// The first certificate of a PEM text.
pub fn first_pem(s: &str) -> Option<Vec<u8>> {
    let mut body = None::<String>;
    for l in s.lines() {
        if l.starts_with("-----BEGIN") && body.is_none() {
            body = Some(String::new());
        } else if l.starts_with("-----END") && body.is_some() {
            break;
        } else if let Some(b) = body.as_mut() {
            b.push_str(l.trim());
        }
    }
    base64::decode(body?).ok()
}

/// (curve oid, point) if this is an EC public key with a named curve.
pub fn ec_of_spki(d: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (t, c, _, _) = next(d)?;
    let (t2, alg, r, _) = next(c)?;
    let (t3, bs, _, _) = next(r)?;
    let (t4, o, ar, _) = next(alg)?;
    let (t5, curve, _, _) = next(ar)?;
    if (t, t2, t3, t4, t5) != (0x30, 0x30, 3, 6, 6) || o != oid_body(EC_OID) || bs.is_empty() {
        return None;
    }
    Some((curve.to_vec(), bs[1..].to_vec()))
}

/// Whether `altered` (a damaged copy of the certificate `genuine`) still holds the same public key
/// bits: damage elsewhere in a trust anchor does not change whom it names.
pub fn same_anchor(genuine: &[u8], altered: &[u8]) -> bool {
    let k = match parse_cert(genuine).and_then(|p| load_spki(p.spki)) {
        Some(k) => k,
        None => return false,
    };
    let needle = match k.rsa() {
        Ok(r) => r.n().to_vec(),
        Err(_) => match parse_cert(genuine).and_then(|p| ec_of_spki(p.spki)) {
            Some((_, pt)) => pt,
            None => return false,
        },
    };
    altered.windows(needle.len()).any(|w| w == &needle[..])
}
