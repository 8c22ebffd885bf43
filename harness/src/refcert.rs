//! Independent OpenSSH certificate encoder and decoder (from PROTOCOL.certkeys).
use crate::keys::*;
use crate::rng::Rng;
use crate::wire::{b64, R, W};
use serde_json::{json, Value};
use sshcerts::ssh::{PublicKey, PublicKeyKind};
use sshcerts::{CertType, Certificate};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Spec {
    pub kt: KT,
    pub nonce: Vec<u8>,
    /// fields of the subject key
    pub subject: Vec<u8>,
    pub serial: u64,
    pub ctype: u32,
    pub key_id: Vec<u8>,
    pub principals: Vec<Vec<u8>>,
    pub after: u64,
    pub before: u64,
    pub crit: Vec<(Vec<u8>, Vec<u8>)>,
    pub ext: Vec<(Vec<u8>, Vec<u8>)>,
    pub reserved: Vec<u8>,
    pub ca: Vec<u8>,
}

pub fn enc_options(o: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut w = W::new();
    for (k, v) in o {
        w = w.s(k);
        w = if v.is_empty() { w.s(b"") } else { w.s(&W::new().s(v).0) };
    }
    w.0
}
pub fn enc_list(l: &[Vec<u8>]) -> Vec<u8> {
    let mut w = W::new();
    for k in l {
        w = w.s(k);
    }
    w.0
}

pub const STD_EXT: [&str; 5] = [
    "permit-X11-forwarding",
    "permit-agent-forwarding",
    "permit-port-forwarding",
    "permit-pty",
    "permit-user-rc",
];

impl Spec {
    pub fn tbs(&self) -> Vec<u8> {
        W::new()
            .s(self.kt.cert_name().as_bytes())
            .s(&self.nonce)
            .raw(&self.subject)
            .u64(self.serial)
            .u32(self.ctype)
            .s(&self.key_id)
            .s(&enc_list(&self.principals))
            .u64(self.after)
            .u64(self.before)
            .s(&enc_options(&self.crit))
            .s(&enc_options(&self.ext))
            .s(&self.reserved)
            .s(&self.ca)
            .0
    }
    /// Offsets at which the fields of the signed part start, with names; the last entry is the end.
    pub fn layout(&self) -> Vec<(&'static str, usize)> {
        let mut o = 0;
        let mut v = vec![];
        let mut add = |n: &'static str, len: usize| {
            v.push((n, o));
            o += len;
        };
        add("type", 4 + self.kt.cert_name().len());
        add("nonce", 4 + self.nonce.len());
        add("subject", self.subject.len());
        add("serial", 8);
        add("kind", 4);
        add("key_id", 4 + self.key_id.len());
        add("principals", 4 + enc_list(&self.principals).len());
        add("valid_after", 8);
        add("valid_before", 8);
        add("critical", 4 + enc_options(&self.crit).len());
        add("extensions", 4 + enc_options(&self.ext).len());
        add("reserved", 4 + self.reserved.len());
        add("ca", 4 + self.ca.len());
        add("end", 0);
        v
    }
    pub fn signed(&self, ca: &Key, o: SigOpt) -> Vec<u8> {
        let tbs = self.tbs();
        let sig = ca.sign(&tbs, o);
        W::new().raw(&tbs).s(&sig).0
    }
    pub fn line_of(&self, bytes: &[u8]) -> String {
        format!("{} {}", self.kt.cert_name(), b64(bytes))
    }
    /// A random well-formed certificate content. `big` allows fields beyond 64 KiB.
    pub fn gen(r: &mut Rng, subject: &Key, ca: &Key, big: bool) -> Spec {
        let max = if big { 70000 } else { 1100 };
        let np = match r.below(12) {
            0 => 0,
            1..=6 => r.range(1, 3),
            7..=9 => r.range(1, 12),
            10 => r.range(1, 300),
            _ => 1,
        };
        let mut principals: Vec<Vec<u8>> = (0..np)
            .map(|_| {
                let m = if np > 12 { 12 } else { max.min(600) };
                r.text(m).into_bytes()
            })
            .collect();
        // duplicates and order matter
        if np > 1 && r.chance(1, 4) {
            let i = r.below(np);
            let j = r.below(np);
            principals[i] = principals[j].clone();
        }
        let mut crit = BTreeMap::new();
        for _ in 0..if r.chance(1, 60) { 150 } else { *r.pick(&[0, 0, 0, 1, 1, 2, 3, 8]) } {
            match r.below(5) {
                0 => crit.insert(b"force-command".to_vec(), r.text(max).into_bytes()),
                1 => crit.insert(b"source-address".to_vec(), b"10.0.0.0/8,::1/128".to_vec()),
                2 => crit.insert(b"verify-required".to_vec(), if r.chance(1, 8) { r.word(9).into_bytes() } else { vec![] }),
                3 => crit.insert(r.word(30).into_bytes(), r.text(max).into_bytes()),
                _ => crit.insert(r.text(80).into_bytes(), r.text(200).into_bytes()),
            };
        }
        let mut ext = BTreeMap::new();
        match r.below(4) {
            0 => (),
            1 | 2 => {
                for e in STD_EXT {
                    if r.chance(2, 3) {
                        let v = if r.chance(1, 12) { r.text(40).into_bytes() } else { vec![] };
                        ext.insert(e.as_bytes().to_vec(), v);
                    }
                }
            }
            _ => (),
        }
        for _ in 0..if r.chance(1, 60) { 300 } else { *r.pick(&[0, 0, 1, 2, 5, 30]) } {
            if r.chance(1, 2) {
                ext.insert(format!("{}@example.com", r.word(20)).into_bytes(), r.text(max).into_bytes());
            } else {
                ext.insert(r.text(60).into_bytes(), if r.chance(1, 3) { vec![] } else { r.text(120).into_bytes() });
            }
        }
        let (after, before) = match r.below(6) {
            0 => (0, u64::MAX),
            1 => (0, r.val64()),
            2 => (r.val64(), u64::MAX),
            _ => (r.val64(), r.val64()),
        };
        let nl = if r.chance(3, 4) { 32 } else { r.size(max) };
        Spec {
            kt: subject.kt,
            nonce: r.bytes(nl),
            subject: subject.pub_fields(),
            serial: r.val64(),
            ctype: 1 + r.below(2) as u32,
            key_id: r.text(max).into_bytes(),
            principals,
            after,
            before,
            crit: crit.into_iter().collect(),
            ext: ext.into_iter().collect(),
            reserved: if r.chance(9, 10) { vec![] } else { r.blob(100) },
            ca: ca.blob(),
        }
    }
    /// Strict decoding: everything has to be exactly as the format says.
    pub fn decode(d: &[u8]) -> Result<(Spec, Vec<u8>, usize), String> {
        let mut r = R::new(d);
        let name = r.s().ok_or("type")?;
        let kt = KT::from_cert_name(name).ok_or("unknown type")?;
        let nonce = r.s().ok_or("nonce")?.to_vec();
        let s0 = r.o;
        match kt {
            KT::Rsa => {
                r.mpint().ok_or("e")?;
                r.mpint().ok_or("n")?;
            }
            KT::Ed | KT::SkEd => {
                r.s().ok_or("ed key")?;
            }
            _ => {
                if r.s().ok_or("curve")? != kt.curve().unwrap().as_bytes() {
                    return Err("curve".into());
                }
                r.s().ok_or("point")?;
            }
        }
        if kt.is_sk() {
            r.s().ok_or("application")?;
        }
        let subject = d[s0..r.o].to_vec();
        let serial = r.u64().ok_or("serial")?;
        let ctype = r.u32().ok_or("kind")?;
        let key_id = r.s().ok_or("key id")?.to_vec();
        let pl = r.s().ok_or("principals")?;
        let mut pr = R::new(pl);
        let mut principals = vec![];
        while pr.left() > 0 {
            principals.push(pr.s().ok_or("principal")?.to_vec());
        }
        let after = r.u64().ok_or("after")?;
        let before = r.u64().ok_or("before")?;
        let opts = |b: &[u8]| -> Result<Vec<(Vec<u8>, Vec<u8>)>, String> {
            let mut o = R::new(b);
            let mut v: Vec<(Vec<u8>, Vec<u8>)> = vec![];
            while o.left() > 0 {
                let k = o.s().ok_or("option name")?.to_vec();
                let x = o.s().ok_or("option value")?;
                let val = if x.is_empty() {
                    vec![]
                } else {
                    let mut i = R::new(x);
                    let y = i.s().ok_or("option string")?.to_vec();
                    if i.left() > 0 {
                        return Err("bytes after option value".into());
                    }
                    if y.is_empty() {
                        return Err("empty option value encoded as a string".into());
                    }
                    y
                };
                if let Some(l) = v.last() {
                    if l.0 >= k {
                        return Err("options not in lexical order".into());
                    }
                }
                v.push((k, val));
            }
            Ok(v)
        };
        let crit = opts(r.s().ok_or("critical options")?)?;
        let ext = opts(r.s().ok_or("extensions")?)?;
        let reserved = r.s().ok_or("reserved")?.to_vec();
        let ca = r.s().ok_or("ca")?.to_vec();
        let end = r.o;
        let sig = r.s().ok_or("signature")?.to_vec();
        if r.left() > 0 {
            return Err("trailing bytes".into());
        }
        Ok((
            Spec { kt, nonce, subject, serial, ctype, key_id, principals, after, before, crit, ext, reserved, ca },
            sig,
            end,
        ))
    }
    pub fn brief(&self) -> Value {
        json!({"type": self.kt.cert_name(), "kind": self.ctype, "serial": self.serial,
            "key_id_len": self.key_id.len(), "principals": self.principals.len(),
            "after": self.after, "before": self.before, "critical": self.crit.len(), "extensions": self.ext.len(),
            "ca": KT::from_name(R::new(&self.ca).s().unwrap_or(b"")).map(|k| k.name())})
    }
}

/// Finds signed part, CA key blob and signature of certificate bytes without judging anything else.
pub fn split(d: &[u8]) -> Option<(&[u8], &[u8], &[u8])> {
    let mut r = R::new(d);
    let kt = KT::from_cert_name(r.s()?)?;
    r.s()?;
    match kt {
        KT::Rsa => {
            r.s()?;
            r.s()?;
        }
        KT::Ed | KT::SkEd => {
            r.s()?;
        }
        _ => {
            r.s()?;
            r.s()?;
        }
    }
    if kt.is_sk() {
        r.s()?;
    }
    r.u64()?;
    r.u32()?;
    r.s()?;
    r.s()?;
    r.u64()?;
    r.u64()?;
    r.s()?;
    r.s()?;
    r.s()?;
    let ca = r.s()?;
    let end = r.o;
    let sig = r.s()?;
    Some((&d[..end], ca, sig))
}

/// Independent judgement of certificate bytes: are they really signed by the embedded CA key?
pub fn judge(d: &[u8]) -> V {
    match split(d) {
        Some((tbs, ca, sig)) => ref_verify(ca, sig, tbs),
        None => V::Invalid,
    }
}

/// Public key of the library as an independent wire encoding of its public fields.
pub fn pub_blob(k: &PublicKey) -> Vec<u8> {
    let w = W::new().s(k.key_type.plain.as_bytes());
    let app = |w: W, a: &Option<String>| match a {
        Some(a) => w.s(a.as_bytes()).0,
        None => w.0,
    };
    match &k.kind {
        PublicKeyKind::Rsa(r) => w.mpint(&r.e).mpint(&r.n).0,
        PublicKeyKind::Ecdsa(e) => app(w.s(e.curve.identifier.as_bytes()).s(&e.key), &e.sk_application),
        PublicKeyKind::Ed25519(e) => app(w.s(&e.key), &e.sk_application),
    }
}

fn map_eq(m: &HashMap<String, String>, l: &[(Vec<u8>, Vec<u8>)]) -> bool {
    m.len() == l.len()
        && l.iter().all(|(k, v)| {
            std::str::from_utf8(k).ok().and_then(|k| m.get(k)).map(|x| x.as_bytes() == &v[..]).unwrap_or(false)
        })
}

/// Compares every field of a decoded certificate with what was encoded; returns the differences.
/// `builder` is set for certificates made by the builder, whose `reserved` field is not compared.
pub fn diff(c: &Certificate, s: &Spec, sig: &[u8], bytes: &[u8], builder: bool) -> Vec<&'static str> {
    let mut d = vec![];
    let mut chk = |ok: bool, n: &'static str| {
        if !ok {
            d.push(n)
        }
    };
    chk(c.key_type.name == s.kt.cert_name(), "key_type.name");
    chk(c.key_type.is_cert, "key_type.is_cert");
    chk(c.key_type.is_sk == s.kt.is_sk(), "key_type.is_sk");
    chk(c.key_type.plain == s.kt.name(), "key_type.plain");
    chk(c.nonce == s.nonce, "nonce");
    let sub = W::new().s(s.kt.name().as_bytes()).raw(&s.subject).0;
    chk(pub_blob(&c.key) == sub, "key");
    chk(c.key.key_type.name == s.kt.name(), "key.key_type");
    chk(c.key.encode() == sub, "key.encode()");
    chk(c.serial == s.serial, "serial");
    chk((c.cert_type == CertType::User && s.ctype == 1) || (c.cert_type == CertType::Host && s.ctype == 2), "cert_type");
    chk(c.key_id.as_bytes() == &s.key_id[..], "key_id");
    chk(
        c.principals.len() == s.principals.len()
            && c.principals.iter().zip(&s.principals).all(|(a, b)| a.as_bytes() == &b[..]),
        "principals",
    );
    chk(c.valid_after == s.after, "valid_after");
    chk(c.valid_before == s.before, "valid_before");
    chk(map_eq(&c.critical_options, &s.crit), "critical_options");
    chk(map_eq(&c.extensions, &s.ext), "extensions");
    if !builder {
        chk(c.reserved == s.reserved, "reserved");
    }
    chk(pub_blob(&c.signature_key) == s.ca, "signature_key");
    chk(c.signature == sig, "signature");
    chk(c.serialized == bytes, "serialized");
    d
}
