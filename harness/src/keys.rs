//! Independent keys, signatures and signature verification, built on OpenSSL's libcrypto.
use crate::rng::Rng;
use crate::wire::{b64, mpint_body, R, W};
use openssl::bn::{BigNum, BigNumContext};
use openssl::ec::{EcGroup, EcKey, EcPoint, PointConversionForm};
use openssl::ecdsa::EcdsaSig;
use openssl::hash::MessageDigest;
use openssl::nid::Nid;
use openssl::pkey::{Id, PKey, Private, Public};
use openssl::rsa::{Padding, Rsa};
use openssl::sha::{sha256, sha512};
use openssl::sign::{Signer, Verifier};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum KT {
    Rsa,
    P256,
    P384,
    P521,
    Ed,
    SkEd,
    SkEc,
}
pub const ALL: [KT; 7] = [KT::Rsa, KT::P256, KT::P384, KT::P521, KT::Ed, KT::SkEd, KT::SkEc];
/// Key types whose signatures the library verifies.
pub const VERIFIABLE: [KT; 6] = [KT::Rsa, KT::P256, KT::P384, KT::Ed, KT::SkEd, KT::SkEc];

impl KT {
    pub fn name(self) -> &'static str {
        match self {
            KT::Rsa => "ssh-rsa",
            KT::P256 => "ecdsa-sha2-nistp256",
            KT::P384 => "ecdsa-sha2-nistp384",
            KT::P521 => "ecdsa-sha2-nistp521",
            KT::Ed => "ssh-ed25519",
            KT::SkEd => "sk-ssh-ed25519@openssh.com",
            KT::SkEc => "sk-ecdsa-sha2-nistp256@openssh.com",
        }
    }
    pub fn cert_name(self) -> &'static str {
        match self {
            KT::Rsa => "ssh-rsa-cert-v01@openssh.com",
            KT::P256 => "ecdsa-sha2-nistp256-cert-v01@openssh.com",
            KT::P384 => "ecdsa-sha2-nistp384-cert-v01@openssh.com",
            KT::P521 => "ecdsa-sha2-nistp521-cert-v01@openssh.com",
            KT::Ed => "ssh-ed25519-cert-v01@openssh.com",
            KT::SkEd => "sk-ssh-ed25519-cert-v01@openssh.com",
            KT::SkEc => "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com",
        }
    }
    pub fn from_name(n: &[u8]) -> Option<KT> {
        ALL.iter().copied().find(|k| k.name().as_bytes() == n)
    }
    pub fn from_cert_name(n: &[u8]) -> Option<KT> {
        ALL.iter().copied().find(|k| k.cert_name().as_bytes() == n)
    }
    pub fn curve(self) -> Option<&'static str> {
        match self {
            KT::P256 | KT::SkEc => Some("nistp256"),
            KT::P384 => Some("nistp384"),
            KT::P521 => Some("nistp521"),
            _ => None,
        }
    }
    pub fn nid(self) -> Nid {
        match self {
            KT::P384 => Nid::SECP384R1,
            KT::P521 => Nid::SECP521R1,
            _ => Nid::X9_62_PRIME256V1,
        }
    }
    pub fn field(self) -> usize {
        match self {
            KT::P384 => 48,
            KT::P521 => 66,
            _ => 32,
        }
    }
    pub fn is_sk(self) -> bool {
        matches!(self, KT::SkEd | KT::SkEc)
    }
    pub fn is_ec(self) -> bool {
        self.curve().is_some()
    }
    pub fn is_ed(self) -> bool {
        matches!(self, KT::Ed | KT::SkEd)
    }
    fn md(self) -> MessageDigest {
        match self {
            KT::P384 => MessageDigest::sha384(),
            KT::P521 => MessageDigest::sha512(),
            _ => MessageDigest::sha256(),
        }
    }
}

/// The RSA keys of data/: (name, bits, e is 65537, library can sign, library can verify)
pub const RSA_POOL: [(&str, usize, bool, bool, bool); 14] = [
    ("rsa2048a", 2048, true, true, true),
    ("rsa2048b", 2048, true, true, true),
    ("rsa2048c", 2048, true, true, true),
    ("rsa3072", 3072, true, true, true),
    ("rsa4096", 4096, true, true, true),
    ("rsa2048e3", 2048, false, false, true),
    ("rsa2048e33", 2048, false, false, true),
    ("rsa2049", 2048, true, true, true),
    ("rsa2056", 2056, true, false, true),
    ("rsa2560", 2560, true, false, true),
    ("rsa6144", 6144, false, false, true),
    ("rsa8192", 8192, true, false, true),
    ("rsa1024", 1024, true, false, false),
    ("rsa2047", 2047, true, false, false),
];
const RSA_PEM: [&str; 14] = [
    include_str!("../data/rsa2048a.pem"),
    include_str!("../data/rsa2048b.pem"),
    include_str!("../data/rsa2048c.pem"),
    include_str!("../data/rsa3072.pem"),
    include_str!("../data/rsa4096.pem"),
    include_str!("../data/rsa2048e3.pem"),
    include_str!("../data/rsa2048e33.pem"),
    include_str!("../data/rsa2049.pem"),
    include_str!("../data/rsa2056.pem"),
    include_str!("../data/rsa2560.pem"),
    include_str!("../data/rsa6144.pem"),
    include_str!("../data/rsa8192.pem"),
    include_str!("../data/rsa1024.pem"),
    include_str!("../data/rsa2047.pem"),
];
fn rsa_pool() -> &'static Vec<PKey<Private>> {
    static P: OnceLock<Vec<PKey<Private>>> = OnceLock::new();
    P.get_or_init(|| RSA_PEM.iter().map(|p| PKey::private_key_from_pem(p.as_bytes()).unwrap()).collect())
}

#[derive(Clone)]
pub struct Key {
    pub kt: KT,
    pub pkey: PKey<Private>,
    /// security key application
    pub app: Vec<u8>,
    /// index into RSA_POOL
    pub rsa: usize,
    /// Ed25519 seed or EC scalar
    pub secret: Vec<u8>,
    pub public: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RsaHash {
    Sha1,
    Sha256,
    Sha512,
}
impl RsaHash {
    pub fn label(self) -> &'static str {
        match self {
            RsaHash::Sha1 => "ssh-rsa",
            RsaHash::Sha256 => "rsa-sha2-256",
            RsaHash::Sha512 => "rsa-sha2-512",
        }
    }
    pub fn md(self) -> MessageDigest {
        match self {
            RsaHash::Sha1 => MessageDigest::sha1(),
            RsaHash::Sha256 => MessageDigest::sha256(),
            RsaHash::Sha512 => MessageDigest::sha512(),
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct SigOpt {
    pub rsa: RsaHash,
    pub flags: u8,
    pub counter: u32,
}
impl Default for SigOpt {
    fn default() -> Self {
        SigOpt { rsa: RsaHash::Sha512, flags: 1, counter: 7 }
    }
}
impl SigOpt {
    pub fn random(r: &mut Rng) -> SigOpt {
        SigOpt {
            rsa: *r.pick(&[RsaHash::Sha1, RsaHash::Sha256, RsaHash::Sha512]),
            flags: r.byte(),
            counter: r.val32(),
        }
    }
}

pub fn ec_from_scalar(kt: KT, scalar: &[u8]) -> Option<PKey<Private>> {
    let g = EcGroup::from_curve_name(kt.nid()).unwrap();
    let d = BigNum::from_slice(scalar).unwrap();
    let mut ctx = BigNumContext::new().unwrap();
    let mut order = BigNum::new().unwrap();
    g.order(&mut order, &mut ctx).unwrap();
    if d.num_bits() == 0 || d >= order {
        return None;
    }
    let mut p = EcPoint::new(&g).unwrap();
    p.mul_generator(&g, &d, &ctx).unwrap();
    let k = EcKey::from_private_components(&g, &d, &p).ok()?;
    PKey::from_ec_key(k).ok()
}
pub fn ec_point(k: &EcKey<Private>) -> Vec<u8> {
    let mut ctx = BigNumContext::new().unwrap();
    k.public_key().to_bytes(k.group(), PointConversionForm::UNCOMPRESSED, &mut ctx).unwrap()
}

pub fn random_app(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => b"ssh:".to_vec(),
        1 => b"".to_vec(),
        2 => format!("ssh:{}", r.word(20)).into_bytes(),
        3 => b"ssh:sshcerts".to_vec(),
        _ => r.text(300).into_bytes(),
    }
}

impl Key {
    pub fn gen(r: &mut Rng, kt: KT) -> Key {
        match kt {
            // mostly small keys: RSA operations dominate the cost otherwise
            KT::Rsa => {
                let i = if r.chance(4, 5) { r.below(3) } else { r.below(12) };
                Key::rsa(i)
            }
            KT::Ed | KT::SkEd => {
                let seed = r.bytes(32);
                Key::ed(kt, &seed, random_app(r))
            }
            _ => loop {
                let n = kt.field();
                let mut s = r.bytes(n);
                if kt == KT::P521 {
                    s[0] &= 1;
                }
                // leading zero bytes in the scalar
                match r.below(8) {
                    0 => s[0] = 0,
                    1 => {
                        let z = r.range(1, n - 1);
                        s[..z].iter_mut().for_each(|b| *b = 0)
                    }
                    2 => s[0] |= if kt == KT::P521 { 1 } else { 0x80 },
                    3 => s[0] &= 0x7f,
                    _ => (),
                }
                let app = random_app(r);
                if let Some(k) = Key::ec(kt, &s, app) {
                    return k;
                }
            },
        }
    }
    /// The key, or one like it that OpenSSH takes: it refuses NUL in application strings and
    /// scalars of up to half the length of the group order.
    pub fn for_openssh(self, r: &mut Rng) -> Key {
        let mut k = self;
        while k.kt.is_ec() && k.secret.iter().take_while(|b| **b == 0).count() * 2 + 4 > k.kt.field() || k.kt.is_ec() && k.secret.len() * 2 < k.kt.field() + 4 {
            k = Key::gen(r, k.kt);
        }
        if k.app.contains(&0) || k.app.is_empty() {
            k = k.with_app(b"ssh:");
        }
        k
    }
    /// Key that the library can sign with (software keys).
    pub fn gen_signing(r: &mut Rng) -> Key {
        match r.below(8) {
            0 => Key::rsa(*r.pick(&[0, 1, 2, 7])),
            1..=3 => Key::gen(r, KT::Ed),
            4..=5 => Key::gen(r, KT::P256),
            _ => Key::gen(r, KT::P384),
        }
    }
    /// Any key whose signatures the library verifies.
    pub fn gen_verifiable(r: &mut Rng) -> Key {
        let kt = *r.pick(&VERIFIABLE);
        Key::gen(r, kt)
    }
    pub fn rsa(i: usize) -> Key {
        Key { kt: KT::Rsa, pkey: rsa_pool()[i].clone(), app: vec![], rsa: i, secret: vec![], public: vec![] }
    }
    pub fn ed(kt: KT, seed: &[u8], app: Vec<u8>) -> Key {
        let pkey = PKey::private_key_from_raw_bytes(seed, Id::ED25519).unwrap();
        let public = pkey.raw_public_key().unwrap();
        let app = if kt.is_sk() { app } else { vec![] };
        Key { kt, pkey, app, rsa: 0, secret: seed.to_vec(), public }
    }
    pub fn ec(kt: KT, scalar: &[u8], app: Vec<u8>) -> Option<Key> {
        let pkey = ec_from_scalar(kt, scalar)?;
        let public = ec_point(&pkey.ec_key().unwrap());
        let app = if kt.is_sk() { app } else { vec![] };
        Some(Key { kt, pkey, app, rsa: 0, secret: scalar.to_vec(), public })
    }
    pub fn with_app(&self, app: &[u8]) -> Key {
        let mut k = self.clone();
        k.app = app.to_vec();
        k
    }
    pub fn rsa_key(&self) -> Rsa<Private> {
        self.pkey.rsa().unwrap()
    }
    /// The fields of the public key, without its type name.
    pub fn pub_fields(&self) -> Vec<u8> {
        let w = match self.kt {
            KT::Rsa => {
                let k = self.rsa_key();
                W::new().mpint(&k.e().to_vec()).mpint(&k.n().to_vec())
            }
            KT::Ed | KT::SkEd => W::new().s(&self.public),
            _ => W::new().s(self.kt.curve().unwrap().as_bytes()).s(&self.public),
        };
        if self.kt.is_sk() {
            w.s(&self.app).0
        } else {
            w.0
        }
    }
    pub fn blob(&self) -> Vec<u8> {
        W::new().s(self.kt.name().as_bytes()).raw(&self.pub_fields()).0
    }
    pub fn line(&self) -> String {
        format!("{} {}", self.kt.name(), b64(&self.blob()))
    }
    /// Whether the library can sign with this key.
    pub fn can_sign(&self) -> bool {
        match self.kt {
            KT::Rsa => RSA_POOL[self.rsa].3,
            KT::P256 | KT::P384 | KT::Ed => true,
            _ => false,
        }
    }
    /// Whether the library verifies signatures of this key.
    pub fn can_verify(&self) -> bool {
        match self.kt {
            KT::Rsa => RSA_POOL[self.rsa].4,
            KT::P521 => false,
            _ => true,
        }
    }
    /// Raw signature over data: PKCS#1, 64 bytes, or DER.
    pub fn sign_raw(&self, data: &[u8], rsa: RsaHash) -> Vec<u8> {
        match self.kt {
            KT::Rsa => {
                let mut s = Signer::new(rsa.md(), &self.pkey).unwrap();
                s.set_rsa_padding(Padding::PKCS1).unwrap();
                s.sign_oneshot_to_vec(data).unwrap()
            }
            KT::Ed | KT::SkEd => {
                let mut s = Signer::new_without_digest(&self.pkey).unwrap();
                s.sign_oneshot_to_vec(data).unwrap()
            }
            _ => {
                let mut s = Signer::new(self.kt.md(), &self.pkey).unwrap();
                s.sign_oneshot_to_vec(data).unwrap()
            }
        }
    }
    /// SSH signature blob over data.
    pub fn sign(&self, data: &[u8], o: SigOpt) -> Vec<u8> {
        let signed = if self.kt.is_sk() { sk_signed(&self.app, o.flags, o.counter, data) } else { data.to_vec() };
        let raw = self.sign_raw(&signed, o.rsa);
        self.wrap(&raw, o)
    }
    /// Wraps a raw signature (DER for EC) as an SSH signature blob.
    pub fn wrap(&self, raw: &[u8], o: SigOpt) -> Vec<u8> {
        let w = match self.kt {
            KT::Rsa => W::new().s(o.rsa.label().as_bytes()).s(raw),
            KT::Ed | KT::SkEd => W::new().s(self.kt.name().as_bytes()).s(raw),
            _ => {
                let sig = EcdsaSig::from_der(raw).unwrap();
                let inner = W::new().mpint(&sig.r().to_vec()).mpint(&sig.s().to_vec()).0;
                W::new().s(self.kt.name().as_bytes()).s(&inner)
            }
        };
        if self.kt.is_sk() {
            w.raw(&[o.flags]).u32(o.counter).0
        } else {
            w.0
        }
    }
    /// Signs until r or s of the ECDSA signature is shorter than the field by at least a byte.
    /// Returns the raw DER signature.
    pub fn sign_short_raw(&self, data: &[u8], tries: usize) -> Option<Vec<u8>> {
        for _ in 0..tries {
            let d = self.sign_raw(data, RsaHash::Sha512);
            let sig = EcdsaSig::from_der(&d).unwrap();
            if (sig.r().num_bytes() as usize) < self.kt.field() || (sig.s().num_bytes() as usize) < self.kt.field() {
                return Some(d);
            }
        }
        None
    }
    /// The key-specific part of the private section (without key type, comment and padding).
    pub fn priv_fields(&self, x: &PrivExtra) -> Vec<u8> {
        match self.kt {
            KT::Rsa => {
                let k = self.rsa_key();
                W::new()
                    .mpint(&k.n().to_vec())
                    .mpint(&k.e().to_vec())
                    .mpint(&k.d().to_vec())
                    .mpint(&k.iqmp().unwrap().to_vec())
                    .mpint(&k.p().unwrap().to_vec())
                    .mpint(&k.q().unwrap().to_vec())
                    .0
            }
            KT::Ed => W::new().s(&self.public).s(&[&self.secret[..], &self.public[..]].concat()).0,
            KT::P256 | KT::P384 | KT::P521 => W::new()
                .s(self.kt.curve().unwrap().as_bytes())
                .s(&self.public)
                .s(&mpint_body(&self.secret))
                .0,
            KT::SkEd | KT::SkEc => {
                W::new().raw(&self.pub_fields()).raw(&[x.flags]).s(&x.handle).s(&x.reserved).0
            }
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct PrivExtra {
    pub flags: u8,
    pub handle: Vec<u8>,
    pub reserved: Vec<u8>,
}

/// What a security key signs.
pub fn sk_signed(app: &[u8], flags: u8, counter: u32, data: &[u8]) -> Vec<u8> {
    let mut v = sha256(app).to_vec();
    v.push(flags);
    v.extend_from_slice(&counter.to_be_bytes());
    v.extend_from_slice(&sha256(data));
    v
}

/// Parts of an OpenSSH private key file, all of which can be set freely.
#[derive(Clone)]
pub struct PrivFile {
    pub magic: Vec<u8>,
    pub cipher: Vec<u8>,
    pub kdf: Vec<u8>,
    pub kdfopts: Vec<u8>,
    pub nkeys: u32,
    pub public: Vec<u8>,
    pub check: (u32, u32),
    pub key_type: Vec<u8>,
    pub fields: Vec<u8>,
    pub comment: Vec<u8>,
    pub tail: Vec<u8>,
}
impl PrivFile {
    pub fn new(k: &Key, x: &PrivExtra, comment: &str, check: u32) -> PrivFile {
        PrivFile {
            magic: b"openssh-key-v1\0".to_vec(),
            cipher: b"none".to_vec(),
            kdf: b"none".to_vec(),
            kdfopts: vec![],
            nkeys: 1,
            public: k.blob(),
            check: (check, check),
            key_type: k.kt.name().as_bytes().to_vec(),
            fields: k.priv_fields(x),
            comment: comment.as_bytes().to_vec(),
            tail: vec![],
        }
    }
    pub fn section(&self, block: usize) -> Vec<u8> {
        let mut p = W::new()
            .u32(self.check.0)
            .u32(self.check.1)
            .s(&self.key_type)
            .raw(&self.fields)
            .s(&self.comment)
            .0;
        let mut i = 1u8;
        while p.len() % block != 0 {
            p.push(i);
            i += 1;
        }
        p
    }
    pub fn body_with(&self, section: &[u8]) -> Vec<u8> {
        W::new()
            .raw(&self.magic)
            .s(&self.cipher)
            .s(&self.kdf)
            .s(&self.kdfopts)
            .u32(self.nkeys)
            .s(&self.public)
            .s(section)
            .raw(&self.tail)
            .0
    }
    pub fn body(&self) -> Vec<u8> {
        let s = self.section(8);
        self.body_with(&s)
    }
    pub fn text(&self) -> String {
        armor("OPENSSH PRIVATE KEY", &self.body(), 70, true)
    }
}

pub fn armor(what: &str, data: &[u8], width: usize, last_nl: bool) -> String {
    let e = b64(data);
    let mut s = format!("-----BEGIN {}-----\n", what);
    let b = e.as_bytes();
    for c in b.chunks(width) {
        s.push_str(std::str::from_utf8(c).unwrap());
        s.push('\n');
    }
    s.push_str(&format!("-----END {}-----", what));
    if last_nl {
        s.push('\n');
    }
    s
}

// ---------------------------------------------------------------------------------------------
// Independent verification

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum V {
    /// valid and canonical: has to be accepted where the key is supported
    Valid,
    /// not a valid signature: must never be accepted
    Invalid,
    /// valid, but in a form that may be refused (unsupported key, trailing bytes, ...)
    Either,
}

pub enum Pub {
    Rsa { e: Vec<u8>, n: Vec<u8> },
    Ec { kt: KT, point: Vec<u8>, app: Option<Vec<u8>> },
    Ed { key: Vec<u8>, app: Option<Vec<u8>> },
}

/// Parses a public key blob; the flag says whether there were trailing bytes.
pub fn parse_pub(blob: &[u8]) -> Option<(KT, Pub, bool)> {
    let mut r = R::new(blob);
    let name = r.s()?;
    // rsa-sha2-* as key type names are accepted by the library; the key is the same
    let kt = match name {
        b"rsa-sha2-256" | b"rsa-sha2-512" => KT::Rsa,
        _ => KT::from_name(name)?,
    };
    let p = match kt {
        KT::Rsa => {
            let e = r.mpint()?.to_vec();
            let n = r.mpint()?.to_vec();
            Pub::Rsa { e, n }
        }
        KT::Ed | KT::SkEd => {
            let key = r.s()?.to_vec();
            let app = if kt.is_sk() { Some(r.s()?.to_vec()) } else { None };
            Pub::Ed { key, app }
        }
        _ => {
            if r.s()? != kt.curve().unwrap().as_bytes() {
                return None;
            }
            let point = r.s()?.to_vec();
            let app = if kt.is_sk() { Some(r.s()?.to_vec()) } else { None };
            Pub::Ec { kt, point, app }
        }
    };
    Some((kt, p, r.left() > 0))
}

fn ec_public(kt: KT, point: &[u8]) -> Option<PKey<Public>> {
    let g = EcGroup::from_curve_name(kt.nid()).ok()?;
    let mut ctx = BigNumContext::new().ok()?;
    let p = EcPoint::from_bytes(&g, point, &mut ctx).ok()?;
    let k = EcKey::from_public_key(&g, &p).ok()?;
    k.check_key().ok()?;
    PKey::from_ec_key(k).ok()
}

/// Decides whether `sig` is a signature of `data` under the public key blob.
pub fn ref_verify(blob: &[u8], sig: &[u8], data: &[u8]) -> V {
    ref_verify_opt(blob, sig, data).unwrap_or(V::Invalid)
}
fn ref_verify_opt(blob: &[u8], sig: &[u8], data: &[u8]) -> Option<V> {
    let (kt, key, trail) = parse_pub(blob)?;
    let mut r = R::new(sig);
    let label = r.s()?;
    let body = r.s()?;
    let mut lenient = trail;
    let ok = match &key {
        Pub::Rsa { e, n } => {
            let h = match label {
                b"ssh-rsa" => RsaHash::Sha1,
                b"rsa-sha2-256" => RsaHash::Sha256,
                b"rsa-sha2-512" => RsaHash::Sha512,
                _ => return None,
            };
            let nb = BigNum::from_slice(n).ok()?;
            let eb = BigNum::from_slice(e).ok()?;
            if nb.num_bits() < 2048 || nb.num_bits() > 8192 || eb.num_bits() > 33 || eb.num_bits() < 2 {
                lenient = true;
            }
            let mut b = body.to_vec();
            if b.len() < n.len() {
                lenient = true;
                let mut z = vec![0; n.len() - b.len()];
                z.extend(b);
                b = z;
            }
            let k = PKey::from_rsa(Rsa::from_public_components(nb, eb).ok()?).ok()?;
            let mut v = Verifier::new(h.md(), &k).ok()?;
            v.set_rsa_padding(Padding::PKCS1).ok()?;
            v.verify_oneshot(&b, data).unwrap_or(false)
        }
        Pub::Ed { key, app } => {
            if label != kt.name().as_bytes() || key.len() != 32 {
                return None;
            }
            let k = PKey::public_key_from_raw_bytes(key, Id::ED25519).ok()?;
            let d = match app {
                Some(a) => {
                    let f = r.raw(1)?[0];
                    let c = r.u32()?;
                    sk_signed(a, f, c, data)
                }
                None => data.to_vec(),
            };
            let mut v = Verifier::new_without_digest(&k).ok()?;
            v.verify_oneshot(body, &d).unwrap_or(false)
        }
        Pub::Ec { point, app, .. } => {
            if label != kt.name().as_bytes() {
                return None;
            }
            let mut rr = R::new(body);
            let rv = rr.mpint()?;
            let sv = rr.mpint()?;
            if rr.left() > 0 {
                lenient = true;
            }
            let d = match app {
                Some(a) => {
                    let f = r.raw(1)?[0];
                    let c = r.u32()?;
                    sk_signed(a, f, c, data)
                }
                None => data.to_vec(),
            };
            if point.first() != Some(&4) {
                lenient = true;
            }
            if kt == KT::P521 {
                lenient = true;
            }
            let k = ec_public(kt, point)?;
            let es = EcdsaSig::from_private_components(BigNum::from_slice(rv).ok()?, BigNum::from_slice(sv).ok()?).ok()?;
            let mut v = Verifier::new(kt.md(), &k).ok()?;
            v.verify_oneshot(&es.to_der().ok()?, &d).unwrap_or(false)
        }
    };
    // drain the thread's OpenSSL error queue
    let _ = openssl::error::ErrorStack::get();
    if !ok {
        return None;
    }
    if r.left() > 0 {
        lenient = true;
    }
    Some(if lenient { V::Either } else { V::Valid })
}

// ---------------------------------------------------------------------------------------------
// SSHSIG

pub fn sshsig_tbs(ns: &[u8], reserved: &[u8], hash: &[u8], digest: &[u8]) -> Vec<u8> {
    W::new().raw(b"SSHSIG").s(ns).s(reserved).s(hash).s(digest).0
}
pub fn sshsig_digest(hash: &str, msg: &[u8]) -> Vec<u8> {
    if hash == "sha256" {
        sha256(msg).to_vec()
    } else {
        sha512(msg).to_vec()
    }
}
pub fn sshsig_blob(key: &[u8], ns: &[u8], reserved: &[u8], hash: &[u8], sig: &[u8]) -> Vec<u8> {
    W::new().raw(b"SSHSIG").u32(1).s(key).s(ns).s(reserved).s(hash).s(sig).0
}
/// A complete armored signature of msg.
pub fn sshsig(k: &Key, msg: &[u8], ns: &str, hash: &str, o: SigOpt) -> String {
    let tbs = sshsig_tbs(ns.as_bytes(), b"", hash.as_bytes(), &sshsig_digest(hash, msg));
    let sig = k.sign(&tbs, o);
    armor("SSH SIGNATURE", &sshsig_blob(&k.blob(), ns.as_bytes(), b"", hash.as_bytes(), &sig), 70, true)
}
