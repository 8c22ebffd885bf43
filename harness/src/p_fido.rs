//! C19, C20: FIDO attestations and authenticator data.
use crate::der::{self, Cert, Md};
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::mutate::havoc;
use crate::p_sig::{message, namespace};
use crate::refcert::pub_blob;
use crate::rng::Rng;
use crate::vectors::*;
use crate::wire::{hexs, unhex, W};
use openssl::sha::sha256;
use serde_json::{json, Value};
use sshcerts::fido::verification::{verify_auth_data, Transport, ValidAttestation};
use sshcerts::fido::AuthData;
use sshcerts::ssh::{SshSignature, VerifiedSshSignature};

// ---- CBOR ----
pub fn cbor_head(major: u8, v: u64, wide: usize) -> Vec<u8> {
    // wide: 0 = shortest, otherwise at least that many bytes of argument
    let m = major << 5;
    let need = if v < 24 { 0 } else if v < 256 { 1 } else if v < 65536 { 2 } else if v <= u32::MAX as u64 { 4 } else { 8 };
    match need.max(wide) {
        0 => vec![m | v as u8],
        1 => vec![m | 24, v as u8],
        2 => [&[m | 25][..], &(v as u16).to_be_bytes()].concat(),
        4 => [&[m | 26][..], &(v as u32).to_be_bytes()].concat(),
        _ => [&[m | 27][..], &v.to_be_bytes()].concat(),
    }
}
pub fn cbor_int(v: i64, wide: usize) -> Vec<u8> {
    if v >= 0 {
        cbor_head(0, v as u64, wide)
    } else {
        cbor_head(1, (-1 - v) as u64, wide)
    }
}
pub fn cbor_bytes(b: &[u8], wide: usize) -> Vec<u8> {
    [cbor_head(2, b.len() as u64, wide), b.to_vec()].concat()
}

/// What is encoded in authenticator data.
#[derive(Clone)]
pub struct Auth {
    pub rpid: Vec<u8>,
    pub flags: u8,
    pub count: u32,
    pub aaguid: Vec<u8>,
    pub cred: Vec<u8>,
    pub key: Key,
    pub cose: Vec<u8>,
    pub tail: Vec<u8>,
}
impl Auth {
    pub fn gen(r: &mut Rng, app: &str) -> Auth {
        let kt = *r.pick(&[KT::SkEd, KT::SkEc]);
        let key = Key::gen(r, kt).with_app(app.as_bytes());
        let mut flags = 0x40 | (r.byte() & 0x3f);
        let mut tail = vec![];
        if r.chance(1, 4) {
            flags |= 0x80;
            // {"credProtect": 2} or {"hmac-secret": true}
            tail = if r.chance(1, 2) {
                [&[0xa1][..], &cbor_head(3, 11, 0), b"credProtect", &[2]].concat()
            } else {
                [&[0xa1][..], &cbor_head(3, 11, 0), b"hmac-secret", &[0xf5]].concat()
            };
        }
        let n = *r.pick(&[0usize, 1, 16, 32, 48, 64, 80, 96, 128, 255, 256, 257, 300, 1023, 4000]);
        let n = if r.chance(1, 40) { 65535 } else { n };
        let order = r.chance(1, 3);
        let wide = if r.chance(1, 6) { *r.pick(&[1usize, 2, 4, 8]) } else { 0 };
        let cose = Auth::cose(r, &key, order, wide);
        let rpid = if r.chance(1, 3) { r.bytes(32) } else { sha256(app.as_bytes()).to_vec() };
        Auth { rpid, flags, count: r.val32(), aaguid: if r.chance(1, 8) { vec![0; 16] } else { r.bytes(16) }, cred: r.bytes(n), key, cose, tail }
    }
    pub fn cose(r: &mut Rng, k: &Key, shuffle: bool, wide: usize) -> Vec<u8> {
        let i = |v: i64| cbor_int(v, wide);
        let mut e: Vec<Vec<u8>> = vec![];
        if k.kt.is_ed() {
            e.push([i(1), i(1)].concat());
            e.push([i(3), i(-8)].concat());
            e.push([i(-1), i(6)].concat());
            e.push([i(-2), cbor_bytes(&k.public, wide)].concat());
        } else {
            e.push([i(1), i(2)].concat());
            e.push([i(3), i(-7)].concat());
            e.push([i(-1), i(1)].concat());
            e.push([i(-2), cbor_bytes(&k.public[1..33], wide)].concat());
            e.push([i(-3), cbor_bytes(&k.public[33..], wide)].concat());
        }
        if shuffle {
            r.shuffle(&mut e);
        }
        [cbor_head(5, e.len() as u64, wide), e.concat()].concat()
    }
    pub fn head(&self) -> Vec<u8> {
        [&self.rpid[..], &[self.flags], &self.count.to_be_bytes(), &self.aaguid, &(self.cred.len() as u16).to_be_bytes(), &self.cred].concat()
    }
    pub fn bytes(&self) -> Vec<u8> {
        [self.head(), self.cose.clone(), self.tail.clone()].concat()
    }
    /// Differences between what was decoded and what was encoded.
    pub fn diff(&self, a: &AuthData) -> Vec<&'static str> {
        let mut d = vec![];
        let mut chk = |ok: bool, n| {
            if !ok {
                d.push(n)
            }
        };
        chk(a.rpid_hash == self.rpid, "rpid_hash");
        chk(a.flags == self.flags, "flags");
        chk(a.sign_count == self.count, "sign_count");
        chk(a.aaguid == self.aaguid, "aaguid");
        chk(a.credential_id == self.cred, "credential_id");
        chk(a.cose_key.key == self.key.public, "key");
        let (kty, alg, crv) = if self.key.kt.is_ed() { (1, -8, "6") } else { (2, -7, "1") };
        chk(a.cose_key.key_type == kty, "key_type");
        chk(a.cose_key.algorithm == alg, "algorithm");
        chk(a.cose_key.parameters.get(&-1).map(|s| s.as_str()) == Some(crv) && a.cose_key.parameters.len() == 1, "parameters");
        chk(a.user_presence() == (self.flags & 1 != 0), "user_presence");
        chk(a.user_verification() == (self.flags & 4 != 0), "user_verification");
        d
    }
}

fn application(r: &mut Rng) -> String {
    match r.below(4) {
        0 => "ssh:".into(),
        1 => format!("ssh:{}", r.word(20)),
        2 => r.text(100),
        _ => String::new(),
    }
}

/// Strict reference decoding of the fixed part and of the key entries the format defines.
/// None: must be refused. Some(None): may be accepted or refused.
pub fn ref_auth(d: &[u8]) -> Option<Option<(Vec<u8>, i64)>> {
    if d.len() < 55 {
        return None;
    }
    if d[32] & 0x40 == 0 {
        return None;
    }
    let n = u16::from_be_bytes([d[53], d[54]]) as usize;
    let c = d.get(55..55 + n).map(|_| &d[55 + n..])?;
    let mut p = c;
    fn head(p: &mut &[u8]) -> Option<(u8, u64)> {
        let b = *p.first()?;
        let l = match b & 31 {
            x @ 0..=23 => {
                *p = &p[1..];
                return Some((b >> 5, x as u64));
            }
            24 => 1,
            25 => 2,
            26 => 4,
            27 => 8,
            _ => return Some((99, 0)),
        };
        let v = p.get(1..1 + l)?.iter().fold(0u64, |a, x| a << 8 | *x as u64);
        *p = &p[1 + l..];
        Some((b >> 5, v))
    }
    let (m, n) = head(&mut p)?;
    if m != 5 {
        return None; // no key, or of indefinite length
    }
    let (mut x, mut y, mut alg) = (None, None, None);
    for _ in 0..n {
        let (km, kv) = head(&mut p)?;
        let k = match km {
            0 if kv < 1 << 40 => kv as i64,
            1 if kv < 1 << 40 => -1 - kv as i64,
            _ => return Some(None),
        };
        let (vm, vv) = head(&mut p)?;
        match (k, vm) {
            (1 | 3 | -1, 0 | 1) => {
                let v = if vm == 0 { vv as i64 } else { (-1i64).wrapping_sub(vv as i64) };
                if k == 3 {
                    if alg.is_some() {
                        return Some(None);
                    }
                    alg = Some(v);
                }
            }
            (-2 | -3, 2) => {
                let l = vv as usize;
                let b = p.get(..l)?.to_vec();
                p = &p[l..];
                let s = if k == -2 { &mut x } else { &mut y };
                if s.is_some() {
                    return Some(None);
                }
                *s = Some(b);
            }
            // unusual contents; all that matters is that nothing is made up
            _ => return Some(None),
        }
    }
    match (x, y, alg) {
        (Some(x), Some(y), Some(-7)) if x.len() == 32 && y.len() == 32 => Some(Some(([&[4][..], &x, &y].concat(), -7))),
        (Some(x), None, Some(-8)) if x.len() == 32 => Some(Some((x, -8))),
        _ => Some(None),
    }
}

pub fn c20(m: &'static Mon) {
    m.rule("one evaluation = one authenticator data blob decoded and compared with an independent decoder (every field, derived SSH key, or refusal), or one credential signature checked under the derived key; distinct = distinct bytes");
    m.assume("unknown or repeated COSE entries, indefinite lengths and bytes after the key may be accepted or refused; incomplete keys may be decoded but give no SSH key");
    m.section("exact", m.n(12000), |c| {
        let app = application(&mut c.rng);
        let a = Auth::gen(&mut c.rng, &app);
        let d = a.bytes();
        c.eval(&d);
        c.sample(|| json!({"auth_data": hexs(&d), "app": app}));
        c.ev(if a.key.kt.is_ed() { "ed25519" } else { "ecdsa" });
        let det = json!({"auth_data": hexs(&d), "app": app});
        let p = match c.call("AuthData::parse", || AuthData::parse(&d)) {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => return c.fail(format!("well-formed authenticator data refused: {:?}", e), det),
            Err(e) => return c.fail(format!("well-formed authenticator data panicked: {}", e.0), det),
        };
        let bad = a.diff(&p);
        if !bad.is_empty() {
            return c.fail(format!("authenticator data decoded differently: {:?}", bad), det);
        }
        let k = match c.call("ssh_public_key", || p.ssh_public_key(&app)) {
            Ok(Ok(k)) => k,
            _ => return c.fail("no SSH key for a complete credential", det),
        };
        if pub_blob(&k) != a.key.blob() || k.encode() != a.key.blob() || k.key_type.name != a.key.kt.name() || !k.key_type.is_sk {
            return c.fail("SSH key of the credential is another key", json!({"auth_data": hexs(&d), "app": app, "got": hexs(&k.encode()), "want": hexs(&a.key.blob())}));
        }
        // its signatures verify under it
        if c.rng.chance(1, 2) {
            let msg = message(&mut c.rng);
            let ns = namespace(&mut c.rng);
            let o = SigOpt::random(&mut c.rng);
            let text = sshsig(&a.key, &msg, &ns, "sha512", o);
            let r = c.call("verify", || SshSignature::from_armored_string(&text).and_then(|s| VerifiedSshSignature::from_ssh_signature(&msg, s, &ns, Some(k.clone()))));
            c.eval(text.as_bytes());
            c.ev("signature");
            if !matches!(r, Ok(Ok(_))) && !ns.is_empty() {
                c.fail("signature of the credential refused under its derived key", json!({"auth_data": hexs(&d), "app": app, "sig": text, "ns": ns, "msg": hexs(&msg)}));
            }
        }
    });
    m.section("truncated", m.n(300), |c| {
        let app = application(&mut c.rng);
        let mut a = Auth::gen(&mut c.rng, &app);
        a.cred.truncate(300);
        a.tail.clear();
        a.flags &= 0x7f;
        let d = a.bytes();
        for n in 0..d.len() {
            c.eval(&d[..n]);
            if let Ok(Ok(_)) = c.call("AuthData::parse", || AuthData::parse(&d[..n])) {
                return c.fail(format!("truncated authenticator data accepted ({} of {} bytes)", n, d.len()), json!({"auth_data": hexs(&d[..n])}));
            }
        }
        // without the flag there is no key
        let mut e = d.clone();
        e[32] &= !0x40;
        c.eval(&e);
        if let Ok(Ok(_)) = c.call("AuthData::parse", || AuthData::parse(&e)) {
            return c.fail("authenticator data without a key accepted", json!({"auth_data": hexs(&e)}));
        }
    });
    m.section("incomplete", m.n(4000), |c| {
        // keys with missing, short or long parts, or unknown algorithms
        let app = application(&mut c.rng);
        let mut a = Auth::gen(&mut c.rng, &app);
        a.cred.truncate(64);
        let pk = a.key.public.clone();
        let ed = a.key.kt.is_ed();
        let mut e: Vec<Vec<u8>> = vec![];
        let i = |v: i64| cbor_int(v, 0);
        let (x, y) = if ed { (pk.clone(), vec![]) } else { (pk[1..33].to_vec(), pk[33..].to_vec()) };
        let mut alg = if ed { -8 } else { -7 };
        let kty = if ed { 1 } else { 2 };
        let mut xs = Some(x.clone());
        let mut ys = if ed { None } else { Some(y.clone()) };
        let what = match c.rng.below(9) {
            0 => {
                xs = None;
                "no x"
            }
            1 => {
                ys = if ed { Some(c.rng.bytes(32)) } else { None };
                "y present or absent against the type"
            }
            2 => {
                xs = Some(x[..c.rng.below(32)].to_vec());
                "short x"
            }
            3 => {
                let extra = c.rng.range(1, 40);
                xs = Some([x.clone(), c.rng.bytes(extra)].concat());
                "long x"
            }
            4 => {
                xs = None;
                ys = None;
                "no key at all"
            }
            5 => {
                alg = *c.rng.pick(&[0i64, 1, 7, 8, -1, -6, -9, -35, -36, -257, -65535, 24, -5, -10, -16, -20, -39, -46, -47, -50, -51, -7 - 256, -8 + 256, i64::MIN / 2, i64::MAX]);
                "unknown algorithm"
            }
            6 => {
                alg = if ed { -7 } else { -8 };
                "algorithm of the other type"
            }
            7 => {
                ys = ys.map(|v| v[..c.rng.below(32)].to_vec());
                xs = Some(x[..c.rng.below(32)].to_vec());
                "both short"
            }
            _ => {
                if ed {
                    xs = Some(vec![]);
                } else {
                    // total length right, parts wrong
                    let k = c.rng.range(1, 31);
                    xs = Some(x[..k].to_vec());
                    ys = Some([&x[k..], &y[..]].concat());
                }
                "coordinates of unequal length"
            }
        };
        e.push([i(1), i(kty)].concat());
        e.push([i(3), i(alg)].concat());
        e.push([i(-1), i(if ed { 6 } else { 1 })].concat());
        if let Some(x) = &xs {
            e.push([i(-2), cbor_bytes(x, 0)].concat());
        }
        if let Some(y) = &ys {
            e.push([i(-3), cbor_bytes(y, 0)].concat());
        }
        if c.rng.chance(1, 3) {
            c.rng.shuffle(&mut e);
        }
        a.cose = [cbor_head(5, e.len() as u64, 0), e.concat()].concat();
        let d = a.bytes();
        c.eval(&d);
        c.mon.event(&format!("incomplete.{}", what), 1);
        let k = match c.call("AuthData::parse", || AuthData::parse(&d).and_then(|p| p.ssh_public_key(&app))) {
            Ok(Ok(k)) => k,
            _ => return,
        };
        // an SSH key may only come out if the data holds exactly that key
        match ref_auth(&d) {
            Some(Some((key, al))) if al == alg && pub_blob(&k) == want_blob(&key, al, &app) => (),
            _ if what == "coordinates of unequal length" && !ed => (),
            _ => c.fail(format!("credential with {} gave an SSH key", what), json!({"auth_data": hexs(&d), "got": hexs(&pub_blob(&k))})),
        }
    });
    m.section("havoc", m.n(16000), |c| {
        let app = application(&mut c.rng);
        let mut a = Auth::gen(&mut c.rng, &app);
        a.cred.truncate(100);
        let mut d = a.bytes();
        for _ in 0..c.rng.range(1, 3) {
            if c.rng.chance(1, 2) {
                // in the key
                let at = a.head().len().min(d.len());
                let mut t = d[at..].to_vec();
                havoc(&mut c.rng, &mut t);
                d.truncate(at);
                d.extend(t);
            } else {
                havoc(&mut c.rng, &mut d);
            }
        }
        c.eval(&d);
        let r = c.call("AuthData::parse", || AuthData::parse(&d));
        let want = ref_auth(&d);
        let det = json!({"auth_data": hexs(&d)});
        match (r, want) {
            (Ok(Ok(p)), None) => c.fail("damaged authenticator data accepted", json!({"auth_data": hexs(&d), "got": format!("{:?}", p)})),
            (Ok(Ok(p)), Some(w)) => {
                c.ev("havoc.accepted");
                let n = u16::from_be_bytes([d[53], d[54]]) as usize;
                let cnt = u32::from_be_bytes([d[33], d[34], d[35], d[36]]);
                if p.rpid_hash != d[..32] || p.flags != d[32] || p.sign_count != cnt || p.aaguid != d[37..53] || p.credential_id != d[55..55 + n] {
                    return c.fail("fixed part decoded differently", det);
                }
                if p.user_presence() != (d[32] & 1 != 0) || p.user_verification() != (d[32] & 4 != 0) {
                    return c.fail("flags reported differently", det);
                }
                if let Some((key, alg)) = w {
                    if p.cose_key.key != key || p.cose_key.algorithm != alg as i128 {
                        return c.fail("key decoded differently", det);
                    }
                    match c.call("ssh_public_key", || p.ssh_public_key(&app)) {
                        Ok(Ok(k)) if pub_blob(&k) == want_blob(&key, alg, &app) => (),
                        _ => c.fail("SSH key differs from the credential's", det),
                    }
                }
            }
            (Ok(Err(_)), Some(Some(_))) => c.fail("well-formed authenticator data refused", det),
            (Err(_), Some(Some(_))) => c.fail("well-formed authenticator data panicked", det),
            _ => c.ev("havoc.refused"),
        }
    });
}
pub fn want_blob(key: &[u8], alg: i64, app: &str) -> Vec<u8> {
    if alg == -7 {
        W::new().s(KT::SkEc.name().as_bytes()).s(b"nistp256").s(key).s(app.as_bytes()).0
    } else {
        W::new().s(KT::SkEd.name().as_bytes()).s(key).s(app.as_bytes()).0
    }
}

// ---------------------------------------------------------------------------------------------
// C19

pub struct Att {
    pub root: Key,
    pub root_md: Md,
    pub root_cert: Cert,
    pub root_pem: String,
    pub att_key: Key,
    pub cert: Cert,
    pub cert_der: Vec<u8>,
    pub auth: Auth,
    pub data: Vec<u8>,
    pub challenge: Vec<u8>,
    pub sig: Vec<u8>,
    pub fw: Option<[u8; 3]>,
    pub guid: Option<Vec<u8>>,
    /// bits 0..8 of the transports
    pub tr: Option<u8>,
}
pub const FW_OID: &str = "1.3.6.1.4.1.41482.13.1";
pub const GUID_OID: &str = "1.3.6.1.4.1.45724.1.1.4";
pub const TR_OID: &str = "1.3.6.1.4.1.45724.2.1.1";

pub fn root_key(r: &mut Rng) -> (Key, Md) {
    let k = match r.below(6) {
        0 | 1 => Key::rsa(r.below(3)),
        2 => Key::rsa(3),
        3 | 4 => Key::gen(r, KT::P256),
        _ => Key::gen(r, KT::P384),
    };
    let md = if k.kt == KT::Rsa { *r.pick(&[Md::Sha256, Md::Sha256, Md::Sha384, Md::Sha512]) } else { der::usual_md(&k) };
    (k, md)
}
/// DER bit string of named bits with trailing zeros removed (or kept).
fn bitstring(t: u8, r: &mut Rng) -> Vec<u8> {
    let byte = t.reverse_bits();
    if byte == 0 && r.chance(1, 2) {
        return der::bits(&[], 0);
    }
    if r.chance(1, 4) {
        return der::bits(&[byte], 0);
    }
    der::bits(&[byte], byte.trailing_zeros().min(7) as u8)
}
const YUBICO_ROOT: &str = "Yubico U2F Root CA Serial 457200631";

pub fn att(r: &mut Rng) -> Att {
    let (root, root_md) = root_key(r);
    let rn = if r.chance(1, 3) { YUBICO_ROOT.to_string() } else { r.word(20) };
    // a chosen root need not have signed itself
    let above = if r.chance(1, 3) { Some((r.word(20), root_key(r))) } else { None };
    let mut rc = Cert::new(r, above.as_ref().map_or(&rn, |a| &a.0), &rn, der::spki(&root));
    rc.ext.push(("2.5.29.19".into(), true, der::seq(&[&der::tlv(1, &[0xff])])));
    let root_pem = der::pem("CERTIFICATE", &match &above {
        Some((_, (k, md))) => rc.signed(k, *md),
        None => rc.signed(&root, root_md),
    });
    let att_key = Key::gen(r, KT::P256);
    let mut cert = Cert::new(r, &rn, "Yubico U2F EE Serial 1", der::spki(&att_key));
    let (mut fw, mut guid, mut tr) = (None, None, None);
    if r.chance(3, 4) {
        let v = match r.below(8) {
            0 => vec![0; 3],
            1 => vec![r.byte(), 0, 0],
            2 => vec![255; 3],
            _ => r.bytes(3),
        };
        fw = Some([v[0], v[1], v[2]]);
        cert.ext.push((FW_OID.into(), false, der::octets(&v)));
    }
    if r.chance(3, 4) {
        let v = match r.below(8) {
            0 => vec![0; 16],
            1 => vec![255; 16],
            _ => r.bytes(16),
        };
        cert.ext.push((GUID_OID.into(), r.chance(1, 8), der::octets(&v)));
        guid = Some(v);
    }
    if r.chance(3, 4) {
        let t = if r.chance(1, 4) { 1 << r.below(5) } else { r.byte() & 0x1f };
        let bs = bitstring(t, r);
        cert.ext.push((TR_OID.into(), false, bs));
        tr = Some(t);
    }
    if r.chance(1, 2) {
        cert.ext.push(("2.5.29.19".into(), true, der::seq(&[])));
    }
    if r.chance(1, 2) {
        cert.ext.push(("1.3.6.1.4.1.41482.2".into(), false, b"1.3.6.1.4.1.41482.1.9".to_vec()));
    }
    // neighbours of the meaningful extensions
    if r.chance(1, 3) {
        for o in ["1.3.6.1.4.1.41482.13.2", "1.3.6.1.4.1.45724.1.1.5", "1.3.6.1.4.1.45724.2.1.2", "1.3.6.1.4.1.41482.13.1.1"] {
            let v = r.bytes(3);
            cert.ext.push((o.into(), false, der::octets(&v)));
        }
    }
    r.shuffle(&mut cert.ext);
    let cert_der = cert.signed(&root, root_md);
    let app = application(r);
    let mut auth = Auth::gen(r, &app);
    auth.cred.truncate(600);
    let data = auth.bytes();
    let challenge = if r.chance(7, 8) { r.bytes(32) } else { r.blob(100) };
    let sig = der::sign_with(&att_key, Md::Sha256, &[&data[..], &challenge].concat());
    Att { root, root_md, root_cert: rc, root_pem, att_key, cert, cert_der, auth, data, challenge, sig, fw, guid, tr }
}

/// Compares the reported values with those in the certificate, whatever its origin.
fn report_diff(v: &ValidAttestation, cert: &[u8], data: &[u8]) -> Vec<&'static str> {
    let mut d = vec![];
    let p = match der::parse_cert(cert) {
        Some(p) => p,
        None => return vec!["certificate"],
    };
    let vals = |o: &str| p.ext.iter().filter(|(x, _)| *x == der::oid_body(o)).map(|(_, v)| v.to_vec()).collect::<Vec<_>>();
    // what a value may be reported as: a properly encoded one exactly, others not at all or as a
    // part of what is there
    let oct = |v: &[u8], n: usize, got: &Option<Vec<u8>>| match der::next(v) {
        Some((4, c, r, _)) if r.is_empty() && der::octets(c) == v => match got {
            Some(g) => c.len() == n && c == &g[..],
            None => c.len() != n,
        },
        _ => match got {
            Some(g) => v.windows(g.len().max(1)).any(|w| w == &g[..]),
            None => true,
        },
    };
    let fw = match &v.firmware {
        None => Some(None),
        Some(f) => {
            let p: Vec<Option<u8>> = f.split('.').map(|x| x.parse().ok()).collect();
            if p.len() == 3 && p.iter().all(|x| x.is_some()) && p.iter().map(|x| x.unwrap().to_string()).collect::<Vec<_>>().join(".") == *f {
                Some(Some(p.iter().map(|x| x.unwrap()).collect::<Vec<u8>>()))
            } else {
                None
            }
        }
    };
    let f = vals(FW_OID);
    if !fw.map(|g| f.iter().any(|v| oct(v, 3, &g)) || (g.is_none() && f.is_empty())).unwrap_or(false) {
        d.push("firmware");
    }
    let f = vals(GUID_OID);
    if !(f.iter().any(|x| oct(x, 16, &v.aaguid)) || (v.aaguid.is_none() && f.is_empty())) {
        d.push("aaguid");
    }
    let got = v.transports.as_ref().map(|l| {
        l.iter().fold(0u8, |a, t| {
            a | match t {
                Transport::Bluetooth => 1,
                Transport::BluetoothLE => 2,
                Transport::USB => 4,
                Transport::NFC => 8,
                Transport::USBInternal => 16,
            }
        })
    });
    let f = vals(TR_OID);
    let tr = |v: &[u8]| match der::next(v) {
        Some((3, c, r, _)) if r.is_empty() && !c.is_empty() && c[0] < 8 && der::tlv(3, c) == v => {
            let b = c.get(1).copied().unwrap_or(0);
            got == Some(b.reverse_bits() & 0x1f)
        }
        _ => true,
    };
    if !(f.iter().any(|x| tr(x)) || (got.is_none() && f.is_empty())) {
        d.push("transports");
    }
    let n = v.transports.as_ref().map(|l| l.len()).unwrap_or(0) as u32;
    if n != got.unwrap_or(0).count_ones() {
        d.push("repeated transports");
    }
    let a = &v.auth_data;
    if data.len() < 55 || a.rpid_hash != data[..32] || a.flags != data[32] || a.aaguid != data[37..53] || a.sign_count.to_be_bytes() != data[33..37] {
        d.push("auth_data");
    } else if !data[55..].starts_with(&a.credential_id) || a.credential_id.len() != u16::from_be_bytes([data[53], data[54]]) as usize {
        d.push("auth_data.credential_id");
    } else if let Some(Some((k, alg))) = ref_auth(data) {
        if a.cose_key.key != k || a.cose_key.algorithm != alg as i128 {
            d.push("auth_data.cose_key");
        }
    }
    d
}

/// Whether root -> certificate -> data ‖ challenge is intact.
fn chain_ok(data: &[u8], sig: &[u8], challenge: &[u8], alg: i32, cert: &[u8], root_pem: Option<&str>) -> bool {
    if alg != -7 {
        return false;
    }
    let root = match root_pem {
        Some(p) => match der::first_pem(p) {
            Some(d) => d,
            None => return false,
        },
        None => return false,
    };
    let (rc, ic) = match (der::parse_cert(&root), der::parse_cert(cert)) {
        (Some(a), Some(b)) => (a, b),
        _ => return false,
    };
    if !der::signed_by(&ic, rc.spki) {
        return false;
    }
    // the key is used as a P-256 key with SHA-256
    der::key_readings(ic.spki).iter().any(|k| {
        openssl::sign::Verifier::new(openssl::hash::MessageDigest::sha256(), k)
            .and_then(|mut v| v.verify_oneshot(sig, &[data, challenge].concat()))
            .unwrap_or(false)
            && k.ec_key().map(|e| e.group().curve_name() == Some(openssl::nid::Nid::X9_62_PRIME256V1)).unwrap_or(false)
    })
}

struct In {
    data: Vec<u8>,
    sig: Vec<u8>,
    challenge: Vec<u8>,
    alg: i32,
    cert: Vec<u8>,
    root: Option<String>,
}
impl In {
    fn of(a: &Att) -> In {
        In { data: a.data.clone(), sig: a.sig.clone(), challenge: a.challenge.clone(), alg: -7, cert: a.cert_der.clone(), root: Some(a.root_pem.clone()) }
    }
    fn json(&self) -> Value {
        json!({"auth_data": hexs(&self.data), "sig": hexs(&self.sig), "challenge": hexs(&self.challenge), "alg": self.alg, "cert": hexs(&self.cert), "root": self.root})
    }
    fn key(&self) -> Vec<u8> {
        [&self.data[..], &self.sig, &self.challenge, &self.alg.to_be_bytes(), &self.cert, self.root.as_deref().unwrap_or("").as_bytes()].concat()
    }
    fn call(&self, c: &mut Case<'_>) -> Result<Result<ValidAttestation, sshcerts::error::Error>, crate::mon::Panicked> {
        c.call("verify_auth_data", || verify_auth_data(&self.data, &self.sig, &self.challenge, self.alg, &self.cert, self.root.as_deref()))
    }
}

pub fn c19(m: &'static Mon) {
    m.rule("one evaluation = one call of the attestation verifier; genuine chains must be accepted with exactly the values of the data and certificate, every acceptance is re-verified link by link by libcrypto over independently parsed DER; distinct = distinct inputs");
    m.assume("the challenge is a fixed-length hash, so moving bytes between data and challenge is not an alteration the verifier can see; encodings of the same signed content (unused bits, trailing bytes, outer algorithm parameters) may be accepted");
    m.section("genuine", m.n(5000), |c| {
        let a = att(&mut c.rng);
        let i = In::of(&a);
        c.eval(&i.key());
        c.sample(|| i.json());
        c.mon.event(&format!("root.{:?}.{:?}", a.root.kt, a.root_md), 1);
        let v = match i.call(c) {
            Ok(Ok(v)) => v,
            Ok(Err(e)) => return c.fail(format!("genuine attestation refused: {:?}", e), i.json()),
            Err(p) => return c.fail(format!("genuine attestation panicked: {}", p.0), i.json()),
        };
        let mut d = a.auth.diff(&v.auth_data);
        d.extend(report_diff(&v, &a.cert_der, &a.data));
        if v.firmware != a.fw.map(|f| format!("{}.{}.{}", f[0], f[1], f[2])) {
            d.push("firmware");
        }
        if v.aaguid != a.guid {
            d.push("aaguid");
        }
        if v.transports.is_some() != a.tr.is_some() {
            d.push("transports");
        }
        if !d.is_empty() {
            c.fail(format!("attestation reports {:?} differently", d), json!({"in": i.json(), "got": format!("{:?}", v)}));
        }
    });
    m.section("altered", m.n(24000), |c| {
        let a = att(&mut c.rng);
        let mut i = In::of(&a);
        let what = alter(&mut c.rng, &a, &mut i);
        let concat_same = [&i.data[..], &i.challenge].concat() == [&a.data[..], &a.challenge].concat();
        c.eval(&i.key());
        c.mon.event(&format!("altered.{}", what), 1);
        let r = i.call(c);
        if let Ok(Ok(v)) = r {
            let anchor_kept = what == "root"
                && match (der::first_pem(&a.root_pem), i.root.as_deref().and_then(der::first_pem)) {
                    (Some(g), Some(d)) => der::same_anchor(&g, &d),
                    _ => false,
                };
            if !anchor_kept && !chain_ok(&i.data, &i.sig, &i.challenge, i.alg, &i.cert, i.root.as_deref()) {
                return c.fail(format!("attestation accepted with altered {}", what), i.json());
            }
            c.ev("altered.accepted_equivalent");
            let d = report_diff(&v, &i.cert, &i.data);
            if !d.is_empty() {
                c.fail(format!("attestation reports {:?} differently (altered {})", d, what), json!({"in": i.json(), "got": format!("{:?}", v)}));
            }
            let _ = concat_same;
        }
    });
    m.section("extensions", m.n(4000), |c| {
        // unusual but properly signed extensions: never report what is not there
        let mut a = att(&mut c.rng);
        for _ in 0..c.rng.range(1, 3) {
            let n = c.rng.below(20);
            let v = c.rng.bytes(n);
            let o = *c.rng.pick(&[FW_OID, GUID_OID, TR_OID]);
            let val = match c.rng.below(5) {
                0 => v,
                1 => der::octets(&v),
                2 => der::bits(&v, 0),
                3 => {
                    let mut b = der::octets(&v);
                    havoc(&mut c.rng, &mut b);
                    b
                }
                _ => vec![],
            };
            if let Some(e) = a.cert.ext.iter_mut().find(|e| e.0 == o) {
                e.2 = val;
            } else {
                a.cert.ext.push((o.into(), false, val));
            }
        }
        a.cert_der = a.cert.signed(&a.root, a.root_md);
        let i = In::of(&a);
        c.eval(&i.key());
        if let Ok(Ok(v)) = i.call(c) {
            c.ev("extensions.accepted");
            let d = report_diff(&v, &i.cert, &i.data);
            if !d.is_empty() {
                c.fail(format!("attestation reports {:?} that the certificate does not hold", d), json!({"in": i.json(), "got": format!("{:?}", v)}));
            }
        } else {
            c.ev("extensions.refused");
        }
    });
    m.section("yubico", m.n(1500), |c| {
        // real devices under the built-in root
        let real = [
            (YUBIKEY_BIO_AUTH_DATA_ED25519, YUBIKEY_BIO_AUTH_SIG_ED25519, YUBIKEY_BIO_CHALLENGE_ED25519, YUBIKEY_BIO_INTERMEDIATE),
            (YUBIKEY_5C_NFC_AUTH_DATA_ED25519, YUBIKEY_5C_NFC_AUTH_SIG_ED25519, YUBIKEY_5C_NFC_CHALLENGE_ED25519, YUBIKEY_5C_NFC_INTERMEDIATE),
        ];
        let x = real[c.rng.below(2)];
        let y = real[c.rng.below(2)];
        let mut i = In { data: unhex(x.0), sig: unhex(x.1), challenge: sha256(&unhex(x.2)).to_vec(), alg: -7, cert: unhex(x.3), root: None };
        let good = c.idx < 2 || c.rng.chance(1, 10);
        let mut what = "nothing";
        if !good {
            what = match c.rng.below(8) {
                0 => {
                    let j = c.rng.below(i.data.len());
                    i.data[j] ^= 1 << c.rng.below(8);
                    "data"
                }
                1 => {
                    let j = c.rng.below(32);
                    i.challenge[j] ^= 1 << c.rng.below(8);
                    "challenge"
                }
                2 => {
                    // the signed part of the certificate
                    let n = der::parse_cert(&i.cert).unwrap().tbs.len();
                    let j = 4 + c.rng.below(n);
                    i.cert[j] ^= 1 << c.rng.below(8);
                    "certificate"
                }
                3 => {
                    let n = i.cert.len();
                    i.cert[n - 1 - c.rng.below(256)] ^= 1 << c.rng.below(8);
                    "certificate signature"
                }
                4 => {
                    let a = att(&mut c.rng);
                    i.root = Some(a.root_pem);
                    "root"
                }
                5 => {
                    let a = att(&mut c.rng);
                    i.cert = a.cert_der.clone();
                    i.data = a.data.clone();
                    i.sig = a.sig.clone();
                    i.challenge = a.challenge.clone();
                    "chain of another root"
                }
                6 => {
                    i.alg = *c.rng.pick(&[-8, 7, 0, -257, 8, -6]);
                    "algorithm"
                }
                _ => {
                    if x == y {
                        i.challenge = unhex(x.2);
                        "unhashed challenge"
                    } else {
                        i.challenge = sha256(&unhex(y.2)).to_vec();
                        "challenge of another device"
                    }
                }
            };
        }
        c.eval(&i.key());
        let r = i.call(c);
        match (r, good) {
            (Ok(Ok(v)), true) => {
                c.ev("yubico.accepted");
                let d = report_diff(&v, &i.cert, &i.data);
                if !d.is_empty() {
                    c.fail(format!("attestation of a real device reports {:?} differently", d), json!({"in": i.json(), "got": format!("{:?}", v)}));
                }
            }
            (Ok(Err(e)), true) => c.fail(format!("attestation of a real device refused: {:?}", e), i.json()),
            (Err(p), true) => c.fail(format!("attestation of a real device panicked: {}", p.0), i.json()),
            (Ok(Ok(_)), false) => c.fail(format!("attestation accepted under the built-in root with altered {}", what), i.json()),
            _ => c.ev("yubico.refused"),
        }
    });
}

fn alter(r: &mut Rng, a: &Att, i: &mut In) -> &'static str {
    let flip = |r: &mut Rng, v: &mut Vec<u8>| {
        if v.is_empty() {
            v.push(r.byte());
        } else {
            let j = r.below(v.len());
            v[j] ^= 1 << r.below(8);
        }
    };
    match r.below(28) {
        0 => {
            flip(r, &mut i.data);
            "data"
        }
        1 => {
            flip(r, &mut i.challenge);
            "challenge"
        }
        2 => {
            flip(r, &mut i.sig);
            "signature"
        }
        3 | 4 => {
            flip(r, &mut i.cert);
            "certificate"
        }
        5 => {
            let mut d = der::first_pem(i.root.as_ref().unwrap()).unwrap();
            let n = r.range(1, 3);
            for _ in 0..n {
                flip(r, &mut d);
            }
            i.root = Some(der::pem("CERTIFICATE", &d));
            "root"
        }
        6 => {
            i.alg = *r.pick(&[-8, 7, 8, 0, -6, -9, -35, -36, -37, -257, -65535, i32::MIN, i32::MAX, -263, 249]);
            "algorithm"
        }
        7 => {
            i.root = None;
            "root (built-in instead)"
        }
        8 => {
            let b = att(r);
            i.root = Some(b.root_pem);
            "root (another)"
        }
        9 => {
            // same names, other root key
            let (k, md) = root_key(r);
            i.cert = a.cert.signed(&k, md);
            if i.cert == a.cert_der {
                flip(r, &mut i.cert);
            }
            "certificate (signed by another root)"
        }
        10 => {
            let alg = der::sig_alg(&a.att_key, Md::Sha256);
            let _ = alg;
            i.cert = a.cert.signed(&a.att_key, Md::Sha256);
            "certificate (self-signed)"
        }
        11 => {
            let k = Key::gen(r, KT::P256);
            i.sig = der::sign_with(&k, Md::Sha256, &[&i.data[..], &i.challenge].concat());
            "signature (another key)"
        }
        12 => {
            i.sig = der::sign_with(&a.att_key, Md::Sha256, &i.data);
            "signature (data only)"
        }
        13 => {
            i.sig = der::sign_with(&a.att_key, Md::Sha256, &i.challenge);
            "signature (challenge only)"
        }
        14 => {
            i.sig = der::sign_with(&a.att_key, Md::Sha256, &[&i.challenge[..], &i.data].concat());
            "signature (order)"
        }
        15 => {
            let md = *r.pick(&[Md::Sha1, Md::Sha384, Md::Sha512]);
            i.sig = der::sign_with(&a.att_key, md, &[&i.data[..], &i.challenge].concat());
            "signature (digest)"
        }
        16 => {
            if a.root.kt == KT::P256 {
                i.sig = der::sign_with(&a.root, Md::Sha256, &[&i.data[..], &i.challenge].concat());
            } else {
                i.sig.clear();
            }
            "signature (by the root)"
        }
        17 => {
            let b = att(r);
            i.data = b.data;
            "data (another's)"
        }
        18 => {
            let b = att(r);
            i.cert = b.cert_der;
            i.sig = b.sig;
            i.data = b.data;
            i.challenge = b.challenge;
            "chain (of another root)"
        }
        19 => {
            // certificate with another key, properly signed by the root
            let k = Key::gen(r, *[KT::P256, KT::P384, KT::Ed, KT::Rsa].get(r.clone().below(4)).unwrap());
            let mut ce = a.cert.clone();
            ce.spki = der::spki(&k);
            i.cert = ce.signed(&a.root, a.root_md);
            if r.chance(1, 2) {
                i.sig = der::sign_with(&k, Md::Sha256, &[&i.data[..], &i.challenge].concat());
            }
            "certificate (another key)"
        }
        20 => {
            i.data.pop();
            "data (shortened)"
        }
        21 => {
            if r.chance(1, 2) {
                i.challenge.clear();
            } else {
                let n = r.range(1, 5);
                i.challenge.extend(r.bytes(n));
            }
            "challenge (length)"
        }
        22 => {
            havoc(r, &mut i.cert);
            "certificate (damaged)"
        }
        23 => {
            // signed contents replaced, old signature kept
            let mut ce = a.cert.clone();
            if r.chance(1, 2) {
                let v = r.bytes(3);
                ce.ext.retain(|e| e.0 != FW_OID);
                ce.ext.push((FW_OID.into(), false, der::octets(&v)));
            } else {
                let k = Key::gen(r, KT::P256);
                ce.spki = der::spki(&k);
                i.sig = der::sign_with(&k, Md::Sha256, &[&i.data[..], &i.challenge].concat());
            }
            let alg = der::sig_alg(&a.root, a.root_md);
            let old = der::parse_cert(&a.cert_der).unwrap().sig.to_vec();
            i.cert = der::seq(&[&ce.tbs(&alg), &alg, &der::bits(&old, 0)]);
            "certificate (contents)"
        }
        24 => {
            i.root = Some((*r.pick(&["", "-----BEGIN CERTIFICATE-----", "-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----\n", "x", "-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n"])).into());
            "root (unusable)"
        }
        25 | 26 => {
            // a certificate that looks like the root, or says it is its own issuer
            let mut ce = a.cert.clone();
            ce.imitate(r, &a.root_cert);
            if r.chance(1, 4) {
                ce.subject = ce.issuer.clone();
            }
            i.cert = if r.chance(1, 2) {
                ce.signed(&a.att_key, Md::Sha256)
            } else {
                let (k, md) = root_key(r);
                ce.signed(&k, md)
            };
            "certificate (looks like the root)"
        }
        _ => {
            i.sig = match r.below(4) {
                0 => vec![],
                1 => der::seq(&[&der::int(&[]), &der::int(&[])]),
                2 => der::seq(&[&der::int(&[1]), &der::int(&[1])]),
                _ => r.bytes(71),
            };
            "signature (trivial)"
        }
    }
}
