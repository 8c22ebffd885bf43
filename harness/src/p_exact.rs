//! C29: every byte of an accepted object is accounted for.
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::refcert::*;
use crate::rng::Rng;
use crate::wire::{b64, hexs, R, W};
use serde_json::json;
use sshcerts::ssh::{AllowedSigner, CertType, SshSignature, VerifiedSshSignature};
use sshcerts::{Certificate, PrivateKey, PublicKey};
use std::collections::HashSet;

const SUBJECTS: [KT; 7] = [KT::Rsa, KT::Ed, KT::P256, KT::P384, KT::P521, KT::SkEd, KT::SkEc];
const CAS: [KT; 6] = [KT::Rsa, KT::Ed, KT::P256, KT::P384, KT::SkEd, KT::SkEc];

/// A key blob that is exactly one key.
fn exact_key(d: &[u8]) -> bool {
    let mut r = R::new(d);
    let name = match r.s() {
        Some(n) => n,
        None => return false,
    };
    let fields = match name {
        b"ssh-rsa" | b"rsa-sha2-256" | b"rsa-sha2-512" => 2,
        b"ssh-ed25519" => 1,
        b"sk-ssh-ed25519@openssh.com" | b"ecdsa-sha2-nistp256" | b"ecdsa-sha2-nistp384" | b"ecdsa-sha2-nistp521" => 2,
        b"sk-ecdsa-sha2-nistp256@openssh.com" => 3,
        _ => return false,
    };
    (0..fields).all(|_| r.s().is_some()) && r.left() == 0
}
/// A signature blob that is exactly one signature.
fn exact_sig(d: &[u8]) -> bool {
    let mut r = R::new(d);
    let (label, body) = match (r.s(), r.s()) {
        (Some(l), Some(b)) => (l, b),
        _ => return false,
    };
    let ec = label.starts_with(b"ecdsa-") || label.starts_with(b"sk-ecdsa-");
    if ec {
        let mut q = R::new(body);
        if q.s().is_none() || q.s().is_none() || q.left() != 0 {
            return false;
        }
    }
    if label.starts_with(b"sk-") && (r.raw(1).is_none() || r.u32().is_none()) {
        return false;
    }
    r.left() == 0
}
fn exact_list(d: &[u8]) -> bool {
    let mut r = R::new(d);
    while r.left() > 0 {
        if r.s().is_none() {
            return false;
        }
    }
    true
}
fn exact_options(d: &[u8]) -> bool {
    let mut r = R::new(d);
    let mut seen = HashSet::new();
    while r.left() > 0 {
        let (n, v) = match (r.s(), r.s()) {
            (Some(n), Some(v)) => (n, v),
            _ => return false,
        };
        if !seen.insert(n.to_vec()) {
            return false;
        }
        let mut q = R::new(v);
        if !v.is_empty() && (q.s().is_none() || q.left() != 0) {
            return false;
        }
    }
    true
}
/// Certificate bytes without anything left over or lost in them.
fn exact_cert(d: &[u8]) -> Option<()> {
    let mut r = R::new(d);
    let kt = KT::from_cert_name(r.s()?)?;
    r.s()?;
    let n = match kt {
        KT::Rsa | KT::P256 | KT::P384 | KT::P521 | KT::SkEd => 2,
        KT::Ed => 1,
        _ => 3,
    };
    for _ in 0..n {
        r.s()?;
    }
    r.u64()?;
    r.u32()?;
    r.s()?;
    let principals = r.s()?;
    r.u64()?;
    r.u64()?;
    let (crit, ext) = (r.s()?, r.s()?);
    r.s()?;
    let ca = r.s()?;
    let sig = r.s()?;
    (r.left() == 0 && exact_list(principals) && exact_options(crit) && exact_options(ext) && exact_key(ca) && exact_sig(sig)).then_some(())
}
fn exact_sshsig(d: &[u8]) -> Option<()> {
    let mut r = R::new(d);
    if r.raw(6)? != b"SSHSIG" {
        return None;
    }
    r.u32()?;
    let key = r.s()?;
    r.s()?;
    r.s()?;
    r.s()?;
    let sig = r.s()?;
    (r.left() == 0 && exact_key(key) && exact_sig(sig)).then_some(())
}

fn key(r: &mut Rng, kt: KT) -> Key {
    if kt == KT::Rsa {
        Key::rsa(*r.pick(&[0usize, 1, 2]))
    } else {
        Key::gen(r, kt)
    }
}
/// Something to leave over.
fn extra(r: &mut Rng) -> Vec<u8> {
    match r.below(8) {
        0 => vec![0],
        1 => vec![0; 4],
        2 => W::new().s(b"").s(b"").0,
        3 => W::new().s(b"more").0,
        4 => {
            let n = r.range(1, 9);
            r.bytes(n)
        }
        5 => vec![0xff; 4],
        6 => {
            let n = r.range(1, 300);
            r.bytes(n)
        }
        _ => vec![b'\n'],
    }
}

/// Reads certificate bytes; what is accepted has to be exact. Returns whether it was accepted.
fn read_cert(c: &mut Case<'_>, d: &[u8], what: &str) -> bool {
    let text = match c.rng.below(4) {
        0 => {
            let n = R::new(d).s().map(|n| String::from_utf8_lossy(n).to_string()).unwrap_or_default();
            Some(format!("{} {} someone", n, b64(d)))
        }
        _ => None,
    };
    let r = match &text {
        Some(t) => c.call("Certificate::from_string", || Certificate::from_string(t).is_ok()),
        None => c.call("Certificate::from_bytes", || Certificate::from_bytes(d).is_ok()),
    };
    let ok = matches!(r, Ok(true));
    if ok && exact_cert(d).is_none() {
        c.fail(
            format!("a certificate with bytes that are not part of any field (or an option given twice) was accepted: {}", what),
            json!({"what": what, "certificate": hexs(d)}),
        );
    }
    ok
}
fn read_key(c: &mut Case<'_>, d: &[u8], what: &str) -> bool {
    let name = R::new(d).s().map(|n| String::from_utf8_lossy(n).to_string()).unwrap_or_default();
    let (via, r) = match c.rng.below(4) {
        0 | 1 => ("PublicKey::from_bytes", c.call("PublicKey::from_bytes", || PublicKey::from_bytes(d).is_ok())),
        2 => {
            let t = format!("{} {} someone", name, b64(d));
            ("PublicKey::from_string", c.call("PublicKey::from_string", || PublicKey::from_string(&t).is_ok()))
        }
        _ => {
            let t = format!("someone@host {} {}", name, b64(d));
            ("AllowedSigner::from_string", c.call("AllowedSigner::from_string", || AllowedSigner::from_string(&t).is_ok()))
        }
    };
    let ok = matches!(r, Ok(true));
    if ok && !exact_key(d) {
        c.fail(
            format!("a public key with bytes that are not part of the key was accepted by {}: {}", via, what),
            json!({"what": what, "via": via, "blob": hexs(d)}),
        );
    }
    ok
}
fn read_sshsig(c: &mut Case<'_>, d: &[u8], msg: &[u8], ns: &str, what: &str) -> bool {
    let t = armor("SSH SIGNATURE", d, 70, true);
    let r = c.call("detached verification", || match SshSignature::from_armored_string(&t) {
        Ok(s) => VerifiedSshSignature::from_ssh_signature(msg, s, ns, None).is_ok(),
        Err(_) => false,
    });
    let ok = matches!(r, Ok(true));
    if ok && exact_sshsig(d).is_none() {
        c.fail(
            format!("a detached signature with bytes that are not part of it was verified: {}", what),
            json!({"what": what, "signature": t, "namespace": ns}),
        );
    }
    ok
}

/// The certificate content with raw lists.
struct Raw {
    spec: Spec,
    principals: Vec<u8>,
    crit: Vec<u8>,
    ext: Vec<u8>,
    ca: Vec<u8>,
}
impl Raw {
    fn of(spec: &Spec) -> Raw {
        Raw {
            principals: enc_list(&spec.principals),
            crit: enc_options(&spec.crit),
            ext: enc_options(&spec.ext),
            ca: spec.ca.clone(),
            spec: spec.clone(),
        }
    }
    fn tbs(&self) -> Vec<u8> {
        let s = &self.spec;
        W::new()
            .s(s.kt.cert_name().as_bytes())
            .s(&s.nonce)
            .raw(&s.subject)
            .u64(s.serial)
            .u32(s.ctype)
            .s(&s.key_id)
            .s(&self.principals)
            .u64(s.after)
            .u64(s.before)
            .s(&self.crit)
            .s(&self.ext)
            .s(&s.reserved)
            .s(&self.ca)
            .0
    }
    fn signed(&self, ca: &Key, o: SigOpt) -> Vec<u8> {
        let tbs = self.tbs();
        W::new().raw(&tbs).s(&ca.sign(&tbs, o)).0
    }
}
/// The signature with something left over in it, as (what, blob).
fn loose_sigs(r: &mut Rng, k: &Key, sig: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let x = extra(r);
    let mut v = vec![("bytes after the signature proper", [sig, &x[..]].concat())];
    let mut q = R::new(sig);
    let (label, body) = (q.s().unwrap().to_vec(), q.s().unwrap().to_vec());
    let rest = sig[q.o..].to_vec();
    if k.kt.is_ec() {
        v.push(("bytes after s", W::new().s(&label).s(&[&body[..], &extra(r)[..]].concat()).raw(&rest).0));
    }
    if k.kt.is_sk() {
        v.push(("a second counter", [sig, &rest[..]].concat()));
    }
    v
}
/// One option list with something wrong in it; None if this list cannot have it.
fn loose_options(r: &mut Rng, o: &[(Vec<u8>, Vec<u8>)]) -> Vec<(&'static str, Vec<u8>)> {
    let enc = enc_options(o);
    let mut v = vec![];
    let x = extra(r);
    if !exact_options(&[&enc[..], &x[..]].concat()) {
        v.push(("bytes after the last option", [&enc[..], &x[..]].concat()));
    }
    v.push(("a name without a value", W::new().raw(&enc).s(b"zzz-last").0));
    v.push(("a name that is cut short", W::new().raw(&enc).u32(9).raw(b"permit-x").0));
    let raw = |items: &[(Vec<u8>, Vec<u8>)]| items.iter().fold(W::new(), |w, (n, v)| w.s(n).s(v)).0;
    let items: Vec<(Vec<u8>, Vec<u8>)> = o.iter().map(|(n, v)| (n.clone(), if v.is_empty() { vec![] } else { W::new().s(v).0 })).collect();
    if !items.is_empty() {
        let i = r.below(items.len());
        let mut a = items.clone();
        if a[i].1.is_empty() {
            a[i].1 = W::new().s(b"").0;
        }
        let x = extra(r);
        a[i].1.extend_from_slice(&x);
        v.push(("bytes after the text of a value", raw(&a)));
        let mut a = items.clone();
        a[i].1 = W::new().s(b"one").s(b"two").0;
        v.push(("a value with two texts", raw(&a)));
        let mut a = items.clone();
        a[i].1 = vec![0; r.range(1, 3)];
        v.push(("a value that is cut short", raw(&a)));
        let mut a = items.clone();
        a[i].1 = W::new().u32(40).raw(b"short").0;
        v.push(("a value whose text is cut short", raw(&a)));
        // the same option again
        let mut a = items.clone();
        let d = a[i].clone();
        a.insert(i + 1, d);
        v.push(("an option twice", raw(&a)));
        let mut a = items.clone();
        let d = (a[i].0.clone(), W::new().s(b"another value").0);
        let at = if r.chance(1, 2) { i + 1 } else { i };
        a.insert(at, d);
        v.push(("an option twice with different values", raw(&a)));
        let mut a = items.clone();
        let d = (a[i].0.clone(), vec![]);
        a.push(d);
        v.push(("an option again at the end without a value", raw(&a)));
    }
    v
}

pub fn c29(m: &'static Mon) {
    m.rule("one evaluation = one object (certificate, public key, detached signature, signature given to a certificate) that is correctly signed but carries something extra, missing or repeated, answered by the library; distinct = distinct (object, key types, kind and place of the excess)");
    m.assume("a panic counts as a refusal here; the genuine objects have to be accepted for the rest to mean anything, which is counted");
    m.section("certificates", m.n(2100), |c| {
        let skt = SUBJECTS[c.idx as usize % SUBJECTS.len()];
        let ckt = CAS[(c.idx as usize / SUBJECTS.len()) % CAS.len()];
        let sub = key(&mut c.rng, skt);
        let ca = key(&mut c.rng, ckt);
        let mut spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        while spec.tbs().len() > 4000 {
            spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        }
        if spec.crit.is_empty() && c.rng.chance(2, 3) {
            spec.crit.push((b"force-command".to_vec(), b"/bin/true".to_vec()));
        }
        if spec.ext.is_empty() && c.rng.chance(2, 3) {
            spec.ext.push((b"permit-pty".to_vec(), vec![]));
        }
        let o = SigOpt { rsa: *c.rng.pick(&[RsaHash::Sha256, RsaHash::Sha512]), ..SigOpt::random(&mut c.rng) };
        let good = spec.signed(&ca, o);
        let tag = |w: &str| format!("cert/{:?}/{:?}/{}", skt, ckt, w).into_bytes();
        c.eval(&tag("genuine"));
        let ok = read_cert(c, &good, "genuine");
        c.ev(if ok { "genuine.accepted" } else { "genuine.rejected" });
        c.sample(|| json!({"cert": spec.brief(), "genuine_accepted": ok}));
        let (tbs, sig) = {
            let (t, _, s) = split(&good).unwrap();
            (t.to_vec(), s.to_vec())
        };
        // behind the signature
        for _ in 0..3 {
            let x = extra(&mut c.rng);
            c.eval(&tag("after"));
            read_cert(c, &[&good[..], &x[..]].concat(), "bytes after the certificate");
        }
        c.eval(&tag("after copy"));
        read_cert(c, &[&good[..], &good[..]].concat(), "the certificate twice");
        // inside the signature
        for (w, s) in loose_sigs(&mut c.rng, &ca, &sig) {
            c.eval(&tag(w));
            read_cert(c, &W::new().raw(&tbs).s(&s).0, w);
        }
        // inside the signed part, really signed
        let mut forms: Vec<(String, Raw)> = vec![];
        {
            let r = &mut c.rng;
            for (w, l) in loose_options(r, &spec.crit) {
                forms.push((format!("critical options: {}", w), Raw { crit: l, ..Raw::of(&spec) }));
            }
            for (w, l) in loose_options(r, &spec.ext) {
                forms.push((format!("extensions: {}", w), Raw { ext: l, ..Raw::of(&spec) }));
            }
            let p = enc_list(&spec.principals);
            let cut = r.range(1, 3);
            forms.push(("principals: up to three bytes after the last one".into(), Raw { principals: [&p[..], &vec![0u8; cut][..]].concat(), ..Raw::of(&spec) }));
            forms.push(("principals: the last one is cut short".into(), Raw { principals: W::new().raw(&p).u32(5).raw(b"root").0, ..Raw::of(&spec) }));
            forms.push(("principals: a huge length at the end".into(), Raw { principals: W::new().raw(&p).u32(u32::MAX).raw(b"root").0, ..Raw::of(&spec) }));
            if p.len() > 4 {
                let n = r.range(1, 3.min(p.len() - 1));
                let q = p[..p.len() - n].to_vec();
                forms.push(("principals: last bytes missing".into(), Raw { principals: q, ..Raw::of(&spec) }));
            }
            let x = extra(r);
            forms.push(("bytes after the CA key".into(), Raw { ca: [&spec.ca[..], &x[..]].concat(), ..Raw::of(&spec) }));
        }
        for (w, f) in forms {
            let d = f.signed(&ca, o);
            c.eval(&tag(&w));
            c.ev(if exact_cert(&d).is_none() { "loose" } else { "exact after all" });
            read_cert(c, &d, &w);
        }
        // random damage of the lists, really signed
        for _ in 0..12 {
            let mut f = Raw::of(&spec);
            let r = &mut c.rng;
            let l = match r.below(3) {
                0 => &mut f.principals,
                1 => &mut f.crit,
                _ => &mut f.ext,
            };
            if l.is_empty() {
                *l = extra(r);
            } else {
                let i = r.below(l.len());
                match r.below(4) {
                    0 => l[i] ^= 1 << r.below(8),
                    1 => {
                        l.remove(i);
                    }
                    2 => l.insert(i, r.byte()),
                    _ => l.truncate(i),
                }
            }
            let d = f.signed(&ca, o);
            c.eval(&tag("random damage of a list"));
            c.ev(if exact_cert(&d).is_none() { "loose" } else { "exact after all" });
            read_cert(c, &d, "random damage of a list");
        }
    });
    // signatures attached to a certificate by its issuer
    m.section("attached", m.n(900), |c| {
        let skt = *c.rng.pick(&SUBJECTS);
        let ckt = CAS[c.idx as usize % CAS.len()];
        let sub = key(&mut c.rng, skt);
        let ca = key(&mut c.rng, ckt);
        let (sk, ck) = match (PublicKey::from_bytes(&sub.blob()), PublicKey::from_bytes(&ca.blob())) {
            (Ok(a), Ok(b)) => (a, b),
            _ => return,
        };
        let cert = match Certificate::builder(&sk, CertType::User, &ck) {
            Ok(x) => x.key_id("x").principal("root").valid_before(u64::MAX),
            Err(_) => return,
        };
        let o = SigOpt { rsa: RsaHash::Sha512, ..SigOpt::random(&mut c.rng) };
        let sig = ca.sign(&cert.tbs_certificate(), o);
        let tag = |w: &str| format!("attach/{:?}/{:?}/{}", skt, ckt, w).into_bytes();
        let cl = cert.clone();
        let ok = matches!(c.call("add_signature", || cl.add_signature(&sig).is_ok()), Ok(true));
        c.eval(&tag("genuine"));
        c.ev(if ok { "genuine.accepted" } else { "genuine.rejected" });
        for (w, s) in loose_sigs(&mut c.rng, &ca, &sig) {
            c.eval(&tag(w));
            let cl = cert.clone();
            if matches!(c.call("add_signature", || cl.add_signature(&s).is_ok()), Ok(true)) {
                c.fail(format!("a signature with bytes that are not part of it was attached: {}", w), json!({"what": w, "signature": hexs(&s), "tbs": hexs(&cert.tbs_certificate())}));
            }
        }
    });
    m.section("public-keys", m.n(3500), |c| {
        let kt = SUBJECTS[c.idx as usize % SUBJECTS.len()];
        let k = if kt == KT::Rsa { Key::rsa(c.rng.below(12)) } else { Key::gen(&mut c.rng, kt) };
        let blob = k.blob();
        let tag = |w: &str| format!("key/{:?}/{}", kt, w).into_bytes();
        c.eval(&tag("genuine"));
        let ok = read_key(c, &blob, "genuine");
        c.ev(if ok { "genuine.accepted" } else { "genuine.rejected" });
        for _ in 0..6 {
            let x = extra(&mut c.rng);
            c.eval(&tag(&format!("after {}", x.len().min(12))));
            read_key(c, &[&blob[..], &x[..]].concat(), "bytes after the key");
        }
        c.eval(&tag("twice"));
        read_key(c, &[&blob[..], &blob[..]].concat(), "the key twice");
        if kt == KT::Ed || kt == KT::P256 {
            // a plain key that goes on like a security key
            c.eval(&tag("application"));
            read_key(c, &W::new().raw(&blob).s(b"ssh:").0, "an application after a plain key");
        }
        // as the declared public key of a private key file
        let x = PrivExtra { ..Default::default() };
        let mut f = PrivFile::new(&k, &x, "someone", 7);
        let good = f.text();
        let ok = matches!(c.call("PrivateKey::from_string", || PrivateKey::from_string(&good).is_ok()), Ok(true));
        c.ev(if ok { "private.accepted" } else { "private.rejected" });
        let e = extra(&mut c.rng);
        f.public.extend_from_slice(&e);
        let t = f.text();
        c.eval(&tag("declared"));
        if matches!(c.call("PrivateKey::from_string", || PrivateKey::from_string(&t).is_ok()), Ok(true)) {
            c.fail("a private key file whose declared public key has bytes after the key was accepted", json!({"file": t}));
        }
    });
    m.section("detached", m.n(1800), |c| {
        let kt = CAS[c.idx as usize % CAS.len()];
        let k = key(&mut c.rng, kt);
        let msg = c.rng.blob(200);
        let ns = c.rng.word(20);
        let ns = if ns.is_empty() { "file".to_string() } else { ns };
        let hash = *c.rng.pick(&["sha256", "sha512"]);
        let o = SigOpt { rsa: *c.rng.pick(&[RsaHash::Sha256, RsaHash::Sha512]), ..SigOpt::random(&mut c.rng) };
        let tbs = sshsig_tbs(ns.as_bytes(), b"", hash.as_bytes(), &sshsig_digest(hash, &msg));
        let sig = k.sign(&tbs, o);
        let kb = k.blob();
        let good = sshsig_blob(&kb, ns.as_bytes(), b"", hash.as_bytes(), &sig);
        let tag = |w: &str| format!("detached/{:?}/{}", kt, w).into_bytes();
        c.eval(&tag("genuine"));
        let ok = read_sshsig(c, &good, &msg, &ns, "genuine");
        c.ev(if ok { "genuine.accepted" } else { "genuine.rejected" });
        for _ in 0..3 {
            let x = extra(&mut c.rng);
            c.eval(&tag("after"));
            read_sshsig(c, &[&good[..], &x[..]].concat(), &msg, &ns, "bytes after the signature");
        }
        for (w, s) in loose_sigs(&mut c.rng, &k, &sig) {
            c.eval(&tag(w));
            read_sshsig(c, &sshsig_blob(&kb, ns.as_bytes(), b"", hash.as_bytes(), &s), &msg, &ns, w);
        }
        let x = extra(&mut c.rng);
        c.eval(&tag("key"));
        let kb2 = [&kb[..], &x[..]].concat();
        read_sshsig(c, &sshsig_blob(&kb2, ns.as_bytes(), b"", hash.as_bytes(), &sig), &msg, &ns, "bytes after the embedded key");
    });
}
