//! C01-C04, C26: certificates.
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::refcert::*;
use crate::rng::Rng;
use crate::wire::{b64, hexs, R, W};
use serde_json::json;
use sshcerts::ssh::{PrivateKey, SSHCertificateSigner};
use sshcerts::{CertType, Certificate, PublicKey};
use std::collections::HashMap;

/// CA variants: key type and, for RSA, the hash.
pub const CAS: [(KT, RsaHash); 8] = [
    (KT::Rsa, RsaHash::Sha1),
    (KT::Rsa, RsaHash::Sha256),
    (KT::Rsa, RsaHash::Sha512),
    (KT::P256, RsaHash::Sha512),
    (KT::P384, RsaHash::Sha512),
    (KT::Ed, RsaHash::Sha512),
    (KT::SkEd, RsaHash::Sha512),
    (KT::SkEc, RsaHash::Sha512),
];

fn small_key(r: &mut Rng, kt: KT) -> Key {
    if kt == KT::Rsa {
        let i = if r.chance(1, 10) { r.below(12) } else { r.below(3) };
        Key::rsa(i)
    } else {
        Key::gen(r, kt)
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Via {
    Bytes,
    Line,
    LineWs,
    Path,
}

fn via_text(line: &str, bytes: &[u8], via: Via, c: &mut Case<'_>) -> Option<Certificate> {
    match via {
        Via::Bytes => c.call("Certificate::from_bytes", || Certificate::from_bytes(bytes)).ok()?.ok(),
        Via::Line => c.call("Certificate::from_string", || Certificate::from_string(line)).ok()?.ok(),
        Via::LineWs => {
            let l = format!("  {}\t\r\n", line.replace(' ', " \t"));
            c.call("Certificate::from_string", || Certificate::from_string(&l)).ok()?.ok()
        }
        Via::Path => {
            let p = c.mon.scratch.join(format!("cert-{}-{}.pub", c.section, c.idx));
            std::fs::write(&p, format!("{}\n", line)).unwrap();
            let r = c.call("Certificate::from_path", || Certificate::from_path(&p));
            let _ = std::fs::remove_file(&p);
            r.ok()?.ok()
        }
    }
}
/// Reads certificate bytes in the given way; None when refused (or panicked).
fn read(c: &mut Case<'_>, bytes: &[u8], via: Via) -> Option<Certificate> {
    let line = match via {
        Via::Bytes => String::new(),
        _ => {
            let name = R::new(bytes).s().map(|n| String::from_utf8_lossy(n).to_string()).unwrap_or_default();
            format!("{} {}", name, b64(bytes))
        }
    };
    via_text(&line, bytes, via, c)
}

/// The monitor of C01: an accepted certificate must be really signed.
fn sound(c: &mut Case<'_>, bytes: &[u8], via: Via, what: &str) -> bool {
    let r = read(c, bytes, via);
    c.ev(if r.is_some() { "tampered.accepted" } else { "tampered.rejected" });
    if let Some(cert) = r {
        let v = judge(bytes);
        if v == V::Invalid {
            c.fail(
                format!("certificate accepted although its signature is not valid for it ({})", what),
                json!({"via": format!("{:?}", via), "bytes": hexs(bytes)}),
            );
            return false;
        }
        // the object must speak about the same signer
        if let Some((_, ca, sig)) = split(bytes) {
            let cab = pub_blob(&cert.signature_key);
            // key blobs with bytes after the key are the same key
            let same = ca == &cab[..] || ca.starts_with(&cab) || parse_pub(ca).map(|p| p.0 == KT::Rsa).unwrap_or(false);
            if !same || cert.signature != sig {
                c.fail(
                    format!("accepted certificate reports another signer or signature than it carries ({})", what),
                    json!({"via": format!("{:?}", via), "bytes": hexs(bytes)}),
                );
            }
        }
    }
    true
}

fn pick_via(r: &mut Rng) -> Via {
    match r.below(20) {
        0 => Via::Path,
        1..=4 => Via::Line,
        5 => Via::LineWs,
        _ => Via::Bytes,
    }
}

pub fn c01(m: &'static Mon) {
    m.rule("one evaluation = one certificate byte string read by the library and, when it was accepted, judged by libcrypto over independently split bytes; distinct = distinct (subject type, CA type, alteration kind, altered offset or field)");
    m.assume("libcrypto's RSA, ECDSA and Ed25519 verification is correct; a panic counts as a refusal here (C15 judges panics)");
    let reps = if m.thorough { 12 } else { 2 };
    // every byte of a certificate of every subject/CA combination
    m.section("byte-sweep", (ALL.len() * CAS.len() * reps) as u64, |c| {
        let combo = c.idx as usize % (ALL.len() * CAS.len());
        let (skt, (ckt, h)) = (ALL[combo % ALL.len()], CAS[combo / ALL.len()]);
        let sub = small_key(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, ckt);
        let spec = {
            let mut s = Spec::gen(&mut c.rng, &sub, &ca, false);
            while s.tbs().len() > 1800 {
                s = Spec::gen(&mut c.rng, &sub, &ca, false);
            }
            s
        };
        let o = SigOpt { rsa: h, ..SigOpt::random(&mut c.rng) };
        let good = spec.signed(&ca, o);
        let ok = read(c, &good, Via::Bytes).is_some();
        c.ev(if ok { "genuine.accepted" } else { "genuine.rejected" });
        c.sample(|| json!({"cert": spec.brief(), "len": good.len(), "genuine_accepted": ok}));
        let n = good.len();
        for off in 0..n {
            let mut b = good.clone();
            b[off] ^= 1 << c.rng.below(8);
            c.eval(&[skt as u8, ckt as u8, h as u8, 0, (off >> 8) as u8, off as u8]);
            let via = if off % 16 == 0 { pick_via(&mut c.rng) } else { Via::Bytes };
            if !sound(c, &b, via, &format!("bit flip at byte {} of {}", off, n)) {
                return;
            }
            if off % 7 == 3 {
                // again after the genuine one
                let _ = read(c, &good, Via::Bytes);
            }
        }
        // other changes of the same bytes
        for off in (0..n).step_by(3) {
            let mut b = good.clone();
            match c.rng.below(5) {
                0 => b[off] = b[off].wrapping_add(1),
                1 => b[off] = 0,
                2 => b[off] = 0xff,
                3 => {
                    b.remove(off);
                }
                _ => b.insert(off, c.rng.byte()),
            }
            if b == good {
                continue;
            }
            c.eval(&[skt as u8, ckt as u8, h as u8, 1, (off >> 8) as u8, off as u8]);
            if !sound(c, &b, Via::Bytes, &format!("byte replaced, removed or inserted at {}", off)) {
                return;
            }
        }
        // truncations
        for len in (0..n).step_by(if m.thorough { 1 } else { 5 }) {
            c.eval(&[skt as u8, ckt as u8, h as u8, 2, (len >> 8) as u8, len as u8]);
            if !sound(c, &good[..len], Via::Bytes, &format!("truncated to {} of {}", len, n)) {
                return;
            }
        }
    });
    // field level edits under the old signature
    m.section("field-edits", m.n(700), |c| {
        let skt = *c.rng.pick(&ALL);
        let (ckt, h) = *c.rng.pick(&CAS);
        let sub = small_key(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, ckt);
        let spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let o = SigOpt { rsa: h, ..SigOpt::random(&mut c.rng) };
        let good = spec.signed(&ca, o);
        let sig = split(&good).unwrap().2.to_vec();
        let mut edits: Vec<(String, Spec)> = vec![];
        {
            let r = &mut c.rng;
            let mut e = |n: &str, s: Spec| edits.push((n.to_string(), s));
            e("serial+1", Spec { serial: spec.serial.wrapping_add(1), ..spec.clone() });
            e("serial bit", Spec { serial: spec.serial ^ (1 << r.below(64)), ..spec.clone() });
            e("kind swapped", Spec { ctype: 3 - spec.ctype, ..spec.clone() });
            e("kind other", Spec { ctype: r.val32(), ..spec.clone() });
            e("valid_after", Spec { after: spec.after ^ (1 << r.below(64)), ..spec.clone() });
            e("valid_before", Spec { before: spec.before ^ (1 << r.below(64)), ..spec.clone() });
            e("valid_before max", Spec { before: u64::MAX, ..spec.clone() });
            e("valid_after zero", Spec { after: 0, ..spec.clone() });
            e("validity swapped", Spec { before: spec.after, after: spec.before, ..spec.clone() });
            let mut s = spec.clone();
            s.key_id.push(b'x');
            e("key id longer", s);
            let mut s = spec.clone();
            s.key_id.pop();
            e("key id shorter", s);
            let mut s = spec.clone();
            s.principals.push(b"root".to_vec());
            e("principal added", s);
            let mut s = spec.clone();
            s.principals.pop();
            e("principal removed", s);
            e("principals removed", Spec { principals: vec![], ..spec.clone() });
            let mut s = spec.clone();
            s.principals.reverse();
            e("principals reversed", s);
            if let Some(p) = spec.principals.first() {
                let mut s = spec.clone();
                s.principals[0] = [&p[..], b"\0"].concat();
                e("principal with NUL", s);
                let mut s = spec.clone();
                s.principals[0] = p.to_ascii_uppercase();
                e("principal case", s);
            }
            e("critical options removed", Spec { crit: vec![], ..spec.clone() });
            let mut s = spec.clone();
            s.crit.pop();
            e("critical option removed", s);
            let mut s = spec.clone();
            s.ext.push((b"zzz".to_vec(), vec![]));
            e("extension added", s);
            e("extensions removed", Spec { ext: vec![], ..spec.clone() });
            e("options moved", Spec { ext: spec.crit.clone(), crit: spec.ext.clone(), ..spec.clone() });
            let mut s = spec.clone();
            if let Some(x) = s.crit.first_mut() {
                x.1.push(b'!');
            }
            e("critical option value", s);
            e("nonce", Spec { nonce: r.bytes(spec.nonce.len()), ..spec.clone() });
            e("nonce emptied", Spec { nonce: vec![], ..spec.clone() });
            e("reserved", Spec { reserved: r.bytes(3), ..spec.clone() });
            let k2 = small_key(r, skt);
            e("subject replaced", Spec { subject: k2.pub_fields(), ..spec.clone() });
            e("CA replaced", Spec { ca: small_key(r, ckt).blob(), ..spec.clone() });
            let o = *r.pick(&VERIFIABLE);
            e("CA of other type", Spec { ca: small_key(r, o).blob(), ..spec.clone() });
            if ckt.is_sk() {
                let mut a = ca.app.clone();
                a.push(b'x');
                e("CA application", Spec { ca: ca.with_app(&a).blob(), ..spec.clone() });
            }
            let o = *r.pick(&ALL);
            let k3 = small_key(r, o);
            e("subject of other type", Spec { kt: o, subject: k3.pub_fields(), ..spec.clone() });
            e("CA with trailing bytes", Spec { ca: [&spec.ca[..], b"\0\0\0\0"].concat(), ..spec.clone() });
        }
        let _ = read(c, &good, Via::Bytes);
        for (n, s) in edits {
            if s == spec {
                continue;
            }
            let b = W::new().raw(&s.tbs()).s(&sig).0;
            c.eval(format!("{:?}{:?}{:?}{}", skt, ckt, h, n).as_bytes());
            let via = pick_via(&mut c.rng);
            if !sound(c, &b, via, &n) {
                return;
            }
        }
    });
    // certificates signed over something else, or by someone else
    m.section("wrong-signature", m.n(700), |c| {
        let skt = *c.rng.pick(&ALL);
        let (ckt, h) = *c.rng.pick(&CAS);
        let sub = small_key(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, ckt);
        let mut other = small_key(&mut c.rng, ckt);
        if other.blob() == ca.blob() {
            other = Key::rsa((ca.rsa + 1) % 3);
        }
        let spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let o = SigOpt { rsa: h, ..SigOpt::random(&mut c.rng) };
        let tbs = spec.tbs();
        let mut list: Vec<(&str, Vec<u8>)> = vec![];
        let twin = Spec { serial: spec.serial ^ 1, ..spec.clone() };
        let _ = read(c, &twin.signed(&ca, o), Via::Bytes);
        list.push(("signature of a certificate with another serial", ca.sign(&twin.tbs(), o)));
        let twin = Spec { nonce: c.rng.bytes(32), ..spec.clone() };
        list.push(("signature of a certificate with another nonce", ca.sign(&twin.tbs(), o)));
        list.push(("signature of another key of that type", other.sign(&tbs, o)));
        list.push(("signature without the last byte", ca.sign(&tbs[..tbs.len() - 1], o)));
        list.push(("signature without the first byte", ca.sign(&tbs[1..], o)));
        list.push(("signature of nothing", ca.sign(b"", o)));
        let lay = spec.layout();
        let at = |n: &str| lay.iter().find(|l| l.0 == n).unwrap().1;
        list.push(("signature without the CA key", ca.sign(&tbs[..at("ca")], o)));
        list.push(("signature without type", ca.sign(&tbs[at("nonce")..], o)));
        list.push(("signature without reserved", ca.sign(&[&tbs[..at("reserved")], &tbs[at("ca")..]].concat(), o)));
        list.push(("signature of its hash", ca.sign(&openssl::sha::sha256(&tbs), o)));
        list.push(("signature of body and empty signature", ca.sign(&[&tbs[..], &[0, 0, 0, 0]].concat(), o)));
        list.push(("subject's own signature", sub.sign(&tbs, o)));
        let good = ca.sign(&tbs, o);
        let mut x = good.clone();
        x.truncate(good.len() - 1);
        list.push(("truncated signature", x));
        list.push(("empty signature", vec![]));
        // label swaps
        for l in ["ssh-rsa", "rsa-sha2-256", "rsa-sha2-512", "ssh-ed25519", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521", "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com"] {
            let mut r = R::new(&good);
            let old = r.s().unwrap();
            if old != l.as_bytes() {
                list.push(("signature with another label", W::new().s(l.as_bytes()).raw(&good[r.o..]).0));
            }
        }
        if ckt.is_sk() {
            list.push(("security key signature with other flags", {
                let mut g = good.clone();
                let n = g.len();
                g[n - 5] ^= 1 << c.rng.below(8);
                g
            }));
            list.push(("security key signature with other counter", {
                let mut g = good.clone();
                let n = g.len();
                g[n - 1 - c.rng.below(4)] ^= 1 << c.rng.below(8);
                g
            }));
            // a plain signature over the data itself
            let raw = ca.sign_raw(&tbs, o.rsa);
            list.push(("signature over the data without token data", ca.wrap(&raw, o)));
            let wrong = sk_signed(b"", o.flags, o.counter, &tbs);
            if ca.app != b"" {
                let raw = ca.sign_raw(&wrong, o.rsa);
                list.push(("signature for the empty application", ca.wrap(&raw, o)));
            }
        }
        for (n, s) in list {
            let b = W::new().raw(&tbs).s(&s).0;
            c.eval(format!("{:?}{:?}{:?}{}", skt, ckt, h, n).as_bytes());
            let via = pick_via(&mut c.rng);
            if !sound(c, &b, via, n) {
                return;
            }
        }
    });
    // long certificates: alterations far from the start
    m.section("long", m.n(48), |c| {
        let skt = *c.rng.pick(&ALL);
        let (ckt, h) = CAS[c.idx as usize % CAS.len()];
        let sub = small_key(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, ckt);
        let mut spec = Spec::gen(&mut c.rng, &sub, &ca, true);
        let n = *c.rng.pick(&[5000usize, 20000, 66000, 140000, 300000]);
        match c.rng.below(4) {
            0 => spec.key_id = vec![b'k'; n],
            1 => spec.principals = (0..n / 40).map(|i| format!("principal-{:026}", i).into_bytes()).collect(),
            2 => spec.ext = vec![(b"big@example.com".to_vec(), vec![b'v'; n])],
            _ => spec.crit = vec![(b"force-command".to_vec(), vec![b'v'; n])],
        }
        let o = SigOpt { rsa: h, ..SigOpt::random(&mut c.rng) };
        let good = spec.signed(&ca, o);
        let ok = read(c, &good, Via::Bytes).is_some();
        c.ev(if ok { "genuine.accepted" } else { "genuine.rejected" });
        let tl = spec.tbs().len();
        let mut offs: Vec<usize> = spec.layout().iter().flat_map(|l| [l.1.saturating_sub(1), l.1, l.1 + 4]).collect();
        for p in 8..19 {
            let x = 1usize << p;
            offs.extend([x - 1, x, x + 1]);
        }
        for _ in 0..20 {
            offs.push(c.rng.below(good.len()));
        }
        offs.push(tl - 1);
        offs.push(tl + 4);
        for off in offs {
            if off >= good.len() {
                continue;
            }
            let mut b = good.clone();
            b[off] ^= 1 << c.rng.below(8);
            c.eval(&[ckt as u8, h as u8, (off >> 16) as u8, (off >> 8) as u8, off as u8]);
            if !sound(c, &b, Via::Bytes, &format!("bit flip at byte {} of {}", off, good.len())) {
                return;
            }
        }
    });
    // random havoc on genuine certificates, all ways of reading
    m.section("havoc", m.n(6000), |c| {
        let skt = *c.rng.pick(&ALL);
        let (ckt, h) = *c.rng.pick(&CAS);
        let sub = small_key(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, ckt);
        let spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let good = spec.signed(&ca, SigOpt { rsa: h, ..SigOpt::random(&mut c.rng) });
        let mut b = good.clone();
        for _ in 0..c.rng.range(1, 4) {
            crate::mutate::havoc(&mut c.rng, &mut b);
        }
        c.eval(&b);
        let via = pick_via(&mut c.rng);
        sound(c, &b, via, "random alterations");
    });
}

// ---------------------------------------------------------------------------------------------

/// Checks that a genuine certificate is accepted and decoded exactly.
fn exact(c: &mut Case<'_>, spec: &Spec, bytes: &[u8], via: Via, comment: Option<&str>, what: &str) -> bool {
    let sig = split(bytes).map(|s| s.2.to_vec()).unwrap_or_default();
    let line = match comment {
        Some(x) => format!("{} {}", spec.line_of(bytes), x),
        None => spec.line_of(bytes),
    };
    let got = via_text(&line, bytes, via, c);
    let cert = match got {
        Some(x) => x,
        None => {
            c.fail(
                format!("genuine certificate refused ({}, via {:?})", what, via),
                json!({"cert": spec.brief(), "bytes": hexs(bytes)}),
            );
            return false;
        }
    };
    let mut d = diff(&cert, spec, &sig, bytes, false);
    let want = match via {
        Via::Bytes => None,
        _ => comment.map(|s| s.to_string()),
    };
    if cert.comment != want {
        d.push("comment");
    }
    if !d.is_empty() {
        c.fail(
            format!("decoded certificate differs from the encoded one in {:?} ({}, via {:?})", d, what, via),
            json!({"cert": spec.brief(), "fields": d, "bytes": hexs(bytes)}),
        );
        return false;
    }
    c.ev("genuine.accepted.exact");
    true
}

pub fn c02(m: &'static Mon) {
    m.rule("one evaluation = one genuine certificate read by the library and compared field by field with what was encoded; distinct = distinct (subject, CA, hash, field-size shape)");
    m.assume("certificates come from an independent encoder and from ssh-keygen; RSA CA keys of 2048 to 8192 bits with 2 to 33 bit exponents, P-256, P-384, Ed25519 and both security key types are the supported CA keys; strings are UTF-8; a comment is what follows the body on the line");
    m.section("matrix", m.n(12000), |c| {
        let combo = c.idx as usize % (ALL.len() * CAS.len());
        let (skt, (ckt, h)) = (ALL[combo % ALL.len()], CAS[combo / ALL.len()]);
        let sub = Key::gen(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, ckt);
        let mut spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        if skt == KT::Rsa && c.rng.chance(1, 2) {
            spec.subject = any_rsa(&mut c.rng)[11..].to_vec();
        }
        let o = SigOpt { rsa: h, ..SigOpt::random(&mut c.rng) };
        let bytes = spec.signed(&ca, o);
        let via = match c.rng.below(12) {
            0 => Via::Path,
            1..=4 => Via::Line,
            5 => Via::LineWs,
            _ => Via::Bytes,
        };
        let comment = c.rng.chance(1, 2).then(|| match c.rng.below(4) {
            0 if !matches!(via, Via::LineWs) => format!("{}{}{}", c.rng.word(20), c.rng.pick(&[" ", "  ", " - ", "\t", " # "]), c.rng.word(20)),
            1 => format!("{}{}", c.rng.pick(&["#", "//", "-", "=", "\"", "é", "0"]), c.rng.word(9)),
            _ => c.rng.word(40),
        });
        c.eval(format!("{:?}{:?}{:?}{}{}{}", skt, ckt, h, spec.principals.len(), spec.key_id.len(), spec.ext.len()).as_bytes());
        c.sample(|| json!({"cert": spec.brief(), "via": format!("{:?}", via)}));
        exact(c, &spec, &bytes, via, comment.as_deref(), "matrix");
    });
    m.section("large", m.n(60), |c| {
        let skt = *c.rng.pick(&ALL);
        let (ckt, h) = CAS[c.idx as usize % CAS.len()];
        let sub = Key::gen(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, ckt);
        let mut spec = Spec::gen(&mut c.rng, &sub, &ca, true);
        let n = *c.rng.pick(&[4096usize, 65535, 65536, 65537, 131072, 300000]);
        match c.idx / 8 % 5 {
            0 => spec.key_id = vec![b'k'; n],
            1 => spec.principals = (0..n / 40).map(|i| format!("principal-{:026}", i).into_bytes()).collect(),
            2 => spec.ext = vec![(b"big@example.com".to_vec(), vec![b'v'; n])],
            3 => spec.crit = (0..300).map(|i| (format!("o{:04}", i).into_bytes(), format!("{}", i).into_bytes())).collect(),
            _ => spec.nonce = c.rng.bytes(n),
        }
        let bytes = spec.signed(&ca, SigOpt { rsa: h, ..SigOpt::random(&mut c.rng) });
        c.eval(format!("{:?}{:?}{:?}{}", skt, ckt, h, n).as_bytes());
        let via = if c.rng.chance(1, 3) { Via::Path } else { Via::Bytes };
        exact(c, &spec, &bytes, via, None, "large");
    });
    m.section("rsa-ca-sizes", (12 * 3 * if m.thorough { 6 } else { 1 }) as u64, |c| {
        let i = c.idx as usize % 36;
        let ca = Key::rsa(i % 12);
        let h = [RsaHash::Sha1, RsaHash::Sha256, RsaHash::Sha512][i / 12];
        let skt = *c.rng.pick(&ALL);
        let sub = Key::gen(&mut c.rng, skt);
        let spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let bytes = spec.signed(&ca, SigOpt { rsa: h, ..SigOpt::default() });
        c.eval(format!("{}{:?}", RSA_POOL[i % 12].0, h).as_bytes());
        exact(c, &spec, &bytes, Via::Bytes, None, RSA_POOL[i % 12].0);
    });
    // CA signatures whose integers have leading zero bytes
    m.section("short-integers", m.n(80), |c| {
        let ckt = *c.rng.pick(&[KT::P256, KT::P384, KT::SkEc]);
        let ca = Key::gen(&mut c.rng, ckt);
        let sub = Key::gen(&mut c.rng, KT::Ed);
        let spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let o = SigOpt::random(&mut c.rng);
        let tbs = spec.tbs();
        let d = if ckt.is_sk() { sk_signed(&ca.app, o.flags, o.counter, &tbs) } else { tbs.clone() };
        if let Some(raw) = ca.sign_short_raw(&d, 2000) {
            let bytes = W::new().raw(&tbs).s(&ca.wrap(&raw, o)).0;
            c.eval(&raw);
            c.ev("short r or s");
            exact(c, &spec, &bytes, Via::Bytes, None, "short signature integers");
        }
    });
    // RSA subjects of every size and every other subject
    m.section("subjects", 14 + 6, |c| {
        let sub = if c.idx < 14 { Key::rsa(c.idx as usize) } else { Key::gen(&mut c.rng, ALL[c.idx as usize - 13]) };
        let ca = Key::gen(&mut c.rng, KT::Ed);
        let spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let bytes = spec.signed(&ca, SigOpt::default());
        c.eval(&c.idx.to_le_bytes());
        exact(c, &spec, &bytes, Via::Line, Some("x"), "subjects");
    });
    // certificates made by OpenSSH
    crate::openssh::section(m, "openssh", m.n(64), |c, dir| openssh_cert(c, dir));
    // a kind that is neither user nor host cannot be reported truly
    m.section("kinds", m.n(300), |c| {
        let skt = *c.rng.pick(&ALL);
        let (ckt, h) = CAS[c.idx as usize % CAS.len()];
        let sub = small_key(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, ckt);
        let mut spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        spec.ctype = match c.rng.below(3) {
            0 => *c.rng.pick(&[0u32, 3, 4, 5, 0xff, 0x100, 0x101, 0x102, 0x10001, 0x10002, 0x0100_0000, 0x0200_0000, 0x8000_0001, 0x8000_0002, u32::MAX]),
            1 => c.rng.below(40) as u32,
            _ => c.rng.val32(),
        };
        if spec.ctype == 1 || spec.ctype == 2 {
            return;
        }
        let bytes = spec.signed(&ca, SigOpt { rsa: h, ..SigOpt::random(&mut c.rng) });
        c.eval(format!("{:?}{:?}{}", skt, ckt, spec.ctype).as_bytes());
        let via = if c.rng.chance(1, 2) { Via::Line } else { Via::Bytes };
        match via_text(&spec.line_of(&bytes), &bytes, via, c) {
            Some(x) => c.fail(format!("a certificate of kind {} is reported as {:?}", spec.ctype, x.cert_type), json!({"bytes": hexs(&bytes)})),
            None => c.ev("unknown kind refused"),
        }
    });
    // the label of a line is part of the certificate
    m.section("labels", (ALL.len() * 22) as u64, |c| {
        let kt = ALL[c.idx as usize % ALL.len()];
        let labels: Vec<&str> = ALL.iter().flat_map(|k| [k.name(), k.cert_name()]).chain(["rsa-sha2-256", "rsa-sha2-512", "", "ssh-dss", "ssh-rsa-cert-v00@openssh.com", "rsa-sha2-512-cert-v01@openssh.com", "ssh-ed25519-cert", "ecdsa-sha2-nistp256-cert-v01"]).collect();
        let l = labels[c.idx as usize / ALL.len()];
        if l == kt.cert_name() {
            return;
        }
        let sub = small_key(&mut c.rng, kt);
        let ca = Key::gen(&mut c.rng, KT::Ed);
        let spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let bytes = spec.signed(&ca, SigOpt::default());
        c.eval(format!("{:?}{}", kt, l).as_bytes());
        let line = format!("{} {}", l, b64(&bytes));
        if via_text(&line, &bytes, Via::Line, c).is_some() {
            c.fail(format!("line labelled {:?} accepted for a {} certificate", l, kt.cert_name()), json!({"line": line}));
        } else {
            c.ev("mislabelled.rejected");
        }
    });
}

fn openssh_cert(c: &mut Case<'_>, dir: &std::path::Path) {
    let r = &mut c.rng;
    let skt = *r.pick(&[KT::Rsa, KT::P256, KT::P384, KT::P521, KT::Ed, KT::SkEd, KT::SkEc]);
    let ckt = *r.pick(&[KT::Rsa, KT::P256, KT::P384, KT::Ed]);
    let sub = small_key(r, skt).for_openssh(r);
    let ca = small_key(r, ckt).for_openssh(r);
    let cap = dir.join("ca");
    crate::openssh::write_private(&cap, &ca);
    std::fs::write(dir.join("k.pub"), format!("{}\n", sub.line())).unwrap();
    let host = r.chance(1, 2);
    let serial = r.u64() >> r.below(64);
    let id = r.word(30);
    let np = r.below(5);
    let principals: Vec<String> = (0..np).map(|_| r.word(20).replace(['*', '!', '?'], "x")).collect();
    let (after, before) = (1_600_000_000 + r.below(100_000_000) as u64, 1_800_000_000 + r.below(100_000_000) as u64);
    let forever = r.chance(1, 4);
    let mut args: Vec<String> = vec!["-q".into(), "-s".into(), cap.display().to_string(), "-I".into(), id.clone(), "-z".into(), serial.to_string()];
    let mut hash = RsaHash::Sha512;
    if ckt == KT::Rsa {
        hash = *r.pick(&[RsaHash::Sha256, RsaHash::Sha512]);
        args.extend(["-t".into(), hash.label().into()]);
    }
    if host {
        args.push("-h".into());
    }
    if !principals.is_empty() {
        args.extend(["-n".into(), principals.join(",")]);
    }
    if !forever {
        args.extend(["-V".into(), format!("0x{:x}:0x{:x}", after, before)]);
    }
    let mut crit = vec![];
    let mut ext: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    if !host {
        ext = STD_EXT.iter().map(|e| (e.as_bytes().to_vec(), vec![])).collect();
        if r.chance(1, 3) {
            args.extend(["-O".into(), "clear".into()]);
            ext.clear();
        }
        if r.chance(1, 2) {
            let cmd = r.text(60).replace(['\0', '\n'], "x");
            let cmd = if cmd.is_empty() { "true".to_string() } else { cmd };
            args.extend(["-O".into(), format!("force-command={}", cmd)]);
            crit.push((b"force-command".to_vec(), cmd.into_bytes()));
        }
        if r.chance(1, 3) {
            args.extend(["-O".into(), "source-address=10.0.0.0/8,192.168.1.1/32".into()]);
            crit.push((b"source-address".to_vec(), b"10.0.0.0/8,192.168.1.1/32".to_vec()));
        }
        if r.chance(1, 4) {
            args.extend(["-O".into(), "extension:login@example.com=alice".into()]);
            ext.push((b"login@example.com".to_vec(), b"alice".to_vec()));
            ext.sort();
        }
        if r.chance(1, 4) {
            args.extend(["-O".into(), "verify-required".into()]);
            crit.push((b"verify-required".to_vec(), vec![]));
        }
    }
    args.push(dir.join("k.pub").display().to_string());
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let (ok, out) = crate::openssh::keygen(&a, b"");
    let Ok(text) = std::fs::read_to_string(dir.join("k-cert.pub")) else {
        c.ev("ssh-keygen refused to sign");
        if !ok {
            c.sample(|| json!({"refused": out, "args": args}));
        }
        return;
    };
    let body = base64::decode(text.split_whitespace().nth(1).unwrap()).unwrap();
    // the independent decoder must see what ssh-keygen was asked for
    let (spec, sig, _) = match Spec::decode(&body) {
        Ok(x) => x,
        Err(e) => panic!("reference decoder fails on ssh-keygen output: {}", e),
    };
    let want_ok = spec.serial == serial
        && spec.key_id == id.as_bytes()
        && spec.ctype == if host { 2 } else { 1 }
        && spec.principals.iter().map(|p| String::from_utf8_lossy(p).to_string()).collect::<Vec<_>>() == principals
        && (forever && spec.after == 0 && spec.before == u64::MAX || !forever && spec.after == after && spec.before == before)
        && spec.crit == crit
        && spec.ext == ext
        && spec.ca == ca.blob()
        && ref_verify(&spec.ca, &sig, &spec.tbs()) == V::Valid;
    if !want_ok {
        panic!("reference decoder disagrees with ssh-keygen: {:?} {:?}", spec, args);
    }
    c.eval(format!("{:?}{:?}{:?}{}{}{}", skt, ckt, hash, host, np, crit.len()).as_bytes());
    c.ev("openssh.certificates");
    let comment = text.split_whitespace().nth(2).map(|s| s.to_string());
    let via = if c.rng.chance(1, 2) { Via::Path } else { Via::Line };
    exact(c, &spec, &body, via, comment.as_deref(), "made by ssh-keygen");
}

// ---------------------------------------------------------------------------------------------

/// A signer that records what it was asked and answers with a function.
pub struct FnSigner<'a> {
    pub f: Box<dyn Fn(&[u8]) -> Option<Vec<u8>> + 'a>,
    pub seen: std::cell::RefCell<Vec<Vec<u8>>>,
}
impl<'a> FnSigner<'a> {
    pub fn new(f: impl Fn(&[u8]) -> Option<Vec<u8>> + 'a) -> FnSigner<'a> {
        FnSigner { f: Box::new(f), seen: Default::default() }
    }
}
impl SSHCertificateSigner for FnSigner<'_> {
    fn sign(&self, b: &[u8]) -> Option<Vec<u8>> {
        self.seen.borrow_mut().push(b.to_vec());
        (self.f)(b)
    }
}

fn st(v: &[u8]) -> String {
    String::from_utf8(v.to_vec()).unwrap()
}
fn to_map(v: &[(Vec<u8>, Vec<u8>)]) -> HashMap<String, String> {
    v.iter().map(|(a, b)| (st(a), st(b))).collect()
}

/// Applies the content of `spec` to a fresh builder, in a random order and with superseded values.
pub fn build(r: &mut Rng, spec: &Spec, sub: &PublicKey, ca: &PublicKey, messy: bool) -> sshcerts::ssh::Certificate {
    let ct = if spec.ctype == 1 { CertType::User } else { CertType::Host };
    let mut b = Certificate::builder(sub, ct, ca).expect("builder");
    let mut steps: Vec<usize> = (0..7).collect();
    if messy {
        r.shuffle(&mut steps);
    }
    for s in steps {
        match s {
            0 => {
                if messy && r.chance(1, 3) {
                    b = b.serial(r.u64());
                }
                b = b.serial(spec.serial)
            }
            1 => {
                if messy && r.chance(1, 3) {
                    b = b.key_id(r.text(30));
                }
                b = b.key_id(st(&spec.key_id))
            }
            2 => match r.below(3) {
                0 => {
                    for p in &spec.principals {
                        b = b.principal(st(p));
                    }
                }
                1 => {
                    if messy && r.chance(1, 2) {
                        b = b.principal("superseded");
                    }
                    let l: Vec<String> = spec.principals.iter().map(|p| st(p)).collect();
                    b = b.set_principals(&l)
                }
                _ => {
                    let n = spec.principals.len();
                    let k = r.below(n + 1);
                    let l: Vec<String> = spec.principals[..k].iter().map(|p| st(p)).collect();
                    b = b.set_principals(&l);
                    for p in &spec.principals[k..] {
                        b = b.principal(st(p));
                    }
                }
            },
            3 => b = b.valid_after(spec.after),
            4 => {
                if messy && r.chance(1, 3) {
                    b = b.valid_before(r.u64());
                }
                b = b.valid_before(spec.before)
            }
            5 => match r.below(3) {
                0 => {
                    for (k, v) in &spec.crit {
                        if messy && r.chance(1, 3) {
                            b = b.critical_option(st(k), "superseded".into());
                        }
                        b = b.critical_option(st(k), st(v));
                    }
                }
                1 => {
                    if messy && r.chance(1, 2) {
                        b = b.critical_option("superseded", "x");
                    }
                    b = b.set_critical_options(to_map(&spec.crit))
                }
                _ => {
                    let k = r.below(spec.crit.len() + 1);
                    b = b.set_critical_options(to_map(&spec.crit[..k]));
                    for (k, v) in &spec.crit[k..] {
                        b = b.critical_option(st(k), st(v));
                    }
                }
            },
            _ => match r.below(3) {
                0 => {
                    for (k, v) in &spec.ext {
                        if messy && r.chance(1, 3) {
                            b = b.extension(st(k), "superseded".into());
                        }
                        b = b.extension(st(k), st(v));
                    }
                }
                1 => {
                    if messy && r.chance(1, 2) {
                        b = b.set_extensions(Certificate::standard_extensions());
                    }
                    b = b.set_extensions(to_map(&spec.ext))
                }
                _ => {
                    let k = r.below(spec.ext.len() + 1);
                    b = b.set_extensions(to_map(&spec.ext[..k]));
                    for (k, v) in &spec.ext[k..] {
                        b = b.extension(st(k), st(v));
                    }
                }
            },
        }
        if messy && r.chance(1, 6) {
            // using a builder does not change it
            let _ = b.tbs_certificate();
            b = b.clone();
        }
    }
    b
}

/// Loads an independent key into the library, via a private key file.
pub fn lib_private(k: &Key) -> Option<PrivateKey> {
    PrivateKey::from_string(&PrivFile::new(k, &PrivExtra { flags: 1, handle: vec![7; 20], reserved: vec![] }, "c", 0x1234).text()).ok()
}

/// Checks an issued certificate against what was asked for. Returns its bytes.
fn issued(c: &mut Case<'_>, cert: &Certificate, want: &Spec, asked: Option<&[u8]>, what: &str) -> bool {
    let (dec, sig, end) = match Spec::decode(&cert.serialized) {
        Ok(x) => x,
        Err(e) => {
            c.fail(format!("issued certificate is not well formed: {} ({})", e, what), json!({"bytes": hexs(&cert.serialized), "wanted": want.brief()}));
            return false;
        }
    };
    let mut w = want.clone();
    w.nonce = dec.nonce.clone();
    w.reserved = vec![];
    if dec.nonce.len() != 32 {
        c.fail(format!("nonce of {} bytes ({})", dec.nonce.len(), what), json!({}));
        return false;
    }
    if dec != w {
        c.fail(
            format!("issued certificate says something else than asked for ({})", what),
            json!({"wanted": w.brief(), "got": dec.brief(), "bytes": hexs(&cert.serialized)}),
        );
        return false;
    }
    if ref_verify(&dec.ca, &sig, &cert.serialized[..end]) == V::Invalid {
        c.fail(format!("issued certificate has an invalid signature ({})", what), json!({"bytes": hexs(&cert.serialized)}));
        return false;
    }
    let d = diff(cert, &w, &sig, &cert.serialized, true);
    if !d.is_empty() {
        c.fail(
            format!("returned object disagrees with the issued bytes in {:?} ({})", d, what),
            json!({"wanted": w.brief(), "bytes": hexs(&cert.serialized)}),
        );
        return false;
    }
    if let Some(a) = asked {
        if a != &cert.serialized[..end] {
            c.fail(format!("the signer was asked to sign other bytes than the certificate's ({})", what), json!({"asked": hexs(a), "bytes": hexs(&cert.serialized)}));
            return false;
        }
    }
    // the library reads back its own output
    let line = format!("{} {}", want.kt.cert_name(), b64(&cert.serialized));
    for via in [Via::Bytes, Via::Line] {
        match via_text(&line, &cert.serialized, via, c) {
            Some(x) => {
                let d = diff(&x, &w, &sig, &cert.serialized, false);
                if !d.is_empty() {
                    c.fail(format!("re-read certificate differs in {:?} ({})", d, what), json!({"bytes": hexs(&cert.serialized)}));
                    return false;
                }
            }
            None => {
                c.fail(format!("the library refuses the certificate it issued ({})", what), json!({"bytes": hexs(&cert.serialized)}));
                return false;
            }
        }
    }
    c.ev("issued.exact");
    true
}

pub fn c03(m: &'static Mon) {
    m.rule("one evaluation = one certificate issued through the builder and decoded independently; distinct = distinct (subject, CA, call pattern, field shape)");
    m.assume("names and values given to the builder are UTF-8 strings of up to 300 kB; ssh-keygen -L is consulted on a sample");
    m.section("software-ca", m.n(4000), |c| {
        let skt = ALL[c.idx as usize % ALL.len()];
        let sub = Key::gen(&mut c.rng, skt);
        let ca = Key::gen_signing(&mut c.rng);
        issue(c, &sub, &ca, true, false);
    });
    m.section("external-signer", m.n(6000), |c| {
        let skt = ALL[c.idx as usize % ALL.len()];
        let sub = Key::gen(&mut c.rng, skt);
        let ckt = *c.rng.pick(&VERIFIABLE);
        let ca = small_key(&mut c.rng, ckt);
        issue(c, &sub, &ca, false, false);
    });
    m.section("large", m.n(60), |c| {
        let skt = *c.rng.pick(&ALL);
        let sub = Key::gen(&mut c.rng, skt);
        let ca = Key::gen(&mut c.rng, KT::Ed);
        issue(c, &sub, &ca, c.idx % 2 == 0, true);
    });
    crate::openssh::section(m, "openssh-reads", m.n(64), |c, dir| {
        let skt = ALL[c.idx as usize % ALL.len()];
        let sub = small_key(&mut c.rng, skt).for_openssh(&mut c.rng);
        let ca = Key::gen_signing(&mut c.rng);
        let mut spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        // keep to what ssh-keygen -L prints unambiguously
        spec.key_id = c.rng.word(30).into_bytes();
        spec.principals = (0..c.rng.below(5)).map(|_| c.rng.word(20).into_bytes()).collect();
        spec.crit = if c.rng.chance(1, 2) { vec![(b"force-command".to_vec(), c.rng.word(40).into_bytes())] } else { vec![] };
        spec.ext = STD_EXT.iter().filter(|_| c.rng.chance(1, 2)).map(|e| (e.as_bytes().to_vec(), vec![])).collect();
        // times that ssh-keygen prints
        spec.after = 1_000_000_000 + c.rng.below(1_000_000_000) as u64;
        spec.before = spec.after + c.rng.below(1_000_000_000) as u64;
        if c.rng.chance(1, 4) {
            spec.after = 0;
            spec.before = u64::MAX;
        }
        let (Some(sk), Ok(sp)) = (lib_private(&ca), PublicKey::from_bytes(&sub.blob())) else {
            c.fail("key refused while preparing to issue", json!({"ca": ca.line(), "subject": sub.line()}));
            return;
        };
        let b = build(&mut c.rng, &spec, &sp, &sk.pubkey, true);
        let r = c.call("Certificate::sign", || b.sign(&sk));
        let Ok(Ok(cert)) = r else {
            c.fail("issuing failed", json!({"spec": spec.brief()}));
            return;
        };
        c.eval(format!("{:?}{:?}", skt, ca.kt).as_bytes());
        let p = dir.join("x-cert.pub");
        std::fs::write(&p, format!("{}\n", cert)).unwrap();
        let (ok, out) = crate::openssh::keygen(&["-L", "-f", p.to_str().unwrap()], b"");
        if !ok {
            c.fail("ssh-keygen cannot read the issued certificate", json!({"out": out, "cert": cert.to_string()}));
            return;
        }
        let want = crate::openssh::expect_listing(&spec, &sub, &ca);
        let missing: Vec<&String> = want.iter().filter(|w| !out.lines().any(|l| l.trim() == w.as_str())).collect();
        c.ev("openssh.listings");
        if !missing.is_empty() {
            c.fail("ssh-keygen shows other values than asked for", json!({"missing": missing, "out": out}));
        }
        c.sample(|| json!({"listing": out}));
    });
    // one prepared builder used several times
    m.section("templates", m.n(600), |c| {
        let skt = *c.rng.pick(&ALL);
        let sub = Key::gen(&mut c.rng, skt);
        let ca = Key::gen_signing(&mut c.rng);
        let (Some(sk), Ok(sp)) = (lib_private(&ca), PublicKey::from_bytes(&sub.blob())) else {
            c.fail("key refused while preparing to issue", json!({"ca": ca.line(), "subject": sub.line()}));
            return;
        };
        let mut spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let base = build(&mut c.rng, &spec, &sp, &sk.pubkey, true);
        for i in 0..3 {
            let mut b = base.clone();
            spec.serial = c.rng.val64();
            b = b.serial(spec.serial);
            if i == 1 {
                spec.key_id = c.rng.text(50).into_bytes();
                b = b.key_id(st(&spec.key_id));
            }
            let mut s2 = spec.clone();
            if i == 1 {
                // only in this copy
                s2.principals.push(b"extra".to_vec());
                b = b.principal("extra");
            }
            let r = c.call("Certificate::sign", || b.sign(&sk));
            c.eval(format!("{:?}{:?}{}", skt, ca.kt, i).as_bytes());
            match r {
                Ok(Ok(cert)) => {
                    if !issued(c, &cert, &s2, None, "from a template") {
                        return;
                    }
                }
                _ => {
                    c.fail("issuing failed (from a template)", json!({"spec": s2.brief()}));
                    return;
                }
            }
            if i == 1 {
                spec.key_id = base.key_id.clone().into_bytes();
            }
        }
    });
    m.section("standard-extensions", 4, |c| {
        c.eval_trivial();
        let s = Certificate::standard_extensions();
        let mut k: Vec<_> = s.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        k.sort();
        let mut w: Vec<_> = STD_EXT.iter().map(|e| (*e, "")).collect();
        w.sort();
        if k != w {
            c.fail("standard_extensions() are not OpenSSH's five standard extensions", json!({"got": format!("{:?}", k)}));
        }
    });
    m.section("types-by-name", m.n(600), |c| {
        let names = ["user", "User", "host", "Host", "users", "hosts", "", " ", "USER", "HOST", "ca", "user certificate", "1", "2", "client", "server"];
        let s = if (c.idx as usize) < names.len() {
            names[c.idx as usize].to_string()
        } else {
            let mut s = c.rng.pick(&["user", "User", "host", "Host"]).to_string();
            match c.rng.below(4) {
                0 => s.push(*c.rng.pick(&[' ', 's', '\0', 'r', '\n'])),
                1 => s.insert(0, *c.rng.pick(&[' ', 'u', 'h', 'H'])),
                2 => {
                    s.remove(c.rng.below(4));
                }
                _ => s = c.rng.word(6),
            }
            s
        };
        c.eval(s.as_bytes());
        let want = match s.as_str() {
            "user" | "User" => Some(CertType::User),
            "host" | "Host" => Some(CertType::Host),
            _ => None,
        };
        let got = c.call("CertType::try_from", || CertType::try_from(s.as_str()).ok());
        // other spellings of a type may be understood, but never as the other type
        let ok = match (&got, want) {
            (Ok(g), Some(w)) => *g == Some(w),
            (Ok(None), None) => true,
            (Ok(Some(CertType::User)), None) => s.trim().eq_ignore_ascii_case("user"),
            (Ok(Some(CertType::Host)), None) => s.trim().eq_ignore_ascii_case("host"),
            (Err(_), _) => false,
        };
        if !ok {
            c.fail("a certificate type is not the one named", json!({"name": s, "got": format!("{:?}", got.ok())}));
        }
    });
}

/// An RSA public key of any size and exponent.
fn any_rsa(r: &mut Rng) -> Vec<u8> {
    crate::p_pub::any_blob(r, KT::Rsa).0
}

fn issue(c: &mut Case<'_>, sub: &Key, ca: &Key, software: bool, large: bool) {
    let mut spec = Spec::gen(&mut c.rng, sub, ca, large);
    if large {
        let n = *c.rng.pick(&[65535usize, 65536, 131072, 300000]);
        match c.idx % 4 {
            0 => spec.key_id = vec![b'k'; n],
            1 => spec.principals = (0..n / 40).map(|i| format!("principal-{:026}", i).into_bytes()).collect(),
            2 => spec.ext = vec![(b"big@example.com".to_vec(), vec![b'v'; n])],
            _ => spec.crit = (0..500).map(|i| (format!("o{:04}", i).into_bytes(), format!("{}", i).into_bytes())).collect(),
        }
    }
    let mut blob = sub.blob();
    if sub.kt == KT::Rsa && c.rng.chance(1, 2) {
        blob = any_rsa(&mut c.rng);
        spec.subject = blob[11..].to_vec();
    }
    let (sp, cp) = match (PublicKey::from_bytes(&blob), PublicKey::from_bytes(&ca.blob())) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            c.fail("public key refused while preparing to issue", json!({"ca": ca.line(), "subject": sub.line()}));
            return;
        }
    };
    c.eval(format!("{:?}{:?}{}{}{}{}", sub.kt, ca.kt, software, spec.principals.len(), spec.crit.len(), spec.ext.len()).as_bytes());
    let mut b = build(&mut c.rng, &spec, &sp, &cp, true);
    let comment = c.rng.chance(1, 3).then(|| c.rng.word(20));
    if let Some(x) = &comment {
        b = b.comment(x);
    }
    let nonce = b.nonce.clone();
    let tbs = b.tbs_certificate();
    let (r, asked) = if software {
        let Some(sk) = lib_private(ca) else {
            c.fail("private key refused while preparing to issue", json!({"ca": ca.line()}));
            return;
        };
        (c.call("Certificate::sign", || b.sign(&sk)), None)
    } else {
        let o = SigOpt::random(&mut c.rng);
        let s = FnSigner::new(|d| Some(ca.sign(d, o)));
        if c.rng.chance(1, 3) {
            let sig = ca.sign(&tbs, o);
            (c.call("Certificate::add_signature", || b.add_signature(&sig)), Some(vec![tbs.clone()]))
        } else {
            let r = c.call("Certificate::sign", || b.sign(&s));
            let seen = s.seen.borrow().clone();
            (r, Some(seen))
        }
    };
    let cert = match r {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => {
            c.fail(format!("issuing failed: {}", e), json!({"spec": spec.brief()}));
            return;
        }
        Err(p) => {
            c.fail(format!("issuing panicked: {}", p.0), json!({"spec": spec.brief()}));
            return;
        }
    };
    c.sample(|| json!({"spec": spec.brief(), "software": software}));
    if cert.nonce != nonce || cert.comment != comment {
        c.fail("issuing changed nonce or comment", json!({"spec": spec.brief()}));
        return;
    }
    let asked = asked.and_then(|a| a.last().cloned()).unwrap_or(tbs);
    issued(c, &cert, &spec, Some(&asked), if software { "software CA" } else { "external signer" });
}

pub fn c04(m: &'static Mon) {
    m.rule("one evaluation = one attempt to attach a signature (or sign through a signer); when a certificate is returned it is judged by libcrypto; distinct = distinct (CA type, misbehaviour)");
    m.assume("a panic counts as not returning a certificate");
    m.section("bad-signers", m.n(1500), |c| {
        let skt = *c.rng.pick(&ALL);
        let ckt = *c.rng.pick(&VERIFIABLE);
        let sub = small_key(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, ckt);
        let mut other = small_key(&mut c.rng, ckt);
        if other.blob() == ca.blob() {
            other = Key::rsa((ca.rsa + 1) % 3);
        }
        let spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let (sp, cp) = match (PublicKey::from_bytes(&sub.blob()), PublicKey::from_bytes(&ca.blob())) {
            (Ok(a), Ok(b)) => (a, b),
            _ => {
                c.ev("setup.key refused");
                return;
            }
        };
        let base = build(&mut c.rng, &spec, &sp, &cp, false);
        let o = SigOpt::random(&mut c.rng);
        let seed = c.rng.u64();
        // an earlier certificate of the same issuer
        let earlier = base.clone().serial(spec.serial ^ 1);
        let esig = ca.sign(&earlier.tbs_certificate(), o);
        let e2 = esig.clone();
        let _ = c.call("Certificate::add_signature", move || earlier.add_signature(&e2));
        let labels = ["ssh-rsa", "rsa-sha2-256", "rsa-sha2-512", "ssh-ed25519", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com", "", "x"];
        type F<'a> = Box<dyn Fn(&[u8]) -> Option<Vec<u8>> + 'a>;
        let mut list: Vec<(String, F<'_>)> = vec![];
        list.push(("returns nothing".into(), Box::new(|_| None)));
        list.push(("returns the empty string".into(), Box::new(|_| Some(vec![]))));
        list.push(("returns the data".into(), Box::new(|d| Some(d.to_vec()))));
        list.push(("returns garbage".into(), Box::new(move |_| {
            let mut r = Rng::new(seed, "g", 0);
            let n = r.size(600);
            Some(r.bytes(n))
        })));
        list.push(("returns labelled garbage".into(), Box::new(|_| {
            let mut r = Rng::new(seed, "g", 1);
            Some(W::new().s(ca.kt.name().as_bytes()).s(&r.bytes(64)).0)
        })));
        list.push(("all zero signature".into(), Box::new(|_| Some(ca_zero(&ca, o)))));
        list.push(("signs with another key".into(), Box::new(|d| Some(other.sign(d, o)))));
        list.push(("signs with the subject key".into(), Box::new(|d| if sub.blob() == ca.blob() { None } else { Some(sub.sign(d, o)) })));
        list.push(("signs nothing".into(), Box::new(|_| Some(ca.sign(b"", o)))));
        list.push(("signs a prefix".into(), Box::new(|d| Some(ca.sign(&d[..d.len() - 1], o)))));
        list.push(("signs the hash".into(), Box::new(|d| Some(ca.sign(&openssl::sha::sha256(d), o)))));
        list.push(("signs more".into(), Box::new(|d| Some(ca.sign(&[d, &[0]].concat(), o)))));
        list.push(("returns an earlier signature".into(), Box::new(|_| Some(esig.clone()))));
        list.push(("truncates".into(), Box::new(|d| {
            let mut s = ca.sign(d, o);
            s.pop();
            Some(s)
        })));
        list.push(("flips a bit".into(), Box::new(|d| {
            let mut s = ca.sign(d, o);
            let i = (seed as usize) % s.len();
            s[i] ^= 1 << (seed >> 32) % 8;
            Some(s)
        })));
        list.push(("raw signature without wrapping".into(), Box::new(|d| Some(ca.sign_raw(d, o.rsa)))));
        list.push(("wrapped twice".into(), Box::new(|d| Some(W::new().s(&ca.sign(d, o)).0))));
        for l in labels {
            list.push((format!("label {:?}", l), Box::new(move |d| {
                let _ = d;
                None
            })));
            let n = list.len() - 1;
            let ca2 = &ca;
            list[n].1 = Box::new(move |d| {
                let s = ca2.sign(d, o);
                let mut r = R::new(&s);
                if r.s() == Some(l.as_bytes()) {
                    return None;
                }
                Some(W::new().s(l.as_bytes()).raw(&s[r.o..]).0)
            });
        }
        if ckt.is_sk() {
            list.push(("drops the token data".into(), Box::new(|d| {
                let mut s = ca.sign(d, o);
                s.truncate(s.len() - 5);
                Some(s)
            })));
            list.push(("other counter".into(), Box::new(|d| {
                let mut s = ca.sign(d, o);
                let n = s.len();
                s[n - 1 - (seed as usize % 4)] ^= 1 << (seed >> 8) % 8;
                Some(s)
            })));
            list.push(("other flags".into(), Box::new(|d| {
                let mut s = ca.sign(d, o);
                let n = s.len();
                s[n - 5] ^= 1 << (seed >> 8) % 8;
                Some(s)
            })));
            list.push(("other application".into(), Box::new(|d| Some(ca.with_app(&[&ca.app[..], b"x"].concat()).sign(d, o)))));
        }
        for (what, f) in &list {
            let signer = FnSigner::new(|d| f(d));
            let b = base.clone();
            let tbs = b.tbs_certificate();
            c.eval(format!("{:?}{:?}{}", ckt, o.rsa, what).as_bytes());
            let via_add = c.rng.chance(1, 3);
            let r = if via_add {
                match f(&tbs) {
                    Some(s) => c.call("Certificate::add_signature", || b.add_signature(&s)),
                    None => continue,
                }
            } else {
                c.call("Certificate::sign", || b.sign(&signer))
            };
            check_result(c, r, what, &cp, &spec, &tbs);
            for s in signer.seen.borrow().iter() {
                if s != &tbs {
                    c.fail("the signer was asked to sign other bytes than tbs_certificate()", json!({"asked": hexs(s), "tbs": hexs(&tbs)}));
                    return;
                }
            }
        }
        // and a good signer still works after all of those
        let tbs = base.tbs_certificate();
        let sig = ca.sign(&tbs, o);
        let b = base.clone();
        let r = c.call("Certificate::add_signature", || b.add_signature(&sig));
        let ok = matches!(r, Ok(Ok(_)));
        c.ev(if ok { "good signer accepted" } else { "good signer refused" });
        let signed = match &r {
            Ok(Ok(x)) => Some(x.clone()),
            _ => None,
        };
        check_result(c, r, "good signer", &cp, &spec, &tbs);
        // a signature stays bound to the certificate it was made for
        type E = Box<dyn Fn(Certificate) -> Certificate>;
        let edits: Vec<(&str, E)> = vec![
            ("serial changed after signing", Box::new(|b: Certificate| { let s = b.serial; b.serial(s.wrapping_add(1)) })),
            ("key id changed after signing", Box::new(|b: Certificate| { let k = format!("{}x", b.key_id); b.key_id(k) })),
            ("principal added after signing", Box::new(|b: Certificate| b.principal("root"))),
            ("principals removed after signing", Box::new(|mut b: Certificate| { b.principals.push("p".into()); b })),
            ("validity changed after signing", Box::new(|b: Certificate| { let v = b.valid_before; b.valid_before(v ^ 1) })),
            ("validity start changed after signing", Box::new(|b: Certificate| { let v = b.valid_after; b.valid_after(v ^ (1 << 63)) })),
            ("critical options removed after signing", Box::new(|b: Certificate| if b.critical_options.is_empty() { b.critical_option("a", "b") } else { b.set_critical_options(HashMap::new()) })),
            ("extension added after signing", Box::new(|b: Certificate| b.extension("zzzz", ""))),
            ("kind changed after signing", Box::new(|mut b: Certificate| { b.cert_type = if b.cert_type == CertType::User { CertType::Host } else { CertType::User }; b })),
            ("nonce changed after signing", Box::new(|mut b: Certificate| { b.nonce = vec![1; 32]; b })),
            ("comment changed after signing", Box::new(|b: Certificate| b.comment("c"))),
        ];
        // starting points: the builder, the certificate issued from it, and that one read back
        let read = signed.as_ref().and_then(|s| c.call("Certificate::from_bytes", || Certificate::from_bytes(&s.serialized).ok()).ok().flatten());
        let starts: Vec<(&str, Certificate)> = vec![("builder", base.clone())]
            .into_iter()
            .chain(signed.clone().map(|s| ("issued", s)))
            .chain(read.map(|s| ("read back", s)))
            .collect();
        let othersig = FnSigner::new(|d| Some(other.sign(d, o)));
        let goodsig = FnSigner::new(|d| Some(ca.sign(d, o)));
        let oldsig = FnSigner::new(|_| Some(sig.clone()));
        for (from, start) in &starts {
            for (what, e) in &edits {
                for how in 0..4 {
                    let b = e(start.clone());
                    let tbs = b.tbs_certificate();
                    c.eval(format!("{:?}{}{}{}", ckt, from, what, how).as_bytes());
                    let r = match how {
                        0 => c.call("Certificate::add_signature", || b.add_signature(&sig)),
                        1 => c.call("Certificate::sign", || b.sign(&oldsig)),
                        2 => c.call("Certificate::sign", || b.sign(&othersig)),
                        _ => c.call("Certificate::sign", || b.sign(&goodsig)),
                    };
                    let ok = matches!(r, Ok(Ok(_)));
                    check_result(c, r, &format!("{}, {}", from, what), &cp, &spec, &tbs);
                    if how == 3 {
                        c.ev(if ok { "re-signed after a change" } else { "refused to re-sign" });
                    }
                    for s in goodsig.seen.borrow_mut().drain(..).chain(oldsig.seen.borrow_mut().drain(..)).chain(othersig.seen.borrow_mut().drain(..)) {
                        if s != tbs {
                            c.fail("the signer was asked to sign other bytes than tbs_certificate()", json!({"asked": hexs(&s), "tbs": hexs(&tbs)}));
                            return;
                        }
                    }
                }
            }
        }
    });
    // random alterations of good signatures
    m.section("altered-signatures", m.n(1200), |c| {
        let ckt = *c.rng.pick(&VERIFIABLE);
        let ca = small_key(&mut c.rng, ckt);
        let sub = Key::gen(&mut c.rng, KT::Ed);
        let spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let (sp, cp) = match (PublicKey::from_bytes(&sub.blob()), PublicKey::from_bytes(&ca.blob())) {
            (Ok(a), Ok(b)) => (a, b),
            _ => return,
        };
        let base = build(&mut c.rng, &spec, &sp, &cp, false);
        let o = SigOpt::random(&mut c.rng);
        let tbs = base.tbs_certificate();
        let sig = ca.sign(&tbs, o);
        for i in 0..sig.len().min(120) {
            let mut s = sig.clone();
            if i % 3 == 0 {
                crate::mutate::havoc(&mut c.rng, &mut s);
            } else {
                let k = c.rng.below(s.len());
                s[k] ^= 1 << c.rng.below(8);
            }
            if s == sig {
                continue;
            }
            c.eval(&s);
            let b = base.clone();
            let r = c.call("Certificate::add_signature", || b.add_signature(&s));
            check_result(c, r, "altered signature", &cp, &spec, &tbs);
        }
    });
}

fn ca_zero(ca: &Key, o: SigOpt) -> Vec<u8> {
    let w = match ca.kt {
        KT::Rsa => W::new().s(o.rsa.label().as_bytes()).s(&vec![0; 256]),
        KT::Ed | KT::SkEd => W::new().s(ca.kt.name().as_bytes()).s(&[0; 64]),
        _ => W::new().s(ca.kt.name().as_bytes()).s(&W::new().s(b"").s(b"").0),
    };
    if ca.kt.is_sk() {
        w.raw(&[o.flags]).u32(o.counter).0
    } else {
        w.0
    }
}

/// C04's monitor: a returned certificate carries a valid signature of the declared CA.
fn check_result(c: &mut Case<'_>, r: Result<Result<Certificate, sshcerts::error::Error>, crate::mon::Panicked>, what: &str, ca: &PublicKey, spec: &Spec, want: &[u8]) {
    match r {
        Ok(Ok(cert)) => {
            c.ev("returned a certificate");
            let bad = match split(&cert.serialized) {
                None => Some("is not a certificate"),
                Some((tbs, cab, sig)) => {
                    if ref_verify(cab, sig, tbs) == V::Invalid {
                        Some("has an invalid signature")
                    } else if cab != &pub_blob(ca)[..] || pub_blob(&cert.signature_key) != cab {
                        Some("names another CA than declared")
                    } else if sig != &cert.signature[..] {
                        Some("object and bytes carry different signatures")
                    } else if tbs != want {
                        Some("carries the signed bytes of another certificate than the one asked for")
                    } else if cert.tbs_certificate() != want {
                        Some("says something else than its bytes")
                    } else {
                        None
                    }
                }
            };
            if let Some(b) = bad {
                c.fail(format!("issuance returned a certificate that {} ({})", b, what), json!({"bytes": hexs(&cert.serialized), "spec": spec.brief()}));
            }
        }
        Ok(Err(_)) => c.ev("refused"),
        Err(_) => c.ev("panicked"),
    }
}

// ---------------------------------------------------------------------------------------------

pub fn c26(m: &'static Mon) {
    m.rule("one evaluation = one certificate printed in both forms and compared with an independent rendering of its decoded bytes; distinct = distinct (subject, CA, origin, shape)");
    m.assume("layout details such as field order, indentation or wording are not judged beyond what the statement names; texts are free of line breaks in the detailed form");
    m.section("print", m.n(5000), |c| {
        let skt = ALL[c.idx as usize % ALL.len()];
        let ckt = *c.rng.pick(&VERIFIABLE);
        let sub = Key::gen(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, ckt);
        let mut spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let clean = |v: &mut Vec<u8>| {
            let s = String::from_utf8_lossy(v).replace(|ch: char| ch.is_control() || ch.is_whitespace() || ch == '\u{202e}' || ch == '\u{feff}', "_");
            *v = s.into_bytes();
        };
        clean(&mut spec.key_id);
        spec.principals.iter_mut().for_each(clean);
        // distinctive names, so that presence can be told
        spec.principals = spec.principals.iter().enumerate().map(|(i, p)| [&p[..], format!("~p{}", i).as_bytes()].concat()).collect();
        let uniq = |v: &mut Vec<(Vec<u8>, Vec<u8>)>, t: &str| {
            for (i, (k, x)) in v.iter_mut().enumerate() {
                clean(k);
                clean(x);
                if !k.starts_with(b"permit-") {
                    k.extend_from_slice(format!("~{}{}", t, i).as_bytes());
                }
            }
            v.sort();
        };
        uniq(&mut spec.crit, "c");
        uniq(&mut spec.ext, "e");
        // blanks around, empty and repeated ones
        for p in spec.principals.iter_mut() {
            match c.rng.below(24) {
                0 => p.push(b' '),
                1 => p.insert(0, b' '),
                2 => p.clear(),
                3 => *p = b"~p0".to_vec(),
                4 => p.extend_from_slice(b" a  b"),
                _ => (),
            }
        }
        for l in [&mut spec.crit, &mut spec.ext] {
            if !l.is_empty() && c.rng.chance(1, 8) {
                l[0].0.clear();
                l.sort();
            }
        }
        for (_, v) in spec.crit.iter_mut() {
            if !v.is_empty() && c.rng.chance(1, 6) {
                let i = c.rng.below(v.len().min(2));
                if std::str::from_utf8(&v[i..]).is_ok() {
                    v.insert(i, b' ');
                }
            }
        }
        // validity corner cases: only a doubly unbounded one is forever
        match c.rng.below(8) {
            0 => (spec.after, spec.before) = (0, u64::MAX),
            1 => (spec.after, spec.before) = (0, u64::MAX - 1),
            2 => (spec.after, spec.before) = (1, u64::MAX),
            3 => (spec.after, spec.before) = (0, 0),
            4 => (spec.after, spec.before) = (u64::MAX, u64::MAX),
            _ => (),
        }
        let issued = c.rng.chance(1, 2);
        let cert = if issued {
            let (Ok(sp), Ok(cp)) = (PublicKey::from_bytes(&sub.blob()), PublicKey::from_bytes(&ca.blob())) else { return };
            spec.reserved = vec![];
            let b = build(&mut c.rng, &spec, &sp, &cp, false);
            spec.nonce = b.nonce.clone();
            let o = SigOpt::random(&mut c.rng);
            let s = FnSigner::new(|d| Some(ca.sign(d, o)));
            match c.call("Certificate::sign", || b.sign(&s)) {
                Ok(Ok(x)) => x,
                _ => {
                    c.ev("setup.not issued");
                    return;
                }
            }
        } else {
            let bytes = spec.signed(&ca, SigOpt::random(&mut c.rng));
            let via = if c.rng.chance(1, 2) { Via::Bytes } else { Via::Line };
            match read(c, &bytes, via) {
                Some(x) => x,
                None => {
                    c.ev("setup.not read");
                    return;
                }
            }
        };
        let mut cert = cert;
        if c.rng.chance(1, 3) {
            cert.comment = Some("another comment".into());
            c.ev("with a comment");
        }
        c.eval(format!("{:?}{:?}{}{}{}{}", skt, ckt, issued, spec.principals.len(), spec.crit.len(), spec.ext.len()).as_bytes());
        let (line, pretty) = match c.call("Display", || (format!("{}", cert), format!("{:#}", cert))) {
            Ok(x) => x,
            Err(p) => {
                c.fail(format!("printing panicked: {}", p.0), json!({"spec": spec.brief()}));
                return;
            }
        };
        // one line form
        let want = format!("{} {} {}", spec.kt.cert_name(), b64(&cert.serialized), st(&spec.key_id));
        if line != want {
            c.fail("the line form is not type, body and key id", json!({"got": line, "want": want}));
            return;
        }
        match c.call("Certificate::from_string", || Certificate::from_string(&line)) {
            Ok(Ok(back)) => {
                let sig = cert.signature.clone();
                let d = diff(&back, &spec, &sig, &cert.serialized, true);
                if !d.is_empty() {
                    c.fail(format!("the printed line reads back differently in {:?}", d), json!({"line": line}));
                    return;
                }
            }
            _ => {
                c.fail("the printed line does not read back", json!({"line": line}));
                return;
            }
        }
        c.sample(|| json!({"pretty": pretty}));
        detailed(c, &pretty, &spec, &sub, &ca);
    });
    // texts with line breaks and other controls: however they are shown, no part is left out
    m.section("controls", m.n(600), |c| {
        let skt = ALL[c.idx as usize % ALL.len()];
        let sub = small_key(&mut c.rng, skt);
        let ca = small_key(&mut c.rng, KT::Ed);
        let mut spec = Spec::gen(&mut c.rng, &sub, &ca, false);
        let mut marks: Vec<String> = vec![];
        let mut broken = |r: &mut Rng, t: &str| -> Vec<u8> {
            let n = marks.len();
            let (a, b, d) = (format!("<{}{}a>", t, n), format!("<{}{}b>", t, n), format!("<{}{}c>", t, n));
            let s = format!("{}{}{}{}{}", a, r.pick(&["\n", "\r\n", "\r", "\t", "\n\n", "\u{0}", "\u{1b}[2K", "\u{8}\u{8}", " ", "\u{2028}", "\u{85}"]), b, r.pick(&["\n", "\n\t", "\0", "\u{b}", ""]), d);
            marks.extend([a, b, d]);
            s.into_bytes()
        };
        spec.key_id = broken(&mut c.rng, "id");
        for p in spec.principals.iter_mut().take(20) {
            *p = broken(&mut c.rng, "p");
        }
        for (i, l) in [&mut spec.crit, &mut spec.ext].into_iter().enumerate() {
            for (k, v) in l.iter_mut() {
                if c.rng.chance(1, 2) {
                    *k = broken(&mut c.rng, "k");
                }
                if i == 0 && c.rng.chance(1, 2) {
                    *v = broken(&mut c.rng, "v");
                }
            }
            l.sort();
        }
        let bytes = spec.signed(&ca, SigOpt::default());
        let Some(cert) = read(c, &bytes, Via::Bytes) else {
            c.ev("setup.not read");
            return;
        };
        c.eval(&bytes);
        match c.call("Display", || format!("{:#}", cert)) {
            Ok(t) => {
                if let Some(x) = marks.iter().find(|x| !t.contains(x.as_str())) {
                    c.fail(format!("the detailed form leaves out {}", x), json!({"pretty": t, "bytes": hexs(&bytes)}));
                }
            }
            Err(p) => c.fail(format!("printing panicked: {}", p.0), json!({"bytes": hexs(&bytes)})),
        }
    });
}

fn fp(blob: &[u8]) -> String {
    let s = base64::encode(openssl::sha::sha256(blob));
    format!("SHA256:{}", s.trim_end_matches('='))
}

fn detailed(c: &mut Case<'_>, pretty: &str, spec: &Spec, sub: &Key, ca: &Key) {
    let lines: Vec<&str> = pretty.lines().collect();
    let find = |p: &str| lines.iter().find(|l| l.starts_with(p)).copied();
    let mut bad: Vec<String> = vec![];
    let kind = if spec.ctype == 1 { "user" } else { "host" };
    let other = if spec.ctype == 1 { "host" } else { "user" };
    match find("Type:") {
        Some(l) if l.contains(spec.kt.cert_name()) && l.contains(&format!("{} certificate", kind)) && !l.contains(&format!("{} certificate", other)) => (),
        l => bad.push(format!("type line {:?}", l)),
    }
    match find("Public Key:") {
        Some(l) if l.contains(&fp(&sub.blob())) => (),
        l => bad.push(format!("public key line {:?}", l)),
    }
    match find("Signing CA:") {
        Some(l) if l.contains(&fp(&ca.blob())) && l.contains(ca.kt.name()) => (),
        l => bad.push(format!("CA line {:?}", l)),
    }
    // a kind of key named in front of a fingerprint is that key's kind
    let family = |kt: KT| match kt.name() {
        n if n.contains("ecdsa") => "ECDSA",
        n if n.contains("ed25519") => "ED25519",
        _ => "RSA",
    };
    for (p, kt) in [("Public Key:", sub.kt), ("Signing CA:", ca.kt)] {
        let l = find(p).unwrap_or("");
        let lead = l[p.len().min(l.len())..].split("SHA256:").next().unwrap_or("").to_ascii_uppercase();
        let named: Vec<&str> = lead.split(|ch: char| !ch.is_ascii_alphanumeric()).filter(|w| matches!(*w, "RSA" | "ECDSA" | "ED25519")).collect();
        if named.iter().any(|n| *n != family(kt)) {
            bad.push(format!("kind of key in {:?}", l));
        }
    }
    match find("Key ID:") {
        Some(l) if l == format!("Key ID: \"{}\"", st(&spec.key_id)) => (),
        l => bad.push(format!("key id line {:?}", l)),
    }
    match find("Serial:") {
        Some(l) if l.trim_start_matches("Serial:").trim() == spec.serial.to_string() => (),
        l => bad.push(format!("serial line {:?}", l)),
    }
    match find("Valid") {
        Some(l) => {
            let forever = spec.after == 0 && spec.before == u64::MAX;
            if forever != l.contains("forever") {
                bad.push(format!("validity line {:?}", l));
            }
            if !forever {
                let nums: Vec<&str> = l.split(|ch: char| !ch.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
                if nums != [spec.after.to_string(), spec.before.to_string()] {
                    bad.push(format!("validity line {:?}", l));
                }
            }
        }
        None => bad.push("no validity".into()),
    }
    // sections
    let section = |name: &str| -> Option<Vec<String>> {
        let i = lines.iter().position(|l| l.starts_with(name))?;
        if lines[i].contains("(none)") {
            return Some(vec![]);
        }
        Some(lines[i + 1..].iter().take_while(|l| l.starts_with('\t') || l.starts_with(' ')).map(|l| l[1..].to_string()).collect())
    };
    match section("Principals") {
        Some(l) if l == spec.principals.iter().map(|p| st(p)).collect::<Vec<_>>() => (),
        l => bad.push(format!("principals {:?}", l)),
    }
    let sorted = |mut v: Vec<String>| {
        v.sort();
        v
    };
    match section("Critical Options") {
        Some(l) if sorted(l.iter().map(|x| x.trim_end().to_string()).collect()) == sorted(spec.crit.iter().map(|(k, v)| format!("{} {}", st(k), st(v)).trim_end().to_string()).collect()) => (),
        l => bad.push(format!("critical options {:?}", l)),
    }
    match section("Extensions") {
        Some(l)
            if sorted(l.iter().map(|x| x.split(' ').next().unwrap_or("").to_string()).collect())
                == sorted(spec.ext.iter().map(|(k, _)| st(k)).collect()) => (),
        l => bad.push(format!("extensions {:?}", l)),
    }
    if !bad.is_empty() {
        c.fail(format!("the detailed form is wrong: {}", bad.join("; ")), json!({"pretty": pretty, "spec": spec.brief()}));
    } else {
        c.ev("printed.exact");
    }
}
