//! C25: the same arguments give the same answer in every history and on every thread.
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::mutate::havoc;
use crate::p_robust::{genuine, text_havoc, In};
use crate::rng::{fnv, Rng};
use crate::wire::hexs;
use crate::{p_fido, p_piv};
use serde_json::json;
use sshcerts::fido::verification::verify_auth_data;
use sshcerts::fido::AuthData;
use sshcerts::ssh::*;
use sshcerts::utils::*;
use sshcerts::x509::*;
use sshcerts::yubikey::verification::verify_certificate_chain;
use std::convert::TryFrom;
use std::path::Path;
use std::sync::{Arc, Barrier};

fn show_map(m: &std::collections::HashMap<String, String>) -> String {
    let mut v: Vec<_> = m.iter().collect();
    v.sort();
    format!("{:?}", v)
}
pub fn show_pub(k: &PublicKey) -> String {
    let mut out = vec![];
    let _ = k.write(&mut out);
    format!("{:?} {} {} {} {} {} {}", k, k.bits(), hexs(&k.encode()), k, k.fingerprint(), k.fingerprint_with(FingerprintKind::Sha512), hexs(&out))
}
pub fn show_cert(k: &Certificate) -> String {
    format!(
        "{} {} {} {:?} {:?} {:?} {} {} {} {} {} {} {} {} {:?} {} {} {}",
        hexs(&k.nonce),
        show_pub(&k.key),
        k.serial,
        k.cert_type,
        k.key_id,
        k.principals,
        k.valid_after,
        k.valid_before,
        show_map(&k.critical_options),
        show_map(&k.extensions),
        hexs(&k.reserved),
        show_pub(&k.signature_key),
        hexs(&k.signature),
        k.key_type,
        k.comment,
        hexs(&k.serialized),
        hexs(&k.tbs_certificate()),
        k
    )
}
/// A private key with what it signs: Ed25519 and RSA signatures are functions of key and data,
/// ECDSA ones must verify.
pub fn show_priv(k: &PrivateKey) -> String {
    let mut out = vec![];
    let _ = k.write(&mut out);
    let sk = k.pubkey.key_type.is_sk || matches!(k.kind, PrivateKeyKind::EcdsaSk(_) | PrivateKeyKind::Ed25519Sk(_));
    let sig = if sk {
        "token".into()
    } else {
        let b = crate::refcert::pub_blob(&k.pubkey);
        match k.sign(b"history") {
            Some(s) => match &k.kind {
                PrivateKeyKind::Ecdsa(_) => format!("{}", ref_verify(&b, &s, b"history") == V::Valid),
                _ => hexs(&s),
            },
            None => "none".into(),
        }
    };
    format!("{:?} {:?} {} {} {} {} {}", k.key_type, k.comment, k.magic, show_pub(&k.pubkey), hexs(&k.encode()), hexs(&out), sig)
}
pub fn show_signer(a: &AllowedSigner) -> String {
    format!("{:?} {} {:?} {:?} {:?} {} {}", a.principals, a.cert_authority, a.namespaces, a.valid_after, a.valid_before, show_pub(&a.key), a)
}
fn or_err<T, E: std::fmt::Debug>(r: Result<T, E>, f: impl Fn(&T) -> String) -> String {
    match r {
        Ok(t) => f(&t),
        Err(e) => format!("error {:?}", e),
    }
}

/// Everything observable about the answer to one input.
pub fn answer(i: &In, file: &Path) -> String {
    use In::*;
    match i {
        CertBytes(b) => or_err(Certificate::from_bytes(b), show_cert),
        CertText(s) => or_err(Certificate::from_string(s), show_cert),
        PubBytes(b) => or_err(PublicKey::from_bytes(b), show_pub),
        PubText(s) => or_err(PublicKey::from_string(s), show_pub),
        PrivBytes(b) => or_err(PrivateKey::from_bytes(b), show_priv),
        PrivText(s, None) => or_err(PrivateKey::from_string(s), show_priv),
        PrivText(s, p) => or_err(PrivateKey::from_string_with_passphrase(s, p.clone()), show_priv),
        Sig(s, m, ns, k) => or_err(SshSignature::from_armored_string(s), |g| {
            let before = format!("{:?} {}", g, g);
            let k = k.as_ref().and_then(|b| PublicKey::from_bytes(b).ok());
            let again = match SshSignature::from_armored_string(s) {
                Ok(g) => g,
                Err(_) => return "parsed once, refused the second time".into(),
            };
            format!("{} {}", before, or_err(VerifiedSshSignature::from_ssh_signature(m, again, ns, k), |v| v.to_string()))
        }),
        Line(s) => or_err(AllowedSigner::from_string(s), show_signer),
        Signers(s) => or_err(AllowedSigners::from_string(s), |l| l.0.iter().map(show_signer).collect::<Vec<_>>().join(";")),
        Auth(b, app) => or_err(AuthData::parse(b), |a| format!("{:?} {}", a, or_err(a.ssh_public_key(app), show_pub))),
        Att(a, b, d, e, f, g) => or_err(verify_auth_data(a, b, d, *e, f, g.as_deref()), |v| {
            format!("{:?} {:?} {:?} {:?}", v.auth_data, v.firmware, v.aaguid, v.transports.as_ref().map(|t| t.iter().map(|x| format!("{:?}", std::mem::discriminant(x))).collect::<Vec<_>>()))
        }),
        Piv(a, b, g) => or_err(verify_certificate_chain(a, b, g.as_deref()), |v| format!("{:?} {}", v, show_pub(&v.public_key))),
        X509(b) => or_err(extract_ssh_pubkey_from_x509_certificate(b), show_pub),
        Csr(b) => or_err(extract_ssh_pubkey_from_x509_csr(b), show_pub),
        DerKey(b) => or_err(der_encoding_to_ssh_public_key(b), show_pub),
        EcSig(b) => format!("{:?} {:?}", asn_der_to_r_s(b), signature_convert_asn1_ecdsa_to_ssh(b)),
        Format(k, s) => or_err(PublicKey::from_bytes(k), |k| format!("{:?}", format_signature_for_ssh(k, s))),
        // a fresh certificate has its own nonce: only whether the signature is refused
        AddSig(k, ca, s) => match (PublicKey::from_bytes(k), PublicKey::from_bytes(ca)) {
            (Ok(k), Ok(ca)) => or_err(Certificate::builder(&k, CertType::User, &ca), |c| or_err(c.clone().serial(1).add_signature(s), |_| "accepted".into())),
            _ => "no key".into(),
        },
        Name(s) => format!("{} {:?} {:?}", or_err(KeyType::from_name(s), |k| format!("{:?} {} {}", k, k.as_cert_name(), k.as_pubkey_name())), Curve::from_identifier(s).map(|c| c.identifier), CertType::try_from(s.as_str())),
        Path(w, b) => {
            if std::fs::write(file, b).is_err() {
                return "harness: cannot write".into();
            }
            match w {
                0 => or_err(PublicKey::from_path(file), show_pub),
                1 => or_err(Certificate::from_path(file), show_cert),
                2 => or_err(PrivateKey::from_path(file), show_priv),
                _ => or_err(AllowedSigners::from_path(file), |l| l.0.iter().map(show_signer).collect::<Vec<_>>().join(";")),
            }
        }
        Wire(ops, d) => {
            let mut rd = Reader::new(d);
            let mut out = String::new();
            for o in ops.iter().take(32) {
                out += &match o % 6 {
                    0 => format!("{:?}", rd.read_u32().ok()),
                    1 => format!("{:?}", rd.read_u64().ok()),
                    2 => format!("{:?}", rd.read_bytes().ok()),
                    3 => format!("{:?}", rd.read_string().ok()),
                    4 => format!("{:?}", rd.read_positive_mpint().ok()),
                    _ => format!("{:?}", rd.read_raw_bytes(*o as usize % 9).ok()),
                };
                out += &format!("@{};", rd.get_offset());
            }
            out
        }
    }
}

/// A family of inputs that are easily taken for each other: same key, same start, same end, same
/// length, other comment, other message, other root.
pub fn family(seed: u64, g: u64) -> Vec<In> {
    use In::*;
    let mut r = Rng::new(seed, "family", g);
    let r = &mut r;
    let base = genuine(r, g as usize);
    let mut v = vec![base.clone()];
    // genuine relatives: everything the same but one thing, each correctly signed, and each with
    // the signature of another
    match &base {
        CertBytes(_) => {
            let (sub, ca, ca2) = (Key::gen_verifiable(r), Key::gen_signing(r), Key::gen_signing(r));
            let sp = crate::refcert::Spec::gen(r, &sub, &ca, false);
            let o = SigOpt::random(r);
            let mut l = vec![sp.clone(); 7];
            l[1].principals.push(b"root".to_vec());
            l[2].before ^= 1 << 20;
            l[3].ctype = 3 - l[3].ctype.clamp(1, 2);
            l[4].nonce = r.bytes(32);
            l[5].serial ^= 1;
            l[6].key_id.push(b'x');
            let own: Vec<Vec<u8>> = l.iter().map(|s| s.signed(&ca, o)).collect();
            for (n, s) in l.iter().enumerate() {
                let sig = crate::refcert::Spec::decode(&own[(n + 1) % 7]).map(|d| d.1).unwrap_or_default();
                v.push(CertBytes(own[n].clone()));
                v.push(CertBytes(crate::wire::W(s.tbs()).s(&sig).0));
            }
            let mut other = sp.clone();
            other.ca = ca2.blob();
            v.push(CertBytes(other.signed(&ca2, o)));
            v.push(CertBytes(other.signed(&ca, o)));
        }
        Sig(..) => {
            let (k, k2) = (Key::gen_verifiable(r), Key::gen_verifiable(r));
            let o = SigOpt::random(r);
            for ns in ["git", "file", "git "] {
                for h in ["sha256", "sha512"] {
                    for m in [&b"one"[..], b"two"] {
                        v.push(Sig(sshsig(&k, m, ns, h, o), b"one".to_vec(), "git".into(), Some(k.blob())));
                    }
                }
            }
            v.push(Sig(sshsig(&k2, b"one", "git", "sha512", o), b"one".to_vec(), "git".into(), Some(k.blob())));
            v.push(Sig(sshsig(&k2, b"one", "git", "sha512", o), b"one".to_vec(), "git".into(), None));
        }
        PrivText(_, None) => {
            // the same key under other comments and check values
            let k = Key::gen_signing(r);
            for (cm, ck) in [("a", 1u32), ("b", 1), ("a", 2)] {
                v.push(PrivText(PrivFile::new(&k, &PrivExtra { flags: 1, handle: vec![1; 8], reserved: vec![] }, cm, ck).text(), None));
            }
        }
        _ => (),
    }
    let byte_variants = |r: &mut Rng, b: &Vec<u8>| -> Vec<Vec<u8>> {
        let mut out = vec![];
        if b.is_empty() {
            return out;
        }
        let n = b.len();
        for at in [n - 1, n / 2, r.below(n), n.saturating_sub(20), r.below(n)] {
            let mut x = b.clone();
            x[at] ^= 1 << r.below(8);
            out.push(x);
        }
        let mut x = b.clone();
        x.push(0);
        out.push(x);
        out.push(b[..n - 1].to_vec());
        let mut x = b.clone();
        havoc(r, &mut x);
        out.push(x);
        out
    };
    let text_variants = |r: &mut Rng, s: &String| -> Vec<String> {
        let mut out = vec![format!("{} another comment", s.trim_end()), format!("  {}", s), format!("{}\n", s)];
        for _ in 0..3 {
            let mut x = s.clone();
            text_havoc(r, &mut x);
            out.push(x);
        }
        // one character of the base64 body replaced
        if let Some(at) = s.rfind("AAAA") {
            let body: usize = s[at..].find(|c: char| c.is_whitespace()).map(|e| at + e).unwrap_or(s.len());
            for _ in 0..3 {
                let p = r.range(at + 4, body.max(at + 5) - 1);
                if s.is_char_boundary(p) && s.is_char_boundary(p + 1) {
                    let mut x = s.clone();
                    x.replace_range(p..p + 1, if &s[p..p + 1] == "A" { "B" } else { "A" });
                    out.push(x);
                }
            }
        }
        out
    };
    match &base {
        CertBytes(b) => {
            v.extend(byte_variants(r, b).into_iter().map(CertBytes));
            // the same certificate with only its signature damaged, and as text
            v.push(CertText(format!("{} {} c", KT::Ed.cert_name(), crate::wire::b64(b))));
        }
        PubBytes(b) => {
            v.extend(byte_variants(r, b).into_iter().map(PubBytes));
            v.push(PubText(format!("{} {} c1", String::from_utf8_lossy(crate::wire::R::new(b).s().unwrap_or(b"x")), crate::wire::b64(b))));
            v.push(PubText(format!("{} {} c2", String::from_utf8_lossy(crate::wire::R::new(b).s().unwrap_or(b"x")), crate::wire::b64(b))));
        }
        PrivBytes(b) => v.extend(byte_variants(r, b).into_iter().map(PrivBytes)),
        X509(b) => v.extend(byte_variants(r, b).into_iter().map(X509)),
        Csr(b) => v.extend(byte_variants(r, b).into_iter().map(Csr)),
        DerKey(b) => v.extend(byte_variants(r, b).into_iter().map(DerKey)),
        EcSig(b) => v.extend(byte_variants(r, b).into_iter().map(EcSig)),
        Path(w, b) => v.extend(byte_variants(r, b).into_iter().map(|x| Path(*w, x))),
        CertText(s) => v.extend(text_variants(r, s).into_iter().map(CertText)),
        PubText(s) => v.extend(text_variants(r, s).into_iter().map(PubText)),
        Line(s) => {
            v.extend(text_variants(r, s).into_iter().map(Line));
            // times of day as the local clock shows them, in both halves of the year
            let k = Key::gen(r, KT::Ed);
            let y = r.range(1995, 2037);
            for d in ["0115", "0715", "03100130", "0801", "11301200", "0704000000", "1224235959"] {
                let z = match d.len() {
                    10 => format!("{}{}", y, d),
                    _ => format!("{}{}", y + r.below(3), d),
                };
                let o = *r.pick(&["valid-after", "valid-before"]);
                v.push(Line(format!("a@b {}=\"{}\" {}", o, z, k.line())));
                v.push(Line(format!("a@b {}=\"{}Z\" {}", o, z, k.line())));
            }
        }
        Signers(s) => {
            v.extend(text_variants(r, s).into_iter().map(Signers));
            let k = Key::gen(r, KT::Ed);
            for d in [["20200115", "20200715"], ["20210715", "20210115"]] {
                v.push(Signers(d.iter().map(|d| format!("a@b valid-before=\"{}\" {}\n", d, k.line())).collect()));
            }
        }
        Name(s) => {
            v.extend(text_variants(r, s).into_iter().map(Name));
            v.push(Name(s.to_uppercase()));
        }
        PrivText(s, None) => {
            v.extend(text_variants(r, s).into_iter().map(|x| PrivText(x, None)));
            v.push(PrivText(s.clone(), Some("pass".into())));
        }
        PrivText(s, Some(p)) => {
            v.push(PrivText(s.clone(), None));
            v.push(PrivText(s.clone(), Some(format!("{}x", p))));
            v.push(PrivText(s.clone(), Some(p[..p.len() - 1].to_string())));
        }
        Sig(s, m, ns, k) => {
            let other = Key::gen(r, KT::Ed).blob();
            let mut m2 = m.clone();
            m2.push(b'x');
            v.push(Sig(s.clone(), m2, ns.clone(), k.clone()));
            v.push(Sig(s.clone(), vec![], ns.clone(), k.clone()));
            v.push(Sig(s.clone(), m.clone(), format!("{}x", ns), k.clone()));
            v.push(Sig(s.clone(), m.clone(), ns.clone(), Some(other)));
            v.push(Sig(s.clone(), m.clone(), ns.clone(), None));
            v.extend(text_variants(r, s).into_iter().map(|x| Sig(x, m.clone(), ns.clone(), k.clone())));
        }
        Auth(b, app) => {
            v.extend(byte_variants(r, b).into_iter().map(|x| Auth(x, app.clone())));
            v.push(Auth(b.clone(), "ssh:other".into()));
        }
        Att(a, b, d, e, f, g) => {
            let o = p_fido::att(r);
            v.push(Att(a.clone(), b.clone(), d.clone(), *e, f.clone(), Some(o.root_pem)));
            v.push(Att(a.clone(), b.clone(), d.clone(), *e, f.clone(), None));
            v.push(Att(a.clone(), b.clone(), d.clone(), *e, o.cert_der, g.clone()));
            v.push(Att(a.clone(), b.clone(), o.challenge, *e, f.clone(), g.clone()));
            v.push(Att(a.clone(), o.sig, d.clone(), *e, f.clone(), g.clone()));
            v.push(Att(a.clone(), b.clone(), d.clone(), -8, f.clone(), g.clone()));
            v.extend(byte_variants(r, a).into_iter().map(|x| Att(x, b.clone(), d.clone(), *e, f.clone(), g.clone())));
            v.extend(byte_variants(r, f).into_iter().map(|x| Att(a.clone(), b.clone(), d.clone(), *e, x, g.clone())));
        }
        Piv(a, b, g) => {
            let o = p_piv::piv(r);
            v.push(Piv(a.clone(), b.clone(), Some(o.root_pem)));
            v.push(Piv(a.clone(), b.clone(), None));
            v.push(Piv(a.clone(), o.int_der, g.clone()));
            v.push(Piv(o.dev_der, b.clone(), g.clone()));
            v.extend(byte_variants(r, a).into_iter().map(|x| Piv(x, b.clone(), g.clone())));
            v.extend(byte_variants(r, b).into_iter().map(|x| Piv(a.clone(), x, g.clone())));
        }
        Format(k, s) => {
            let o = Key::gen(r, KT::Ed).blob();
            v.push(Format(o, s.clone()));
            v.extend(byte_variants(r, s).into_iter().map(|x| Format(k.clone(), x)));
        }
        AddSig(k, ca, s) => v.extend(byte_variants(r, s).into_iter().map(|x| AddSig(k.clone(), ca.clone(), x))),
        Wire(o, d) => v.extend(byte_variants(r, d).into_iter().map(|x| Wire(o.clone(), x))),
    }
    v
}

fn hash(i: &In, file: &Path) -> u64 {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| answer(i, file))) {
        Ok(a) => fnv(a.as_bytes()),
        Err(_) => 1,
    }
}

/// Child: the answer to one input as the first call of a process.
pub fn c25_child(input: &str, file: &str) {
    let i = In::unpack(&std::fs::read(input).expect("input")).expect("input");
    println!("{:016x}", hash(&i, Path::new(file)));
}

pub fn c25(m: &'static Mon) {
    m.rule("inputs with an answer of their own in a fresh process, compared in some history");
    m.assume("a panic counts as an answer like any other here");
    // a place whose clocks change, so that a local date has more than one offset to go wrong with;
    // the fresh processes inherit it
    std::env::set_var("TZ", "EST5EDT,M3.2.0,M11.1.0");
    m.assume("ECDSA signatures contain fresh randomness: only their validity is compared");
    let exe = std::env::current_exe().expect("own path");
    let groups = m.n(132);
    let seed = m.seed;
    // reference answers, each from a process of its own
    let want: Vec<std::sync::OnceLock<(Vec<In>, Vec<u64>)>> = (0..groups).map(|_| Default::default()).collect();
    let need = |g: u64, dir: &Path| -> (Vec<In>, Vec<u64>) {
        want[g as usize]
            .get_or_init(|| {
                let (f, i) = (dir.join(format!("ref{}", g)), dir.join(format!("in{}", g)));
                let fam = family(seed, g);
                let v = fam
                    .iter()
                    .map(|k| {
                        std::fs::write(&i, k.pack()).expect("input file");
                        let o = std::process::Command::new(&exe).args(["histchild", &i.to_string_lossy(), &f.to_string_lossy()]).output().expect("child");
                        u64::from_str_radix(String::from_utf8_lossy(&o.stdout).trim(), 16).expect("child answer")
                    })
                    .collect();
                let _ = std::fs::remove_file(&f);
                let _ = std::fs::remove_file(&i);
                (fam, v)
            })
            .clone()
    };
    m.section("fresh processes", groups, |c| {
        let dir = c.mon.scratch.clone();
        let v = need(c.idx, &dir).1;
        c.mon.event("reference answers from fresh processes", v.len() as u64);
        let mut d = v.clone();
        d.sort();
        d.dedup();
        c.mon.event("different reference answers within families", d.len() as u64);
        c.eval_trivial();
    });
    let report = |c: &mut Case<'_>, f: &In, file: &Path, how: &str, hist: &[usize]| {
        let now = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| answer(f, file))).unwrap_or_else(|_| "panic".into());
        c.fail(
            format!("{} answers differently {}", f.name(), how),
            json!({"input": format!("{:?}", f).chars().take(3000).collect::<String>(), "answer when asked again": now.chars().take(2000).collect::<String>(), "history": hist}),
        );
    };
    // every ordered pair within a family, forwards and backwards
    m.section("pairs", groups, |c| {
        let dir = c.mon.scratch.clone();
        let (f, w) = need(c.idx, &dir);
        let file = dir.join(format!("pair{}", c.idx));
        let mut order: Vec<usize> = (0..f.len()).collect();
        c.rng.shuffle(&mut order);
        for &a in &order {
            for &b in &order {
                for k in [a, b] {
                    let f2 = f[k].clone();
                    let h = match c.call(f2.name(), || hash(&f2, &file)) {
                        Ok(h) => h,
                        Err(_) => 1,
                    };
                    c.eval(&[&c.idx.to_be_bytes()[..], &(k as u64).to_be_bytes()].concat());
                    c.ev("answers compared after another of the family");
                    if h != w[k] {
                        report(c, &f[k], &file, &format!("after input {} of its family", a), &[a, b]);
                        return;
                    }
                }
            }
        }
        let _ = std::fs::remove_file(&file);
    });
    // random histories over several families, on all threads at once
    m.section("histories", m.n(240), |c| {
        let dir = c.mon.scratch.clone();
        let gs: Vec<u64> = (0..4).map(|_| c.rng.below(groups as usize) as u64).collect();
        let fams: Vec<(u64, Vec<In>, Vec<u64>)> = gs.iter().map(|g| (*g, need(*g, &dir))).map(|(g, (f, w))| (g, f, w)).collect();
        let file = dir.join(format!("hist{}", c.idx));
        let mut hist = vec![];
        for _ in 0..400 {
            let (g, f, w) = &fams[c.rng.below(fams.len())];
            let k = c.rng.below(f.len());
            // now and then the same one several times in a row
            for _ in 0..if c.rng.chance(1, 8) { 4 } else { 1 } {
                hist.push(*g as usize * 100 + k);
                let h = c.call(f[k].name(), || hash(&f[k], &file)).unwrap_or(1);
                c.eval(&[&g.to_be_bytes()[..], &(k as u64).to_be_bytes()].concat());
                c.ev("answers compared in random histories");
                if h != w[k] {
                    let t = hist[hist.len().saturating_sub(40)..].to_vec();
                    report(c, &f[k], &file, "in a history of other calls", &t);
                    return;
                }
            }
        }
        let _ = std::fs::remove_file(&file);
    });
    // one call over and over, mostly a failing one, and then everything else again
    m.section("storms", m.n(320), |c| {
        let dir = c.mon.scratch.clone();
        let file = dir.join(format!("storm{}", c.idx));
        let (what, gs) = {
            let r = &mut c.rng;
            let gs: Vec<u64> = (0..3).map(|_| r.below(groups as usize) as u64).collect();
            let k = Key::gen_verifiable(r);
            let name = k.kt.name().as_bytes().to_vec();
            // signatures that are refused early, late, or in the middle
            let sig = match r.below(8) {
                0 => vec![],
                1 => crate::wire::W::new().s(&name).0,
                2 => crate::wire::W::new().s(&name).s(b"").0,
                3 => crate::wire::W::new().s(&name).s(&[0]).0,
                4 => crate::wire::W::new().s(b"ssh-ed25519").s(&[7; 64]).0,
                5 => {
                    let n = r.below(90);
                    crate::wire::W::new().s(&name).s(&r.bytes(n)).0
                }
                6 => k.sign(b"something else", SigOpt::random(r)),
                _ => {
                    let n = r.below(40);
                    r.bytes(n)
                }
            };
            let what = match r.below(10) {
                0 | 1 => {
                    let sub = Key::gen_verifiable(r);
                    let sp = crate::refcert::Spec::gen(r, &sub, &k, false);
                    In::CertBytes(crate::wire::W(sp.tbs()).s(&sig).0)
                }
                2 => In::Sig(armor("SSH SIGNATURE", &sshsig_blob(&k.blob(), b"git", b"", b"sha512", &sig), 70, true), b"one".to_vec(), "git".into(), None),
                3 => In::AddSig(k.blob(), k.blob(), sig),
                4 => In::PubText(format!("{} {} x", k.kt.name(), crate::wire::b64(&sig))),
                5 => In::Line(format!("a@b {} {}", k.kt.name(), crate::wire::b64(&sig))),
                _ => {
                    let f = family(seed, r.below(groups as usize) as u64);
                    f[r.below(f.len())].clone()
                }
            };
            (what, gs)
        };
        let first = c.call(what.name(), || hash(&what, &file)).unwrap_or(1);
        let t = std::time::Instant::now();
        let mut n = 0;
        while n < 4000 && (n < 300 && t.elapsed().as_millis() < 4000 || t.elapsed().as_millis() < 150) {
            let h = c.call(what.name(), || hash(&what, &file)).unwrap_or(1);
            n += 1;
            if h != first {
                report(c, &what, &file, &format!("the {}th time", n), &[]);
                return;
            }
        }
        c.eval(&c.idx.to_be_bytes());
        c.mon.event("calls repeated in storms", n);
        for g in gs {
            let (f, w) = need(g, &dir);
            for (i, want) in f.iter().zip(w) {
                let h = c.call(i.name(), || hash(i, &file)).unwrap_or(1);
                c.ev("answers compared after a storm");
                if h != want {
                    report(c, i, &file, &format!("after {} calls of {}", n, what.name()), &[]);
                    return;
                }
            }
        }
        let _ = std::fs::remove_file(&file);
    });
    // all threads ask about one family at the same moment, over and over
    m.section_threads("at once", m.n(60), 1, |c| {
        let dir = c.mon.scratch.clone();
        let g = c.rng.below(groups as usize) as u64;
        let (f, w) = need(g, &dir);
        let f = Arc::new(f);
        let same = c.rng.chance(1, 2);
        let n = 16;
        let rounds = 40;
        let bar = Arc::new(Barrier::new(n));
        let s = c.rng.u64();
        let bad: Vec<Option<usize>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    let (bar, f, w, dir) = (bar.clone(), f.clone(), w.clone(), dir.clone());
                    sc.spawn(move || {
                        let file = dir.join(format!("once{}", t));
                        let mut out = None;
                        let mut common = Rng::new(s, "common", 0);
                        let mut own = Rng::new(s, "own", t as u64);
                        for _ in 0..rounds {
                            let k = if same { common.below(f.len()) } else { own.below(f.len()) };
                            bar.wait();
                            if hash(&f[k], &file) != w[k] && out.is_none() {
                                out = Some(k);
                            }
                        }
                        let _ = std::fs::remove_file(&file);
                        out
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        c.eval(&g.to_be_bytes());
        c.mon.event("answers compared while 16 threads ask at once", (n * rounds) as u64);
        if let Some(k) = bad.iter().flatten().next() {
            report(c, &f[*k], &dir.join("once"), "while other threads ask about inputs like it", &[]);
        }
    });
    // shared objects: used by all threads at once, and unchanged by it
    m.section_threads("shared objects", m.n(60), 1, |c| {
        let k = Key::gen_signing(&mut c.rng);
        let ca = Key::gen_signing(&mut c.rng);
        let spec = crate::refcert::Spec::gen(&mut c.rng, &k, &ca, false);
        let o = SigOpt::random(&mut c.rng);
        let bytes = spec.signed(&ca, o);
        let (p, cert, pk) = match (crate::p_cert::lib_private(&k), Certificate::from_bytes(&bytes), PublicKey::from_bytes(&k.blob())) {
            (Some(a), Ok(b), Ok(d)) => (Arc::new(a), Arc::new(b), Arc::new(d)),
            _ => {
                c.ev("objects not made");
                return;
            }
        };
        let blob = k.blob();
        let before = (show_cert(&cert), show_pub(&pk), show_pub(&p.pubkey), hexs(&p.encode()));
        let n = 12;
        let bar = Arc::new(Barrier::new(n));
        let s = c.rng.u64();
        let det = k.kt != KT::P256 && k.kt != KT::P384 && k.kt != KT::P521;
        let bad: Vec<Option<String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|t| {
                    let (p, cert, pk, bar, blob, before) = (p.clone(), cert.clone(), pk.clone(), bar.clone(), blob.clone(), before.clone());
                    sc.spawn(move || {
                        let mut r = Rng::new(s, "shared", t as u64);
                        bar.wait();
                        for i in 0..12u64 {
                            match r.below(5) {
                                0 => {
                                    if show_cert(&cert) != before.0 {
                                        return Some("certificate".to_string());
                                    }
                                }
                                1 => {
                                    if show_pub(&pk) != before.1 {
                                        return Some("public key".to_string());
                                    }
                                }
                                2 => {
                                    let d = [&s.to_be_bytes()[..], &i.to_be_bytes(), &[if det { 0 } else { t as u8 }]].concat();
                                    match p.sign(&d) {
                                        Some(sig) if ref_verify(&blob, &sig, &d) == V::Valid => (),
                                        _ => return Some("signature made on several threads".into()),
                                    }
                                }
                                3 => {
                                    if hexs(&p.encode()) != before.3 {
                                        return Some("private key".into());
                                    }
                                }
                                _ => {
                                    // a clone lives its own life
                                    let mut q = (*p).clone();
                                    q.comment = "changed".into();
                                    q.pubkey.comment = Some("changed".into());
                                    drop(q);
                                    let mut x = (*cert).clone();
                                    x = x.key_id("changed").principal("changed").critical_option("changed", "v").extension("changed", "v").serial(9).valid_after(1).valid_before(2).comment("changed");
                                    if x.key_id != "changed" {
                                        return Some("clone".into());
                                    }
                                    let mut y = (*pk).clone();
                                    y.comment = Some("changed".into());
                                    if y == *pk && pk.comment != y.comment {
                                        return Some("comparison".into());
                                    }
                                }
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("panic".into()))).collect()
        });
        c.eval(&blob);
        c.mon.event("uses of shared objects on 12 threads", 144);
        if let Some(w) = bad.iter().flatten().next() {
            c.fail(format!("a shared object changed or misbehaved under use by several threads: {}", w), json!({"key": hexs(&blob), "certificate": hexs(&bytes)}));
        }
        if (show_cert(&cert), show_pub(&pk), show_pub(&p.pubkey), hexs(&p.encode())) != before {
            c.fail("an object was changed by use", json!({"key": hexs(&blob), "certificate": hexs(&bytes)}));
        }
    });
    // clones: equal, independent of changes to and the end of the original
    m.section("clones", m.n(3000), |c| {
        let k = if c.rng.chance(1, 2) { Key::gen_signing(&mut c.rng) } else { Key::gen_verifiable(&mut c.rng) };
        let ca = Key::gen_signing(&mut c.rng);
        let spec = crate::refcert::Spec::gen(&mut c.rng, &k, &ca, false);
        let o = SigOpt::random(&mut c.rng);
        let bytes = spec.signed(&ca, o);
        c.eval(&bytes);
        let what = c.rng.below(4);
        let r = c.call("clones", || -> Option<&'static str> {
            if what < 2 {
                let a = crate::p_cert::lib_private(&k)?;
                let b = a.clone();
                let first = show_priv(&a);
                if a != b || show_priv(&b) != first {
                    return Some("cloned private key differs");
                }
                let c2 = b.clone();
                if what == 0 {
                    drop(a);
                } else {
                    drop(b);
                    if show_priv(&a) != first {
                        return Some("private key changed when its clone was dropped");
                    }
                    drop(a);
                }
                if show_priv(&c2) != first {
                    return Some("clone changed when its original was dropped");
                }
            } else {
                let a = Certificate::from_bytes(&bytes).ok()?;
                let first = show_cert(&a);
                let b = a.clone();
                if a != b || show_cert(&b) != first {
                    return Some("cloned certificate differs");
                }
                let d = b.clone().key_id("x").principal("y").extension("z", "").serial(7);
                if d == b {
                    return Some("a changed clone equals its original");
                }
                drop(a);
                drop(d);
                if show_cert(&b) != first {
                    return Some("clone changed with its original");
                }
            }
            None
        });
        c.ev("clone life cycles");
        match r {
            Ok(None) => (),
            Ok(Some(w)) => c.fail(w, json!({"key": hexs(&k.blob()), "certificate": hexs(&bytes)})),
            Err(_) => c.ev("panicked"),
        }
    });
}
