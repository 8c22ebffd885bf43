//! C17, C18: allowed-signers entries and their validity times.
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::mutate::havoc;
use crate::openssh::civil;
use crate::p_sig::same_key;
use crate::refcert::pub_blob;
use crate::rng::Rng;
use crate::wire::b64;
use serde_json::{json, Value};
use sshcerts::ssh::{AllowedSigner, AllowedSigners};
use std::io::Write;

// ---------------------------------------------------------------------------------------------
// Reference

/// Unix time of a UTC calendar time, None for impossible dates.
pub fn utc_of(y: i64, mo: i64, d: i64, h: i64, mi: i64, s: i64) -> Option<i64> {
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let dim = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if !(1..=12).contains(&mo) || d < 1 || d > dim[(mo - 1) as usize] || h > 23 || mi > 59 || s > 59 {
        return None;
    }
    let mut days = 0i64;
    let y0 = y - 1;
    days += y0 * 365 + y0.div_euclid(4) - y0.div_euclid(100) + y0.div_euclid(400);
    days += dim[..(mo - 1) as usize].iter().sum::<i64>() + d - 1;
    days -= 719162; // days before 1970-01-01 counted from 0001-01-01
    Some(days * 86400 + h * 3600 + mi * 60 + s)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ts {
    /// calendar fields; second 60 and year 0 may be refused
    Time { f: [i64; 6], utc: bool, either: bool },
    Bad,
}

/// Reads YYYYMMDD[HHMM[SS]][Z].
pub fn ref_ts(s: &[u8]) -> Ts {
    let (digits, utc) = match s.split_last() {
        Some((b'Z', d)) => (d, true),
        _ => (s, false),
    };
    if ![8, 12, 14].contains(&digits.len()) || !digits.iter().all(|b| b.is_ascii_digit()) {
        return Ts::Bad;
    }
    let num = |a: usize, b: usize| digits.get(a..b).map(|x| x.iter().fold(0i64, |n, c| n * 10 + (c - b'0') as i64)).unwrap_or(0);
    let mut f = [num(0, 4), num(4, 6), num(6, 8), num(8, 10), num(10, 12), num(12, 14)];
    let mut either = f[0] == 0;
    if f[5] == 60 {
        either = true;
        f[5] = 59;
    }
    if utc_of(f[0], f[1], f[2], f[3], f[4], f[5]).is_none() {
        return Ts::Bad;
    }
    Ts::Time { f, utc, either }
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub principals: Vec<String>,
    pub ca: bool,
    pub ns: Option<Vec<String>>,
    pub after: Option<i64>,
    pub before: Option<i64>,
    pub blob: Vec<u8>,
}

fn diff(a: &AllowedSigner, e: &Entry) -> Vec<&'static str> {
    let mut d = vec![];
    if a.principals != e.principals {
        d.push("principals");
    }
    if a.cert_authority != e.ca {
        d.push("cert_authority");
    }
    if a.namespaces != e.ns {
        d.push("namespaces");
    }
    if a.valid_after != e.after {
        d.push("valid_after");
    }
    if a.valid_before != e.before {
        d.push("valid_before");
    }
    if !same_key(&pub_blob(&a.key), &e.blob) {
        d.push("key");
    }
    d
}

/// A token: text, and whether quotes occurred other than around a whole value.
fn tokens(line: &str) -> Result<(Vec<String>, bool), ()> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut inq = false;
    let mut started = false;
    let mut glued_comment = false;
    for ch in line.chars() {
        if inq {
            cur.push(ch);
            if ch == '"' {
                inq = false;
            }
            continue;
        }
        match ch {
            ' ' => {
                if started {
                    out.push(std::mem::take(&mut cur));
                    started = false;
                }
            }
            '#' => {
                glued_comment = started;
                break;
            }
            '"' => {
                inq = true;
                started = true;
                cur.push(ch);
            }
            _ => {
                started = true;
                cur.push(ch);
            }
        }
    }
    if inq {
        return Err(());
    }
    if started {
        out.push(cur);
    }
    Ok((out, glued_comment))
}
fn unquote(v: &str) -> Option<String> {
    // an empty pair of quotes after the text adds nothing to it
    if v.len() > 2 && v.ends_with("\"\"") && !v[..v.len() - 2].contains('"') {
        return Some(v[..v.len() - 2].to_string());
    }
    if v.len() >= 2 && v.starts_with('"') && v.ends_with('"') && !v[1..v.len() - 1].contains('"') {
        return Some(v[1..v.len() - 1].to_string());
    }
    if v.contains('"') {
        return None;
    }
    Some(v.to_string())
}

/// Some((entry, may be refused)); None: must be refused. Bounds in local time are only right in
/// a process whose zone is UTC.
fn ref_line(line: &str) -> Option<(Entry, bool)> {
    let mut either = line.chars().any(|c| c != ' ' && (c.is_whitespace() || c.is_control()));
    let (t, glued) = match tokens(line) {
        Ok(x) => x,
        Err(()) => return None,
    };
    either |= glued | t.iter().any(|x| x.len() > 2 && x.ends_with("\"\"") && !x.ends_with("=\"\""));
    let p = unquote(t.first()?)?;
    let principals: Vec<String> = p.split(',').map(|s| s.to_string()).collect();
    if principals.iter().any(|p| p.is_empty()) {
        return None;
    }
    let mut e = Entry { principals, ca: false, ns: None, after: None, before: None, blob: vec![] };
    let mut i = 1;
    loop {
        let tok = t.get(i)?;
        i += 1;
        let (name, val) = match tok.split_once('=') {
            Some((n, v)) => (n, Some(v)),
            None => (tok.as_str(), None),
        };
        let time = |v: Option<&str>, slot: &mut Option<i64>, either: &mut bool| -> Option<()> {
            if slot.is_some() {
                return None;
            }
            match ref_ts(unquote(v?)?.as_bytes()) {
                Ts::Bad => None,
                Ts::Time { f, utc, either: ei } => {
                    *either |= ei | !utc;
                    *slot = Some(utc_of(f[0], f[1], f[2], f[3], f[4], f[5])?);
                    Some(())
                }
            }
        };
        match name.to_ascii_lowercase().as_str() {
            "cert-authority" => {
                if val.is_some() {
                    return None;
                }
                if e.ca {
                    either = true;
                }
                e.ca = true;
            }
            "namespaces" => {
                if e.ns.is_some() {
                    return None;
                }
                let v = unquote(val.unwrap_or(""))?;
                let l: Vec<String> = v.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                if l.is_empty() {
                    either = true;
                }
                e.ns = Some(l);
            }
            "valid-after" => time(val, &mut e.after, &mut either)?,
            "valid-before" => time(val, &mut e.before, &mut either)?,
            _ => {
                let body = t.get(i)?;
                i += 1;
                if t.len() > i {
                    return None;
                }
                let blob = match base64::decode(body) {
                    Ok(b) => b,
                    Err(_) => {
                        // missing padding is tolerated by some decoders
                        either = true;
                        base64::decode_config(body.trim_end_matches('='), base64::STANDARD_NO_PAD.decode_allow_trailing_bits(true)).ok()?
                    }
                };
                let (kt, _, trail) = parse_pub(&blob)?;
                either |= trail || !crate::p_pub::must_accept(&blob);
                if tok != kt.name() || !b64(&blob).eq(body) {
                    either = true;
                    if KT::from_name(tok.as_bytes()) != Some(kt) && !(kt == KT::Rsa && tok.starts_with("rsa-sha2-")) {
                        return None;
                    }
                }
                e.blob = blob;
                break;
            }
        }
    }
    if let (Some(a), Some(b)) = (e.after, e.before) {
        if b <= a {
            return None;
        }
    }
    Some((e, either))
}

// ---------------------------------------------------------------------------------------------
// Generators

fn blanks(r: &mut Rng) -> String {
    " ".repeat(if r.chance(3, 4) { 1 } else { r.range(2, 9) })
}
fn mixed_case(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_uppercase(),
        1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        _ => s.to_string(),
    }
}
fn item(r: &mut Rng, quoted: bool) -> String {
    let max = if r.chance(1, 20) { 300 } else { 14 };
    let mut s = r.word(max);
    if quoted && r.chance(1, 2) {
        let n = r.range(1, 4);
        for _ in 0..n {
            let at = r.below(s.len() + 1);
            s.insert(at, *r.pick(&[' ', '#', '=', '\'', ' ', '\\', '#']));
        }
    } else if !quoted && r.chance(1, 6) {
        let at = r.below(s.len() + 1);
        s.insert(at, *r.pick(&['=', '\'', '\\', '(', '`']));
    }
    s
}
pub fn ts_text(f: &[i64; 6], form: usize, z: bool) -> String {
    let mut s = format!("{:04}{:02}{:02}", f[0], f[1], f[2]);
    if form >= 1 {
        s += &format!("{:02}{:02}", f[3], f[4]);
    }
    if form >= 2 {
        s += &format!("{:02}", f[5]);
    }
    if z {
        s.push('Z');
    }
    s
}
/// An existing calendar time, with the parts the form does not show set to zero.
pub fn rand_time(r: &mut Rng, form: usize) -> [i64; 6] {
    let y = match r.below(6) {
        0 => r.range(1, 9999),
        1 => *r.pick(&[1, 1900, 1969, 1970, 1971, 1999, 2000, 2037, 2038, 2039, 2100, 2106, 2400, 9999]),
        2 => r.range(1900, 2100),
        _ => r.range(1990, 2045),
    } as i64;
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let mo = r.range(1, 12) as i64;
    let dim = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(mo - 1) as usize];
    let d = if r.chance(1, 3) { *r.pick(&[1, dim]) } else { r.range(1, dim as usize) as i64 };
    let mut f = [y, mo, d, 0, 0, 0];
    if form >= 1 {
        f[3] = if r.chance(1, 3) { *r.pick(&[0, 23, 12]) } else { r.below(24) as i64 };
        f[4] = if r.chance(1, 3) { *r.pick(&[0, 59]) } else { r.below(60) as i64 };
    }
    if form >= 2 {
        f[5] = if r.chance(1, 3) { *r.pick(&[0, 59]) } else { r.below(60) as i64 };
    }
    f
}
fn unix(f: &[i64; 6]) -> i64 {
    utc_of(f[0], f[1], f[2], f[3], f[4], f[5]).unwrap()
}

pub struct Parts {
    e: Entry,
    /// principals text, options, type, body
    principals: String,
    opts: Vec<String>,
    kt: String,
    body: String,
}
impl Parts {
    pub fn line(&self, r: &mut Rng) -> String {
        let mut s = if r.chance(1, 5) { blanks(r) } else { String::new() };
        s += &self.principals;
        for o in &self.opts {
            s += &blanks(r);
            s += o;
        }
        s += &blanks(r);
        s += &self.kt;
        s += &blanks(r);
        s += &self.body;
        match r.below(6) {
            0 => s += &blanks(r),
            1 | 2 => {
                s += &blanks(r);
                s.push('#');
                let t: String = r.text(60).chars().filter(|c| !['\n', '\r'].contains(c)).collect();
                s += &t;
                if r.chance(1, 3) {
                    s += *r.pick(&["\"", " \"x", "namespaces=\"a\"", "##", " cert-authority", "\"a\" \""]);
                }
            }
            _ => (),
        }
        s
    }
    fn fixed(&self) -> String {
        let mut v = vec![self.principals.clone()];
        v.extend(self.opts.iter().cloned());
        v.push(self.kt.clone());
        v.push(self.body.clone());
        v.join(" ")
    }
}

fn val(r: &mut Rng, v: &str) -> String {
    if v.contains([' ', '#']) || r.chance(1, 2) {
        format!("\"{}\"", v)
    } else {
        v.to_string()
    }
}

pub fn parts(r: &mut Rng) -> Parts {
    let kt = *r.pick(&[KT::Rsa, KT::Ed, KT::Ed, KT::P256, KT::P384, KT::P521, KT::SkEd, KT::SkEc]);
    let k = Key::gen(r, kt);
    let quoted = r.chance(1, 3);
    let n = if r.chance(1, 30) { r.range(20, 200) } else { r.range(1, 5) };
    let pr: Vec<String> = (0..n).map(|_| item(r, quoted)).collect();
    let mut ptext = pr.join(",");
    if quoted {
        ptext = format!("\"{}\"", ptext);
    }
    let mut e = Entry { principals: pr, ca: false, ns: None, after: None, before: None, blob: k.blob() };
    let mut opts = vec![];
    if r.chance(1, 2) {
        e.ca = true;
        opts.push(mixed_case(r, "cert-authority"));
    }
    if r.chance(1, 2) {
        let q = r.chance(1, 2);
        let n = r.range(1, 4);
        let l: Vec<String> = (0..n).map(|_| item(r, q)).collect();
        let mut text = vec![];
        for x in &l {
            while r.chance(1, 8) {
                text.push(String::new());
            }
            text.push(x.clone());
        }
        if r.chance(1, 8) {
            text.push(String::new());
        }
        let text = text.join(",");
        let v = if q { format!("\"{}\"", text) } else { val(r, &text) };
        opts.push(format!("{}={}", mixed_case(r, "namespaces"), v));
        e.ns = Some(l);
    }
    let (fa, fb) = (r.below(3), r.below(3));
    let (mut a, mut b) = (rand_time(r, fa), rand_time(r, fb));
    let (mut fa, mut fb) = (fa, fb);
    if r.chance(1, 3) {
        // close together
        let t = unix(&a) + [0, 1, 60, 86400, 59, 86399, -1][r.below(7)];
        let c = civil(t.max(-62135596800));
        b = [c.0, c.1 as i64, c.2 as i64, c.3 as i64, c.4 as i64, c.5 as i64];
        fb = 2;
        if b[0] > 9999 {
            b = a;
        }
    }
    if unix(&a) > unix(&b) {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut fa, &mut fb);
    }
    let eq = unix(&a) == unix(&b);
    if r.chance(1, 3) {
        e.after = Some(unix(&a));
        let v = ts_text(&a, fa, true);
        opts.push(format!("{}={}", mixed_case(r, "valid-after"), val(r, &v)));
    }
    if r.chance(1, 3) && !(eq && e.after.is_some()) {
        e.before = Some(unix(&b));
        let v = ts_text(&b, fb, true);
        opts.push(format!("{}={}", mixed_case(r, "valid-before"), val(r, &v)));
    }
    r.shuffle(&mut opts);
    Parts { e, principals: ptext, opts, kt: kt.name().into(), body: b64(&k.blob()) }
}

/// A line that has to be refused, with what is wrong with it.
pub fn bad_line(r: &mut Rng) -> (String, &'static str) {
    let mut p = parts(r);
    let at = |r: &mut Rng, p: &Parts| r.below(p.opts.len() + 1);
    let what = match r.below(35) {
        34 => {
            // what other files would take for a comment or a directive
            let t: String = r.text(20).chars().filter(|c| !c.is_control() && *c != '"').collect();
            return (format!("{}{}{}", r.pick(&[";", "//", "--", "!", "%", "'", "REM ", "rem", "/* */", "<!--", "[signers]", "@include x", "include x", "%include", "\\#", "*", "-", "="]), r.pick(&["", " ", "  "]), t), "a comment of another kind");
        }
        0 => {
            p.principals = (*r.pick(&["\"\"", ",", "a@b,", ",a@b", "a@b,,c@d", "\",\"", "\"a@b,\"", "\",a@b\""])).into();
            "empty principal"
        }
        1 => {
            let s = p.fixed();
            return (s[p.principals.len()..].trim_start().to_string(), "missing principals");
        }
        2 => {
            let i = at(r, &p);
            let vals = ["=x", "=y", "=", "=\"\"", "=,", "=\",\"", "=\"x\"", "=\"x,y\"", "=\" \"", "=file,git"];
            let a = *r.pick(&vals);
            p.opts.insert(i, format!("namespaces{}", a));
            let i = at(r, &p);
            let b = if r.chance(1, 4) { a } else { *r.pick(&vals) };
            p.opts.insert(i, mixed_case(r, "namespaces") + b);
            "namespaces repeated"
        }
        3 => {
            p.opts.retain(|o| !o.to_lowercase().starts_with("valid-after"));
            p.opts.insert(0, format!("valid-after={}", r.pick(&["20000101Z", "19700101Z", "197001010000Z", "19691231235959Z", "20010101Z"])));
            let i = at(r, &p).max(1);
            p.opts.insert(i, mixed_case(r, "valid-after") + *r.pick(&["=20000101Z", "=20010101Z", "=\"200001010000Z\""]));
            "valid-after repeated"
        }
        4 => {
            p.opts.retain(|o| !o.to_lowercase().starts_with("valid-before"));
            p.opts.insert(0, format!("valid-before={}", r.pick(&["99990101Z", "19700101Z", "19700101000000Z", "19691231235959Z", "99991231Z"])));
            let i = at(r, &p).max(1);
            p.opts.insert(i, mixed_case(r, "valid-before") + *r.pick(&["=99990101Z", "=99980101Z", "=\"999901010000Z\""]));
            "valid-before repeated"
        }
        5 | 6 => {
            let i = at(r, &p);
            let o = *r.pick(&[
                "no-touch-required", "verify-required", "foo", "foo=bar", "namespace=x", "namespaces2=x", "valid=20200101", "valid-afte=20200101Z",
                "cert-authority2", "certauthority", "valid_after=20200101Z", "=", "=x", "foo=\"a b\"", "-", "cert-authority,namespaces=x", "restrict",
                "command=\"x\"", "valid-after:20200101Z", "cert_authority", "namespaces:x", "xnamespaces=x",
            ]);
            p.opts.insert(i, o.into());
            "unknown option"
        }
        7 => {
            let i = at(r, &p);
            p.opts.insert(i, format!("cert-authority={}", r.pick(&["", "no", "yes", "false", "\"\"", "1"])));
            "value of a flag"
        }
        8 => {
            p.principals = (*r.pick(&["\"a@b", "a@b\"", "a\"@b", "a\"@\"b", "\"a@b\"x", "\"a\",\"b\"", "\"a\"\"b\"", "a,\"b\"", "\"a,b", "\"\"a@b\"\""])).into();
            "stray quotes in principals"
        }
        9 => {
            p.opts.retain(|o| !o.to_lowercase().starts_with("namespaces"));
            let i = at(r, &p);
            p.opts.insert(
                i,
                (*r.pick(&["namespaces=\"a", "namespaces=a\"", "namespaces=\"a\"b", "namespaces=a\"b\"", "namespaces=\"a\"\"b\"", "\"namespaces=a\"", "namespaces\"=a\"", "namespaces=\"a\",\"b\""]))
                    .into(),
            );
            "stray quotes in namespaces"
        }
        10 => {
            p.opts.retain(|o| !o.to_lowercase().starts_with("valid-"));
            let i = at(r, &p);
            p.opts.insert(i, (*r.pick(&["valid-after=\"20200101Z", "valid-after=20200101Z\"", "valid-before=\"20200101\"Z", "valid-before=20\"200101Z\""])).into());
            "stray quotes in a time"
        }
        11 => {
            let i = at(r, &p);
            p.opts.insert(i, (*r.pick(&["\"", "\"\"", "\" \"", "\"cert-authority\"", "\"foo"])).into());
            "stray quotes between the options"
        }
        12 => {
            let s = p.fixed();
            let e = s.len() - p.body.len() - 1 - p.kt.len() - 1;
            return (s[..e].to_string(), "missing key");
        }
        13 => {
            let s = p.fixed();
            return (s[..s.len() - p.body.len() - r.below(2)].to_string(), "missing key body");
        }
        14 => {
            p.kt.clear();
            "missing key type"
        }
        15 => {
            let n = r.range(1, p.body.len() - 1) & !3;
            p.body.truncate(n);
            "truncated key"
        }
        16 => {
            let other: Vec<&str> = KT_ALL_NAMES.iter().copied().filter(|n| *n != p.kt).collect();
            p.kt = (*r.pick(&other)).into();
            "key of another type"
        }
        17 => {
            let i = r.below(p.body.len() - 4);
            let c = *r.pick(&['!', '"', '-', '_', '=', '*', 'é']);
            p.body.replace_range(i..i + 1, &c.to_string());
            "damaged base64"
        }
        18 => {
            let t = (*r.pick(&["x", "comment", "user@host", "\"x\"", "ssh-ed25519", "cert-authority", "namespaces=x", "=", "valid-before=20200101Z", "//comment", "// comment", ";", "; comment", "--", "-", "%", "*", "(work)", "@", "\\#", "!", "é", "0", "a@b c d", "\u{a0}", "<me@host>"])).to_string();
            let blank = if t.trim().is_empty() { " " } else { *r.pick(&[" ", " ", " ", "  ", "\t", " \t", "\t "]) };
            p.body = format!("{}{}{}", p.body, blank, t);
            "text after the key"
        }
        19 => {
            let b = p.body.clone();
            p.body = format!("{} {}", b, b);
            "key body twice"
        }
        20..=24 => {
            p.opts.retain(|o| !o.to_lowercase().starts_with("valid-"));
            let f = r.below(3);
            let mut a = rand_time(r, f);
            if a[0] == 9999 {
                a[0] = 2020;
                a[2] = a[2].min(28);
            }
            let d = *r.pick(&[0i64, 1, 59, 60, 3600, 86399, 86400, 31536000, 1_000_000_000]);
            let c = civil((unix(&a) - d).max(-62135596800));
            let b = [c.0, c.1 as i64, c.2 as i64, c.3 as i64, c.4 as i64, c.5 as i64];
            let (x, y) = (ts_text(&a, f, true), ts_text(&b, 2, true));
            let (x, y) = (val(r, &x), val(r, &y));
            let i = at(r, &p);
            p.opts.insert(i, format!("valid-after={}", x));
            let i = at(r, &p);
            p.opts.insert(i, format!("valid-before={}", y));
            if d == 0 {
                "bounds equal"
            } else {
                "end before start"
            }
        }
        25 | 26 => {
            let t = bad_time(r);
            if t.contains(['\n', '\r', '#']) || ref_ts(t.as_bytes()) != Ts::Bad {
                return bad_line(r);
            }
            p.opts.retain(|o| !o.to_lowercase().starts_with("valid-"));
            let i = at(r, &p);
            p.opts.insert(i, format!("{}={}", r.pick(&["valid-after", "valid-before"]), val(r, &t)));
            "impossible time"
        }
        27 => return ((*r.pick(&["", " ", "#", "# x", "   # ssh-ed25519 AAAA", "a", "a b", "a b c", "\"", "\"\"", "#a@b ssh-ed25519 AAAA"])).into(), "no entry at all"),
        28 => {
            p.kt = format!("{}-cert-v01@openssh.com", p.kt.trim_end_matches("@openssh.com"));
            "certificate type"
        }
        29 => {
            p.body = format!("\"{}\"", p.body);
            "quoted key"
        }
        30 => {
            p.kt = format!("\"{}\"", p.kt);
            "quoted key type"
        }
        31 => {
            // the comment swallows the key
            p.kt = format!("#{}", p.kt);
            "key in the comment"
        }
        32 => {
            let i = at(r, &p);
            p.opts.insert(i, (*r.pick(&["valid-after", "valid-before", "valid-after=", "valid-before=\"\""])).into());
            p.opts.retain(|o| !(o.to_lowercase().starts_with("valid-") && o.len() > 16));
            "time without a value"
        }
        _ => {
            p.kt = p.kt.to_uppercase();
            "key type in capitals"
        }
    };
    let s = p.fixed();
    (s, what)
}
const KT_ALL_NAMES: [&str; 9] = [
    "ssh-rsa", "ssh-ed25519", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521", "sk-ssh-ed25519@openssh.com",
    "sk-ecdsa-sha2-nistp256@openssh.com", "ssh-dss", "x",
];

/// Mostly impossible timestamps.
pub fn bad_time(r: &mut Rng) -> String {
    let form = r.below(3);
    let mut f = rand_time(r, form);
    let z = r.chance(1, 2);
    match r.below(20) {
        0 => f[1] = *r.pick(&[0, 13, 99, 20]),
        1 => f[2] = *r.pick(&[0, 32, 99, 40]),
        2 => {
            f[1] = 2;
            f[2] = *r.pick(&[30, 31]);
        }
        3 => {
            f[0] = *r.pick(&[1900, 2100, 2200, 1999, 2023, 2001, 1800]);
            f[1] = 2;
            f[2] = 29;
        }
        4 => {
            f[1] = *r.pick(&[4, 6, 9, 11]);
            f[2] = 31;
        }
        5 => {
            f[3] = *r.pick(&[24, 25, 60, 99]);
            return ts_text(&f, form.max(1), z);
        }
        6 => {
            f[4] = *r.pick(&[60, 61, 99]);
            return ts_text(&f, form.max(1), z);
        }
        7 => {
            f[5] = *r.pick(&[61, 62, 99]);
            return ts_text(&f, 2, z);
        }
        8 | 9 => {
            // wrong length
            let t = ts_text(&f, 2, false) + "0000";
            let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 13, 15, 16, 18]);
            return t[..n].to_string() + if z { "Z" } else { "" };
        }
        10..=12 => {
            // a character that is no digit
            let mut t: Vec<char> = ts_text(&f, form, false).chars().collect();
            let i = r.below(t.len());
            t[i] = *r.pick(&['-', '+', ' ', 'a', 'Z', 'z', '.', ':', '/', 'O', '\u{0660}', '\u{ff11}', 'é', 'x', 'T']);
            return t.into_iter().collect::<String>() + if z { "Z" } else { "" };
        }
        13 => return ts_text(&f, form, true) + *r.pick(&["Z", "ZZ", "z", " ", " Z", "+0000", "UTC"]),
        14 => return ts_text(&f, form, false) + *r.pick(&["z", " ", "L", "+00", "-0", "UTC", ".0", ".00"]),
        15 => return String::from(*r.pick(&["Z", "+", "-", " ", "+"])) + &ts_text(&f, form, z),
        16 => return format!("{:04}-{:02}-{:02}{}", f[0], f[1], f[2], if z { "Z" } else { "" }),
        17 => return (*r.pick(&["", "Z", "ZZ", "now", "0", "forever", "always", "+1d", "0x20200101", "99999999", "1700000000", "\u{ff12}\u{ff10}", "é", "éé", "ééé", "éééé", "éééééé", "ééééééé", "中中中中"])).into(),
        18 => return format!("{}{:04}", f[0], r.below(10000)),
        _ => {
            // one digit shifted into another field
            let mut t = ts_text(&f, form, z);
            let i = r.below(t.len());
            t.remove(i);
            let j = r.below(t.len() + 1);
            t.insert(j, char::from(b'0' + r.below(10) as u8));
            return t;
        }
    }
    ts_text(&f, form, z)
}

fn judge_line(c: &mut Case<'_>, line: &str, what: &str) {
    let r = c.call("AllowedSigner::from_string", || AllowedSigner::from_string(line));
    let want = ref_line(line);
    match (r, want) {
        (Ok(Ok(a)), Some((e, either))) => {
            c.ev("judged.accepted");
            let d = diff(&a, &e);
            let ws = line.chars().any(|c| c != ' ' && (c.is_whitespace() || c.is_control()));
            if !d.is_empty() && !(either && ws) && !(either && d.iter().all(|x| x.starts_with("valid_"))) {
                c.fail(format!("allowed signer differs in {:?} ({})", d, what), json!({"line": line, "got": format!("{:?}", a)}));
            }
        }
        (Ok(Ok(a)), None) => {
            // only blanks other than spaces could make this an entry
            if line.chars().any(|c| c != ' ' && (c.is_whitespace() || c.is_control())) {
                c.ev("judged.other_blanks");
            } else {
                c.fail(format!("line accepted that must be refused ({})", what), json!({"line": line, "got": format!("{:?}", a)}));
            }
        }
        (Ok(Err(e)), Some((_, false))) => c.fail(format!("well-formed line refused ({}): {:?}", what, e), json!({"line": line})),
        (Err(p), Some((_, false))) => c.fail(format!("well-formed line panicked ({}): {}", what, p.0), json!({"line": line})),
        _ => c.ev("judged.refused"),
    }
}

pub fn c17(m: &'static Mon) {
    m.rule("one evaluation = one allowed-signers line or file parsed and compared with an independent reading of it (every field, or refusal); distinct = distinct text");
    m.assume("tabs and other unusual blanks, repeated cert-authority flags, empty namespace lists and a '#' glued to a token may be accepted or refused");
    m.section("exact", m.n(30000), |c| {
        let p = parts(&mut c.rng);
        let line = p.line(&mut c.rng);
        c.eval(line.as_bytes());
        c.sample(|| json!({"line": line}));
        match c.call("AllowedSigner::from_string", || AllowedSigner::from_string(&line)) {
            Ok(Ok(a)) => {
                let d = diff(&a, &p.e);
                if !d.is_empty() {
                    c.fail(format!("allowed signer differs in {:?}", d), json!({"line": line, "got": format!("{:?}", a), "want": format!("{:?}", p.e)}));
                }
                if a.key.comment.is_some() {
                    c.ev("key_with_comment");
                }
                // written out and read again, it is the same entry
                let back = c.call("to_string and from_string", || {
                    let s = a.to_string();
                    let r = AllowedSigner::from_string(&s);
                    (s, r)
                });
                match back {
                    Ok((s, Ok(b))) => {
                        let d = diff(&b, &p.e);
                        if !d.is_empty() {
                            c.fail(format!("an entry written out reads back with other {:?}", d), json!({"line": line, "written": s, "got": format!("{:?}", b)}));
                        }
                        c.ev("written and read back");
                    }
                    Ok((s, Err(e))) => c.fail(format!("an entry written out is refused: {:?}", e), json!({"line": line, "written": s})),
                    Err(e) => c.fail(format!("writing an entry out panicked: {}", e.0), json!({"line": line})),
                }
                // and so is one made by a program from a key that has a comment of its own
                let mut a = a;
                let comment = match c.rng.below(4) {
                    0 => "alice@host".to_string(),
                    1 => "my laptop".to_string(),
                    _ => c.rng.text(30).split_whitespace().collect::<Vec<_>>().join(" ").replace(|c: char| c.is_control(), ""),
                };
                a.key.comment = Some(comment);
                let back = c.call("to_string and from_string", || {
                    let s = a.to_string();
                    let r = AllowedSigner::from_string(&s);
                    (s, r)
                });
                match back {
                    Ok((s, Ok(b))) => {
                        let d = diff(&b, &p.e);
                        if !d.is_empty() {
                            c.fail(format!("an entry whose key has a comment reads back with other {:?}", d), json!({"line": line, "written": s, "got": format!("{:?}", b)}));
                        }
                        c.ev("entry with a commented key written and read back");
                    }
                    Ok((s, Err(e))) => c.fail(format!("an entry whose key has a comment, written out, is refused: {:?}", e), json!({"line": line, "written": s})),
                    Err(e) => c.fail(format!("writing an entry out panicked: {}", e.0), json!({"line": line})),
                }
                if c.rng.chance(1, 8) {
                    // an entry for no namespace at all never becomes one for all of them
                    a.namespaces = Some(vec![]);
                    if let Ok(Ok(b)) = c.call("to_string and from_string", || AllowedSigner::from_string(&a.to_string())) {
                        c.ev("entry without namespaces read back");
                        if b.namespaces.as_ref().map(|n| n.iter().any(|x| !x.is_empty())).unwrap_or(true) {
                            c.fail("an entry for no namespace, written out, reads back as one for others", json!({"written": a.to_string(), "got": format!("{:?}", b)}));
                        }
                    }
                }
            }
            Ok(Err(e)) => c.fail(format!("well-formed line refused: {:?}", e), json!({"line": line})),
            Err(e) => c.fail(format!("well-formed line panicked: {}", e.0), json!({"line": line})),
        }
        for o in &p.opts {
            c.mon.event(&format!("option.{}", o.to_lowercase().split('=').next().unwrap()), 1);
        }
        if p.principals.starts_with('"') {
            c.ev("quoted_principals");
        }
    });
    m.section("bad", m.n(40000), |c| {
        let (line, what) = bad_line(&mut c.rng);
        c.eval(line.as_bytes());
        c.mon.event(&format!("bad.{}", what), 1);
        c.sample(|| json!({"line": line, "what": what}));
        if let Some((_, _)) = ref_line(&line) {
            // the alteration happened to leave a legal line
            c.ev("bad.still_legal");
            judge_line(c, &line, what);
            return;
        }
        if let Ok(Ok(a)) = c.call("AllowedSigner::from_string", || AllowedSigner::from_string(&line)) {
            c.fail(format!("line accepted that must be refused: {}", what), json!({"line": line, "got": format!("{:?}", a)}));
        }
    });
    m.section("havoc", m.n(50000), |c| {
        let p = parts(&mut c.rng);
        let mut b = p.line(&mut c.rng).into_bytes();
        let mut n = 1 + c.rng.below(3);
        while n > 0 {
            match c.rng.below(4) {
                0 => {
                    let x = *c.rng.pick(&[b'"', b' ', b'#', b',', b'=', b'"', b' ']);
                    let at = c.rng.below(b.len() + 1);
                    if c.rng.chance(1, 2) && at < b.len() {
                        b[at] = x;
                    } else {
                        b.insert(at, x);
                    }
                }
                1 => {
                    // near the front, where the structure is
                    let l = b.len().min(80);
                    let mut head = b[..l].to_vec();
                    havoc(&mut c.rng, &mut head);
                    b.splice(..l, head);
                }
                2 => {
                    // move or repeat a token
                    let s = String::from_utf8_lossy(&b).to_string();
                    let mut t: Vec<&str> = s.split(' ').collect();
                    let i = c.rng.below(t.len());
                    let j = c.rng.below(t.len());
                    if c.rng.chance(1, 2) {
                        t.swap(i, j);
                    } else {
                        let x = t[i];
                        t.insert(j, x);
                    }
                    b = t.join(" ").into_bytes();
                }
                _ => havoc(&mut c.rng, &mut b),
            }
            n -= 1;
        }
        let line = String::from_utf8_lossy(&b).to_string();
        if line.contains('\u{fffd}') && line.chars().count() > 4000 {
            return;
        }
        c.eval(line.as_bytes());
        judge_line(c, &line, "altered line");
    });
    m.section("files", m.n(4000), |c| {
        let n = if c.idx % 500 == 7 {
            c.rng.range(1000, 4500)
        } else if c.rng.chance(1, 20) {
            c.rng.range(50, 300)
        } else {
            c.rng.below(7)
        };
        let mut want = vec![];
        let mut text = String::new();
        let crlf = c.rng.chance(1, 6);
        let nl = if crlf { "\r\n" } else { "\n" };
        let bad_at = if c.rng.chance(1, 2) && n > 0 { Some(c.rng.below(n)) } else { None };
        let mut bad_what = "";
        let filler = |r: &mut Rng, text: &mut String| {
            while r.chance(1, 3) {
                match r.below(4) {
                    0 => (),
                    1 => *text += &" ".repeat(r.below(6)),
                    2 => *text += *r.pick(&["#", "# comment", "  # indented", "#a@b ssh-ed25519 AAAA", "# \"", "#\"\"\""]),
                    _ => {
                        text.push('#');
                        let t: String = r.text(40).chars().filter(|c| !c.is_control()).collect();
                        *text += &t;
                    }
                }
                *text += nl;
            }
        };
        filler(&mut c.rng, &mut text);
        let simple = n > 20;
        for i in 0..n {
            if bad_at == Some(i) {
                let (mut l, mut w) = bad_line(&mut c.rng);
                while l.trim().is_empty() || l.trim().starts_with('#') || l.contains(['\n', '\r']) || ref_line(l.trim()).is_some() {
                    let x = bad_line(&mut c.rng);
                    l = x.0;
                    w = x.1;
                }
                text += &l;
                bad_what = w;
            } else {
                let p = parts(&mut c.rng);
                let l = p.line(&mut c.rng);
                text += &l;
                want.push(p.e);
            }
            if i + 1 < n || c.rng.chance(2, 3) {
                text += nl;
            }
            if text.ends_with('\n') && !simple {
                filler(&mut c.rng, &mut text);
            }
        }
        c.eval(text.as_bytes());
        let by_path = c.rng.chance(1, 3);
        let path = c.mon.scratch.join(format!("as-{}", c.idx));
        let r = if by_path {
            std::fs::write(&path, &text).unwrap();
            let r = c.call("AllowedSigners::from_path", || AllowedSigners::from_path(&path));
            let _ = std::fs::remove_file(&path);
            r
        } else {
            c.call("AllowedSigners::from_string", || AllowedSigners::from_string(&text))
        };
        let det = json!({"text": text, "bad": bad_what, "from_path": by_path});
        match (r, bad_at) {
            (Ok(Ok(a)), None) => {
                c.ev("files.accepted");
                c.mon.event("files.entries", a.0.len() as u64);
                if a.0.len() != want.len() {
                    c.fail(format!("file of {} entries gave {}", want.len(), a.0.len()), det);
                } else if let Some(i) = (0..want.len()).find(|i| !diff(&a.0[*i], &want[*i]).is_empty()) {
                    c.fail(format!("entry {} of a file differs in {:?}", i, diff(&a.0[i], &want[i])), det);
                }
            }
            (Ok(Ok(_)), Some(_)) => c.fail(format!("file with a bad line ({}) accepted", bad_what), det),
            (Ok(Err(_)), Some(_)) => c.ev("files.refused"),
            (Ok(Err(e)), None) => c.fail(format!("well-formed file refused: {:?}", e), det),
            (Err(p), None) => c.fail(format!("well-formed file panicked: {}", p.0), det),
            (Err(_), Some(_)) => (),
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C18

const FIXED_KEY: &str = "ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAIGx3bvgQsx8mNCqVcTVpYbRGhGoQLjwSKtkbR0ZZTXQP";

fn local(t: i64) -> Option<([i64; 6], i64)> {
    let mut tm: libc::tm = unsafe { std::mem::zeroed() };
    let t = t as libc::time_t;
    if unsafe { libc::localtime_r(&t, &mut tm) }.is_null() {
        return None;
    }
    Some((
        [tm.tm_year as i64 + 1900, tm.tm_mon as i64 + 1, tm.tm_mday as i64, tm.tm_hour as i64, tm.tm_min as i64, tm.tm_sec as i64],
        tm.tm_gmtoff as i64,
    ))
}
/// All instants the C library shows as this local time, in order.
fn instants(f: &[i64; 6]) -> Vec<i64> {
    let base = unix(f);
    let mut offs = vec![];
    let mut t = base - 27 * 3600;
    while t <= base + 27 * 3600 {
        if let Some((_, o)) = local(t) {
            if !offs.contains(&o) {
                offs.push(o);
            }
        }
        t += 900;
    }
    let mut v: Vec<i64> = offs.iter().map(|o| base - o).filter(|t| local(*t).map(|x| x.0 == *f).unwrap_or(false)).collect();
    v.sort();
    v.dedup();
    v
}

/// Runs in a process of its own with TZ set: prints one JSON line per observed time.
pub fn c18_child(seed: u64, idx: u64, n: u64) {
    extern "C" {
        fn tzset();
    }
    unsafe { tzset() };
    let mut r = Rng::new(seed, "C18/child", idx);
    let out = std::io::stdout();
    let mut out = out.lock();
    let ask = |opts: &str| -> String {
        let line = format!("u@h {} {}", opts, FIXED_KEY);
        match std::panic::catch_unwind(|| AllowedSigner::from_string(&line)) {
            Ok(Ok(a)) => format!("{:?}/{:?}", a.valid_after, a.valid_before),
            Ok(Err(_)) => "refused".into(),
            Err(_) => "panicked".into(),
        }
    };
    // offset changes of the zone, found by scanning
    let mut changes = vec![];
    let mut t = -1_500_000_000i64 + r.below(5_000_000) as i64;
    while t < 4_100_000_000 {
        let s = t + 7 * 86400;
        if let (Some(a), Some(b)) = (local(t), local(s)) {
            if a.1 != b.1 {
                let (mut lo, mut hi) = (t, s);
                while hi - lo > 1 {
                    let mid = (lo + hi) / 2;
                    if local(mid).map(|x| x.1) == Some(a.1) {
                        lo = mid
                    } else {
                        hi = mid
                    }
                }
                changes.push((hi, a.1, b.1));
            }
        }
        t = s;
    }
    let _ = writeln!(out, "{}", json!({"changes": changes.len()}));
    for _ in 0..n {
        let form = r.below(3);
        let near = !changes.is_empty() && r.chance(1, 2);
        let mut f = if near {
            let (t, a, b) = *r.pick(&changes);
            let lo = a.min(b);
            let hi = a.max(b);
            let d = (t + lo) as i64 - 3600 + r.below((hi - lo + 7200) as usize) as i64;
            let d = if r.chance(1, 4) { t + *r.pick(&[lo, hi]) + [-1, 0, 1, -60, 60][r.below(5)] } else { d };
            let c = civil(d);
            [c.0, c.1 as i64, c.2 as i64, c.3 as i64, c.4 as i64, c.5 as i64]
        } else {
            rand_time(&mut r, form)
        };
        if form < 2 {
            f[5] = 0;
        }
        if form < 1 {
            f[3] = 0;
            f[4] = 0;
        }
        let z = r.chance(1, 8);
        // the C library does not apply rule strings to early years as written
        if std::env::var("TZ").map(|t| t.contains(',')).unwrap_or(false) && f[0] < 1972 {
            continue;
        }
        let text = ts_text(&f, form, z);
        let set = if z { vec![unix(&f)] } else { instants(&f) };
        let q = r.chance(1, 3);
        let v = if q { format!("\"{}\"", text) } else { text.clone() };
        let after = r.chance(1, 2);
        let got = ask(&format!("{}={}", if after { "valid-after" } else { "valid-before" }, v));
        let mut j = json!({"t": text, "set": set, "got": got, "after": after, "near": near, "utc": z});
        if set.is_empty() {
            let c = civil(unix(&f) - 1);
            j["last"] = json!(instants(&[c.0, c.1 as i64, c.2 as i64, c.3 as i64, c.4 as i64, c.5 as i64]));
        }
        if r.chance(1, 3) {
            // the same time with another one close by, in local or universal form
            let d = *r.pick(&[0i64, 1, -1, 60, -60, 1800, 3600, -3600, 7200, -7200, 10800, 86400, -86400, 50000, -50000]);
            let base = set.first().copied().unwrap_or(unix(&f));
            let z2 = r.chance(1, 2);
            let g = if z2 {
                let c = civil(base + d);
                [c.0, c.1 as i64, c.2 as i64, c.3 as i64, c.4 as i64, c.5 as i64]
            } else {
                local(base + d).map(|x| x.0).unwrap_or(f)
            };
            if (1..=9999).contains(&g[0]) {
                let text2 = ts_text(&g, 2, z2);
                let set2 = if z2 { vec![unix(&g)] } else { instants(&g) };
                let pair = ask(&format!("valid-after={} valid-before={}", text, text2));
                j["t2"] = json!(text2);
                j["set2"] = json!(set2);
                j["pair"] = json!(pair);
            }
        }
        let _ = writeln!(out, "{}", j);
        if r.chance(1, 3) {
            let b = bad_time(&mut r);
            if !b.contains(['\n', '\r']) && ref_ts(b.as_bytes()) == Ts::Bad {
                let v = if b.contains([' ', '#', '"']) || r.chance(1, 3) { format!("\"{}\"", b) } else { b.clone() };
                let got = ask(&format!("{}={}", r.pick(&["valid-after", "valid-before"]), v));
                let _ = writeln!(out, "{}", json!({"bad": b, "got": got}));
            }
        }
    }
    let _ = writeln!(out, "{}", json!({"end": true}));
}

fn zones() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for l in std::fs::read_to_string("/usr/share/zoneinfo/tzdata.zi").unwrap_or_default().lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let n = match w.first() {
            Some(&"Z") if w.len() > 1 => w[1],
            Some(&"L") if w.len() > 2 => w[2],
            _ => continue,
        };
        if n != "Factory" && std::path::Path::new("/usr/share/zoneinfo").join(n).is_file() {
            v.push(n.to_string());
        }
    }
    v
}
const RULES: [&str; 12] = [
    "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+0530>-5:30", "AEST-10AEDT,M10.1.0,M4.1.0/3",
    "<-03>3", "<+0845>-8:45", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "PST8PDT,M3.2.0,M11.1.0",
    "<+14>-14", "<-12>12",
];

pub fn c18(m: &'static Mon) {
    m.rule("one evaluation = one validity time parsed by the library in a process whose time zone is set, compared with the instants the C library shows as that local time (or plain calendar arithmetic for UTC), or refused when impossible; distinct = distinct zone and text");
    m.assume("the C library's zone tables are right; a local time skipped by a clock change does not exist and is refused (the moment of the change, written on the old clock, may be accepted), a repeated one may be either instant; second 60 and year 0 may be refused");
    let zs = zones();
    m.event("zones_available", zs.len() as u64);
    let per = if m.thorough { 5000 } else { 400 };
    let exe = std::env::current_exe().unwrap();
    let nz = (zs.len() + RULES.len() + 2).max(96) as u64;
    m.section("zones", nz, |c| {
        // the first ones are rule strings, then all or a random choice of the named zones
        let i = c.idx as usize;
        let tz = if i == 0 {
            None
        } else if i == 1 {
            Some(String::new())
        } else if i < 2 + RULES.len() {
            Some(RULES[i - 2].to_string())
        } else if zs.is_empty() {
            Some((*c.rng.pick(&RULES)).to_string())
        } else {
            Some(zs[(i - 2 - RULES.len()) % zs.len()].clone())
        };
        let mut cmd = std::process::Command::new(&exe);
        cmd.args(["tzchild", &c.mon.seed.to_string(), &c.idx.to_string(), &per.to_string()]);
        match &tz {
            Some(z) => cmd.env("TZ", z),
            None => cmd.env_remove("TZ"),
        };
        let z = tz.unwrap_or_else(|| "(unset)".into());
        let o = cmd.output().expect("child");
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        let mut ended = false;
        for l in text.lines() {
            let j: Value = match serde_json::from_str(l) {
                Ok(j) => j,
                Err(_) => continue,
            };
            if j["end"] == json!(true) {
                ended = true;
                continue;
            }
            if let Some(n) = j["changes"].as_u64() {
                c.mon.event("zone_changes_seen", n);
                continue;
            }
            if let Some(b) = j["bad"].as_str() {
                c.eval(format!("{}|{}", z, b).as_bytes());
                c.ev("impossible");
                let got = j["got"].as_str().unwrap();
                if got != "refused" && got != "panicked" {
                    c.fail(format!("impossible time accepted: {:?} as {} (TZ={})", b, got, z), j.clone());
                }
                continue;
            }
            let t = j["t"].as_str().unwrap();
            let after = j["after"] == json!(true);
            let nums = |v: &Value| v.as_array().map(|a| a.iter().filter_map(|x| x.as_i64()).collect::<Vec<_>>()).unwrap_or_default();
            let set = nums(&j["set"]);
            c.eval(format!("{}|{}", z, t).as_bytes());
            let got = j["got"].as_str().unwrap();
            let val = read(got, after);
            c.ev(match (set.len(), j["utc"] == json!(true)) {
                (_, true) => "time.utc",
                (0, _) => "time.skipped",
                (1, _) => "time.local",
                _ => "time.repeated",
            });
            if j["near"] == json!(true) {
                c.ev("time.near_change");
            }
            c.sample(|| json!({"zone": z, "observed": j}));
            // a skipped time is no instant and is refused; only the first second skipped, the moment
            // of the change on the old clock, may be read as that moment
            let ok = if set.is_empty() { matches!(got, "refused" | "panicked") || val.map(|v| nums(&j["last"]).contains(&(v - 1))).unwrap_or(false) } else { val.map(|v| set.contains(&v)).unwrap_or(false) };
            if !ok {
                c.fail(format!("time {} read as {} in TZ={}, expected {:?}", t, got, z, set), j.clone());
                continue;
            }
            if set.is_empty() && got == "panicked" {
                c.fail(format!("time {} panicked in TZ={}", t, z), j.clone());
            }
            if let Some(p) = j["pair"].as_str() {
                let set2 = nums(&j["set2"]);
                if set.len() == 1 && set2.len() == 1 {
                    c.ev("pair");
                    let want = if set2[0] > set[0] { format!("Some({})/Some({})", set[0], set2[0]) } else { "refused".into() };
                    if p != want {
                        c.fail(format!("bounds {} and {} in TZ={}: {} instead of {}", t, j["t2"], z, p, want), j.clone());
                    }
                }
            }
        }
        if !ended {
            c.fail(format!("the process reading times in TZ={} died", z), json!({"stderr": String::from_utf8_lossy(&o.stderr)}));
        }
    });
    // universal times and refusals in bulk, in this process
    m.section("universal", m.n(30000), |c| {
        let form = c.rng.below(3);
        let (text, want) = if c.rng.chance(1, 2) {
            let f = rand_time(&mut c.rng, form);
            (ts_text(&f, form, true), Some(unix(&f)))
        } else {
            let t = if c.rng.chance(1, 40) {
                // second 60 or year 0
                let mut f = rand_time(&mut c.rng, 2);
                if c.rng.chance(1, 4) {
                    f[0] = 0;
                } else {
                    f[5] = 60;
                }
                ts_text(&f, 2, true)
            } else {
                bad_time(&mut c.rng)
            };
            match ref_ts(t.as_bytes()) {
                Ts::Bad => (t, None),
                Ts::Time { f, utc: true, either: false } => (t, Some(unix(&f))),
                Ts::Time { f, utc: true, either: true } if t.is_ascii() && !t.contains([' ', '"', '\n']) => {
                    // may be refused; if not, it is that second (60: or the one before)
                    let line = format!("u@h valid-after={} {}", t, FIXED_KEY);
                    c.eval(line.as_bytes());
                    if let Ok(Ok(a)) = c.call("AllowedSigner::from_string", || AllowedSigner::from_string(&line)) {
                        c.ev("universal.leap second or year 0");
                        let w = unix(&f);
                        if a.valid_after != Some(w) && !(t.ends_with("60Z") && a.valid_after == Some(w + 1)) {
                            c.fail(format!("time {} read as {:?}", t, a.valid_after), json!({"line": line}));
                        }
                    }
                    return;
                }
                _ => return c.eval_trivial(),
            }
        };
        if text.contains(['\n', '\r', '"']) {
            return;
        }
        let after = c.rng.chance(1, 2);
        let v = if text.contains([' ', '#']) || c.rng.chance(1, 2) { format!("\"{}\"", text) } else { text.clone() };
        let line = format!("u@h {}={} {}", if after { "valid-after" } else { "valid-before" }, v, FIXED_KEY);
        c.eval(line.as_bytes());
        let r = c.call("AllowedSigner::from_string", || AllowedSigner::from_string(&line));
        c.ev(if want.is_some() { "universal.real" } else { "universal.impossible" });
        match (r, want) {
            (Ok(Ok(a)), Some(w)) => {
                let (x, y) = if after { (a.valid_after, a.valid_before) } else { (a.valid_before, a.valid_after) };
                if x != Some(w) || y.is_some() {
                    c.fail(format!("time {} read as {:?}, expected {}", text, x, w), json!({"line": line}));
                }
            }
            (Ok(Ok(a)), None) => c.fail(format!("impossible time accepted: {:?} as {:?}/{:?}", text, a.valid_after, a.valid_before), json!({"line": line})),
            (Ok(Err(e)), Some(_)) => c.fail(format!("time {} refused: {:?}", text, e), json!({"line": line})),
            (Err(p), Some(_)) => c.fail(format!("time {} panicked: {}", text, p.0), json!({"line": line})),
            _ => (),
        }
    });
}

/// Reads "Some(a)/Some(b)" for one bound, requiring the other to be absent.
fn read(got: &str, after: bool) -> Option<i64> {
    let (a, b) = got.split_once('/')?;
    let (x, y) = if after { (a, b) } else { (b, a) };
    if y != "None" {
        return None;
    }
    x.strip_prefix("Some(")?.strip_suffix(')')?.parse().ok()
}
