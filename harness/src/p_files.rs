//! C30: files and streams are read and written whole, or the call fails.
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::p_allowed;
use crate::p_hist::answer;
use crate::p_priv::{any_file, encrypt};
use crate::p_robust::In;
use crate::refcert::Spec;
use crate::rng::Rng;
use serde_json::json;
use sshcerts::ssh::*;
use std::ffi::{CString, OsStr};
use std::io::{self, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::io::FromRawFd;
use std::path::{Path, PathBuf};

const ALL: [KT; 7] = [KT::Rsa, KT::Ed, KT::P256, KT::P384, KT::P521, KT::SkEd, KT::SkEc];

/// A destination that takes a few bytes at a time, is interrupted, and may fail.
struct Sink {
    got: Vec<u8>,
    r: Rng,
    most: usize,
    interrupts: bool,
    /// at this many bytes it stops taking more
    end: usize,
    how: usize,
    calls: u64,
    failed: bool,
}
const KINDS: [io::ErrorKind; 6] =
    [io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::PermissionDenied, io::ErrorKind::Other, io::ErrorKind::TimedOut, io::ErrorKind::UnexpectedEof];
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        if self.interrupts && self.r.chance(1, 3) {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let room = self.end - self.got.len();
        if room == 0 {
            self.failed = true;
            return match self.how {
                0 => Ok(0),
                1 => Err(io::Error::from_raw_os_error(libc::ENOSPC)),
                n => Err(io::Error::from(KINDS[(n - 2) % KINDS.len()])),
            };
        }
        let n = b.len().min(room).min(1 + self.r.below(self.most));
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A formatting destination with room for so many bytes.
struct Room {
    got: String,
    left: usize,
    failed: bool,
}
impl std::fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed || s.len() > self.left {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

enum Thing {
    Public(PublicKey),
    Private(Box<PrivateKey>),
}
impl Thing {
    fn write<W: Write>(&self, w: &mut W) -> io::Result<()> {
        match self {
            Thing::Public(k) => k.write(w),
            Thing::Private(k) => k.write(w),
        }
    }
}
/// A key and the text it is written as.
fn thing(c: &mut Case<'_>) -> Option<(Thing, Vec<u8>)> {
    let kt = ALL[c.rng.below(ALL.len())];
    if c.rng.chance(1, 2) {
        let k = Key::gen(&mut c.rng, kt);
        let line = match c.rng.below(4) {
            0 => k.line(),
            1 => format!("{} {}", k.line(), "c".repeat(c.rng.size(9000) + 1)),
            _ => format!("{} {}é@{}", k.line(), c.rng.word(20), c.rng.word(20)),
        };
        let p = PublicKey::from_string(&line).ok()?;
        Some((Thing::Public(p), format!("{}\n", line).into_bytes()))
    } else {
        let f = any_file(&mut c.rng, kt);
        let t = f.text();
        let p = PrivateKey::from_string(&t).ok()?;
        Some((Thing::Private(Box::new(p)), t.into_bytes()))
    }
}

/// Text of one kind of object, how a string of it is read and which `from_path` reads it.
fn content(r: &mut Rng) -> (String, usize) {
    let kt = ALL[r.below(ALL.len())];
    match r.below(4) {
        0 => {
            let k = Key::gen(r, kt);
            (
                match r.below(4) {
                    0 => k.line(),
                    1 => format!("{} {}é✓{}\n", k.line(), r.word(9), r.word(9)),
                    2 => format!("{} {}\n", k.line(), "é".repeat(1 + r.size(9000))),
                    _ => format!("{}\r\n", k.line()),
                },
                0,
            )
        }
        1 => {
            let ca = Key::gen_verifiable(r);
            let k = Key::gen(r, kt);
            let big = r.chance(1, 10);
            let s = Spec::gen(r, &k, &ca, big);
            let o = SigOpt::random(r);
            let b = s.signed(&ca, o);
            (format!("{}{}", s.line_of(&b), if r.chance(1, 2) { " ünïcode comment\n" } else { "" }), 1)
        }
        2 => (any_file(r, kt).text(), 2),
        _ => {
            let n = match r.below(60) {
                0..=5 => 0,
                6 => r.range(400, 1500),
                _ => r.range(1, 12),
            };
            let mut t = String::new();
            for _ in 0..n {
                let p = p_allowed::parts(r);
                t += &p.line(r);
                t += *r.pick(&["\n", "\n", "\r\n", "\n\n", "\n# é comment\n"]);
            }
            (t, 3)
        }
    }
}
fn of_string(t: &str, kind: usize) -> In {
    match kind {
        0 => In::PubText(t.into()),
        1 => In::CertText(t.into()),
        2 => In::PrivText(t.into(), None),
        _ => In::Signers(t.into()),
    }
}
/// Answers compared: what was read, or that it was refused.
fn norm(a: String) -> String {
    if a.starts_with("error ") {
        "refused".into()
    } else {
        a
    }
}
fn read_path(c: &mut Case<'_>, p: &Path, kind: usize) -> Result<String, String> {
    c.call("from_path", || match kind {
        0 => PublicKey::from_path(p).map(|k| crate::p_hist::show_pub(&k)),
        1 => Certificate::from_path(p).map(|k| crate::p_hist::show_cert(&k)),
        2 => PrivateKey::from_path(p).map(|k| crate::p_hist::show_priv(&k)),
        _ => AllowedSigners::from_path(p).map(|l| l.0.iter().map(crate::p_hist::show_signer).collect::<Vec<_>>().join(";")),
    })
    .map(|r| r.unwrap_or_else(|_| "refused".into()))
    .map_err(|p| p.0)
}
const WHAT: [&str; 4] = ["PublicKey::from_path", "Certificate::from_path", "PrivateKey::from_path", "AllowedSigners::from_path"];

fn same(c: &mut Case<'_>, got: Result<String, String>, want: &str, kind: usize, how: &str, text: &str) -> bool {
    match got {
        Ok(g) if g == want => true,
        Ok(g) => {
            let at = g.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(40).min(s.len())..(at + 60).min(s.len())]).into_owned();
            c.fail(
                format!("{} of {} gives {}", WHAT[kind], how, if g == "refused" { "an error, its contents do not".into() } else if want == "refused" { "an object, its contents do not".into() } else { format!("another object than its contents, from character {}", at) }),
                json!({"contents": text.chars().take(2000).collect::<String>(), "got": cut(&g), "wanted": cut(want)}),
            );
            false
        }
        Err(p) => {
            c.fail(format!("{} of {} panicked: {}", WHAT[kind], how, p), json!({"contents": text.chars().take(2000).collect::<String>()}));
            false
        }
    }
}
fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
/// What happens to the reads of one file, while a call under watch reads it on this thread.
#[derive(Default)]
struct Plan {
    file: (u64, u64),
    /// from this byte on every read fails with this error (0: none does)
    at: u64,
    errno: i32,
    /// at most this many bytes at a time
    most: usize,
    /// every so many reads are interrupted (0: none is)
    interrupt: u64,
    reads: u64,
    interrupted: u64,
    failed: u64,
}
thread_local! {
    static PLAN: std::cell::Cell<*mut Plan> = const { std::cell::Cell::new(std::ptr::null_mut()) };
}
/// The C library's `read`, as every program calls it, with the faults of the plan. It stands in
/// for the one of the C library in this binary only.
///
/// # Safety
/// That of read(2).
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let p = PLAN.try_with(|p| p.get()).unwrap_or(std::ptr::null_mut());
    let mut n = n;
    if !p.is_null() && n > 0 {
        let p = &mut *p;
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) == 0 && (st.st_dev, st.st_ino) == p.file {
            p.reads += 1;
            if p.interrupt > 0 && p.reads % p.interrupt == 0 {
                p.interrupted += 1;
                *libc::__errno_location() = libc::EINTR;
                return -1;
            }
            n = n.min(p.most);
            if p.errno != 0 {
                let pos = libc::lseek(fd, 0, libc::SEEK_CUR).max(0) as u64;
                if pos >= p.at {
                    p.failed += 1;
                    *libc::__errno_location() = p.errno;
                    return -1;
                }
                n = n.min((p.at - pos) as usize);
            }
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t
}
/// Run a call with a plan for the file it reads.
fn planned<T>(p: &mut Plan, f: impl FnOnce() -> T) -> T {
    PLAN.with(|c| c.set(p));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            PLAN.with(|c| c.set(std::ptr::null_mut()));
        }
    }
    let _off = Off;
    f()
}
/// The same path, starting from the current directory.
fn relative(p: &Path) -> Option<PathBuf> {
    let cwd = std::env::current_dir().ok()?;
    let up = cwd.components().count() - 1;
    let mut r = PathBuf::new();
    (0..up).for_each(|_| r.push(".."));
    Some(r.join(p.strip_prefix("/").ok()?))
}

pub fn c30(m: &'static Mon) {
    m.rule("one evaluation = one key written to a destination that takes few bytes at a time, is interrupted or fails at a chosen byte, or one file or pipe read through from_path and compared with what its contents alone give; distinct = distinct text and destination or way of delivery");
    m.assume("what the contents of a file give when read as a string is judged by C02, C08, C10, C12 and C17; here only that a path gives the same");
    m.section("destinations", m.n(24000), |c| {
        let (t, text) = match thing(c) {
            Some(x) => x,
            None => {
                c.ev("not loaded");
                return;
            }
        };
        let fails = c.rng.chance(2, 3);
        let end = match (fails, c.rng.below(6)) {
            (false, _) => usize::MAX / 2,
            (_, 0) => text.len() - 1,
            (_, 1) => 0,
            (_, 2) => text.len() - 1 - c.rng.below(text.len().min(40)),
            _ => c.rng.below(text.len()),
        };
        let how = c.rng.below(8);
        let mut s = Sink {
            got: vec![],
            r: Rng::new(c.rng.u64(), "sink", 0),
            most: *c.rng.pick(&[1usize, 2, 7, 64, 100, 5000]),
            interrupts: c.rng.chance(1, 2),
            end,
            how,
            calls: 0,
            failed: false,
        };
        let r = c.call("write", || t.write(&mut s));
        c.eval(&[&text[..], &end.to_be_bytes(), &[how as u8]].concat());
        c.mon.event("calls of a destination", s.calls);
        let det = json!({"text": String::from_utf8_lossy(&text), "received": String::from_utf8_lossy(&s.got), "room": end.min(1 << 40), "how": how, "at most": s.most, "interrupted": s.interrupts});
        c.sample(|| det.clone());
        match r {
            Err(p) => c.fail(format!("writing to a destination panicked: {}", p.0), det),
            Ok(Ok(())) if s.got != text => c.fail(format!("writing is reported as done, but {} of {} bytes arrived as they should", s.got.iter().zip(&text).take_while(|(a, b)| a == b).count(), text.len()), det),
            Ok(Err(e)) if !fails => c.fail(format!("writing to a slow but working destination fails: {}", e), det),
            Ok(Err(_)) if !text.starts_with(&s.got) => c.fail("what was written before the destination failed is not the start of the text", det),
            Ok(Err(_)) => c.ev("failure reported"),
            Ok(Ok(())) => c.ev(if s.interrupts { "whole text, interrupted" } else { "whole text, in pieces" }),
        }
    });
    m.section("printing", m.n(3000), |c| {
        use std::fmt::Write;
        let (t, kind) = content(&mut c.rng);
        let kind = if c.rng.chance(1, 6) { 4 } else { kind };
        let alt = c.rng.chance(1, 2);
        let show: Option<Box<dyn std::fmt::Display>> = match kind {
            0 => PublicKey::from_string(t.trim()).ok().map(|k| if alt { Box::new(k.fingerprint()) as Box<dyn std::fmt::Display> } else { Box::new(k) }),
            1 => Certificate::from_string(&t).ok().map(|k| Box::new(k) as _),
            2 => PrivateKey::from_string(&t).ok().map(|k| Box::new(k) as _),
            3 => AllowedSigners::from_string(&t).ok().and_then(|mut l| if l.0.is_empty() { None } else { Some(Box::new(l.0.remove(0)) as _) }),
            _ => {
                let k = Key::gen_verifiable(&mut c.rng);
                let s = sshsig(&k, &t.as_bytes()[..t.len().min(100)], "ns", "sha512", SigOpt::default());
                if alt {
                    SshSignature::from_armored_string(&s).ok().and_then(|g| VerifiedSshSignature::from_ssh_signature(&t.as_bytes()[..t.len().min(100)], g, "ns", None).ok()).map(|v| Box::new(v) as _)
                } else {
                    SshSignature::from_armored_string(&s).ok().map(|v| Box::new(v) as _)
                }
            }
        };
        let show = match show {
            Some(s) => s,
            None => {
                c.ev("not loaded");
                return;
            }
        };
        let put = |w: &mut Room| if alt { write!(w, "{:#}", show) } else { write!(w, "{}", show) };
        let mut all = Room { got: String::new(), left: usize::MAX, failed: false };
        if !matches!(c.call("display", || put(&mut all)), Ok(Ok(()))) || all.got.is_empty() {
            c.fail("an object cannot be printed", json!({"text": t}));
            return;
        }
        let full = all.got;
        for _ in 0..4 {
            let left = match c.rng.below(3) {
                0 => full.len() - 1,
                _ => c.rng.below(full.len()),
            };
            let mut w = Room { got: String::new(), left, failed: false };
            let r = c.call("display", || put(&mut w));
            c.eval(&[full.as_bytes(), &left.to_be_bytes()].concat());
            match r {
                Ok(Err(_)) if full.starts_with(&w.got) => c.ev("failure reported"),
                Ok(Err(_)) => c.fail("what was printed before the destination was full is not the start of the text", json!({"full": full, "printed": w.got})),
                Ok(Ok(())) => c.fail("printing is reported as done, but its destination had no room for all of it", json!({"full": full, "printed": w.got, "room": left})),
                // a formatter may give up on a failing destination only by an error
                Err(p) => c.fail(format!("printing into a full destination panicked: {}", p.0), json!({"full": full})),
            }
        }
    });
    m.section("devices", m.n(300), |c| {
        let (t, text) = match thing(c) {
            Some(x) => x,
            None => return,
        };
        c.eval(&text);
        match c.idx % 4 {
            0 => {
                let mut f = match std::fs::OpenOptions::new().write(true).open("/dev/full") {
                    Ok(f) => f,
                    Err(_) => return c.ev("no /dev/full"),
                };
                match c.call("write", || t.write(&mut f)) {
                    Ok(Err(_)) => c.ev("full device reported"),
                    _ => c.fail("writing to a full device does not return an error", json!({"text": String::from_utf8_lossy(&text)})),
                }
            }
            1 => {
                let (a, mut b) = match std::os::unix::net::UnixStream::pair() {
                    Ok(x) => x,
                    Err(_) => return c.ev("no sockets"),
                };
                drop(a);
                match c.call("write", || t.write(&mut b)) {
                    Ok(Err(_)) => c.ev("closed connection reported"),
                    _ => c.fail("writing to a closed connection does not return an error", json!({"text": String::from_utf8_lossy(&text)})),
                }
            }
            2 => {
                // a reader that takes its time
                let (mut a, mut b) = match std::os::unix::net::UnixStream::pair() {
                    Ok(x) => x,
                    Err(_) => return c.ev("no sockets"),
                };
                let h = std::thread::spawn(move || {
                    let mut v = vec![];
                    let mut buf = [0u8; 97];
                    while let Ok(n @ 1..) = io::Read::read(&mut a, &mut buf) {
                        v.extend_from_slice(&buf[..n]);
                    }
                    v
                });
                let r = c.call("write", || t.write(&mut b));
                drop(b);
                let got = h.join().unwrap_or_default();
                if !matches!(r, Ok(Ok(()))) || got != text {
                    c.fail("what a connection receives is not the text of the key", json!({"text": String::from_utf8_lossy(&text), "received": String::from_utf8_lossy(&got)}));
                } else {
                    c.ev("sent whole");
                }
            }
            _ => {
                // to a file, twice, and back
                let p = c.mon.scratch.join(format!("w{}", c.idx));
                let twice = c.rng.chance(1, 2);
                let r = c.call("write", || {
                    let mut f = std::fs::File::create(&p)?;
                    t.write(&mut f)?;
                    if twice {
                        t.write(&mut f)?;
                    }
                    Ok::<(), io::Error>(())
                });
                let got = std::fs::read(&p).unwrap_or_default();
                let want = if twice { [&text[..], &text].concat() } else { text.clone() };
                if !matches!(r, Ok(Ok(()))) || got != want {
                    c.fail("what a file receives is not the text of the key", json!({"text": String::from_utf8_lossy(&want), "received": String::from_utf8_lossy(&got)}));
                } else if !twice {
                    let (kind, want) = match &t {
                        Thing::Public(k) => (0, crate::p_hist::show_pub(k)),
                        Thing::Private(k) => (2, crate::p_hist::show_priv(k)),
                    };
                    let g = read_path(c, &p, kind);
                    same(c, g, &want, kind, "the file a key was written to", &String::from_utf8_lossy(&text));
                    c.ev("written and read back");
                } else {
                    c.ev("written twice");
                }
                let _ = std::fs::remove_file(&p);
            }
        }
    });
    m.section("paths", m.n(3500), |c| {
        let (mut text, kind) = content(&mut c.rng);
        if c.rng.chance(1, 5) {
            // damaged contents
            let mut at = c.rng.below(text.len().max(1)).min(text.len());
            while !text.is_char_boundary(at) {
                at -= 1;
            }
            match c.rng.below(3) {
                0 => text.truncate(at),
                1 => text.insert(at, '\u{fffd}'),
                _ => text.insert(at, '\0'),
            }
        }
        let scr = c.mon.scratch.join(format!("p{}", c.idx));
        std::fs::create_dir_all(&scr).expect("scratch");
        let want = norm(answer(&of_string(&text, kind), &scr.join("unused")));
        let name: Vec<u8> = match c.rng.below(6) {
            0 => b"id key".to_vec(),
            1 => "schlüssel.pub".as_bytes().to_vec(),
            2 => vec![b'k', 0xff, 0xfe, b'.'],
            3 => b"-".to_vec(),
            4 => b"~".to_vec(),
            _ => b"$HOME%41".to_vec(),
        };
        let file = scr.join(OsStr::from_bytes(&name));
        std::fs::write(&file, &text).expect("scratch file");
        let via = c.rng.below(5);
        let (p, how) = match via {
            0 => {
                let l = scr.join("link");
                std::os::unix::fs::symlink(&file, &l).expect("link");
                let l2 = scr.join("link2");
                std::os::unix::fs::symlink("link", &l2).expect("link");
                (l2, "a link to a file")
            }
            1 => (relative(&file).unwrap_or_else(|| file.clone()), "a relative path"),
            2 => (scr.join("..").join(scr.file_name().unwrap()).join(".").join(OsStr::from_bytes(&name)), "a path with dots"),
            _ => (file.clone(), "a file"),
        };
        let stat = |p: &Path| {
            use std::os::unix::fs::MetadataExt;
            std::fs::metadata(p).map(|m| (m.mtime(), m.mtime_nsec(), m.mode(), m.len(), m.nlink(), m.ino())).ok()
        };
        let before = stat(&file);
        let got = read_path(c, &p, kind);
        c.eval(&[text.as_bytes(), &name, &[via as u8]].concat());
        c.ev(WHAT[kind]);
        c.ev(if want == "refused" { "refused" } else { "read" });
        c.sample(|| json!({"path": p.to_string_lossy(), "contents": text}));
        let ok = same(c, got, &want, kind, how, &text);
        if ok && (stat(&file) != before || std::fs::read(&file).ok().as_deref() != Some(text.as_bytes()) || std::fs::read_dir(&scr).map(|d| d.count()).unwrap_or(0) != if via == 0 { 3 } else { 1 }) {
            c.fail(format!("{} changes the file or its directory", WHAT[kind]), json!({"contents": text}));
        }
        if ok && c.rng.chance(1, 2) {
            // other contents of the same size and time at the same path
            let mut tries = 0;
            let other = loop {
                let (mut t, k) = content(&mut c.rng);
                tries += 1;
                if k == kind && (t.len() <= text.len() || tries > 30) {
                    while t.len() < text.len() {
                        t.push('\n');
                    }
                    break t;
                }
            };
            if other.len() == text.len() {
                c.ev("replaced by contents of the same size and time");
            }
            let want2 = norm(answer(&of_string(&other, kind), &scr.join("unused")));
            if c.rng.chance(1, 2) {
                std::fs::write(&file, &other).expect("scratch file");
            } else {
                let n = scr.join("new");
                std::fs::write(&n, &other).expect("scratch file");
                std::fs::rename(&n, &file).expect("scratch file");
            }
            if let Some(b) = before {
                let t = libc::timespec { tv_sec: b.0, tv_nsec: b.1 };
                let cp = CString::new(file.as_os_str().as_bytes()).unwrap();
                unsafe { libc::utimensat(libc::AT_FDCWD, cp.as_ptr(), [t, t].as_ptr(), 0) };
            }
            let got = read_path(c, &p, kind);
            c.ev("replaced and read again");
            same(c, got, &want2, kind, "a file that was replaced since it was last read", &other);
            std::fs::remove_file(&file).expect("scratch file");
            let got = read_path(c, &p, kind);
            same(c, got, "refused", kind, "a file that was removed since it was last read", "");
        }
        std::fs::remove_dir_all(&scr).expect("scratch");
    });
    m.section("no-file", m.n(600), |c| {
        let kind = c.idx as usize % 4;
        let scr = c.mon.scratch.join(format!("n{}", c.idx));
        std::fs::create_dir_all(scr.join("dir")).expect("scratch");
        let (text, want) = loop {
            let (t, k) = content(&mut c.rng);
            if k == kind && !t.is_empty() {
                let w = norm(answer(&of_string(&t, kind), &scr.join("unused")));
                if w != "refused" {
                    break (t, w);
                }
            }
        };
        std::fs::write(scr.join("f"), &text).expect("scratch");
        let pass = c.rng.chance(1, 4) && kind == 2;
        let (p, how, bytes): (PathBuf, &str, Option<Vec<u8>>) = match c.rng.below(9) {
            0 => (scr.join("missing"), "no file", None),
            1 => (scr.join("dir"), "a directory", None),
            2 => (scr.join("f").join("f"), "a path through a file", None),
            3 => {
                std::os::unix::fs::symlink("loop", scr.join("loop")).expect("link");
                (scr.join("loop"), "a link to itself", None)
            }
            4 => (PathBuf::from(OsStr::from_bytes(&[scr.join("f").as_os_str().as_bytes(), b"\0"].concat())), "a path with a NUL", None),
            5 => (PathBuf::from("/proc/self/mem"), "a file that cannot be read", None),
            6 => (PathBuf::new(), "an empty path", None),
            7 => (scr.join("x".repeat(5000)), "an overlong path", None),
            _ => {
                // genuine, with bytes that are no text put in or after it
                let mut b = text.clone().into_bytes();
                let bad: &[u8] = *c.rng.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\xaf", b"\n\xff\n"]);
                let at = match c.rng.below(3) {
                    0 => 0,
                    1 => b.len(),
                    _ => c.rng.below(b.len()),
                };
                b.splice(at..at, bad.iter().copied());
                std::fs::write(scr.join("bin"), &b).expect("scratch");
                if std::str::from_utf8(&b).is_ok() {
                    std::fs::remove_dir_all(&scr).expect("scratch");
                    return;
                }
                (scr.join("bin"), "a file that is not text", Some(b))
            }
        };
        // the same path before it was of use
        let warm = c.rng.chance(1, 2);
        if warm {
            let g = read_path(c, &scr.join("f"), kind);
            same(c, g, &want, kind, "a file", &text);
        }
        let got = if pass {
            c.call("from_path_with_passphrase", || PrivateKey::from_path_with_passphrase(&p, Some("p".into())).map(|_| "an object".to_string())).map(|r| r.unwrap_or_else(|_| "refused".into())).map_err(|p| p.0)
        } else {
            read_path(c, &p, kind)
        };
        c.eval(&[how.as_bytes(), bytes.as_deref().unwrap_or(text.as_bytes()), &[kind as u8]].concat());
        c.ev(how);
        same(c, got, "refused", kind, how, &bytes.map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default());
        std::fs::remove_dir_all(&scr).expect("scratch");
    });
    m.section("slow-pipes", m.n(240), |c| {
        let (text, kind) = content(&mut c.rng);
        let text = if text.len() > 60000 { text.lines().take(40).map(|l| format!("{}\n", l)).collect() } else { text };
        let mut bytes = text.clone().into_bytes();
        if c.rng.chance(1, 3) {
            // the writer goes away early
            let n = c.rng.below(bytes.len().max(1)).min(bytes.len());
            bytes.truncate(n);
        }
        let want = match std::str::from_utf8(&bytes) {
            Ok(t) => norm(answer(&of_string(t, kind), Path::new("unused"))),
            Err(_) => "refused".into(),
        };
        let mut fd = [0i32; 2];
        if unsafe { libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC) } != 0 {
            return c.ev("no pipes");
        }
        let mut w = unsafe { std::fs::File::from_raw_fd(fd[1]) };
        let rd = unsafe { std::fs::File::from_raw_fd(fd[0]) };
        let p = PathBuf::from(format!("/proc/self/fd/{}", fd[0]));
        let pieces = c.rng.range(1, 12);
        let cuts: Vec<usize> = {
            let mut v: Vec<usize> = (0..pieces).map(|_| c.rng.below(bytes.len() + 1)).collect();
            // in the middle of a character, if there is one of several bytes
            if let Some(i) = bytes.iter().position(|b| *b >= 0xc0) {
                v.push(i + 1);
            }
            v.sort_unstable();
            v
        };
        let all = bytes.clone();
        let h = std::thread::spawn(move || {
            let mut at = 0;
            for x in cuts.into_iter().chain([all.len()]) {
                if w.write_all(&all[at..x]).is_err() {
                    return;
                }
                at = x;
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
        });
        let got = read_path(c, &p, kind);
        drop(rd);
        let _ = h.join();
        c.eval(&[&bytes[..], &[pieces as u8]].concat());
        c.ev(if want == "refused" { "pipe refused" } else { "pipe read" });
        same(c, got, &want, kind, "a pipe filled little by little", &String::from_utf8_lossy(&bytes));
    });
    // encrypted files take the same way
    m.section("read-faults", m.n(4000), |c| {
        use std::os::unix::fs::MetadataExt;
        let (mut text, kind) = content(&mut c.rng);
        let mut pass = None;
        if kind == 2 && c.rng.chance(1, 40) {
            let f = any_file(&mut c.rng, KT::Ed);
            text = encrypt(&f, b"right", &[7; 16], 1, "aes256-ctr", "bcrypt");
            pass = Some("right".to_string());
        }
        let p = c.mon.scratch.join(format!("f{}", c.idx));
        std::fs::write(&p, &text).expect("scratch");
        let md = std::fs::metadata(&p).expect("scratch");
        let fails = c.rng.chance(2, 3);
        // where the contents so far, or what was read of them, may look complete
        let ends: Vec<usize> = text.match_indices('\n').map(|x| x.0 + 1).collect();
        let at = match c.rng.below(8) {
            0 => 0,
            1 | 2 => text.len(),
            3 if !text.is_empty() => text.len() - 1,
            4 | 5 if !ends.is_empty() => *c.rng.pick(&ends) - c.rng.below(2),
            _ => c.rng.below(text.len() + 1),
        };
        let mut plan = Plan {
            file: (md.dev(), md.ino()),
            at: at as u64,
            errno: if fails { *c.rng.pick(&[libc::EIO, libc::EIO, libc::ESTALE, libc::ETIMEDOUT, libc::ENOMEM, libc::EISDIR, libc::EAGAIN, libc::EACCES, libc::EOVERFLOW]) } else { 0 },
            most: *c.rng.pick(&[1usize, 3, 31, 64, 1000, 4096, usize::MAX]),
            interrupt: *c.rng.pick(&[0u64, 0, 2, 3, 7]),
            ..Default::default()
        };
        if text.len() > 20000 {
            plan.most = plan.most.max(1000);
        }
        let want = if fails { "refused".to_string() } else { norm(answer(&if pass.is_some() { In::PrivText(text.clone(), pass.clone()) } else { of_string(&text, kind) }, Path::new("unused"))) };
        let pp = p.clone();
        let got = c
            .call("from_path", || {
                planned(&mut plan, || match kind {
                    0 => PublicKey::from_path(&pp).map(|k| crate::p_hist::show_pub(&k)),
                    1 => Certificate::from_path(&pp).map(|k| crate::p_hist::show_cert(&k)),
                    2 if pass.is_some() => PrivateKey::from_path_with_passphrase(&pp, pass.clone()).map(|k| crate::p_hist::show_priv(&k)),
                    2 => PrivateKey::from_path(&pp).map(|k| crate::p_hist::show_priv(&k)),
                    _ => AllowedSigners::from_path(&pp).map(|l| l.0.iter().map(crate::p_hist::show_signer).collect::<Vec<_>>().join(";")),
                })
            })
            .map(|r| r.unwrap_or_else(|_| "refused".into()))
            .map_err(|p| p.0);
        let _ = std::fs::remove_file(&p);
        c.eval(&[text.as_bytes(), &at.to_be_bytes(), &plan.errno.to_be_bytes(), &plan.most.to_be_bytes()].concat());
        c.mon.event("reads watched", plan.reads);
        c.mon.event("reads interrupted", plan.interrupted);
        if fails && plan.failed == 0 {
            // the file was read in a way the faults do not reach
            return c.ev("no fault met");
        }
        c.ev(if fails { "fault met" } else { "read in pieces" });
        let how = if fails { format!("a file whose reading fails with error {} at byte {} of {}", plan.errno, at, text.len()) } else { "a file read a few bytes at a time, with interruptions".to_string() };
        same(c, got, &want, kind, &how, &text);
    });
    m.section("passphrase-paths", m.n(24), |c| {
        let kt = ALL[c.idx as usize % ALL.len()];
        let f = any_file(&mut c.rng, kt);
        let salt = c.rng.bytes(16);
        let t = encrypt(&f, b"right", &salt, 1, "aes256-ctr", "bcrypt");
        let p = c.mon.scratch.join(format!("e{}", c.idx));
        std::fs::write(&p, &t).expect("scratch");
        for pass in [Some("right"), Some("wrong"), None, Some("Right")] {
            let pass = pass.map(|s| s.to_string());
            let want = norm(answer(&In::PrivText(t.clone(), pass.clone()), Path::new("unused")));
            let got = c
                .call("from_path_with_passphrase", || PrivateKey::from_path_with_passphrase(&p, pass.clone()).map(|k| crate::p_hist::show_priv(&k)))
                .map(|r| r.unwrap_or_else(|_| "refused".into()))
                .map_err(|p| p.0);
            c.eval(&[t.as_bytes(), pass.as_deref().unwrap_or("").as_bytes()].concat());
            if pass.as_deref() == Some("right") && want == "refused" {
                c.ev("not opened");
            }
            same(c, got, &want, 2, "an encrypted file", &t);
        }
        let _ = std::fs::remove_file(&p);
    });
    m.section_threads("open-files", 1, 1, |c| {
        let scr = c.mon.scratch.join("leak");
        std::fs::create_dir_all(&scr).expect("scratch");
        let mut texts = vec![];
        while texts.len() < 12 {
            let (t, k) = content(&mut c.rng);
            if t.len() < 20000 {
                let p = scr.join(format!("{}", texts.len()));
                let t = if texts.len() % 2 == 1 { format!("{}!", &t[..t.char_indices().nth(t.chars().count() / 2).map(|x| x.0).unwrap_or(0)]) } else { t };
                std::fs::write(&p, &t).expect("scratch");
                texts.push((p, k));
            }
        }
        let before = fds();
        for n in 0..360 {
            let (p, k) = &texts[n % texts.len()];
            let _ = read_path(c, p, *k);
        }
        let after = fds();
        c.eval(b"open files");
        c.mon.event("files opened", 360);
        if after > before + 100 {
            c.fail(format!("files stay open: {} before and {} after 360 reads", before, after), json!({}));
        }
        let _ = std::fs::remove_dir_all(&scr);
    });
}
