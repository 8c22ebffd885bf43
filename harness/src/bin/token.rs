//! Child process of the C28 monitor: emulates FIDO2 security keys below the HID transport (udev,
//! hidraw and system randomness are replaced in this process only), makes the calls of a plan and
//! reports what every token received and what every call returned.
//! usage: token <plan.json> <report.json>
use openssl::bn::{BigNum, BigNumContext};
use openssl::derive::Deriver;
use openssl::ec::{EcGroup, EcKey, EcPoint};
use openssl::hash::MessageDigest;
use openssl::nid::Nid;
use openssl::pkey::{Id, PKey, Private};
use openssl::sha::sha256;
use openssl::sign::Signer;
use openssl::symm::{Cipher, Crypter, Mode};
use serde_json::{json, Value};
use sshcerts::ssh::{CertType, Certificate, PrivateKey, PublicKey, SSHCertificateSigner};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------- system calls ----------
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn done(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
thread_local! {
    /// What the calling thread draws as system randomness, if set.
    static SCRIPT: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}
unsafe fn random(buf: i64, len: i64, flags: i64) -> i64 {
    let scripted = SCRIPT.try_with(|s| match s.try_borrow() {
        Ok(s) => s.as_ref().map(|v| {
            for i in 0..len {
                *((buf + i) as *mut u8) = v[i as usize % v.len()];
            }
        }),
        Err(_) => None,
    });
    if let Ok(Some(())) = scripted {
        return len;
    }
    raw(libc::SYS_getrandom, buf, len, flags, 0, 0, 0)
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom {
        return done(random(a, b, c));
    }
    done(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    done(random(buf as i64, len as i64, flags as i64)) as isize
}
const NODE: &str = "/emulated-by-the-monitor/hidraw";
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if let Ok(p) = CStr::from_ptr(path).to_str() {
        if let Some(i) = p.strip_prefix(NODE).and_then(|s| s.parse::<usize>().ok()) {
            return attach(i);
        }
    }
    done(raw(libc::SYS_openat, libc::AT_FDCWD as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
/// A token that is gone makes reading fail; there is no end of file on a device.
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    let r = done(raw(libc::SYS_read, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize;
    if r == 0 && n > 0 {
        let (mut t, mut l) = (0 as c_int, 4u32);
        let s = libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_TYPE, &mut t as *mut c_int as *mut c_void, &mut l);
        if s != 0 || t != libc::SOCK_SEQPACKET {
            *libc::__errno_location() = 0;
            return 0;
        }
        *libc::__errno_location() = libc::EIO;
        return -1;
    }
    r
}
const DESC: [u8; 34] = [
    0x06, 0xd0, 0xf1, 0x09, 0x01, 0xa1, 0x01, 0x09, 0x20, 0x15, 0x00, 0x26, 0xff, 0x00, 0x75, 0x08, 0x95, 0x40, 0x81, 0x02, 0x09, 0x21, 0x15, 0x00, 0x26,
    0xff, 0x00, 0x75, 0x08, 0x95, 0x40, 0x91, 0x02, 0xc0,
];
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: *mut c_void) -> c_int {
    let ours = world().fds.contains(&fd);
    match req & 0xffff_ffff {
        0x8004_4801 if ours => {
            *(arg as *mut c_int) = DESC.len() as c_int;
            0
        }
        0x9004_4802 if ours => {
            *(arg as *mut c_int) = DESC.len() as c_int;
            std::ptr::copy_nonoverlapping(DESC.as_ptr(), (arg as *mut u8).add(4), DESC.len());
            0
        }
        _ => done(raw(libc::SYS_ioctl, fd as i64, req as i64, arg as i64, 0, 0, 0)) as c_int,
    }
}

// ---------- udev ----------
struct Dev {
    node: CString,
    action: Option<CString>,
}
struct Entry {
    name: CString,
    next: *mut Entry,
}
fn present(t: &Tok, ms: u64) -> bool {
    ms >= t.plug && t.unplug.map_or(true, |u| ms < u)
}
#[no_mangle]
pub extern "C" fn udev_new() -> *mut c_void {
    1 as *mut c_void
}
#[no_mangle]
pub extern "C" fn udev_unref(_: *mut c_void) -> *mut c_void {
    std::ptr::null_mut()
}
#[no_mangle]
pub extern "C" fn udev_ref(u: *mut c_void) -> *mut c_void {
    u
}
#[no_mangle]
pub extern "C" fn udev_enumerate_new(_: *mut c_void) -> *mut c_void {
    1 as *mut c_void
}
#[no_mangle]
pub extern "C" fn udev_enumerate_unref(_: *mut c_void) -> *mut c_void {
    std::ptr::null_mut()
}
#[no_mangle]
pub extern "C" fn udev_enumerate_add_match_subsystem(_: *mut c_void, _: *const c_char) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn udev_enumerate_scan_devices(_: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn udev_enumerate_get_list_entry(_: *mut c_void) -> *mut Entry {
    let mut w = world();
    let ms = w.start.elapsed().as_millis() as u64;
    let mut head: *mut Entry = std::ptr::null_mut();
    for i in (0..w.toks.len()).rev() {
        if present(&w.toks[i], ms) {
            w.toks[i].announced = true;
            head = Box::into_raw(Box::new(Entry { name: CString::new(i.to_string()).unwrap(), next: head }));
        }
    }
    head
}
#[no_mangle]
pub unsafe extern "C" fn udev_list_entry_get_next(e: *mut Entry) -> *mut Entry {
    (*e).next
}
#[no_mangle]
pub unsafe extern "C" fn udev_list_entry_get_name(e: *mut Entry) -> *const c_char {
    (*e).name.as_ptr()
}
fn dev(i: usize, action: Option<&str>) -> *mut Dev {
    Box::into_raw(Box::new(Dev { node: CString::new(format!("{}{}", NODE, i)).unwrap(), action: action.map(|a| CString::new(a).unwrap()) }))
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_new_from_syspath(_: *mut c_void, p: *const c_char) -> *mut Dev {
    match CStr::from_ptr(p).to_str().ok().and_then(|s| s.parse().ok()) {
        Some(i) => dev(i, None),
        None => std::ptr::null_mut(),
    }
}
#[no_mangle]
pub extern "C" fn udev_device_ref(d: *mut Dev) -> *mut Dev {
    d
}
#[no_mangle]
pub extern "C" fn udev_device_unref(_: *mut Dev) -> *mut Dev {
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_devnode(d: *mut Dev) -> *const c_char {
    (*d).node.as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_syspath(d: *mut Dev) -> *const c_char {
    (*d).node.as_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn udev_device_get_property_value(d: *mut Dev, _: *const c_char) -> *const c_char {
    (*d).action.as_ref().map_or(std::ptr::null(), |a| a.as_ptr())
}
#[no_mangle]
pub extern "C" fn udev_device_get_sysattr_value(_: *mut Dev, _: *const c_char) -> *const c_char {
    std::ptr::null()
}
#[no_mangle]
pub extern "C" fn udev_monitor_new_from_netlink(_: *mut c_void, _: *const c_char) -> *mut c_void {
    1 as *mut c_void
}
#[no_mangle]
pub extern "C" fn udev_monitor_unref(_: *mut c_void) -> *mut c_void {
    std::ptr::null_mut()
}
#[no_mangle]
pub extern "C" fn udev_monitor_filter_add_match_subsystem_devtype(_: *mut c_void, _: *const c_char, _: *const c_char) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn udev_monitor_enable_receiving(_: *mut c_void) -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn udev_monitor_get_fd(_: *mut c_void) -> c_int {
    let mut w = world();
    if w.ready < 0 {
        w.ready = unsafe { libc::eventfd(1, 0) };
    }
    w.ready
}
#[no_mangle]
pub extern "C" fn udev_monitor_receive_device(_: *mut c_void) -> *mut Dev {
    std::thread::sleep(Duration::from_millis(2));
    let mut w = world();
    let ms = w.start.elapsed().as_millis() as u64;
    for i in 0..w.toks.len() {
        let p = present(&w.toks[i], ms);
        if p != w.toks[i].announced {
            w.toks[i].announced = p;
            return dev(i, Some(if p { "add" } else { "remove" }));
        }
    }
    std::ptr::null_mut()
}

// ---------- CBOR ----------
#[derive(Clone, Debug)]
enum C {
    I(i64),
    B(Vec<u8>),
    T(String),
    A(Vec<C>),
    M(Vec<(C, C)>),
    F(bool),
}
impl C {
    fn head(o: &mut Vec<u8>, major: u8, n: u64) {
        let m = major << 5;
        match n {
            0..=23 => o.push(m | n as u8),
            24..=255 => o.extend([m | 24, n as u8]),
            256..=65535 => {
                o.push(m | 25);
                o.extend((n as u16).to_be_bytes())
            }
            65536..=0xffff_ffff => {
                o.push(m | 26);
                o.extend((n as u32).to_be_bytes())
            }
            _ => {
                o.push(m | 27);
                o.extend(n.to_be_bytes())
            }
        }
    }
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            C::I(i) if *i >= 0 => C::head(o, 0, *i as u64),
            C::I(i) => C::head(o, 1, (-1 - *i) as u64),
            C::B(b) => {
                C::head(o, 2, b.len() as u64);
                o.extend(b)
            }
            C::T(t) => {
                C::head(o, 3, t.len() as u64);
                o.extend(t.as_bytes())
            }
            C::A(v) => {
                C::head(o, 4, v.len() as u64);
                v.iter().for_each(|x| x.put(o))
            }
            C::M(v) => {
                C::head(o, 5, v.len() as u64);
                v.iter().for_each(|(k, x)| {
                    k.put(o);
                    x.put(o)
                })
            }
            C::F(b) => o.push(if *b { 0xf5 } else { 0xf4 }),
        }
    }
    fn enc(&self) -> Vec<u8> {
        let mut o = vec![];
        self.put(&mut o);
        o
    }
    fn get(d: &mut &[u8]) -> Option<C> {
        let b = *d.first()?;
        *d = &d[1..];
        let (major, low) = (b >> 5, b & 31);
        if major == 7 {
            return match b {
                0xf4 => Some(C::F(false)),
                0xf5 => Some(C::F(true)),
                _ => None,
            };
        }
        let n = match low {
            0..=23 => low as u64,
            24..=27 => {
                let k = 1usize << (low - 24);
                let mut v = 0u64;
                for x in d.get(..k)? {
                    v = v << 8 | *x as u64;
                }
                *d = &d[k..];
                v
            }
            _ => return None,
        };
        let take = |d: &mut &[u8]| {
            let v = d.get(..n as usize)?.to_vec();
            *d = &d[n as usize..];
            Some(v)
        };
        Some(match major {
            0 => C::I(n as i64),
            1 => C::I(-1 - n as i64),
            2 => C::B(take(d)?),
            3 => C::T(String::from_utf8(take(d)?).ok()?),
            4 => {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(C::get(d)?);
                }
                C::A(v)
            }
            5 => {
                let mut v = vec![];
                for _ in 0..n {
                    let k = C::get(d)?;
                    v.push((k, C::get(d)?));
                }
                C::M(v)
            }
            _ => return None,
        })
    }
    fn at(&self, k: i64) -> Option<&C> {
        match self {
            C::M(v) => v.iter().find(|(x, _)| matches!(x, C::I(i) if *i == k)).map(|(_, x)| x),
            _ => None,
        }
    }
    fn named(&self, k: &str) -> Option<&C> {
        match self {
            C::M(v) => v.iter().find(|(x, _)| matches!(x, C::T(i) if i == k)).map(|(_, x)| x),
            _ => None,
        }
    }
    fn bytes(&self) -> Option<&[u8]> {
        if let C::B(b) = self {
            Some(b)
        } else {
            None
        }
    }
    fn text(&self) -> Option<&str> {
        if let C::T(b) = self {
            Some(b)
        } else {
            None
        }
    }
    fn int(&self) -> Option<i64> {
        if let C::I(b) = self {
            Some(*b)
        } else {
            None
        }
    }
    fn json(&self) -> Value {
        match self {
            C::I(i) => json!(i),
            C::B(b) => json!(hex(b)),
            C::T(t) => json!(t),
            C::A(v) => Value::Array(v.iter().map(|x| x.json()).collect()),
            C::M(v) => Value::Object(
                v.iter()
                    .map(|(k, x)| {
                        (
                            match k {
                                C::I(i) => i.to_string(),
                                C::T(t) => t.clone(),
                                _ => "?".into(),
                            },
                            x.json(),
                        )
                    })
                    .collect(),
            ),
            C::F(b) => json!(b),
        }
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

// ---------- the tokens ----------
struct Cred {
    app: String,
    handle: Vec<u8>,
    key: PKey<Private>,
    ed: bool,
}
struct Tok {
    plug: u64,
    unplug: Option<u64>,
    announced: bool,
    cfg: Value,
    creds: Vec<Cred>,
    counter: u32,
    retries: i64,
    wrong: i64,
    agree: Option<EcKey<Private>>,
    pin_token: Vec<u8>,
    seen: BTreeMap<u8, u64>,
}
struct World {
    toks: Vec<Tok>,
    fds: Vec<c_int>,
    ready: c_int,
    start: Instant,
    log: Vec<Value>,
    op: usize,
}
static WORLD: Mutex<Option<World>> = Mutex::new(None);
struct Guard(std::sync::MutexGuard<'static, Option<World>>);
impl std::ops::Deref for Guard {
    type Target = World;
    fn deref(&self) -> &World {
        self.0.as_ref().unwrap()
    }
}
impl std::ops::DerefMut for Guard {
    fn deref_mut(&mut self) -> &mut World {
        self.0.as_mut().unwrap()
    }
}
fn world() -> Guard {
    let mut g = WORLD.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        *g = Some(World { toks: vec![], fds: vec![], ready: -1, start: Instant::now(), log: vec![], op: 0 });
    }
    Guard(g)
}
static CID: AtomicU32 = AtomicU32::new(0x0100_0000);

fn attach(i: usize) -> c_int {
    {
        let w = world();
        let ms = w.start.elapsed().as_millis() as u64;
        if i >= w.toks.len() || !present(&w.toks[i], ms) {
            unsafe { *libc::__errno_location() = libc::ENOENT };
            return -1;
        }
    }
    let mut p = [0 as c_int; 2];
    if unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, p.as_mut_ptr()) } != 0 {
        return -1;
    }
    world().fds.push(p[0]);
    let fd = p[1];
    std::thread::spawn(move || {
        serve(i, fd);
        unsafe { libc::close(fd) };
    });
    p[0]
}
/// Whether something can be read within `ms`.
fn readable(fd: c_int, ms: c_int) -> bool {
    let mut f = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
    unsafe { libc::poll(&mut f, 1, ms) > 0 }
}
fn send(fd: c_int, cid: [u8; 4], cmd: u8, data: &[u8]) -> bool {
    let mut f = vec![];
    f.extend(cid);
    f.push(cmd);
    f.extend((data.len() as u16).to_be_bytes());
    let n = data.len().min(57);
    f.extend(&data[..n]);
    f.resize(64, 0);
    let mut ok = unsafe { libc::send(fd, f.as_ptr() as *const c_void, 64, libc::MSG_NOSIGNAL) } == 64;
    for (seq, c) in data[n..].chunks(59).enumerate() {
        let mut f = vec![];
        f.extend(cid);
        f.push(seq as u8);
        f.extend(c);
        f.resize(64, 0);
        ok &= unsafe { libc::send(fd, f.as_ptr() as *const c_void, 64, libc::MSG_NOSIGNAL) } == 64;
    }
    ok
}
/// One message from the host: channel, command, data.
fn receive(fd: c_int, i: usize) -> Option<([u8; 4], u8, Vec<u8>)> {
    let mut frame = || {
        loop {
            let w = world();
            let gone = !present(&w.toks[i], w.start.elapsed().as_millis() as u64);
            drop(w);
            if gone {
                return None;
            }
            if readable(fd, 20) {
                break;
            }
        }
        let mut b = [0u8; 128];
        let n = unsafe { libc::recv(fd, b.as_mut_ptr() as *mut c_void, 128, 0) };
        if n != 65 {
            return None;
        }
        Some(b[1..65].to_vec())
    };
    let f = frame()?;
    let cid: [u8; 4] = f[..4].try_into().unwrap();
    if f[4] & 0x80 == 0 {
        return Some((cid, 0, vec![]));
    }
    let len = u16::from_be_bytes([f[5], f[6]]) as usize;
    let mut d = f[7..].to_vec();
    while d.len() < len {
        let f = frame()?;
        d.extend(&f[5..]);
    }
    d.truncate(len);
    Some((cid, f[4], d))
}
enum Touch {
    Yes,
    Cancelled,
    Gone,
}
fn touch(i: usize, fd: c_int, cid: [u8; 4]) -> Touch {
    let n = world().toks[i].cfg["touch"].as_i64();
    let mut k = 0;
    loop {
        if n.map_or(false, |n| k >= n) {
            return Touch::Yes;
        }
        if !send(fd, cid, 0xbb, &[2]) {
            return Touch::Gone;
        }
        k += 1;
        if readable(fd, 5) {
            match receive(fd, i) {
                Some((c, 0x91, _)) if c == cid => return Touch::Cancelled,
                None => return Touch::Gone,
                _ => (),
            }
        }
    }
}
fn serve(i: usize, fd: c_int) {
    while let Some((cid, cmd, data)) = receive(fd, i) {
        match cmd {
            0x86 => {
                let n = CID.fetch_add(1, SeqCst).to_be_bytes();
                let mut r = data.clone();
                r.extend(n);
                r.extend([2, 5, 4, 3, 0x0d]);
                send(fd, cid, 0x86, &r);
            }
            0x90 if !data.is_empty() => {
                let (c, op) = {
                    let mut w = world();
                    let n = w.toks[i].seen.entry(data[0]).or_default();
                    *n += 1;
                    let n = *n;
                    let f = w.toks[i].cfg["faults"].as_array().cloned().unwrap_or_default();
                    (f.into_iter().find(|f| f["cmd"] == json!(data[0]) && f["nth"] == json!(n)), w.op)
                };
                if let Some(f) = &c {
                    world().log.push(json!({"op": op, "token": i, "fault": f}));
                }
                let act = c.as_ref().and_then(|f| f["act"].as_str()).unwrap_or("");
                if act == "close" {
                    return;
                }
                if act == "noise" {
                    // packets of other channels
                    send(fd, [9, 9, 9, 9], 0x90, &[0x2e]);
                    send(fd, [9, 9, 9, 9], 0xbb, &[1]);
                }
                if act == "keepalives" {
                    for _ in 0..20 {
                        send(fd, cid, 0xbb, &[1]);
                    }
                }
                let code = c.as_ref().and_then(|f| f["code"].as_u64()).unwrap_or(0) as u8;
                if act == "refuse" {
                    send(fd, cid, 0x90, &[code]);
                    continue;
                }
                let mut r = match answer(i, fd, cid, &data) {
                    Some(r) => r,
                    None => return,
                };
                let at = c.as_ref().and_then(|f| f["at"].as_u64()).unwrap_or(0) as usize;
                match act {
                    // after the token has done its work
                    "late" => r = vec![code],
                    "lateclose" => return,
                    "short" if !r.is_empty() => {
                        let n = at % r.len();
                        r.truncate(n)
                    }
                    "flip" if r.len() > 1 => {
                        let n = 1 + at % (r.len() - 1);
                        r[n] ^= code.max(1);
                    }
                    "hiderror" => {
                        send(fd, cid, 0xbf, &[code]);
                        continue;
                    }
                    "badseq" if r.len() > 57 => {
                        let mut f = vec![];
                        f.extend(cid);
                        f.push(0x90);
                        f.extend((r.len() as u16).to_be_bytes());
                        f.extend(&r[..57]);
                        unsafe { libc::send(fd, f.as_ptr() as *const c_void, 64, libc::MSG_NOSIGNAL) };
                        let mut f = vec![];
                        f.extend(cid);
                        f.push(5);
                        f.resize(64, 0);
                        unsafe { libc::send(fd, f.as_ptr() as *const c_void, 64, libc::MSG_NOSIGNAL) };
                        continue;
                    }
                    _ => (),
                }
                send(fd, cid, 0x90, &r);
            }
            0x83 => {
                world().log.push(json!({"u2f": hex(&data)}));
                send(fd, cid, 0x83, &[0x6d, 0x00]);
            }
            0x91 => (),
            _ => {
                send(fd, cid, 0xbf, &[1]);
            }
        }
    }
}
fn hmac(k: &[u8], d: &[u8]) -> Vec<u8> {
    let k = PKey::hmac(k).unwrap();
    let mut s = Signer::new(MessageDigest::sha256(), &k).unwrap();
    s.update(d).unwrap();
    s.sign_to_vec().unwrap()
}
fn aes(mode: Mode, key: &[u8], iv: &[u8], d: &[u8]) -> Option<Vec<u8>> {
    if d.len() % 16 != 0 {
        return None;
    }
    let mut c = Crypter::new(Cipher::aes_256_cbc(), mode, key, Some(iv)).ok()?;
    c.pad(false);
    let mut o = vec![0; d.len() + 32];
    let mut n = c.update(d, &mut o).ok()?;
    n += c.finalize(&mut o[n..]).ok()?;
    o.truncate(n);
    Some(o)
}
fn p256() -> EcGroup {
    EcGroup::from_curve_name(Nid::X9_62_PRIME256V1).unwrap()
}
fn xy(k: &EcKey<Private>) -> (Vec<u8>, Vec<u8>) {
    let (mut x, mut y) = (BigNum::new().unwrap(), BigNum::new().unwrap());
    let mut ctx = BigNumContext::new().unwrap();
    k.public_key().affine_coordinates(k.group(), &mut x, &mut y, &mut ctx).unwrap();
    (x.to_vec_padded(32).unwrap(), y.to_vec_padded(32).unwrap())
}
fn client_pin(t: &mut Tok, m: &C) -> (u8, Vec<u8>, Value) {
    let proto = m.at(1).and_then(|x| x.int()).unwrap_or(1);
    let sub = m.at(2).and_then(|x| x.int()).unwrap_or(0);
    match sub {
        1 => (0, C::M(vec![(C::I(3), C::I(t.retries))]).enc(), json!({"pin": "retries"})),
        2 => {
            let k = EcKey::generate(&p256()).unwrap();
            let (x, y) = xy(&k);
            t.agree = Some(k);
            let key = C::M(vec![(C::I(1), C::I(2)), (C::I(3), C::I(-25)), (C::I(-1), C::I(1)), (C::I(-2), C::B(x)), (C::I(-3), C::B(y))]);
            (0, C::M(vec![(C::I(1), key)]).enc(), json!({"pin": "agree"}))
        }
        5 | 9 => {
            let rp = m.at(10).map(|x| x.json());
            let pin = t.cfg["pin"].as_str().map(|s| s.to_string());
            let pin = match pin {
                Some(p) => p,
                None => return (0x35, vec![], json!({"pin": "none set"})),
            };
            if t.retries <= 0 {
                return (0x32, vec![], json!({"pin": "blocked"}));
            }
            if t.wrong >= 3 {
                return (0x34, vec![], json!({"pin": "auth blocked"}));
            }
            let go = || -> Option<(Vec<u8>, Vec<u8>)> {
                let k = m.at(3)?;
                let (x, y) = (BigNum::from_slice(k.at(-2)?.bytes()?).ok()?, BigNum::from_slice(k.at(-3)?.bytes()?).ok()?);
                let peer = PKey::from_ec_key(EcKey::from_public_key_affine_coordinates(&p256(), &x, &y).ok()?).ok()?;
                let mine = PKey::from_ec_key(t.agree.clone()?).ok()?;
                let mut d = Deriver::new(&mine).ok()?;
                d.set_peer(&peer).ok()?;
                let z = d.derive_to_vec().ok()?;
                let e = m.at(6)?.bytes()?;
                let (key, iv, ct) = if proto == 2 {
                    let prk = hmac(&[0; 32], &z);
                    (hmac(&prk, b"CTAP2 AES key\x01"), e.get(..16)?.to_vec(), e[16..].to_vec())
                } else {
                    (sha256(&z).to_vec(), vec![0; 16], e.to_vec())
                };
                Some((key.clone(), aes(Mode::Decrypt, &key, &iv, &ct)?))
            };
            t.retries -= 1;
            match go() {
                Some((key, h)) if h[..] == sha256(pin.as_bytes())[..16] => {
                    t.retries = 8;
                    t.wrong = 0;
                    let mut tok = vec![0u8; 32];
                    openssl::rand::rand_bytes(&mut tok).unwrap();
                    t.pin_token = tok.clone();
                    let e = if proto == 2 {
                        let mut iv = vec![0u8; 16];
                        openssl::rand::rand_bytes(&mut iv).unwrap();
                        let c = aes(Mode::Encrypt, &key, &iv, &tok).unwrap();
                        [iv, c].concat()
                    } else {
                        aes(Mode::Encrypt, &key, &[0; 16], &tok).unwrap()
                    };
                    (0, C::M(vec![(C::I(2), C::B(e))]).enc(), json!({"pin": "right", "rp": rp}))
                }
                _ => {
                    t.wrong += 1;
                    t.agree = None;
                    let code = if t.retries <= 0 {
                        0x32
                    } else if t.wrong >= 3 {
                        0x34
                    } else {
                        0x31
                    };
                    (code, vec![], json!({"pin": "wrong", "rp": rp}))
                }
            }
        }
        _ => (0x3e, vec![], json!({"pin": "other"})),
    }
}
/// None: no PIN authentication in the request; otherwise whether it is right.
fn pin_auth(t: &Tok, p: Option<&C>, proto: Option<&C>, hash: &[u8]) -> Option<bool> {
    let p = p?.bytes().unwrap_or(&[]);
    if t.pin_token.is_empty() {
        return Some(false);
    }
    let mut h = hmac(&t.pin_token, hash);
    if proto.and_then(|x| x.int()) != Some(2) {
        h.truncate(16);
    }
    Some(h == p)
}
fn answer(i: usize, fd: c_int, cid: [u8; 4], data: &[u8]) -> Option<Vec<u8>> {
    let cmd = data[0];
    let mut rest = &data[1..];
    let m = C::get(&mut rest).unwrap_or(C::M(vec![]));
    let yes = |t: &Tok, n: &str| t.cfg["options"][n] == json!(true);
    let fill = |code: u8, body: Vec<u8>| {
        let mut v = vec![code];
        v.extend(body);
        Some(v)
    };
    macro_rules! touched {
        () => {
            match touch(i, fd, cid) {
                Touch::Yes => (),
                Touch::Cancelled => return Some(vec![0x2d]),
                Touch::Gone => return None,
            }
        };
    }
    match cmd {
        4 => {
            let w = world();
            let c = &w.toks[i].cfg;
            let mut v = vec![(
                C::I(1),
                C::A(c["versions"].as_array().unwrap_or(&vec![]).iter().map(|x| C::T(x.as_str().unwrap_or("").into())).collect()),
            )];
            v.push((C::I(3), C::B(vec![i as u8 + 1; 16])));
            let mut o: Vec<(C, C)> = c["options"].as_object().map(|o| o.iter().map(|(k, x)| (C::T(k.clone()), C::F(x == &json!(true)))).collect()).unwrap_or_default();
            o.sort_by_key(|(k, _)| k.enc());
            v.push((C::I(4), C::M(o)));
            v.push((C::I(5), C::I(7609)));
            if let Some(p) = c["protocols"].as_array() {
                v.push((C::I(6), C::A(p.iter().map(|x| C::I(x.as_i64().unwrap_or(1))).collect())));
            }
            if let Some(n) = c["maxlist"].as_i64() {
                v.push((C::I(7), C::I(n)));
            }
            if let Some(n) = c["maxid"].as_i64() {
                v.push((C::I(8), C::I(n)));
            }
            fill(0, C::M(v).enc())
        }
        11 => {
            touched!();
            fill(0, vec![])
        }
        6 => {
            let mut w = world();
            let op = w.op;
            let (code, body, mut l) = client_pin(&mut w.toks[i], &m);
            l["op"] = json!(op);
            l["token"] = json!(i);
            w.log.push(l);
            fill(code, body)
        }
        1 => {
            let p = m.at(8);
            let hash = m.at(1).and_then(|x| x.bytes()).unwrap_or(&[]).to_vec();
            if matches!(p, Some(C::B(b)) if b.is_empty()) {
                // the way of asking for a touch before CTAP 2.1
                {
                    let mut w = world();
                    let op = w.op;
                    w.log.push(json!({"op": op, "token": i, "blink": m.json()}));
                }
                touched!();
                return fill(if world().toks[i].cfg["pin"].is_string() { 0x31 } else { 0x35 }, vec![]);
            }
            let auth = {
                let mut w = world();
                let op = w.op;
                let auth = pin_auth(&w.toks[i], p, m.at(9), &hash);
                let j = json!({"op": op, "token": i, "make": m.json(), "auth": auth});
                w.log.push(j);
                auth
            };
            {
                let w = world();
                let t = &w.toks[i];
                if auth == Some(false) {
                    return fill(0x33, vec![]);
                }
                if t.cfg["pin"].is_string() && auth.is_none() && (yes(t, "alwaysUv") || !yes(t, "makeCredUvNotRqd")) {
                    return fill(0x36, vec![]);
                }
            }
            touched!();
            let mut w = world();
            let e = w.toks[i].cfg["enrol"].clone();
            let op = w.op;
            if let Some(s) = e["status"].as_u64() {
                return fill(s as u8, vec![]);
            }
            w.log.push(json!({"op": op, "token": i, "made": true}));
            let mut st = vec![];
            if e["fmt"] != json!("none") {
                if e["fmt"] == json!("packed") {
                    st.push((C::T("alg".into()), C::I(e["alg"].as_i64().unwrap_or(-7))));
                }
                st.push((C::T("sig".into()), C::B(unhex(e["sig"].as_str().unwrap_or("")))));
                if let Some(x) = e["x5c"].as_array() {
                    st.push((C::T("x5c".into()), C::A(x.iter().map(|c| C::B(unhex(c.as_str().unwrap_or("")))).collect())));
                }
            }
            fill(0, C::M(vec![(C::I(1), C::T(e["fmt"].as_str().unwrap_or("packed").into())), (C::I(2), C::B(unhex(e["authData"].as_str().unwrap_or("")))), (C::I(3), C::M(st))]).enc())
        }
        2 => {
            let rp = m.at(1).and_then(|x| x.text()).unwrap_or("").to_string();
            let hash = m.at(2).and_then(|x| x.bytes()).unwrap_or(&[]).to_vec();
            let allow: Vec<Vec<u8>> = match m.at(3) {
                Some(C::A(v)) => v.iter().filter_map(|x| x.named("id").and_then(|x| x.bytes()).map(|b| b.to_vec())).collect(),
                _ => vec![],
            };
            let opt = |n: &str| m.at(5).and_then(|o| o.named(n)).map(|x| matches!(x, C::F(true)));
            let up = opt("up").unwrap_or(true);
            let auth = {
                let mut w = world();
                let op = w.op;
                let auth = pin_auth(&w.toks[i], m.at(6), m.at(7), &hash);
                let j = json!({"op": op, "token": i, "assert": m.json(), "rp": rp, "hash": hex(&hash), "allow": allow.iter().map(|a| hex(a)).collect::<Vec<_>>(), "up": up, "uv": opt("uv"), "auth": auth});
                w.log.push(j);
                auth
            };
            if auth == Some(false) {
                return fill(0x33, vec![]);
            }
            let found = {
                let w = world();
                let t = &w.toks[i];
                if yes(t, "alwaysUv") && auth != Some(true) {
                    return fill(0x36, vec![]);
                }
                t.creds.iter().position(|c| c.app == rp && allow.contains(&c.handle))
            };
            let n = match found {
                Some(n) => n,
                None => return fill(0x2e, vec![]),
            };
            if up {
                touched!();
            }
            let mut w = world();
            let op = w.op;
            let t = &mut w.toks[i];
            let mut flags = t.cfg["flags"].as_u64().unwrap_or(0) as u8;
            if up {
                flags |= 1;
            }
            if auth == Some(true) {
                flags |= 4;
            }
            let counter = t.counter;
            if !t.cfg["frozen"].as_bool().unwrap_or(false) {
                t.counter = t.counter.wrapping_add(1);
            }
            let c = &t.creds[n];
            let ad = [&sha256(rp.as_bytes())[..], &[flags], &counter.to_be_bytes()].concat();
            let tbs = [&ad[..], &hash].concat();
            let sig = if c.ed {
                let mut s = Signer::new_without_digest(&c.key).unwrap();
                s.sign_oneshot_to_vec(&tbs).unwrap()
            } else {
                let mut s = Signer::new(MessageDigest::sha256(), &c.key).unwrap();
                s.update(&tbs).unwrap();
                s.sign_to_vec().unwrap()
            };
            let mut v = vec![];
            if !t.cfg["omit"].as_bool().unwrap_or(false) || allow.len() != 1 {
                v.push((C::I(1), C::M(vec![(C::T("id".into()), C::B(c.handle.clone())), (C::T("type".into()), C::T("public-key".into()))])));
            }
            v.push((C::I(2), C::B(ad)));
            v.push((C::I(3), C::B(sig.clone())));
            w.log.push(json!({"op": op, "token": i, "signed": {"up": up, "flags": flags, "counter": counter, "hash": hex(&hash), "rp": rp, "sig": hex(&sig)}}));
            fill(0, C::M(v).enc())
        }
        _ => fill(1, vec![]),
    }
}

// ---------- the plan ----------
fn cred(c: &Value) -> Cred {
    let sec = unhex(c["secret"].as_str().unwrap());
    let ed = c["kind"] == json!("ed");
    let key = if ed {
        PKey::private_key_from_raw_bytes(&sec, Id::ED25519).unwrap()
    } else {
        let g = p256();
        let d = BigNum::from_slice(&sec).unwrap();
        let mut p = EcPoint::new(&g).unwrap();
        p.mul_generator(&g, &d, &BigNumContext::new().unwrap()).unwrap();
        PKey::from_ec_key(EcKey::from_private_components(&g, &d, &p).unwrap()).unwrap()
    };
    Cred { app: c["app"].as_str().unwrap().into(), handle: unhex(c["handle"].as_str().unwrap()), key, ed }
}
fn run(op: &Value, keys: &mut HashMap<String, PrivateKey>) -> Value {
    let s = |n: &str| op[n].as_str().unwrap_or("").to_string();
    let load = |keys: &mut HashMap<String, PrivateKey>| -> Option<PrivateKey> {
        let mut k = match op["enrolled"].as_str() {
            Some(n) => keys.remove(n)?,
            None => PrivateKey::from_string(&s("key")).ok()?,
        };
        if let Some(p) = op["pin"].as_str() {
            k.set_pin(p);
        }
        if let Some(p) = op["path"].as_str() {
            k.set_device_path(p);
        }
        Some(k)
    };
    match op["op"].as_str().unwrap_or("") {
        "sign" => match load(keys) {
            Some(k) => {
                let r = k.sign(&unhex(&s("data")));
                json!({"sig": r.map(|v| hex(&v))})
            }
            None => json!({"nokey": true}),
        },
        "cert" => match load(keys) {
            Some(k) => {
                let sub = PublicKey::from_string(&s("subject")).expect("subject");
                let c = Certificate::builder(&sub, CertType::User, &k.pubkey)
                    .expect("builder")
                    .serial(op["serial"].as_u64().unwrap_or(0))
                    .key_id(s("id"))
                    .principal(s("principal"))
                    .valid_after(0)
                    .valid_before(u64::MAX);
                let tbs = c.tbs_certificate();
                match c.sign(&k) {
                    Ok(c) => json!({"cert": c.to_string(), "tbs": hex(&tbs)}),
                    Err(_) => json!({"cert": null, "tbs": hex(&tbs)}),
                }
            }
            None => json!({"nokey": true}),
        },
        "sshsig" => match load(keys) {
            Some(k) => match sshcerts::ssh::VerifiedSshSignature::new_with_private_key(&unhex(&s("data")), &s("ns"), k, None) {
                Ok(v) => json!({"sshsig": v.to_string()}),
                Err(_) => json!({"sshsig": null}),
            },
            None => json!({"nokey": true}),
        },
        "enrol" => {
            let r = op["random"].as_str().map(unhex);
            SCRIPT.with(|x| *x.borrow_mut() = r);
            let got = std::panic::catch_unwind(|| {
                sshcerts::fido::generate::generate_new_ssh_key(&s("app"), &s("comment"), op["pin"].as_str().map(|p| p.to_string()), None)
            });
            SCRIPT.with(|x| *x.borrow_mut() = None);
            match got {
                Ok(Ok(k)) => {
                    let mut f = vec![];
                    let _ = k.private_key.write(&mut f);
                    let a = &k.attestation;
                    let j = json!({"enrolled": {"file": String::from_utf8_lossy(&f), "public": k.private_key.pubkey.to_string(), "comment": k.private_key.comment,
                        "authData": hex(&a.auth_data), "sig": hex(&a.auth_data_sig), "x5c": hex(&a.intermediate), "challenge": hex(&a.challenge), "alg": a.alg,
                        "verifies": a.verify().is_ok()}});
                    if let Some(n) = op["as"].as_str() {
                        keys.insert(n.into(), k.private_key);
                    }
                    j
                }
                Ok(Err(e)) => json!({"refused": format!("{:?}", e)}),
                Err(e) => std::panic::resume_unwind(e),
            }
        }
        _ => json!({"unknown": true}),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let plan: Value = serde_json::from_str(&std::fs::read_to_string(&a[1]).expect("plan")).expect("plan");
    std::panic::set_hook(Box::new(|_| ()));
    let mut results = vec![];
    let mut keys = HashMap::new();
    let save = |results: &Vec<Value>, done: bool| {
        let j = json!({"results": results, "log": world().log, "done": done});
        let t = format!("{}.new", a[2]);
        std::fs::write(&t, j.to_string()).expect("report");
        std::fs::rename(&t, &a[2]).expect("report");
    };
    {
        let mut w = world();
        for t in plan["tokens"].as_array().expect("tokens") {
            w.toks.push(Tok {
                plug: t["plug"].as_u64().unwrap_or(0),
                unplug: t["unplug"].as_u64(),
                announced: false,
                cfg: t.clone(),
                creds: t["creds"].as_array().map(|v| v.iter().map(cred).collect()).unwrap_or_default(),
                counter: t["counter"].as_u64().unwrap_or(0) as u32,
                retries: t["retries"].as_i64().unwrap_or(8),
                wrong: 0,
                agree: None,
                pin_token: vec![],
                seen: BTreeMap::new(),
            });
        }
    }
    for (n, op) in plan["ops"].as_array().expect("ops").iter().enumerate() {
        {
            let mut w = world();
            w.op = n;
            w.start = Instant::now();
            w.toks.iter_mut().for_each(|t| t.announced = false);
            if let Some(e) = op["enrolResponse"].as_object() {
                w.toks.iter_mut().for_each(|t| t.cfg["enrol"] = Value::Object(e.clone()));
            }
        }
        save(&results, false);
        let t0 = Instant::now();
        let mut r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(op, &mut keys))) {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                json!({"panic": m})
            }
        };
        r["ms"] = json!(t0.elapsed().as_millis() as u64);
        results.push(r);
    }
    save(&results, true);
    // threads of the library may still be waiting
    unsafe { libc::_exit(0) };
}
