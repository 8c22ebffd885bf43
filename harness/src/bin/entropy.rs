//! Child process of the C24 monitor: makes certificates and keys under a controlled source of
//! randomness, with the process forked and, in some modes, the clock and the process id frozen.
//! usage: entropy <mode> <dir> <warm-up> <calls> <children> <seed>
use sshcerts::ssh::{CertType, Certificate, KeyTypeKind, PrivateKey, PrivateKeyKind, PublicKey};
use std::cell::Cell;
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};

const PASS: usize = 0;
const SHORT: usize = 1;
const FAIL: usize = 2;
const SOME: usize = 3;
const EINTR: usize = 4;
const NOSYS: usize = 5;
static MODE: AtomicUsize = AtomicUsize::new(PASS);
static FROZEN: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
static EVERY: AtomicU64 = AtomicU64::new(3);
thread_local! {
    static DRAWN: Cell<u64> = const { Cell::new(0) };
}

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn done(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn random(buf: i64, len: i64, flags: i64) -> i64 {
    let n = CALLS.fetch_add(1, SeqCst);
    let some = n % EVERY.load(SeqCst) == 0;
    let mut len = len;
    match MODE.load(SeqCst) {
        SHORT => len = len.min(1 + (n % 7) as i64),
        FAIL => return -(libc::EIO as i64),
        SOME if some => return -(libc::EIO as i64),
        EINTR if some => return -(libc::EINTR as i64),
        NOSYS => return -(libc::ENOSYS as i64),
        _ => (),
    }
    let r = raw(libc::SYS_getrandom, buf, len, flags, 0, 0, 0);
    if r > 0 {
        let _ = DRAWN.try_with(|d| d.set(d.get() + r as u64));
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom {
        return done(random(a, b, c));
    }
    if n == libc::SYS_getpid && FROZEN.load(SeqCst) != 0 {
        return 4242;
    }
    done(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    done(random(buf as i64, len as i64, flags as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: usize) -> i32 {
    let r = random(buf as i64, len as i64, 0);
    if r == len as i64 {
        0
    } else {
        *libc::__errno_location() = libc::EIO;
        -1
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut libc::timespec) -> i32 {
    if FROZEN.load(SeqCst) != 0 {
        (*t).tv_sec = 1_700_000_000;
        (*t).tv_nsec = 123_456_789;
        return 0;
    }
    done(raw(libc::SYS_clock_gettime, c as i64, t as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if FROZEN.load(SeqCst) != 0 {
        return 4242;
    }
    raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as i32
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn one(i: u64, keys: &[PublicKey]) -> String {
    let before = DRAWN.with(|d| d.get());
    let drawn = || DRAWN.with(|d| d.get()) - before;
    if i % 3 == 2 {
        match std::panic::catch_unwind(|| PrivateKey::new(KeyTypeKind::Ed25519, "c")) {
            Ok(Ok(k)) => match &k.kind {
                PrivateKeyKind::Ed25519(p) => format!("K {} {} {}", hex(&p.key[..32.min(p.key.len())]), hex(&k.magic.to_be_bytes()), drawn()),
                _ => "E".into(),
            },
            _ => "E".into(),
        }
    } else {
        let k = &keys[i as usize % keys.len()];
        let t = if i % 2 == 0 { CertType::User } else { CertType::Host };
        match std::panic::catch_unwind(|| Certificate::builder(k, t, &keys[0])) {
            Ok(Ok(c)) => format!("B {} {} {}", hex(&c.nonce), hex(&c.serial.to_be_bytes()), drawn()),
            _ => "E".into(),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (mode, dir, warm, calls, children, seed) = (a[1].as_str(), a[2].clone(), n(3), n(4), n(5), n(6));
    std::panic::set_hook(Box::new(|_| ()));
    let keys: Vec<PublicKey> = a[7..].iter().map(|l| PublicKey::from_string(l).expect("key")).collect();
    EVERY.store(2 + seed % 4, SeqCst);
    for i in 0..warm {
        one(i + seed, &keys);
    }
    // hash keys of this thread
    std::hint::black_box(std::collections::HashMap::<u8, u8>::new());
    MODE.store(
        match mode.trim_end_matches("-frozen") {
            "short" => SHORT,
            "fail" => FAIL,
            "some" => SOME,
            "eintr" => EINTR,
            "nosys" => NOSYS,
            _ => PASS,
        },
        SeqCst,
    );
    if mode.ends_with("-frozen") {
        FROZEN.store(1, SeqCst);
    }
    let mut pids = vec![];
    for c in 0..children {
        let p = unsafe { libc::fork() };
        if p == 0 {
            let mut out = String::new();
            for i in 0..calls {
                out += &one(i + seed, &keys);
                out.push('\n');
            }
            let ok = std::fs::File::create(format!("{}/{}", dir, c)).and_then(|mut f| f.write_all(out.as_bytes())).is_ok();
            unsafe { libc::_exit(if ok { 0 } else { 3 }) };
        }
        pids.push(p);
    }
    let mut bad = 0;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        if st != 0 {
            bad += 1;
        }
    }
    std::process::exit(if bad > 0 { 3 } else { 0 });
}
