//! An emulated PC/SC service with PIV tokens behind it. The symbols below take the place of
//! libpcsclite's; each thread has a world of its own, whose log of commands the monitors read.
use crate::keys::*;
use crate::rng::Rng;
use openssl::ecdsa::EcdsaSig;
use openssl::symm::{Cipher, Crypter, Mode};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::os::raw::{c_char, c_long, c_ulong, c_void};

pub const ALG_RSA1024: u8 = 6;
pub const ALG_RSA2048: u8 = 7;
pub const ALG_P256: u8 = 0x11;
pub const ALG_P384: u8 = 0x14;

/// Certificate objects by key reference (NIST SP 800-73-4 part 1, table 3).
pub fn object_of(slot: u8) -> Option<u32> {
    Some(match slot {
        0x9a => 0x5fc105,
        0x9c => 0x5fc10a,
        0x9d => 0x5fc10b,
        0x9e => 0x5fc101,
        0x82..=0x95 => 0x5fc10d + (slot - 0x82) as u32,
        0xf9 => 0x5fff01,
        _ => return None,
    })
}

#[derive(Clone)]
pub struct SlotKey {
    pub key: Key,
    pub alg: u8,
    pub pin: u8,
    pub touch: u8,
    /// made by the GENERATE command with this number in the log
    pub made: Option<usize>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lie {
    None,
    OtherKey,
    OtherDigest,
    Swapped,
    Damaged,
    Shape(u8),
    /// honest, with a value that has leading zeros or its top bit set
    Short,
}

#[derive(Clone)]
pub struct Token {
    pub serial: u32,
    pub version: [u8; 3],
    pub plugged: bool,
    pub generation: u32,
    pub slots: BTreeMap<u8, SlotKey>,
    pub objects: BTreeMap<u32, Vec<u8>>,
    pub attest: BTreeMap<u8, Vec<u8>>,
    pub pin: Vec<u8>,
    pub tries: u8,
    pub pin_ok: bool,
    pub pin_fresh: bool,
    pub mgm: [u8; 24],
    pub mgm_ok: bool,
    pub select_resets: bool,
    pub lie: Lie,
    witness: Option<[u8; 8]>,
    chain: Vec<u8>,
    rest: Vec<u8>,
    applet: u8,
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub token: usize,
    pub ins: u8,
    pub p1: u8,
    pub p2: u8,
    pub data: Vec<u8>,
    pub sw: u16,
    pub reply: Vec<u8>,
    /// what the fault did to the reply
    pub faulted: bool,
}

#[derive(Clone, Debug)]
pub enum Fault {
    Sw(u16),
    Data(Vec<u8>),
    Cut(usize),
    Flip(usize),
    Transport(i64),
    Remove,
}

pub struct World {
    pub tokens: Vec<Token>,
    pub log: Vec<Rec>,
    /// fault, and the number of commands let through before it
    pub fault: Option<(usize, Fault)>,
    pub struck: bool,
    handles: Vec<(usize, u32)>,
    pub open_handles: i64,
    pub open_contexts: i64,
    rng: Rng,
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World {
        tokens: vec![], log: vec![], fault: None, struck: false, handles: vec![], open_handles: 0, open_contexts: 0, rng: Rng::new(0, "card", 0),
    });
}
pub fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}
pub fn fresh(tokens: Vec<Token>, rng: Rng) {
    world(|w| {
        w.tokens = tokens;
        w.log.clear();
        w.fault = None;
        w.struck = false;
        w.handles.clear();
        w.open_handles = 0;
        w.open_contexts = 0;
        w.rng = rng;
    })
}

fn tlv(tag: &[u8], v: &[u8]) -> Vec<u8> {
    let mut o = tag.to_vec();
    match v.len() {
        n if n < 0x80 => o.push(n as u8),
        n if n < 0x100 => o.extend([0x81, n as u8]),
        n => o.extend([0x82, (n >> 8) as u8, n as u8]),
    }
    o.extend(v);
    o
}
/// tag, value, rest
pub fn next_tlv(d: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let (&tag, d) = d.split_first()?;
    let (&l, d) = d.split_first()?;
    let (n, d) = match l {
        0..=0x7f => (l as usize, d),
        0x81 => (*d.first()? as usize, &d[1..]),
        0x82 if d.len() >= 2 => ((d[0] as usize) << 8 | d[1] as usize, &d[2..]),
        _ => return None,
    };
    if d.len() < n {
        return None;
    }
    Some((tag, &d[..n], &d[n..]))
}
fn find(d: &[u8], tag: u8) -> Option<&[u8]> {
    let mut d = d;
    while let Some((t, v, r)) = next_tlv(d) {
        if t == tag {
            return Some(v);
        }
        d = r;
    }
    None
}
pub fn des3(key: &[u8; 24], mode: Mode, b: &[u8]) -> Vec<u8> {
    let mut c = Crypter::new(Cipher::des_ede3_ecb(), mode, key, None).expect("3des");
    c.pad(false);
    let mut out = vec![0; b.len() + 8];
    let n = c.update(b, &mut out).expect("3des");
    out.truncate(n);
    out
}
/// The certificate stored for a slot, by the layout of SP 800-73-4 part 1, appendix A.
pub fn cert_in(object: &[u8]) -> Option<&[u8]> {
    match object.first() {
        Some(0x70) => next_tlv(object).map(|x| x.1),
        _ => None,
    }
}
/// Whether the stored object says that its certificate is compressed.
pub fn says_compressed(object: &[u8]) -> bool {
    let mut d = object;
    while let Some((t, v, rest)) = next_tlv(d) {
        if t == 0x71 {
            return v.iter().any(|b| b & 3 != 0);
        }
        d = rest;
    }
    false
}
pub fn cert_object(der: &[u8]) -> Vec<u8> {
    let mut o = tlv(&[0x70], der);
    o.extend([0x71, 1, 0, 0xfe, 0]);
    o
}
pub fn alg_of(kt: KT) -> u8 {
    match kt {
        KT::P256 => ALG_P256,
        KT::P384 => ALG_P384,
        _ => ALG_RSA2048,
    }
}

impl Token {
    pub fn new(r: &mut Rng) -> Token {
        let mut mgm = [0u8; 24];
        mgm.copy_from_slice(&r.bytes(24));
        let n = r.range(6, 8);
        let pin = (0..n).map(|_| if r.chance(9, 10) { b'0' + r.below(10) as u8 } else { r.byte() & 0x7f }).collect();
        Token {
            serial: r.val32(),
            version: *r.pick(&[[5, 4, 3], [5, 2, 7], [5, 7, 1], [4, 3, 7], [4, 4, 5]]),
            plugged: true,
            generation: 0,
            slots: BTreeMap::new(),
            objects: BTreeMap::new(),
            attest: BTreeMap::new(),
            pin,
            tries: 3,
            pin_ok: false,
            pin_fresh: false,
            mgm,
            mgm_ok: false,
            select_resets: r.chance(1, 2),
            lie: Lie::None,
            witness: None,
            chain: vec![],
            rest: vec![],
            applet: 0,
        }
    }
    pub fn selected(&self) -> bool {
        self.applet == 1
    }
    pub fn reset(&mut self) {
        self.pin_ok = false;
        self.pin_fresh = false;
        self.mgm_ok = false;
        self.witness = None;
        self.chain.clear();
        self.rest.clear();
        self.applet = 0;
    }
    /// 1 never, 2 once, 3 always
    pub fn pin_rule(slot: u8, policy: u8) -> u8 {
        match (policy, slot) {
            (0, 0x9c) => 3,
            (0, 0x9e) => 1,
            (0, 0xf9) => 1,
            (0, _) => 2,
            (p, _) => p,
        }
    }
    pub fn may_sign(&self, slot: u8) -> bool {
        match self.slots.get(&slot) {
            Some(k) => match Token::pin_rule(slot, k.pin) {
                1 => true,
                2 => self.pin_ok,
                _ => self.pin_ok && self.pin_fresh,
            },
            None => false,
        }
    }
    fn sign(&mut self, slot: u8, alg: u8, digest: &[u8], r: &mut Rng) -> Result<Vec<u8>, u16> {
        let k = self.slots.get(&slot).ok_or(0x6a80u16)?.clone();
        if k.alg != alg {
            return Err(0x6a80);
        }
        if !self.may_sign(slot) {
            return Err(0x6982);
        }
        self.pin_fresh = false;
        if !matches!(alg, ALG_P256 | ALG_P384) {
            if digest.len() != if alg == ALG_RSA1024 { 128 } else { 256 } {
                return Err(0x6700);
            }
            let rsa = k.key.rsa_key();
            let mut out = vec![0; rsa.size() as usize];
            let n = rsa.private_encrypt(digest, &mut out, openssl::rsa::Padding::NONE).map_err(|_| 0x6f00u16)?;
            out.truncate(n);
            return Ok(out);
        }
        if digest.len() > k.key.kt.field() {
            return Err(0x6700);
        }
        let ec = k.key.pkey.ec_key().expect("ec");
        let plain = |d: &[u8]| EcdsaSig::sign(d, &ec).expect("sign");
        let mut other = digest.to_vec();
        other[0] ^= 1;
        Ok(match self.lie {
            Lie::None => plain(digest).to_der().unwrap(),
            Lie::Short => {
                let mut s = plain(digest);
                for _ in 0..if alg == ALG_P256 { 600 } else { 120 } {
                    let f = k.key.kt.field() as i32;
                    if s.r().num_bytes() < f || s.s().num_bytes() < f {
                        break;
                    }
                    s = plain(digest);
                }
                s.to_der().unwrap()
            }
            Lie::OtherKey => {
                let o = Key::gen(r, k.key.kt).pkey.ec_key().unwrap();
                EcdsaSig::sign(digest, &o).unwrap().to_der().unwrap()
            }
            Lie::OtherDigest => plain(&other).to_der().unwrap(),
            Lie::Swapped => {
                let s = plain(digest);
                EcdsaSig::from_private_components(s.s().to_owned().unwrap(), s.r().to_owned().unwrap()).unwrap().to_der().unwrap()
            }
            Lie::Damaged => {
                let mut d = plain(digest).to_der().unwrap();
                let i = r.below(d.len());
                d[i] ^= 1 << r.below(8);
                d
            }
            Lie::Shape(n) => {
                let s = plain(digest);
                let (a, b) = (s.r().to_vec(), s.s().to_vec());
                let f = k.key.kt.field();
                match n % 8 {
                    0 => vec![],
                    1 => [vec![0; f - a.len()], a, vec![0; f - b.len()], b].concat(),
                    2 => crate::der::seq(&[&crate::der::int(&a)]),
                    3 => crate::der::seq(&[&crate::der::int(&[0]), &crate::der::int(&[0])]),
                    4 => crate::der::seq(&[&crate::der::int(&vec![0x7f; f + 1]), &crate::der::int(&b)]),
                    5 => {
                        let n = r.below(120);
                        r.bytes(n)
                    }
                    6 => crate::der::seq(&[&crate::der::octets(&a), &crate::der::octets(&b)]),
                    _ => {
                        let d = s.to_der().unwrap();
                        let n = r.below(d.len());
                        d[..n].to_vec()
                    }
                }
            }
        })
    }
    fn run(&mut self, ins: u8, p1: u8, p2: u8, data: &[u8], n: usize, r: &mut Rng) -> Result<Vec<u8>, u16> {
        match ins {
            0xa4 => {
                if data.starts_with(&[0xa0, 0, 0, 3, 8]) {
                    self.applet = 1;
                    if self.select_resets {
                        self.pin_ok = false;
                        self.pin_fresh = false;
                        self.mgm_ok = false;
                    }
                    return Ok(vec![0x61, 0x11, 0x4f, 6, 0, 0, 0x10, 0, 1, 0, 0x79, 7, 0x4f, 5, 0xa0, 0, 0, 3, 8]);
                }
                // any other applet ends the session
                self.reset();
                self.applet = if data == [0xa0, 0, 0, 5, 0x27, 0x20, 1, 1] { 2 } else { 3 };
                Ok(vec![])
            }
            0x01 if self.applet == 2 && p1 == 0x10 => Ok(self.serial.to_be_bytes().to_vec()),
            _ if self.applet != 1 => Err(0x6d00),
            0xfd => Ok(self.version.to_vec()),
            0xf8 if self.version[0] >= 5 => Ok(self.serial.to_be_bytes().to_vec()),
            0xcb => {
                let id = match next_tlv(data) {
                    Some((0x5c, v, [])) => v.iter().fold(0u32, |a, b| a << 8 | *b as u32),
                    _ => return Err(0x6a80),
                };
                match self.objects.get(&id) {
                    Some(o) => Ok(tlv(&[0x53], o)),
                    None => Err(0x6a82),
                }
            }
            0xdb => {
                if !self.mgm_ok {
                    return Err(0x6982);
                }
                let (id, rest) = match next_tlv(data) {
                    Some((0x5c, v, rest)) => (v.iter().fold(0u32, |a, b| a << 8 | *b as u32), rest),
                    _ => return Err(0x6a80),
                };
                match next_tlv(rest) {
                    Some((0x53, [], [])) => {
                        self.objects.remove(&id);
                    }
                    Some((0x53, v, [])) => {
                        self.objects.insert(id, v.to_vec());
                    }
                    _ => return Err(0x6a80),
                }
                Ok(vec![])
            }
            0x20 => {
                if p2 != 0x80 {
                    return Err(0x6a88);
                }
                if data.is_empty() {
                    return if self.pin_ok { Ok(vec![]) } else { Err(0x63c0 | self.tries as u16) };
                }
                if self.tries == 0 {
                    return Err(0x6983);
                }
                let mut want = [0xff; 8];
                want[..self.pin.len()].copy_from_slice(&self.pin);
                if data == want {
                    self.tries = 3;
                    self.pin_ok = true;
                    self.pin_fresh = true;
                    Ok(vec![])
                } else {
                    self.tries -= 1;
                    self.pin_ok = false;
                    self.pin_fresh = false;
                    Err(if self.tries == 0 { 0x6983 } else { 0x63c0 | self.tries as u16 })
                }
            }
            0x87 if p2 == 0x9b => {
                if p1 != 3 && p1 != 0 {
                    return Err(0x6a86);
                }
                let body = match next_tlv(data) {
                    Some((0x7c, b, _)) => b,
                    _ => return Err(0x6a80),
                };
                match (find(body, 0x80), find(body, 0x81)) {
                    (Some([]), None) => {
                        let mut w = [0; 8];
                        w.copy_from_slice(&r.bytes(8));
                        self.witness = Some(w);
                        self.mgm_ok = false;
                        Ok(tlv(&[0x7c], &tlv(&[0x80], &des3(&self.mgm, Mode::Encrypt, &w))))
                    }
                    (Some(got), Some(ch)) if got.len() == 8 && ch.len() == 8 => match self.witness.take() {
                        Some(w) if w == got => {
                            self.mgm_ok = true;
                            Ok(tlv(&[0x7c], &tlv(&[0x82], &des3(&self.mgm, Mode::Encrypt, ch))))
                        }
                        _ => Err(0x6982),
                    },
                    _ => Err(0x6a80),
                }
            }
            0x87 => {
                let body = match next_tlv(data) {
                    Some((0x7c, b, [])) => b,
                    _ => return Err(0x6a80),
                };
                match (find(body, 0x82), find(body, 0x81)) {
                    (Some([]), Some(d)) => {
                        let d = d.to_vec();
                        let s = self.sign(p2, p1, &d, r)?;
                        Ok(tlv(&[0x7c], &tlv(&[0x82], &s)))
                    }
                    _ => Err(0x6a80),
                }
            }
            0x47 => {
                if !self.mgm_ok {
                    return Err(0x6982);
                }
                if object_of(p2).is_none() {
                    return Err(0x6b00);
                }
                let body = match next_tlv(data) {
                    Some((0xac, b, [])) => b,
                    _ => return Err(0x6a80),
                };
                let alg = match find(body, 0x80) {
                    Some([a]) => *a,
                    _ => return Err(0x6a80),
                };
                let one = |t| match find(body, t) {
                    None => Ok(0),
                    Some([v @ 1..=3]) => Ok(*v),
                    _ => Err(0x6a80u16),
                };
                let (pin, touch) = (one(0xaa)?, one(0xab)?);
                let (key, reply) = match alg {
                    ALG_P256 | ALG_P384 => {
                        let k = Key::gen(r, if alg == ALG_P256 { KT::P256 } else { KT::P384 });
                        let b = tlv(&[0x86], &k.public);
                        (k, tlv(&[0x7f, 0x49], &b))
                    }
                    ALG_RSA2048 => {
                        let k = rsa_2048(r);
                        let rsa = k.rsa_key();
                        let b = [tlv(&[0x81], &rsa.n().to_vec()), tlv(&[0x82], &rsa.e().to_vec())].concat();
                        (k, tlv(&[0x7f, 0x49], &b))
                    }
                    _ => return Err(0x6a80),
                };
                self.slots.insert(p2, SlotKey { key, alg, pin, touch, made: Some(n) });
                self.attest.remove(&p2);
                Ok(reply)
            }
            0xf9 => match self.attest.get(&p1) {
                Some(a) => Ok(a.clone()),
                None => Err(0x6a80),
            },
            _ => Err(0x6d00),
        }
    }
}

/// A 2048-bit RSA key from the pool.
pub fn rsa_2048(r: &mut Rng) -> Key {
    Key::rsa(r.below(3))
}

const NOT_THERE: c_long = 0x8010_0017;
const REMOVED: c_long = 0x8010_0069;

impl World {
    fn token_of(&self, h: c_long) -> Result<usize, c_long> {
        match self.handles.get((h - 1) as usize) {
            Some(&(t, g)) => match self.tokens.get(t) {
                Some(x) if x.plugged && x.generation == g => Ok(t),
                _ => Err(REMOVED),
            },
            None => Err(0x8010_0003),
        }
    }
    fn transmit(&mut self, h: c_long, apdu: &[u8]) -> Result<Vec<u8>, c_long> {
        let t = self.token_of(h)?;
        if apdu.len() < 4 {
            return Err(0x8010_0004);
        }
        let (cla, ins, p1, p2) = (apdu[0], apdu[1], apdu[2], apdu[3]);
        let data = match apdu.len() {
            4 | 5 => &[][..],
            n if n == 5 + apdu[4] as usize || n == 6 + apdu[4] as usize => &apdu[5..5 + apdu[4] as usize],
            _ => return Ok(vec![0x67, 0]),
        };
        let tok = &mut self.tokens[t];
        let send = |tok: &mut Token, d: Vec<u8>, sw: u16| -> Vec<u8> {
            let mut d = d;
            if sw == 0x9000 && d.len() > 256 {
                tok.rest = d.split_off(256);
                d.extend([0x61, tok.rest.len().min(255) as u8]);
                if tok.rest.len() >= 256 {
                    *d.last_mut().unwrap() = 0;
                }
                d
            } else {
                d.extend(sw.to_be_bytes());
                d
            }
        };
        if ins == 0xc0 {
            let d = std::mem::take(&mut tok.rest);
            return Ok(send(tok, d, 0x9000));
        }
        tok.rest.clear();
        tok.chain.extend_from_slice(data);
        if cla == 0x10 {
            return Ok(vec![0x90, 0]);
        }
        let data = std::mem::take(&mut tok.chain);
        let n = self.log.len();
        let strike = match &mut self.fault {
            Some((0, _)) => self.fault.take().map(|x| x.1),
            Some((k, _)) => {
                *k -= 1;
                None
            }
            None => None,
        };
        let rec = |sw, reply: Vec<u8>, faulted| Rec { token: t, ins, p1, p2, data: data.clone(), sw, reply, faulted };
        match strike {
            // refused or lost before anything was done
            Some(Fault::Sw(sw)) => {
                self.struck = true;
                self.log.push(rec(sw, vec![], true));
                return Ok(sw.to_be_bytes().to_vec());
            }
            Some(Fault::Remove) => {
                self.struck = true;
                tok.plugged = false;
                tok.generation += 1;
                tok.reset();
                self.log.push(rec(0, vec![], true));
                return Err(REMOVED);
            }
            strike => {
                let (mut d, sw) = match tok.run(ins, p1, p2, &data, n, &mut self.rng) {
                    Ok(d) => (d, 0x9000),
                    Err(sw) => (vec![], sw),
                };
                let faulted = strike.is_some();
                match strike {
                    Some(Fault::Transport(e)) => {
                        // done, but the answer is lost
                        self.struck = true;
                        self.log.push(rec(0, d, true));
                        return Err(e as c_long);
                    }
                    Some(Fault::Data(x)) => d = x,
                    Some(Fault::Cut(n)) => d.truncate(n.min(d.len().saturating_sub(1))),
                    Some(Fault::Flip(i)) if !d.is_empty() => {
                        let j = i / 8 % d.len();
                        d[j] ^= 1 << (i % 8);
                    }
                    _ => (),
                }
                if faulted {
                    self.struck = true;
                }
                self.log.push(rec(sw, d.clone(), faulted));
                Ok(send(tok, d, sw))
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn SCardEstablishContext(_s: c_ulong, _a: *const c_void, _b: *const c_void, out: *mut c_long) -> c_long {
    world(|w| w.open_contexts += 1);
    *out = 7;
    0
}
#[no_mangle]
pub unsafe extern "C" fn SCardReleaseContext(_c: c_long) -> c_long {
    world(|w| w.open_contexts -= 1);
    0
}
#[no_mangle]
pub unsafe extern "C" fn SCardIsValidContext(_c: c_long) -> c_long {
    0
}
#[no_mangle]
pub unsafe extern "C" fn SCardListReaders(_c: c_long, _g: *const c_char, out: *mut c_char, len: *mut c_ulong) -> c_long {
    world(|w| {
        let mut names = vec![];
        for (i, t) in w.tokens.iter().enumerate() {
            if t.plugged {
                names.extend(format!("Emulated {}\0", i).bytes());
            }
        }
        if names.is_empty() {
            return 0x8010_002E;
        }
        names.push(0);
        let room = *len as usize;
        *len = names.len() as c_ulong;
        if !out.is_null() {
            if room < names.len() {
                return 0x8010_0008;
            }
            std::ptr::copy_nonoverlapping(names.as_ptr(), out as *mut u8, names.len());
        }
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardConnect(_c: c_long, name: *const c_char, _m: c_ulong, _p: c_ulong, out: *mut c_long, proto: *mut c_ulong) -> c_long {
    let name = std::ffi::CStr::from_ptr(name).to_string_lossy().into_owned();
    world(|w| {
        let i: usize = match name.strip_prefix("Emulated ").and_then(|x| x.parse().ok()) {
            Some(i) => i,
            None => return 0x8010_0009,
        };
        match w.tokens.get(i) {
            Some(t) if t.plugged => {
                let g = t.generation;
                w.handles.push((i, g));
                w.open_handles += 1;
                *out = w.handles.len() as c_long;
                *proto = 2;
                0
            }
            _ => NOT_THERE,
        }
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardReconnect(h: c_long, _m: c_ulong, _p: c_ulong, init: c_ulong, proto: *mut c_ulong) -> c_long {
    world(|w| match w.token_of(h) {
        Ok(t) => {
            if init != 0 {
                w.tokens[t].reset();
            }
            *proto = 2;
            0
        }
        Err(_) => NOT_THERE,
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardDisconnect(_h: c_long, _d: c_ulong) -> c_long {
    world(|w| w.open_handles -= 1);
    0
}
#[no_mangle]
pub unsafe extern "C" fn SCardBeginTransaction(h: c_long) -> c_long {
    world(|w| w.token_of(h).err().unwrap_or(0))
}
#[no_mangle]
pub unsafe extern "C" fn SCardEndTransaction(_h: c_long, _d: c_ulong) -> c_long {
    0
}
#[no_mangle]
pub unsafe extern "C" fn SCardTransmit(h: c_long, _s: *const c_void, send: *const u8, n: c_ulong, _r: *mut c_void, out: *mut u8, len: *mut c_ulong) -> c_long {
    let apdu = std::slice::from_raw_parts(send, n as usize);
    let r = world(|w| w.transmit(h, apdu));
    match r {
        Ok(d) => {
            if d.len() > *len as usize {
                return 0x8010_0008;
            }
            std::ptr::copy_nonoverlapping(d.as_ptr(), out, d.len());
            *len = d.len() as c_ulong;
            0
        }
        Err(e) => e,
    }
}
