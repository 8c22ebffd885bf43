//! C16: the wire reader and writer against a model of RFC 4251.
use crate::keys::*;
use crate::mon::{Case, Mon};
use crate::mutate::havoc;
use crate::refcert::{enc_list, enc_options};
use crate::rng::Rng;
use crate::wire::{hexs, mpint_body, W};
use serde_json::json;
use sshcerts::ssh::{PublicKey, Reader, Writer};

#[derive(Clone, Debug)]
enum Op {
    U32,
    U64,
    Bytes,
    Raw(usize),
    Str,
    Mpint,
    Cstr,
    Seek(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Val {
    U32(u32),
    U64(u64),
    B(Vec<u8>),
    S(String),
    Done,
}

/// What a read at `p` must do: Ok(value, new position); Err(positions allowed afterwards).
fn model(d: &[u8], p: usize, op: &Op) -> Result<(Val, usize), Vec<usize>> {
    let rest: &[u8] = d.get(p..).unwrap_or(&[]);
    let fail = || Err(vec![p]);
    let field = || -> Option<(&[u8], usize)> {
        let n = u32::from_be_bytes(rest.get(..4)?.try_into().ok()?) as usize;
        Some((rest.get(4..)?.get(..n)?, p + 4 + n))
    };
    match op {
        Op::U32 => match rest.get(..4) {
            Some(b) => Ok((Val::U32(u32::from_be_bytes(b.try_into().unwrap())), p + 4)),
            None => fail(),
        },
        Op::U64 => match rest.get(..8) {
            Some(b) => Ok((Val::U64(u64::from_be_bytes(b.try_into().unwrap())), p + 8)),
            None => fail(),
        },
        Op::Raw(n) => match rest.get(..*n) {
            Some(b) => Ok((Val::B(b.to_vec()), p + n)),
            None => fail(),
        },
        Op::Bytes => match field() {
            Some((b, q)) => Ok((Val::B(b.to_vec()), q)),
            None => fail(),
        },
        Op::Str => match field() {
            Some((b, q)) => match std::str::from_utf8(b) {
                Ok(s) => Ok((Val::S(s.into()), q)),
                Err(_) => Err(vec![p, q]),
            },
            None => fail(),
        },
        Op::Mpint => match field() {
            Some((b, q)) => {
                if b.is_empty() {
                    Ok((Val::B(vec![]), q))
                } else if b[0] >= 0x80 || (b[0] == 0 && (b.len() == 1 || b[1] < 0x80)) {
                    Err(vec![p, q])
                } else if b[0] == 0 {
                    Ok((Val::B(b[1..].to_vec()), q))
                } else {
                    Ok((Val::B(b.to_vec()), q))
                }
            }
            None => fail(),
        },
        Op::Cstr => match rest.iter().position(|b| *b == 0) {
            Some(n) => match std::str::from_utf8(&rest[..n]) {
                Ok(s) => Ok((Val::S(s.into()), p + n + 1)),
                Err(_) => Err(vec![p, p + n + 1]),
            },
            None => fail(),
        },
        Op::Seek(o) => Ok((Val::Done, *o)),
    }
}
fn real(r: &mut Reader<'_>, op: &Op) -> Option<Val> {
    match op {
        Op::U32 => r.read_u32().ok().map(Val::U32),
        Op::U64 => r.read_u64().ok().map(Val::U64),
        Op::Raw(n) => r.read_raw_bytes(*n).ok().map(Val::B),
        Op::Bytes => r.read_bytes().ok().map(Val::B),
        Op::Str => r.read_string().ok().map(Val::S),
        Op::Mpint => r.read_positive_mpint().ok().map(Val::B),
        Op::Cstr => r.read_cstring().ok().map(Val::S),
        Op::Seek(o) => r.set_offset(*o).ok().map(|_| Val::Done),
    }
}
/// Applies one operation to reader and model; Err describes a disagreement.
fn step(d: &[u8], r: &mut Reader<'_>, op: &Op) -> Result<&'static str, String> {
    let p = r.get_offset();
    let got = real(r, op);
    let q = r.get_offset();
    // a zero-length raw read at the very end, and positions beyond the end, may be refused
    let lenient = match op {
        Op::Raw(0) => p >= d.len(),
        Op::Seek(o) => *o > d.len(),
        _ => false,
    };
    match (model(d, p, op), got) {
        (Ok((v, n)), Some(g)) => {
            if v != g {
                Err(format!("{:?} at {} gives {:?} instead of {:?}", op, p, g, v))
            } else if q != n {
                Err(format!("{:?} at {} leaves the position at {} instead of {}", op, p, q, n))
            } else {
                Ok("read")
            }
        }
        (Ok(_), None) if lenient && q == p => Ok("refused"),
        (Ok((v, _)), None) => Err(format!("{:?} at {} refused (should give {:?})", op, p, v)),
        (Err(_), Some(_)) if matches!(op, Op::Raw(0)) && q == p => Ok("read"),
        (Err(_), Some(g)) => Err(format!("{:?} at {} gives {:?}, which is not there", op, p, g)),
        (Err(allowed), None) => {
            if allowed.contains(&q) {
                Ok("refused")
            } else {
                Err(format!("{:?} at {} failed and left the position at {}", op, p, q))
            }
        }
    }
}
fn rand_op(r: &mut Rng, len: usize, p: usize) -> Op {
    match r.below(14) {
        0 | 1 => Op::U32,
        2 => Op::U64,
        3 | 4 => Op::Bytes,
        5 | 6 => {
            let n = match r.below(8) {
                0 => 0,
                1 => usize::MAX,
                2 => usize::MAX - p.min(1 << 40),
                3 => len.wrapping_sub(p),
                4 => len.wrapping_sub(p).wrapping_add(1),
                5 => len,
                6 => u32::MAX as usize,
                _ => r.below(12),
            };
            // a huge read must be refused without being attempted
            Op::Raw(n)
        }
        7 => Op::Str,
        8 | 9 => Op::Mpint,
        10 => Op::Cstr,
        _ => Op::Seek(match r.below(6) {
            0 => 0,
            1 => len,
            2 => len + r.range(1, 10),
            3 => *r.pick(&[usize::MAX, usize::MAX - 3, usize::MAX - 4, u32::MAX as usize, 1 << 40]),
            _ => r.below(len + 1),
        }),
    }
}

/// A value to write, and what it must look like.
fn item(r: &mut Rng, w: &mut Writer, reference: W, log: &mut Vec<String>, expect: &mut Vec<(Op, Val)>) -> W {
    match r.below(11) {
        0 => {
            let v = r.val32();
            w.write_u32(v);
            log.push(format!("u32 {}", v));
            expect.push((Op::U32, Val::U32(v)));
            reference.u32(v)
        }
        1 => {
            let v = r.val64();
            w.write_u64(v);
            log.push(format!("u64 {}", v));
            expect.push((Op::U64, Val::U64(v)));
            reference.u64(v)
        }
        2 => {
            let v = r.blob(300);
            w.write_bytes(&v);
            log.push(format!("bytes {}", hexs(&v)));
            expect.push((Op::Bytes, Val::B(v.clone())));
            reference.s(&v)
        }
        3 => {
            let v = r.blob(100);
            w.write_raw_bytes(&v);
            log.push(format!("raw {}", hexs(&v)));
            if !v.is_empty() {
                expect.push((Op::Raw(v.len()), Val::B(v.clone())));
            }
            reference.raw(&v)
        }
        4 | 5 => {
            let v = r.text(80);
            w.write_string(&v);
            log.push(format!("string {:?}", v));
            expect.push((Op::Str, Val::S(v.clone())));
            reference.s(v.as_bytes())
        }
        6 => {
            let v = r.text(60).replace('\0', "n");
            w.write_cstring(&v);
            log.push(format!("cstring {:?}", v));
            expect.push((Op::Cstr, Val::S(v.clone())));
            reference.raw(v.as_bytes()).raw(&[0])
        }
        7 | 8 => {
            let mut v = match r.below(4) {
                0 => vec![],
                1 => r.bytes(1),
                2 => {
                    let n = r.range(1, 70);
                    r.bytes(n)
                }
                _ => {
                    let n = r.range(1, 4);
                    (0..n).map(|_| *r.pick(&[0, 1, 0x7f, 0x80, 0xff])).collect()
                }
            };
            let zeros = if r.chance(1, 10) { r.size(600) } else { r.below(3) };
            v.splice(0..0, vec![0; zeros]);
            w.write_mpint(&v);
            log.push(format!("mpint {}", hexs(&v)));
            let body: Vec<u8> = v.iter().copied().skip_while(|b| *b == 0).collect();
            expect.push((Op::Mpint, Val::B(body)));
            reference.s(&mpint_body(&v))
        }
        9 => {
            let n = r.below(6);
            let l: Vec<String> = (0..n).map(|_| r.text(30)).collect();
            w.write_string_vec(&l);
            log.push(format!("vec {:?}", l));
            let l: Vec<Vec<u8>> = l.into_iter().map(|s| s.into_bytes()).collect();
            let e = enc_list(&l);
            expect.push((Op::Bytes, Val::B(e.clone())));
            reference.s(&e)
        }
        _ => {
            if r.chance(1, 2) {
                let n = r.below(5);
                let m: std::collections::HashMap<String, String> = (0..n).map(|_| (r.text(20), if r.chance(1, 3) { String::new() } else { r.text(30) })).collect();
                w.write_string_map(&m);
                log.push(format!("map {:?}", m));
                let mut l: Vec<(Vec<u8>, Vec<u8>)> = m.into_iter().map(|(a, b)| (a.into_bytes(), b.into_bytes())).collect();
                l.sort();
                let e = enc_options(&l);
                expect.push((Op::Bytes, Val::B(e.clone())));
                reference.s(&e)
            } else {
                let kt = *r.pick(&[KT::Rsa, KT::P256, KT::P384, KT::P521, KT::Ed, KT::SkEd, KT::SkEc]);
                let k = Key::gen(r, kt);
                let pk = match PublicKey::from_bytes(&k.blob()) {
                    Ok(p) => p,
                    Err(_) => return reference,
                };
                log.push(format!("key {}", k.line()));
                if r.chance(1, 2) {
                    w.write_pub_key(&pk);
                    expect.push((Op::Bytes, Val::B(k.blob())));
                    reference.s(&k.blob())
                } else {
                    w.write_pub_key_data(&pk);
                    let f = k.pub_fields();
                    expect.push((Op::Raw(f.len()), Val::B(f.clone())));
                    reference.raw(&f)
                }
            }
        }
    }
}

pub fn c16(m: &'static Mon) {
    m.rule("one evaluation = one written sequence read back, or one read operation at one position of one buffer, compared with a model of RFC 4251; distinct = distinct sequences, buffers or (buffer, operation) batches");
    m.assume("a zero-length raw read at the end and a position beyond the end may be refused; after a value that fits but is badly encoded the position may be before or after it");
    m.section("write and read back", m.n(300000), |c| {
        let n = c.rng.range(1, 12);
        let (mut log, mut expect) = (vec![], vec![]);
        let mut rng = c.rng.clone();
        let out = c.call("Writer", || {
            let mut w = Writer::new();
            let mut reference = W::new();
            for _ in 0..n {
                reference = item(&mut rng, &mut w, reference, &mut log, &mut expect);
            }
            let a = w.as_bytes().to_vec();
            (a, w.into_bytes(), reference.0)
        });
        let (a, b, want) = match out {
            Ok(x) => x,
            Err(p) => return c.fail(format!("writing panicked: {}", p.0), json!({"ops": log})),
        };
        c.eval(&want);
        c.mon.event("written.values", n as u64);
        if a != want || b != want {
            return c.fail("written bytes differ from RFC 4251", json!({"ops": log, "got": hexs(&a), "into_bytes": hexs(&b), "want": hexs(&want)}));
        }
        read_back(c, &a, &expect, &log);
    });
    m.section("random reads", m.n(400000), |c| {
        // a buffer of plausible values, damaged, read in arbitrary order
        let mut rng = c.rng.clone();
        let mut d = vec![];
        let mut log = vec![];
        let _ = c.call("Writer", || {
            let mut w = Writer::new();
            let mut reference = W::new();
            let mut e = vec![];
            for _ in 0..rng.range(0, 5) {
                reference = item(&mut rng, &mut w, reference, &mut log, &mut e);
            }
            d = reference.0;
        });
        c.rng = rng;
        for _ in 0..c.rng.below(4) {
            havoc(&mut c.rng, &mut d);
        }
        if c.rng.chance(1, 4) {
            let n = c.rng.below(20);
            d = (0..n).map(|_| *c.rng.pick(&[0, 0, 0, 1, 2, 4, 0x41, 0x7f, 0x80, 0xc3, 0xff])).collect();
        }
        c.eval(&d);
        c.sample(|| json!({"buffer": hexs(&d)}));
        let mut rng = c.rng.clone();
        let mut trace: Vec<Op> = vec![];
        let out = c.call("Reader", || {
            let mut r = Reader::new(&d);
            let (mut ok, mut no) = (0u64, 0u64);
            for _ in 0..rng.range(5, 40) {
                let op = rand_op(&mut rng, d.len(), r.get_offset());
                trace.push(op.clone());
                match step(&d, &mut r, &op)? {
                    "read" => ok += 1,
                    _ => no += 1,
                }
            }
            Ok::<_, String>((ok, no))
        });
        match out {
            Ok(Ok((ok, no))) => {
                c.mon.event("random.reads", ok);
                c.mon.event("random.refused", no);
            }
            Ok(Err(e)) => c.fail(e, json!({"buffer": hexs(&d), "ops": format!("{:?}", trace)})),
            Err(p) => c.fail(format!("reading panicked: {}", p.0), json!({"buffer": hexs(&d), "ops": format!("{:?}", trace)})),
        }
    });
    // every buffer over a small alphabet, every operation at every position
    let alpha: [u8; 6] = [0, 1, 2, 0x7f, 0x80, 0xff];
    let max = if m.thorough { 9 } else { 8 };
    m.section("every small buffer", 36, |c| {
        let (a, b) = (alpha[c.idx as usize / 6], alpha[c.idx as usize % 6]);
        let mut bad = None;
        let mut count = 0u64;
        let mut bufs = 0u64;
        let _ = c.call("Reader", || {
            for n in 0..=(max - 2) {
                for x in 0..6usize.pow(n as u32) {
                    let mut d = vec![a, b];
                    let mut y = x;
                    for _ in 0..n {
                        d.push(alpha[y % 6]);
                        y /= 6;
                    }
                    bufs += 1;
                    for p in 0..=d.len() + 1 {
                        for op in [Op::U32, Op::U64, Op::Bytes, Op::Raw(0), Op::Raw(3), Op::Raw(d.len()), Op::Str, Op::Mpint, Op::Cstr] {
                            let mut r = Reader::new(&d);
                            if r.set_offset(p).is_err() {
                                continue;
                            }
                            count += 1;
                            if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&d, &mut r, &op))).unwrap_or_else(|_| Err(format!("{:?} at {} panicked", op, p))) {
                                bad = Some((e, d));
                                return;
                            }
                        }
                    }
                }
            }
        });
        c.eval(&[a, b]);
        c.mon.event("small.operations", count);
        c.mon.event("small.buffers", bufs);
        if let Some((e, d)) = bad {
            c.fail(e, json!({"buffer": hexs(&d)}));
        }
    });
    m.section("large values", m.n(10).min(20), |c| {
        // lengths that need every byte of the prefix
        let n = *c.rng.pick(&[255usize, 256, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
        let fill = c.rng.byte() | 1;
        let v = vec![fill; n];
        c.eval(&[&n.to_be_bytes()[..], &[fill]].concat());
        let out = c.call("Writer", || {
            let mut w = Writer::new();
            w.write_u32(7);
            w.write_bytes(&v);
            w.write_mpint(&v);
            w.write_u64(9);
            w.into_bytes()
        });
        let want = W::new().u32(7).s(&v).s(&mpint_body(&v)).u64(9).0;
        match out {
            Ok(d) if d == want => {
                let e = [(Op::U32, Val::U32(7)), (Op::Bytes, Val::B(v.clone())), (Op::Mpint, Val::B(v.clone())), (Op::U64, Val::U64(9))];
                read_back(c, &d, &e, &[]);
            }
            Ok(_) => c.fail("a large value is written differently from RFC 4251", json!({"length": n})),
            Err(p) => c.fail(format!("writing a large value panicked: {}", p.0), json!({"length": n})),
        }
    });
}

fn read_back(c: &mut Case<'_>, d: &[u8], expect: &[(Op, Val)], log: &[String]) {
    let brief = |s: String| s.chars().take(300).collect::<String>();
    let out = c.call("Reader", || {
        let mut r = Reader::new(d);
        let mut marks = vec![];
        for (op, v) in expect {
            marks.push(r.get_offset());
            step(d, &mut r, op)?;
            // the same read again after repositioning gives the same
            let at = *marks.last().unwrap();
            let end = r.get_offset();
            r.set_offset(at).map_err(|_| "repositioning inside the data refused".to_string())?;
            match real(&mut r, op) {
                Some(g) if g == *v => {}
                g => return Err(format!("{:?} at {} reads back {:?} instead of {:?}", op, at, g, v)),
            }
            if r.get_offset() != end {
                return Err(format!("{:?} at {} ends elsewhere when repeated", op, at));
            }
        }
        if r.get_offset() != d.len() {
            return Err(format!("all values read but the position is {} of {}", r.get_offset(), d.len()));
        }
        Ok(())
    });
    match out {
        Ok(Ok(())) => c.mon.event("read_back.values", expect.len() as u64),
        Ok(Err(e)) => c.fail(brief(e), json!({"ops": log, "bytes": brief(hexs(d))})),
        Err(p) => c.fail(format!("reading back panicked: {}", p.0), json!({"ops": log})),
    }
}
