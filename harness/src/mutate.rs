//! Random alterations of byte strings and texts.
use crate::rng::Rng;

pub fn havoc(r: &mut Rng, b: &mut Vec<u8>) {
    if b.is_empty() {
        *b = r.bytes(4);
        return;
    }
    let n = b.len();
    match r.below(12) {
        0 | 1 => {
            let i = r.below(n);
            b[i] ^= 1 << r.below(8);
        }
        2 => {
            let i = r.below(n);
            b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0x20, 0x30]);
        }
        3 => {
            let i = r.below(n);
            b.remove(i);
        }
        4 => {
            let i = r.below(n + 1);
            let x = r.byte();
            b.insert(i, x);
        }
        5 => {
            let i = r.below(n);
            b.truncate(i);
        }
        6 => {
            // duplicate a range
            let i = r.below(n);
            let l = r.range(1, (n - i).min(64));
            let part = b[i..i + l].to_vec();
            let at = r.below(n + 1);
            b.splice(at..at, part);
        }
        7 => {
            // remove a range
            let i = r.below(n);
            let l = r.range(1, (n - i).min(64));
            b.drain(i..i + l);
        }
        8 => {
            // a length-like word
            if n >= 4 {
                let i = r.below(n - 3);
                let v = match r.below(8) {
                    0 => 0u32,
                    1 => u32::MAX,
                    2 => 0x7fff_ffff,
                    3 => 0x8000_0000,
                    4 => n as u32,
                    5 => (n - i) as u32,
                    6 => u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]).wrapping_add(1),
                    _ => u32::from_be_bytes([b[i], b[i + 1], b[i + 2], b[i + 3]]).wrapping_sub(1),
                };
                b[i..i + 4].copy_from_slice(&v.to_be_bytes());
            }
        }
        9 => {
            // swap two ranges
            let i = r.below(n);
            let j = r.below(n);
            b.swap(i, j);
        }
        10 => {
            let l = r.range(1, 40);
            let x = r.bytes(l);
            let at = r.below(n + 1);
            b.splice(at..at, x);
        }
        _ => {
            let i = r.below(n);
            b[i] = b[i].wrapping_add(1);
        }
    }
}
