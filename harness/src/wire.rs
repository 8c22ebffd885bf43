//! Independent SSH wire encoding (RFC 4251), written from the RFC, not from the crate.
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W {
        W(Vec::new())
    }
    pub fn u32(mut self, v: u32) -> W {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> W {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn raw(mut self, v: &[u8]) -> W {
        self.0.extend_from_slice(v);
        self
    }
    pub fn s(mut self, v: &[u8]) -> W {
        self.0.extend_from_slice(&(v.len() as u32).to_be_bytes());
        self.0.extend_from_slice(v);
        self
    }
    pub fn mpint(self, v: &[u8]) -> W {
        let b = mpint_body(v);
        self.s(&b)
    }
}

/// Minimal two's complement form of an unsigned big-endian integer.
pub fn mpint_body(v: &[u8]) -> Vec<u8> {
    let i = v.iter().position(|b| *b != 0).unwrap_or(v.len());
    let v = &v[i..];
    let mut out = Vec::new();
    if !v.is_empty() && v[0] >= 0x80 {
        out.push(0);
    }
    out.extend_from_slice(v);
    out
}

#[derive(Clone)]
pub struct R<'a> {
    pub d: &'a [u8],
    pub o: usize,
}
impl<'a> R<'a> {
    pub fn new(d: &'a [u8]) -> R<'a> {
        R { d, o: 0 }
    }
    pub fn left(&self) -> usize {
        self.d.len() - self.o
    }
    pub fn raw(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.left() < n {
            return None;
        }
        let r = &self.d[self.o..self.o + n];
        self.o += n;
        Some(r)
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.raw(4).map(|b| u32::from_be_bytes(b.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        self.raw(8).map(|b| u64::from_be_bytes(b.try_into().unwrap()))
    }
    pub fn s(&mut self) -> Option<&'a [u8]> {
        let o = self.o;
        let n = self.u32()? as usize;
        match self.raw(n) {
            Some(v) => Some(v),
            None => {
                self.o = o;
                None
            }
        }
    }
    /// Canonical non-negative mpint; returns the magnitude.
    pub fn mpint(&mut self) -> Option<&'a [u8]> {
        let b = self.s()?;
        if b.is_empty() {
            return Some(b);
        }
        if b[0] >= 0x80 {
            return None;
        }
        if b[0] == 0 {
            if b.len() == 1 || b[1] < 0x80 {
                return None;
            }
            return Some(&b[1..]);
        }
        Some(b)
    }
}

pub fn b64(d: &[u8]) -> String {
    base64::encode(d)
}
pub fn hex(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 2);
    for b in d {
        s.push_str(&format!("{:02x}", b));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// Hex, shortened for reports.
pub fn hexs(d: &[u8]) -> String {
    if d.len() <= 4096 {
        hex(d)
    } else {
        format!("{}..({} bytes)..{}", hex(&d[..1024]), d.len(), hex(&d[d.len() - 256..]))
    }
}
