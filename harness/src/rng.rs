//! Deterministic random numbers and boundary-biased value generators.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Lengths around which encoders and decoders like to go wrong.
pub const SIZES: [usize; 34] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 200,
    255, 256, 257, 511, 512, 1000, 1023, 1024, 1025,
];
pub const BIG_SIZES: [usize; 12] = [
    2047, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32767, 32768, 65535, 65536,
];

impl Rng {
    pub fn new(seed: u64, tag: &str, idx: u64) -> Rng {
        let mut x = seed ^ fnv(tag.as_bytes()).rotate_left(17) ^ idx.wrapping_mul(0xD1342543DE82EF95);
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// Boundary-biased length, at most max.
    pub fn size(&mut self, max: usize) -> usize {
        let n = match self.below(10) {
            0..=4 => self.below(24),
            5..=7 => *self.pick(&SIZES),
            8 => self.below(600),
            _ => {
                if self.chance(1, 4) {
                    *self.pick(&BIG_SIZES)
                } else {
                    *self.pick(&SIZES)
                }
            }
        };
        n.min(max)
    }
    /// Boundary-biased 64-bit value.
    pub fn val64(&mut self) -> u64 {
        match self.below(12) {
            0 => 0,
            1 => u64::MAX,
            2 => 1,
            3 => u64::MAX - 1,
            4 => 1u64 << self.below(64),
            5 => (1u64 << self.below(64)).wrapping_sub(1),
            6 => self.below(256) as u64,
            7 => 0x8000_0000_0000_0000,
            8 => 1_700_000_000 + self.below(100_000_000) as u64,
            9 => self.u64() & 0xffff_ffff,
            _ => self.u64(),
        }
    }
    pub fn val32(&mut self) -> u32 {
        match self.below(10) {
            0 => 0,
            1 => u32::MAX,
            2 => 1,
            3 => 1u32 << self.below(32),
            4 => (1u32 << self.below(32)).wrapping_sub(1),
            5 => self.below(256) as u32,
            6 => 0x8000_0000,
            _ => self.u64() as u32,
        }
    }
    /// A byte string of boundary-biased length with varied content.
    pub fn blob(&mut self, max: usize) -> Vec<u8> {
        let n = self.size(max);
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => (0..n).map(|i| i as u8).collect(),
            3 => vec![b'A'; n],
            _ => self.bytes(n),
        }
    }
    /// A text without restrictions other than being UTF-8.
    pub fn text(&mut self, max: usize) -> String {
        let n = self.size(max);
        let class = self.below(10);
        let mut s = String::new();
        while s.len() < n {
            let c = match class {
                0 | 1 | 2 => char::from(b'a' + self.below(26) as u8),
                3 => char::from(0x20 + self.below(95) as u8),
                4 => *self.pick(&['é', 'ß', '中', '😀', 'a', '\u{0}', 'ÿ', 'Ω', '\u{202e}', '\u{fffd}', 'ｚ', '\u{10ffff}']),
                5 => *self.pick(&[' ', '\t', '\n', '\r', 'a', '"', ',', '=', '#', '\\', '\'']),
                6 => char::from(self.below(128) as u8),
                7 => 'A',
                // characters that some transformation of text removes, folds or takes for a blank
                8 => *self.pick(&[
                    'a', ' ', '\u{a0}', '\u{85}', '\u{ad}', '\u{feff}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{3000}', 'e', '\u{301}', 'é', 'ﬁ', 'İ', 'ı', '\u{212a}', 'ẞ', 'ſ', '\u{d7ff}', '\u{e000}', '\u{ffff}',
                    '\u{10000}', 'Ａ', '\u{7f}', '\u{1b}', '\u{80}', '\u{7ff}', '\u{800}',
                ]),
                _ => *self.pick(&['a', 'b', '@', '.', '-', '_', '0', '9', 'Z', '/', '*']),
            };
            s.push(c);
        }
        while s.len() > max {
            s.pop();
        }
        s
    }
    /// A word of printable ASCII without blanks, quotes, commas, '#', '='.
    pub fn word(&mut self, max: usize) -> String {
        let n = self.range(1, max.max(1));
        const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789@._-+/:*!?";
        (0..n).map(|_| char::from(*self.pick(A))).collect()
    }
}
