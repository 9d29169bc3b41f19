//! Byte tape: every generated value is a function of a `Vec<u8>`.
//!
//! A tape is what the proptest strategy draws, what it shrinks, what libFuzzer
//! mutates and what a replay file stores. An exhausted tape reads as zeroes,
//! and zero always selects the simplest choice, so that both shortening the
//! tape and lowering its bytes simplify the generated case.

pub struct Tape<'a> {
    data: &'a [u8],
    pos: usize,
    /// 64-bit mixing state, so that long random payloads cost few tape bytes.
    pub used: usize,
    /// after the end, pseudo-random bytes instead of zeroes
    spill: Option<u64>,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Tape { data, pos: 0, used: 0, spill: None }
    }

    pub fn exhausted(&self) -> bool {
        self.pos >= self.data.len()
    }

    pub fn remaining(&self) -> usize {
        self.data.len().saturating_sub(self.pos)
    }

    pub fn u8(&mut self) -> u8 {
        let b = match (self.data.get(self.pos), &mut self.spill) {
            (Some(b), _) => *b,
            (None, None) => 0,
            (None, Some(s)) => step(s),
        };
        self.pos += 1;
        self.used += 1;
        b
    }

    /// From now on a long case does not run dry.
    pub fn spill(&mut self) {
        if self.spill.is_none() {
            self.spill = Some(hash_bytes(&[self.data]));
        }
    }

    /// True for about one in 256 * `n`; false when exhausted.
    pub fn rare(&mut self, n: usize) -> bool {
        self.data.get(self.pos).is_some() && self.u8() == 255 && self.below(n) + 1 == n
    }

    pub fn u16(&mut self) -> u16 {
        u16::from_le_bytes([self.u8(), self.u8()])
    }

    pub fn u32(&mut self) -> u32 {
        self.u16() as u32 | ((self.u16() as u32) << 16)
    }

    pub fn u64(&mut self) -> u64 {
        self.u32() as u64 | ((self.u32() as u64) << 32)
    }

    pub fn u128(&mut self) -> u128 {
        self.u64() as u128 | ((self.u64() as u128) << 64)
    }

    /// Uniform-ish number below `n`; 0 when the tape is exhausted.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if n <= 256 {
            (self.u8() as usize * n) >> 8
        } else {
            (self.u32() as u64 as u128 * n as u128 >> 32) as usize
        }
    }

    /// `lo..=hi`, `lo` when exhausted.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability about `p/256`; false when exhausted.
    pub fn chance(&mut self, p: u16) -> bool {
        (self.u8() as u16) >= 256 - p
    }

    /// Index drawn by weight; 0 when exhausted.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut x = (self.u16() as u64 * total as u64 >> 16) as u32;
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        weights.len() - 1
    }

    pub fn pick<'b, T>(&mut self, set: &'b [T]) -> &'b T {
        let i = self.below(set.len());
        &set[i]
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n <= 16 {
            (0..n).map(|_| self.u8()).collect()
        } else {
            // seed-expanded payload: 8 tape bytes drive the rest
            let mode = self.u8();
            let mut s = self.u64();
            if (16..72).contains(&mode) {
                return patterned(mode - 16, s, n);
            }
            (0..n)
                .map(|_| {
                    if mode < 16 {
                        0
                    } else if mode > 240 {
                        0xff
                    } else {
                        step(&mut s)
                    }
                })
                .collect()
        }
    }

    /// Small length: mostly 0..=4, sometimes up to `max`.
    pub fn small_len(&mut self, max: usize) -> usize {
        match self.weighted(&[2, 4, 3, 2, 2, 1]) {
            0 => 0,
            1 => 1.min(max),
            2 => 2.min(max),
            3 => 3.min(max),
            4 => self.below(8.min(max + 1)),
            _ => self.below(max + 1),
        }
    }

    /// Unsigned integer of `bits` bits with emphasis on boundaries.
    pub fn uint(&mut self, bits: u32) -> u128 {
        let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        match self.weighted(&[6, 6, 6, 2, 8, 4, 1]) {
            6 => crate::dict::number(self) & mask,
            0 => self.u8() as u128 & mask & 0x3f,
            1 => {
                // around a power of two
                let k = self.below(bits as usize + 1) as u32;
                let base = if k >= 128 { 0 } else { 1u128 << k };
                let d = self.below(5) as i128 - 2;
                base.wrapping_add(d as u128) & mask
            }
            2 => {
                // boundaries of the compact encoding
                let b = *self.pick(&[63u128, 64, 16383, 16384, (1 << 30) - 1, 1 << 30, 255, 256, 65535, 65536, 0xffff_ffff, 0x1_0000_0000]);
                b & mask
            }
            3 => mask,
            4 => {
                // random of random width
                let k = self.range(1, bits as usize) as u32;
                let m = if k == 128 { u128::MAX } else { (1u128 << k) - 1 };
                self.u128() & m & mask
            }
            _ => {
                // powers of ten
                let k = self.below(39) as u32;
                let p = 10u128.pow(k);
                if p > mask { p & mask } else { p }
            }
        }
    }

    /// Random unicode text, simple ascii when the tape is low.
    pub fn text(&mut self, max: usize) -> String {
        let n = self.small_len(max);
        let word = if n > 2 && self.chance(16) { crate::dict::text(self) } else { String::new() };
        // words of the code alone, or as a part of the text
        let at = match self.below(4) {
            _ if word.is_empty() => n,
            0 => return word,
            1 => 0,
            2 => n,
            _ => self.below(n),
        };
        let mut s = String::new();
        for i in 0..n {
            if i == at {
                s.push_str(&word);
            }
            s.push(self.ch());
        }
        if at == n {
            s.push_str(&word);
        }
        s
    }

    /// A length past what small counters and buffers hold.
    pub fn long(&mut self) -> usize {
        let around = *self.pick(&[256usize, 33, 64, 128, 300, 512, 1024, 1100, 2048, 4096, 8192, 10_000, 16_384, 65_536, 256, 1024]);
        around - 2 + self.below(5)
    }

    /// Unused bytes, 1 to `max` of them, seldom as many as small counters wrap at.
    pub fn tail(&mut self, max: usize) -> Vec<u8> {
        let n = match self.u8() {
            255 if self.below(6) == 5 => 65_535 + self.below(3),
            253..=255 => *self.pick(&[256usize, 255, 257, 512, 768, 1024, 256, 4096]),
            _ => self.range(1, max),
        };
        self.bytes(n)
    }

    /// A text of about `n` bytes.
    pub fn long_text(&mut self, n: usize) -> String {
        let kind = self.below(3);
        let mut s = String::with_capacity(n + 3);
        let unit: String = (0..self.range(1, 40)).map(|_| if kind == 0 { (b'a' + self.below(26) as u8) as char } else { self.ch() }).collect();
        while s.len() < n {
            match kind {
                // repeats, up to the last part of them
                1 => s.push_str(&unit),
                _ => {
                    s.push_str(&unit);
                    s.push_str(&(s.len() % 9973).to_string());
                }
            }
        }
        s
    }

    pub fn ch(&mut self) -> char {
        match self.weighted(&[10, 2, 2, 2, 1, 1]) {
            0 => (b'a' + self.below(26) as u8) as char,
            1 => *self.pick(&['\0', '\n', ' ', ':', '"', '\\', '\u{7f}', '~']),
            2 => *self.pick(&['é', 'ß', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '中', '😀']),
            3 => {
                let x = self.u32() % 0x110000;
                char::from_u32(x).unwrap_or('x')
            }
            4 => (self.u8() & 0x7f) as char,
            _ => *self.pick(ODD),
        }
    }
}

/// Characters that programs like to trim, join, fold or replace.
const ODD: &[char] = &[
    '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{200b}', '\u{200d}', '\u{200e}', '\u{202e}', '\u{2028}', '\u{2029}', '\u{85}', '\u{a0}', '\u{ad}', '\u{301}', '\u{212b}', '\u{130}', '\u{3000}', '\u{fb01}',
    '\u{fe0f}', '\u{e0041}', '\u{1b}', '\t', '\r', '0', '9', 'A', 'Z', '_', '-', '+', '.', ',', ';', '/', '%', '&', '<', '>', '{', '}', '[', ']', '(', ')', '`', '\'', '#', '=', '|', '\u{80}', '\u{ff}',
];

fn step(s: &mut u64) -> u8 {
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    (*s >> 33) as u8
}

/// Payloads that are not noise: a single bit or byte, small and negative
/// little- and big-endian numbers, the borders of signed numbers.
fn patterned(kind: u8, s: u64, n: usize) -> Vec<u8> {
    let mut out = vec![if kind & 8 == 0 { 0 } else { 0xff }; n];
    let at = (s >> 8) as usize % n;
    match kind & 7 {
        0 => out[at] ^= 1 << (s & 7),
        1 => out[at] = s as u8,
        2 => out[n - 1] ^= 0x80,
        3 => out[0] ^= 1 + (s & 3) as u8,
        4 => out[..8].copy_from_slice(&s.to_le_bytes()),
        5 => out[n - 8..].copy_from_slice(&s.to_be_bytes()),
        6 => {
            for b in &mut out[at..] {
                *b = !*b;
            }
        }
        _ => {
            let b = s as u8;
            out.iter_mut().enumerate().for_each(|(i, x)| *x = b.wrapping_add(if kind & 16 == 0 { i as u8 } else { 0 }));
        }
    }
    out
}

/// FNV-style mixing used for case identity.
pub fn hash_bytes(parts: &[&[u8]]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for p in parts {
        for b in p.iter() {
            h ^= *b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        h ^= 0xff;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
