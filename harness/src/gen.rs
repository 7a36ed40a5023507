//! Seeded generation of inputs.
pub struct Rng(u64, u32);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03, 0);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    /// now and then a trace is allowed to grow a few things large
    pub fn roll(&mut self) -> bool {
        self.1 = if self.chance(1, 12) { 1 + self.below(3) as u32 } else { 0 };
        self.1 > 0
    }
    /// a count: small, or large while the allowance lasts
    pub fn count(&mut self, small: &[usize], large: &[usize]) -> usize {
        if self.1 > 0 && self.chance(1, 3) {
            self.1 -= 1;
            return *self.pick(large);
        }
        *self.pick(small)
    }
    pub fn pick<'a, T>(&mut self, a: &'a [T]) -> &'a T {
        let i = self.below(a.len());
        &a[i]
    }
}

pub fn ws(r: &mut Rng, out: &mut Vec<u8>) {
    if r.chance(1, 4) {
        for _ in 0..r.count(&[1, 2], &[9, 17, 40]) {
            out.push(*r.pick(b" \t\n\r"));
        }
    }
}

pub fn scalar(r: &mut Rng) -> char {
    loop {
        let c = match r.below(9) {
            0 => r.below(0x20) as u32,
            1 | 2 => 0x20 + r.below(0x60) as u32,
            3 => 0x7f + r.below(0x82) as u32,
            4 => 0x100 + r.below(0x700) as u32,
            5 => 0x800 + r.below(0xf800) as u32,
            6 => 0x10000 + r.below(0x100000) as u32,
            7 => *r.pick(&[0x22, 0x5c, 0x2f, 8, 7, 12, 10, 13, 9, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800]),
            _ => *r.pick(&[0xffff, 0xfffd, 0xd7ff, 0xe000, 0x10000, 0x10ffff, 0x1ffff, 0x20000, 0xfeff, 0x2028, 0]),
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

fn hex4(r: &mut Rng, v: u32, out: &mut Vec<u8>) {
    for k in (0..4).rev() {
        let d = ((v >> (4 * k)) & 15) as usize;
        out.push(if r.chance(1, 2) { b"0123456789abcdef"[d] } else { b"0123456789ABCDEF"[d] });
    }
}

/// the body of a string literal
pub fn body(r: &mut Rng, len: usize, out: &mut Vec<u8>) {
    for _ in 0..len {
        match r.below(10) {
            0 | 1 => {
                out.push(b'\\');
                out.push(*r.pick(b"\"\\/bfnrt"));
            }
            2 => {
                let c = scalar(r) as u32;
                if c > 0xffff {
                    let v = c - 0x10000;
                    out.extend_from_slice(b"\\u");
                    hex4(r, 0xd800 + (v >> 10), out);
                    out.extend_from_slice(b"\\u");
                    hex4(r, 0xdc00 + (v & 0x3ff), out);
                } else {
                    out.extend_from_slice(b"\\u");
                    hex4(r, c, out);
                }
            }
            3 => out.push(*r.pick(b"abcxyz01")),
            4 => out.extend_from_slice(*r.pick(&[&b"u0041"[..], b"n", b"ud83d", b"0", b"/", b"\x7f"])),
            _ => {
                let c = scalar(r);
                if (c as u32) < 0x20 || c == '"' || c == '\\' {
                    out.push(b'\\');
                    out.push(*r.pick(b"\"\\n"));
                } else {
                    let mut b = [0; 4];
                    out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
                }
            }
        }
    }
}

pub fn string(r: &mut Rng, out: &mut Vec<u8>) {
    out.push(b'"');
    let n = r.count(&[0, 1, 1, 2, 3, 5], &[15, 16, 17, 33, 64, 100]);
    if r.chance(1, 3) {
        for _ in 0..n {
            out.push(*r.pick(b"abk"));
        }
    } else {
        body(r, n, out);
    }
    out.push(b'"');
}

pub fn digits(r: &mut Rng, n: usize, out: &mut Vec<u8>) {
    for _ in 0..n {
        out.push(*r.pick(b"0123456789"));
    }
}

pub fn number(r: &mut Rng, out: &mut Vec<u8>) {
    if r.chance(1, 3) {
        out.push(b'-');
    }
    if r.chance(1, 4) {
        out.push(b'0');
    } else {
        out.push(*r.pick(b"123456789"));
        let n = r.count(&[0, 0, 1, 2, 5, 19], &[16, 20, 40, 130]);
        digits(r, n, out);
    }
    if r.chance(1, 3) {
        out.push(b'.');
        let n = r.count(&[1, 2, 3], &[9, 20, 60]);
        digits(r, n, out);
    }
    if r.chance(1, 3) {
        out.push(*r.pick(b"eE"));
        if r.chance(1, 2) {
            out.push(*r.pick(b"+-"));
        }
        let n = r.count(&[1, 2], &[5, 12]);
        digits(r, n, out);
    }
}

pub fn value(r: &mut Rng, depth: usize, tc: bool, out: &mut Vec<u8>) {
    ws(r, out);
    let k = if depth == 0 { r.below(5) } else { r.below(9) };
    match k {
        0 => out.extend_from_slice(b"null"),
        1 => out.extend_from_slice(if r.chance(1, 2) { b"true" } else { b"false" }),
        2 => number(r, out),
        3 | 4 => string(r, out),
        5 | 6 => {
            out.push(b'[');
            let n = r.count(&[0, 1, 1, 2, 3], &[8, 9, 16, 17, 33]);
            for i in 0..n {
                value(r, depth - 1, tc, out);
                if i + 1 < n || (tc && r.chance(1, 4)) {
                    out.push(b',');
                }
            }
            ws(r, out);
            out.push(b']');
        }
        _ => {
            out.push(b'{');
            let n = r.count(&[0, 1, 1, 2, 3], &[8, 9, 16, 17, 33]);
            for i in 0..n {
                ws(r, out);
                string(r, out);
                ws(r, out);
                out.push(b':');
                value(r, depth - 1, tc, out);
                if i + 1 < n || (tc && r.chance(1, 4)) {
                    out.push(b',');
                }
            }
            ws(r, out);
            out.push(b'}');
        }
    }
    ws(r, out);
}

pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    const POOL: &[u8] = b"\"\"\\\\/bfnrtu0019aAeEdD8cC,:[]{}+-. \t\n\r\x00\x0b\x1f\x7f\x80\xbf\xc2\xe0\xed\xf0\xf4\xffx";
    for _ in 0..1 + r.below(2) {
        if v.is_empty() {
            v.push(*r.pick(POOL));
            continue;
        }
        let i = r.below(v.len());
        match r.below(7) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, *r.pick(POOL)),
            2 => v[i] = *r.pick(POOL),
            3 => {
                let b = v[i];
                v.insert(i, b);
            }
            4 => v.truncate(i),
            5 => {
                let j = r.below(v.len());
                v.swap(i, j);
            }
            _ => v[i] = r.below(256) as u8,
        }
    }
}
