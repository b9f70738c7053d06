//! An independent decoder (RFC 1950, 1951, 1952) and a trivial independent encoder, used as oracles.

pub fn crc32(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

pub fn adler32(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in data {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    (b << 16) | a
}

struct Bits<'a> {
    d: &'a [u8],
    pos: usize,
    bit: u32,
    n: u32,
}

impl<'a> Bits<'a> {
    fn need(&mut self, k: u32) -> Result<u32, String> {
        while self.n < k {
            let b = *self.d.get(self.pos).ok_or("end of input")?;
            self.pos += 1;
            self.bit |= (b as u32) << self.n;
            self.n += 8;
        }
        let v = self.bit & ((1u32 << k) - 1);
        self.bit >>= k;
        self.n -= k;
        Ok(v)
    }
}

struct Huff {
    count: [u16; 16],
    symbol: Vec<u16>,
}

impl Huff {
    fn new(lens: &[u8], allow_incomplete: bool) -> Result<Huff, String> {
        let mut count = [0u16; 16];
        for l in lens {
            count[*l as usize] += 1;
        }
        let mut left = 1i32;
        let mut used = 0;
        for c in &count[1..] {
            left = left * 2 - *c as i32;
            used += *c;
            if left < 0 {
                return Err("over-subscribed code".into());
            }
        }
        if left > 0 && !(allow_incomplete && used <= 1) {
            return Err("incomplete code".into());
        }
        let mut offs = [0u16; 16];
        for i in 1..15 {
            offs[i + 1] = offs[i] + count[i];
        }
        let mut symbol = vec![0u16; lens.len()];
        for (s, l) in lens.iter().enumerate() {
            if *l != 0 {
                symbol[offs[*l as usize] as usize] = s as u16;
                offs[*l as usize] += 1;
            }
        }
        count[0] = 0;
        Ok(Huff { count, symbol })
    }

    fn decode(&self, b: &mut Bits) -> Result<u16, String> {
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for len in 1..16 {
            code |= b.need(1)? as i32;
            let c = self.count[len] as i32;
            if code - c < first {
                return Ok(self.symbol[(index + code - first) as usize]);
            }
            index += c;
            first = (first + c) << 1;
            code <<= 1;
        }
        Err("bad code".into())
    }
}

const LBASE: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
const LEXT: [u8; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DBASE: [u16; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
const DEXT: [u8; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];

/// Decodes one raw DEFLATE stream; returns the data and the number of input bytes used.
pub fn inflate(d: &[u8]) -> Result<(Vec<u8>, usize), String> {
    let mut b = Bits { d, pos: 0, bit: 0, n: 0 };
    let mut out: Vec<u8> = vec![];
    loop {
        let last = b.need(1)?;
        match b.need(2)? {
            0 => {
                b.bit = 0;
                b.n = 0;
                let h = d.get(b.pos..b.pos + 4).ok_or("end of input")?;
                let len = u16::from_le_bytes([h[0], h[1]]);
                if len != !u16::from_le_bytes([h[2], h[3]]) {
                    return Err("stored length".into());
                }
                b.pos += 4;
                out.extend_from_slice(d.get(b.pos..b.pos + len as usize).ok_or("end of input")?);
                b.pos += len as usize;
            }
            t @ (1 | 2) => {
                let (lit, dist) = if t == 1 {
                    let mut l = [8u8; 288];
                    l[144..256].fill(9);
                    l[256..280].fill(7);
                    (Huff::new(&l, false)?, Huff { count: { let mut c = [0; 16]; c[5] = 32; c }, symbol: (0..32).collect() })
                } else {
                    let (nlen, ndist, ncode) = (b.need(5)? as usize + 257, b.need(5)? as usize + 1, b.need(4)? as usize + 4);
                    if nlen > 286 || ndist > 30 {
                        return Err("too many symbols".into());
                    }
                    let mut cl = [0u8; 19];
                    for i in 0..ncode {
                        cl[[16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15][i]] = b.need(3)? as u8;
                    }
                    let ch = Huff::new(&cl, false)?;
                    let mut lens: Vec<u8> = vec![];
                    while lens.len() < nlen + ndist {
                        match ch.decode(&mut b)? {
                            s @ 0..=15 => lens.push(s as u8),
                            s => {
                                let (v, n) = match s {
                                    16 => (*lens.last().ok_or("nothing to repeat")?, 3 + b.need(2)?),
                                    17 => (0, 3 + b.need(3)?),
                                    _ => (0, 11 + b.need(7)?),
                                };
                                for _ in 0..n {
                                    lens.push(v);
                                }
                            }
                        }
                    }
                    if lens.len() > nlen + ndist {
                        return Err("too many lengths".into());
                    }
                    if lens[256] == 0 {
                        return Err("no end code".into());
                    }
                    (Huff::new(&lens[..nlen], true)?, Huff::new(&lens[nlen..], true)?)
                };
                loop {
                    match lit.decode(&mut b)? {
                        s @ 0..=255 => out.push(s as u8),
                        256 => break,
                        s => {
                            let i = s as usize - 257;
                            if i >= 29 {
                                return Err("length code".into());
                            }
                            let len = LBASE[i] as usize + b.need(LEXT[i] as u32)? as usize;
                            let i = dist.decode(&mut b)? as usize;
                            if i >= 30 {
                                return Err("distance code".into());
                            }
                            let dd = DBASE[i] as usize + b.need(DEXT[i] as u32)? as usize;
                            if dd > out.len() {
                                return Err("distance too far".into());
                            }
                            for _ in 0..len {
                                out.push(out[out.len() - dd]);
                            }
                        }
                    }
                }
            }
            _ => return Err("block type".into()),
        }
        if last == 1 {
            return Ok((out, b.pos));
        }
    }
}

pub fn unzlib(d: &[u8]) -> Result<(Vec<u8>, usize), String> {
    if d.len() < 2 || d[0] & 15 != 8 || d[0] >> 4 > 7 || (d[0] as u16 * 256 + d[1] as u16) % 31 != 0 || d[1] & 0x20 != 0 {
        return Err("zlib header".into());
    }
    let (out, n) = inflate(&d[2..])?;
    let t = d.get(2 + n..2 + n + 4).ok_or("end of input")?;
    if u32::from_be_bytes([t[0], t[1], t[2], t[3]]) != adler32(&out) {
        return Err("adler".into());
    }
    Ok((out, n + 6))
}

pub fn gunzip(d: &[u8]) -> Result<(Vec<u8>, usize), String> {
    if d.len() < 10 || d[0] != 0x1f || d[1] != 0x8b || d[2] != 8 {
        return Err("gzip header".into());
    }
    let flags = d[3];
    let mut p = 10;
    if flags & 4 != 0 {
        let l = d.get(p..p + 2).ok_or("end of input")?;
        p += 2 + u16::from_le_bytes([l[0], l[1]]) as usize;
    }
    for f in [8, 16] {
        if flags & f != 0 {
            p += d.get(p..).ok_or("end of input")?.iter().position(|b| *b == 0).ok_or("end of input")? + 1;
        }
    }
    if flags & 2 != 0 {
        p += 2;
    }
    let (out, n) = inflate(d.get(p..).ok_or("end of input")?)?;
    let t = d.get(p + n..p + n + 8).ok_or("end of input")?;
    if u32::from_le_bytes([t[0], t[1], t[2], t[3]]) != crc32(&out) || u32::from_le_bytes([t[4], t[5], t[6], t[7]]) != out.len() as u32 {
        return Err("gzip trailer".into());
    }
    Ok((out, p + n + 8))
}

/// Encodes with stored blocks of the given size, or with literals of the fixed code.
pub fn simple_deflate(data: &[u8], block: usize, fixed: bool) -> Vec<u8> {
    let mut out = vec![];
    let block = block.clamp(1, 65535);
    let chunks: Vec<&[u8]> = if data.is_empty() { vec![&[][..]] } else { data.chunks(block).collect() };
    if !fixed {
        for (i, c) in chunks.iter().enumerate() {
            out.push((i + 1 == chunks.len()) as u8);
            out.extend_from_slice(&(c.len() as u16).to_le_bytes());
            out.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
            out.extend_from_slice(c);
        }
        return out;
    }
    let (mut acc, mut n) = (0u64, 0);
    let mut put = |out: &mut Vec<u8>, v: u64, k: u32| {
        acc |= v << n;
        n += k;
        while n >= 8 {
            out.push(acc as u8);
            acc >>= 8;
            n -= 8;
        }
    };
    let rev = |v: u64, k: u32| (0..k).fold(0u64, |a, i| a | (((v >> i) & 1) << (k - 1 - i)));
    for (i, c) in chunks.iter().enumerate() {
        put(&mut out, (i + 1 == chunks.len()) as u64, 1);
        put(&mut out, 1, 2);
        for b in c.iter() {
            let b = *b as u64;
            if b < 144 {
                put(&mut out, rev(0x30 + b, 8), 8)
            } else {
                put(&mut out, rev(0x190 + b - 144, 9), 9)
            }
        }
        put(&mut out, 0, 7);
    }
    put(&mut out, 0, 7);
    out
}

pub fn simple_zlib(data: &[u8], block: usize, fixed: bool) -> Vec<u8> {
    let mut o = vec![0x78, 0x9c];
    o.extend(simple_deflate(data, block, fixed));
    o.extend_from_slice(&adler32(data).to_be_bytes());
    o
}

pub fn simple_gzip(data: &[u8], block: usize, fixed: bool, name: Option<&str>, extra: Option<&[u8]>) -> Vec<u8> {
    let mut flags = 0;
    let mut tail = vec![];
    if let Some(e) = extra {
        flags |= 4;
        tail.extend_from_slice(&(e.len() as u16).to_le_bytes());
        tail.extend_from_slice(e);
    }
    if let Some(n) = name {
        flags |= 8;
        tail.extend_from_slice(n.as_bytes());
        tail.push(0);
    }
    let mut o = vec![0x1f, 0x8b, 8, flags, 1, 2, 3, 4, 0, 3];
    o.extend(tail);
    o.extend(simple_deflate(data, block, fixed));
    o.extend_from_slice(&crc32(data).to_le_bytes());
    o.extend_from_slice(&(data.len() as u32).to_le_bytes());
    o
}
