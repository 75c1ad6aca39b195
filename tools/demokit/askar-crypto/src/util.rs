//! base64url and a small JSON reader for JWKs.

const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn b64e(data: &[u8]) -> String {
    let mut out = String::with_capacity(data.len() * 4 / 3 + 3);
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            out.push(ALPHA[(n >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    out
}

pub fn b64d(s: &str) -> Option<Vec<u8>> {
    let mut out = Vec::with_capacity(s.len() * 3 / 4 + 2);
    let (mut acc, mut bits) = (0u32, 0u32);
    for b in s.bytes() {
        let v = ALPHA.iter().position(|&a| a == b)? as u32;
        acc = acc << 6 | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if s.len() % 4 == 1 || acc != 0 {
        return None;
    }
    Some(out)
}

#[derive(Debug, Clone, PartialEq)]
pub enum JsonVal {
    Str(String),
    Other,
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && b" \t\r\n".contains(&self.b[self.i]) {
            self.i += 1
        }
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        self.ws();
        if *self.b.get(self.i)? == c {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn peek(&mut self) -> Option<u8> {
        self.ws();
        self.b.get(self.i).copied()
    }
    fn string(&mut self) -> Option<String> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.b.get(self.i)?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).ok(),
                b'\\' => {
                    let e = *self.b.get(self.i)?;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => out.push(e),
                        b'n' => out.push(b'\n'),
                        b't' => out.push(b'\t'),
                        b'r' => out.push(b'\r'),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'u' => {
                            let mut cp = self.hex4()?;
                            if (0xd800..0xdc00).contains(&cp) {
                                if self.b.get(self.i..self.i + 2)? != b"\\u" {
                                    return None;
                                }
                                self.i += 2;
                                let lo = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return None;
                                }
                                cp = 0x10000 + ((cp - 0xd800) << 10) + (lo - 0xdc00);
                            }
                            let ch = char::from_u32(cp)?;
                            let mut buf = [0; 4];
                            out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
                        }
                        _ => return None,
                    }
                }
                c if c < 0x20 => return None,
                c => out.push(c),
            }
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let h = self.b.get(self.i..self.i + 4)?;
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok()
    }
    fn value(&mut self, depth: usize) -> Option<JsonVal> {
        if depth > 64 {
            return None;
        }
        match self.peek()? {
            b'"' => Some(JsonVal::Str(self.string()?)),
            b'{' => {
                self.eat(b'{')?;
                if self.peek()? == b'}' {
                    self.i += 1;
                    return Some(JsonVal::Other);
                }
                loop {
                    self.string()?;
                    self.eat(b':')?;
                    self.value(depth + 1)?;
                    match self.peek()? {
                        b',' => self.i += 1,
                        b'}' => {
                            self.i += 1;
                            return Some(JsonVal::Other);
                        }
                        _ => return None,
                    }
                }
            }
            b'[' => {
                self.eat(b'[')?;
                if self.peek()? == b']' {
                    self.i += 1;
                    return Some(JsonVal::Other);
                }
                loop {
                    self.value(depth + 1)?;
                    match self.peek()? {
                        b',' => self.i += 1,
                        b']' => {
                            self.i += 1;
                            return Some(JsonVal::Other);
                        }
                        _ => return None,
                    }
                }
            }
            _ => {
                let start = self.i;
                while self.i < self.b.len()
                    && (self.b[self.i].is_ascii_alphanumeric() || b"+-.".contains(&self.b[self.i]))
                {
                    self.i += 1
                }
                if self.i == start {
                    None
                } else {
                    Some(JsonVal::Other)
                }
            }
        }
    }
}

/// Reads a JSON object and returns its members, only strings being kept.
pub fn parse_flat_json(s: &str) -> Option<Vec<(String, JsonVal)>> {
    let mut p = P {
        b: s.as_bytes(),
        i: 0,
    };
    let mut out = vec![];
    p.eat(b'{')?;
    if p.peek()? == b'}' {
        p.i += 1;
    } else {
        loop {
            let k = p.string()?;
            p.eat(b':')?;
            let v = p.value(0)?;
            out.push((k, v));
            match p.peek()? {
                b',' => p.i += 1,
                b'}' => {
                    p.i += 1;
                    break;
                }
                _ => return None,
            }
        }
    }
    p.ws();
    if p.i == s.len() {
        Some(out)
    } else {
        None
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
