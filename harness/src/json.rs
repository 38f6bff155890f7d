//! A strict JSON reader (RFC 8259) and small writing helpers.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// The number as it was written.
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.iter().find(|(n, _)| n == k).map(|(_, v)| v).unwrap_or(&J::Null),
            _ => &J::Null,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn str(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            J::Num(s) => s.parse().unwrap_or(-1),
            _ => -1,
        }
    }
    pub fn bool(&self) -> bool {
        *self == J::Bool(true)
    }
    pub fn ints(&self) -> Vec<i64> {
        self.arr().iter().map(|x| x.int()).collect()
    }
}

pub fn parse(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut p = P { b, i: 0, s };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.i != b.len() {
        return Err(format!("trailing text at {}", p.i));
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    s: &'a str,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\t' | b'\n' | b'\r') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.b.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.peek() == c && self.i < self.b.len() {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {}", c as char, self.i))
        }
    }
    fn lit(&mut self, t: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(t) {
            self.i += t.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn value(&mut self, depth: usize) -> Result<J, String> {
        if depth > 60 {
            return Err("too deep".into());
        }
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut m = vec![];
                self.ws();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    self.ws();
                    let v = self.value(depth + 1)?;
                    m.push((k, v));
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                        continue;
                    }
                    self.eat(b'}')?;
                    return Ok(J::Obj(m));
                }
            }
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    if self.peek() == b',' {
                        self.i += 1;
                        continue;
                    }
                    self.eat(b']')?;
                    return Ok(J::Arr(v));
                }
            }
            b'"' => Ok(J::Str(self.string()?)),
            b't' => self.lit("true", J::Bool(true)),
            b'f' => self.lit("false", J::Bool(false)),
            b'n' => self.lit("null", J::Null),
            _ => self.number(),
        }
    }
    fn number(&mut self) -> Result<J, String> {
        let st = self.i;
        if self.peek() == b'-' {
            self.i += 1;
        }
        let d0 = self.i;
        while self.peek().is_ascii_digit() {
            self.i += 1;
        }
        if self.i == d0 || (self.b[d0] == b'0' && self.i > d0 + 1) {
            return Err(format!("bad number at {}", st));
        }
        if self.peek() == b'.' {
            self.i += 1;
            let d = self.i;
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
            if self.i == d {
                return Err(format!("bad number at {}", st));
            }
        }
        if matches!(self.peek(), b'e' | b'E') {
            self.i += 1;
            if matches!(self.peek(), b'+' | b'-') {
                self.i += 1;
            }
            let d = self.i;
            while self.peek().is_ascii_digit() {
                self.i += 1;
            }
            if self.i == d {
                return Err(format!("bad number at {}", st));
            }
        }
        Ok(J::Num(self.s[st..self.i].to_string()))
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut out = String::new();
        loop {
            let rest = &self.s[self.i..];
            let c = rest.chars().next().ok_or("unterminated string")?;
            self.i += c.len_utf8();
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let e = self.peek();
                    self.i += 1;
                    match e {
                        b'"' => out.push('"'),
                        b'\\' => out.push('\\'),
                        b'/' => out.push('/'),
                        b'b' => out.push('\u{8}'),
                        b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'),
                        b'r' => out.push('\r'),
                        b't' => out.push('\t'),
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let lo = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return Err("lone surrogate".into());
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (lo - 0xdc00);
                            }
                            out.push(char::from_u32(u).ok_or("lone surrogate")?);
                        }
                        _ => return Err(format!("bad escape at {}", self.i)),
                    }
                }
                c if (c as u32) < 0x20 => return Err("control character in string".into()),
                c => out.push(c),
            }
        }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let t = self.s.get(self.i..self.i + 4).ok_or("short \\u")?;
        self.i += 4;
        u32::from_str_radix(t, 16).map_err(|e| e.to_string())
    }
}

pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn nums<T: std::fmt::Display, I: IntoIterator<Item = T>>(it: I) -> String {
    let mut o = String::from("[");
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&x.to_string());
    }
    o.push(']');
    o
}

pub fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

/// Code points of a string.
pub fn cps(s: &str) -> String {
    nums(s.chars().map(|c| c as u32))
}

/// Base-10000 limbs, least significant first.
pub fn limbs(mut n: u128) -> String {
    let mut v = vec![];
    while n > 0 {
        v.push(n % 10000);
        n /= 10000;
    }
    nums(v)
}

/// Limbs of a decimal number as text; [-1] when it is not a natural number.
pub fn limbs_of(text: &str) -> String {
    let (int, frac) = match text.split_once('.') {
        Some((a, b)) => (a, b),
        None => (text, ""),
    };
    if int.is_empty() || !int.bytes().all(|b| b.is_ascii_digit()) || !frac.bytes().all(|b| b == b'0') || int.len() > 38 {
        return "[-1]".into();
    }
    limbs(int.parse::<u128>().unwrap_or(0))
}

/// Maximal runs, flattened to [value, length, value, length, ...].
pub fn runs<T: PartialEq + std::fmt::Display>(v: &[T]) -> String {
    let mut o = String::from("[");
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && v[j] == v[i] {
            j += 1;
        }
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!("{},{}", v[i], j - i));
        i = j;
    }
    o.push(']');
    o
}
