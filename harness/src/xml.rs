//! A small, strict XML reader: elements, attributes, text, comments, processing
//! instructions and CDATA, checked for well-formedness.  No DTDs.

#[derive(Clone, Debug, Default)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<El>,
    pub text: String,
}

impl El {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| &v[..])
    }
}

struct P<'a> {
    s: &'a str,
    i: usize,
}

type R<T> = Result<T, String>;

fn name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == ':'
}
fn name_char(c: char) -> bool {
    c.is_alphanumeric() || matches!(c, '_' | ':' | '-' | '.')
}
fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r') || ((c as u32) >= 0x20 && c != '\u{fffe}' && c != '\u{ffff}')
}

pub fn parse(s: &str) -> R<El> {
    if let Some(c) = s.chars().find(|&c| !xml_char(c)) {
        return Err(format!("character {:?} not allowed", c));
    }
    let mut p = P { s: s.strip_prefix('\u{feff}').unwrap_or(s), i: 0 };
    p.misc()?;
    let e = p.element(0)?;
    p.misc()?;
    if p.i != p.s.len() {
        return Err(format!("text after the root element at {}", p.i));
    }
    Ok(e)
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn ws(&mut self) -> bool {
        let st = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > st
    }
    fn until(&mut self, end: &str) -> R<&'a str> {
        let r = self.rest();
        let n = r.find(end).ok_or(format!("no {:?}", end))?;
        self.i += n + end.len();
        Ok(&r[..n])
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.rest().starts_with("<!--") {
                self.i += 4;
                if self.until("-->")?.contains("--") {
                    return Err("-- in comment".into());
                }
            } else if self.rest().starts_with("<?") {
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn name(&mut self) -> R<String> {
        let st = self.i;
        match self.peek() {
            Some(c) if name_start(c) => self.i += c.len_utf8(),
            _ => return Err(format!("name expected at {}", self.i)),
        }
        while let Some(c) = self.peek() {
            if !name_char(c) {
                break;
            }
            self.i += c.len_utf8();
        }
        Ok(self.s[st..self.i].to_string())
    }
    fn entity(&mut self) -> R<char> {
        let e = self.until(";")?;
        Ok(match e {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = e.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).map_err(|x| x.to_string())?
                } else if let Some(d) = e.strip_prefix('#') {
                    d.parse().map_err(|_| "bad character reference".to_string())?
                } else {
                    return Err(format!("unknown entity {:?}", e));
                };
                char::from_u32(n).filter(|&c| xml_char(c)).ok_or("bad character reference")?
            }
        })
    }
    fn element(&mut self, depth: usize) -> R<El> {
        if depth > 40 {
            return Err("too deep".into());
        }
        if self.peek() != Some('<') {
            return Err(format!("< expected at {}", self.i));
        }
        self.i += 1;
        let mut e = El { name: self.name()?, ..El::default() };
        loop {
            let sp = self.ws();
            if self.rest().starts_with("/>") {
                self.i += 2;
                return Ok(e);
            }
            if self.peek() == Some('>') {
                self.i += 1;
                break;
            }
            if !sp {
                return Err(format!("space expected at {}", self.i));
            }
            let k = self.name()?;
            self.ws();
            if self.peek() != Some('=') {
                return Err(format!("= expected at {}", self.i));
            }
            self.i += 1;
            self.ws();
            let q = self.peek().filter(|c| *c == '"' || *c == '\'').ok_or("quote expected")?;
            self.i += 1;
            let mut v = String::new();
            loop {
                let c = self.peek().ok_or("unterminated attribute")?;
                self.i += c.len_utf8();
                if c == q {
                    break;
                }
                match c {
                    '<' => return Err("< in attribute".into()),
                    '&' => v.push(self.entity()?),
                    c => v.push(c),
                }
            }
            if e.attrs.iter().any(|(n, _)| *n == k) {
                return Err(format!("attribute {} twice", k));
            }
            e.attrs.push((k, v));
        }
        loop {
            if self.rest().starts_with("</") {
                self.i += 2;
                if self.name()? != e.name {
                    return Err("end tag does not match".into());
                }
                self.ws();
                if self.peek() != Some('>') {
                    return Err("> expected".into());
                }
                self.i += 1;
                return Ok(e);
            } else if self.rest().starts_with("<!--") || self.rest().starts_with("<?") {
                self.misc()?;
            } else if self.rest().starts_with("<![CDATA[") {
                self.i += 9;
                let t = self.until("]]>")?;
                e.text.push_str(t);
            } else {
                match self.peek().ok_or("unterminated element")? {
                    '<' => {
                        let k = self.element(depth + 1)?;
                        e.kids.push(k);
                    }
                    '&' => {
                        self.i += 1;
                        let c = self.entity()?;
                        e.text.push(c);
                    }
                    c => {
                        self.i += c.len_utf8();
                        e.text.push(c);
                    }
                }
            }
        }
    }
}
