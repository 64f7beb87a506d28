//! A JSON reader that keeps numbers as text, so that they can be compared exactly.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    /// text of a number
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
}
/// One document at the start of the text, and what follows it
pub fn parse_prefix(s: &str) -> Result<(J, &str), String> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    p.ws();
    let v = p.value().map_err(|e| format!("not valid JSON at byte {}: {e}", p.i))?;
    let i = p.i;
    Ok((v, &s[i..]))
}
pub fn parse(s: &str) -> Result<J, String> {
    let (v, rest) = parse_prefix(s)?;
    if !rest.trim_matches([' ', '\n', '\t', '\r']).is_empty() {
        return Err(format!("text after the end of the JSON document: {rest:?}"));
    }
    Ok(v)
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t' | b'\r') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            return Ok(());
        }
        Err(format!("expected {:?}", c as char))
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match *self.s.get(self.i).ok_or("end of text")? {
            b'{' => {
                self.i += 1;
                let mut m = BTreeMap::new();
                self.ws();
                if self.eat(b'}').is_ok() {
                    return Ok(J::Obj(m));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(b':')?;
                    let v = self.value()?;
                    if m.insert(k.clone(), v).is_some() {
                        return Err(format!("key {k:?} appears twice"));
                    }
                    self.ws();
                    if self.eat(b',').is_err() {
                        self.eat(b'}')?;
                        return Ok(J::Obj(m));
                    }
                }
            },
            b'[' => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.eat(b']').is_ok() {
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    if self.eat(b',').is_err() {
                        self.eat(b']')?;
                        return Ok(J::Arr(v));
                    }
                }
            },
            b'"' => Ok(J::Str(self.string()?)),
            b't' => self.word("true", J::Bool(true)),
            b'f' => self.word("false", J::Bool(false)),
            b'n' => self.word("null", J::Null),
            _ => {
                let a = self.i;
                if self.s.get(self.i) == Some(&b'-') {
                    self.i += 1;
                }
                let digits = |p: &mut Self| {
                    let b = p.i;
                    while p.i < p.s.len() && p.s[p.i].is_ascii_digit() {
                        p.i += 1;
                    }
                    p.i - b
                };
                let z = self.s.get(self.i) == Some(&b'0');
                let n = digits(self);
                if n == 0 || (z && n > 1) {
                    return Err("not a number".into());
                }
                if self.eat(b'.').is_ok() && digits(self) == 0 {
                    return Err("not a number".into());
                }
                if self.eat(b'e').is_ok() || self.eat(b'E').is_ok() {
                    let _ = self.eat(b'+').is_ok() || self.eat(b'-').is_ok();
                    if digits(self) == 0 {
                        return Err("not a number".into());
                    }
                }
                Ok(J::Num(String::from_utf8_lossy(&self.s[a..self.i]).into_owned()))
            },
        }
    }
    fn word(&mut self, w: &str, v: J) -> Result<J, String> {
        if self.s[self.i..].starts_with(w.as_bytes()) {
            self.i += w.len();
            return Ok(v);
        }
        Err("unknown word".into())
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let t = self.s.get(self.i..self.i + 4).ok_or("end of text")?;
        self.i += 4;
        u32::from_str_radix(std::str::from_utf8(t).map_err(|e| e.to_string())?, 16).map_err(|e| e.to_string())
    }
    fn string(&mut self) -> Result<String, String> {
        self.eat(b'"')?;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = *self.s.get(self.i).ok_or("end of text in a string")?;
            self.i += 1;
            match c {
                b'"' => return String::from_utf8(out).map_err(|e| e.to_string()),
                0..=0x1f => return Err("control character in a string".into()),
                b'\\' => {
                    let e = *self.s.get(self.i).ok_or("end of text in a string")?;
                    self.i += 1;
                    let ch = match e {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\x08',
                        b'f' => '\x0c',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let mut x = self.hex4()?;
                            if (0xd800..0xdc00).contains(&x) {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let y = self.hex4()?;
                                x = 0x10000 + ((x - 0xd800) << 10) + (y.wrapping_sub(0xdc00) & 0x3ff);
                            }
                            char::from_u32(x).ok_or("bad escape")?
                        },
                        _ => return Err("bad escape".into()),
                    };
                    out.extend(ch.to_string().as_bytes());
                },
                c => out.push(c),
            }
        }
    }
}
