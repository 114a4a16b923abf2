//! An independent reference reader for JSON (RFC 8259), used as the oracle.

#[derive(Clone, Debug)]
pub enum Tree {
    Null,
    Bool(bool),
    /// the literal
    Num(Vec<u8>),
    /// the characters
    Str(Vec<u32>),
    Arr(Vec<Tree>),
    Obj(Vec<(Vec<u32>, Tree)>),
}
/// Where the bytes of a document come from.
pub trait Source {
    fn get(&self, i: usize) -> Option<u8>;
}
impl Source for &[u8] {
    fn get(&self, i: usize) -> Option<u8> {
        if i < self.len() {
            Some(self[i])
        } else {
            None
        }
    }
}
pub struct Parser<S: Source> {
    pub text: S,
    pub at: usize,
    pub comments: bool,
}
/// The value denoted by a whole document, if it is one.
pub fn parse(text: &[u8]) -> Option<Tree> {
    parse_with(text, false)
}
pub fn parse_with<S: Source>(text: S, comments: bool) -> Option<Tree> {
    let mut p = Parser { text, at: 0, comments };
    p.space()?;
    let v = p.value()?;
    p.space()?;
    if p.peek().is_none() {
        Some(v)
    } else {
        None
    }
}
impl<S: Source> Parser<S> {
    pub fn peek(&self) -> Option<u8> {
        self.text.get(self.at)
    }
    fn is(&self, c: u8) -> bool {
        matches!(self.peek(), Some(x) if x == c)
    }
    fn eat(&mut self, c: u8) -> Option<()> {
        if self.is(c) {
            self.at += 1;
            Some(())
        } else {
            None
        }
    }
    pub fn space(&mut self) -> Option<()> {
        loop {
            if self.is(b' ') || self.is(b'\t') || self.is(b'\n') || self.is(b'\r') {
                self.at += 1;
            } else if self.comments && self.is(b'/') {
                self.at += 1;
                if self.is(b'/') {
                    // up to the end of the line, or of the document
                    while matches!(self.peek(), Some(c) if c != b'\n') {
                        self.at += 1;
                    }
                } else {
                    self.eat(b'*')?;
                    loop {
                        let c = self.peek()?;
                        self.at += 1;
                        if c == b'*' && self.is(b'/') {
                            self.at += 1;
                            break;
                        }
                    }
                }
            } else {
                return Some(());
            }
        }
    }
    fn word(&mut self, w: &'static [u8]) -> Option<()> {
        for c in w {
            self.eat(*c)?;
        }
        Some(())
    }
    pub fn value(&mut self) -> Option<Tree> {
        let c = self.peek()?;
        match c {
            b'n' => self.word(b"null").map(|_| Tree::Null),
            b't' => self.word(b"true").map(|_| Tree::Bool(true)),
            b'f' => self.word(b"false").map(|_| Tree::Bool(false)),
            b'"' => self.string().map(Tree::Str),
            b'-' | b'0'..=b'9' => self.number().map(Tree::Num),
            b'[' => {
                self.at += 1;
                self.space()?;
                let mut items = Vec::new();
                if self.is(b']') {
                    self.at += 1;
                    return Some(Tree::Arr(items));
                }
                loop {
                    self.space()?;
                    items.push(self.value()?);
                    self.space()?;
                    match self.peek()? {
                        b',' => self.at += 1,
                        b']' => {
                            self.at += 1;
                            return Some(Tree::Arr(items));
                        }
                        _ => return None,
                    }
                }
            }
            b'{' => {
                self.at += 1;
                self.space()?;
                let mut entries = Vec::new();
                if self.is(b'}') {
                    self.at += 1;
                    return Some(Tree::Obj(entries));
                }
                loop {
                    self.space()?;
                    if !self.is(b'"') {
                        return None;
                    }
                    let k = self.string()?;
                    self.space()?;
                    self.eat(b':')?;
                    self.space()?;
                    let v = self.value()?;
                    entries.push((k, v));
                    self.space()?;
                    match self.peek()? {
                        b',' => self.at += 1,
                        b'}' => {
                            self.at += 1;
                            return Some(Tree::Obj(entries));
                        }
                        _ => return None,
                    }
                }
            }
            _ => None,
        }
    }
    fn digits(&mut self) -> Option<()> {
        let mut n = 0;
        while let Some(b'0'..=b'9') = self.peek() {
            self.at += 1;
            n += 1;
        }
        if n > 0 {
            Some(())
        } else {
            None
        }
    }
    pub fn number(&mut self) -> Option<Vec<u8>> {
        let start = self.at;
        self.number_end()?;
        Some((start..self.at).map(|i| self.text.get(i).unwrap()).collect())
    }
    fn number_end(&mut self) -> Option<()> {
        if self.is(b'-') {
            self.at += 1;
        }
        match self.peek()? {
            b'0' => self.at += 1,
            b'1'..=b'9' => self.digits()?,
            _ => return None,
        }
        if self.is(b'.') {
            self.at += 1;
            self.digits()?;
        }
        if self.is(b'e') || self.is(b'E') {
            self.at += 1;
            if self.is(b'+') || self.is(b'-') {
                self.at += 1;
            }
            self.digits()?;
        }
        Some(())
    }
    fn hex(&mut self) -> Option<u32> {
        let mut x = 0;
        for _ in 0..4 {
            let c = self.peek()?;
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return None,
            };
            x = x << 4 | d as u32;
            self.at += 1;
        }
        Some(x)
    }
    /// The characters of a string literal. Lone surrogates denote no text.
    pub fn string(&mut self) -> Option<Vec<u32>> {
        self.eat(b'"')?;
        let mut out = Vec::new();
        loop {
            let c = self.peek()?;
            match c {
                0..=0x1F => return None,
                b'"' => {
                    self.at += 1;
                    return Some(out);
                }
                b'\\' => {
                    self.at += 1;
                    let e = self.peek()?;
                    self.at += 1;
                    out.push(match e {
                        b'"' => 0x22,
                        b'\\' => 0x5C,
                        b'/' => 0x2F,
                        b'b' => 8,
                        b'f' => 12,
                        b'n' => 10,
                        b'r' => 13,
                        b't' => 9,
                        b'u' => {
                            let x = self.hex()?;
                            if x >= 0xD800 && x < 0xDC00 {
                                self.eat(b'\\')?;
                                self.eat(b'u')?;
                                let y = self.hex()?;
                                if y < 0xDC00 || y > 0xDFFF {
                                    return None;
                                }
                                0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00)
                            } else if x >= 0xDC00 && x < 0xE000 {
                                return None;
                            } else {
                                x
                            }
                        }
                        _ => return None,
                    });
                }
                _ => out.push(self.utf8(c)?),
            }
        }
    }
    /// One character of (well-formed) UTF-8.
    fn utf8(&mut self, c: u8) -> Option<u32> {
        let (n, mut x) = if c < 0x80 {
            (0, c as u32)
        } else if c < 0xE0 {
            (1, c as u32 & 0x1F)
        } else if c < 0xF0 {
            (2, c as u32 & 0xF)
        } else {
            (3, c as u32 & 7)
        };
        self.at += 1;
        for _ in 0..n {
            x = x << 6 | self.peek()? as u32 & 0x3F;
            self.at += 1;
        }
        Some(x)
    }
}
/// The characters of the string literal that makes up the whole text.
pub fn literal(text: &[u8]) -> Option<Vec<u32>> {
    let mut p = Parser { text, at: 0, comments: false };
    let s = p.string()?;
    if p.at == text.len() {
        Some(s)
    } else {
        None
    }
}
/// Whether the characters of `s` are `chars` (no case split on their values).
pub fn same_chars(s: &str, chars: &[u32]) -> bool {
    let mut ok = true;
    let mut i = 0;
    for c in s.chars() {
        if i >= chars.len() {
            return false;
        }
        ok &= c as u32 == chars[i];
        i += 1;
    }
    ok & (i == chars.len())
}
