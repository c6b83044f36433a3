//! Stand-in for `elementtree`: a small non-validating XML reader.
use std::fmt;
use std::io::Read;

#[derive(Clone, Debug, Default)]
pub struct Element {
    tag: String,
    text: String,
    tail: String,
    attrs: Vec<(String, String)>,
    children: Vec<Element>,
}
#[derive(Clone, Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "xml error: {}", self.0)
    }
}
impl std::error::Error for Error {}

pub struct FindChildren<'a> {
    tag: String,
    it: std::slice::Iter<'a, Element>,
}
impl<'a> Iterator for FindChildren<'a> {
    type Item = &'a Element;
    fn next(&mut self) -> Option<&'a Element> {
        let tag = &self.tag;
        self.it.by_ref().find(|e| &e.tag == tag)
    }
}

impl Element {
    pub fn from_reader<R: Read>(mut r: R) -> Result<Element, Error> {
        let mut s = String::new();
        r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
        Parser { s: s.trim_start_matches('\u{feff}'), p: 0 }.document()
    }
    pub fn tag(&self) -> &str {
        &self.tag
    }
    pub fn text(&self) -> &str {
        &self.text
    }
    pub fn tail(&self) -> &str {
        &self.tail
    }
    pub fn find(&self, tag: &str) -> Option<&Element> {
        self.children.iter().find(|e| e.tag == tag)
    }
    pub fn find_all(&self, tag: &str) -> FindChildren<'_> {
        FindChildren { tag: tag.to_string(), it: self.children.iter() }
    }
    pub fn children(&self) -> std::slice::Iter<'_, Element> {
        self.children.iter()
    }
    pub fn get_attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == name).map(|(_, v)| v.as_str())
    }
}

struct Parser<'a> {
    s: &'a str,
    p: usize,
}
impl<'a> Parser<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.p..]
    }
    fn err<T>(&self, m: &str) -> Result<T, Error> {
        Err(Error(format!("{} at byte {}", m, self.p)))
    }
    fn until(&mut self, end: &str) -> Result<&'a str, Error> {
        match self.rest().find(end) {
            Some(k) => {
                let r = &self.rest()[..k];
                self.p += k + end.len();
                Ok(r)
            }
            None => self.err(&format!("expected {:?}", end)),
        }
    }
    fn ws(&mut self) {
        let r = self.rest();
        self.p += r.len() - r.trim_start().len();
    }
    /// Skips comments, processing instructions and the document type
    fn misc(&mut self) -> Result<(), Error> {
        loop {
            self.ws();
            if self.rest().starts_with("<!--") {
                self.until("-->")?;
            } else if self.rest().starts_with("<?") {
                self.until("?>")?;
            } else if self.rest().starts_with("<!DOCTYPE") {
                let mut depth = 0;
                for (k, c) in self.rest().char_indices() {
                    match c {
                        '[' => depth += 1,
                        ']' => depth -= 1,
                        '>' if depth == 0 => {
                            self.p += k + 1;
                            break;
                        }
                        _ => {}
                    }
                }
            } else {
                return Ok(());
            }
        }
    }
    fn document(&mut self) -> Result<Element, Error> {
        self.misc()?;
        let e = self.element()?;
        self.misc()?;
        if !self.rest().is_empty() {
            return self.err("content after the root element");
        }
        Ok(e)
    }
    fn name(&mut self) -> Result<String, Error> {
        let n: String = self
            .rest()
            .chars()
            .take_while(|c| c.is_alphanumeric() || "_-.:".contains(*c))
            .collect();
        if n.is_empty() {
            return self.err("expected a name");
        }
        self.p += n.len();
        Ok(n)
    }
    fn unescape(&self, s: &str) -> Result<String, Error> {
        let s = s.replace("\r\n", "\n");
        let mut out = String::new();
        let mut r = s.as_str();
        while let Some(k) = r.find('&') {
            out.push_str(&r[..k]);
            let e = match r[k..].find(';') {
                Some(e) => e,
                None => return self.err("bad entity"),
            };
            let name = &r[k + 1..k + e];
            match name {
                "lt" => out.push('<'),
                "gt" => out.push('>'),
                "amp" => out.push('&'),
                "quot" => out.push('"'),
                "apos" => out.push('\''),
                n => {
                    let c = if let Some(h) = n.strip_prefix("#x") {
                        u32::from_str_radix(h, 16).ok()
                    } else if let Some(d) = n.strip_prefix('#') {
                        d.parse().ok()
                    } else {
                        None
                    };
                    match c.and_then(std::char::from_u32) {
                        Some(c) => out.push(c),
                        None => return self.err("unknown entity"),
                    }
                }
            }
            r = &r[k + e + 1..];
        }
        out.push_str(r);
        Ok(out)
    }
    fn element(&mut self) -> Result<Element, Error> {
        if !self.rest().starts_with('<') {
            return self.err("expected an element");
        }
        self.p += 1;
        let mut e = Element { tag: self.name()?, ..Default::default() };
        loop {
            self.ws();
            if self.rest().starts_with("/>") {
                self.p += 2;
                return Ok(e);
            }
            if self.rest().starts_with('>') {
                self.p += 1;
                break;
            }
            let k = self.name()?;
            self.ws();
            if !self.rest().starts_with('=') {
                return self.err("expected =");
            }
            self.p += 1;
            self.ws();
            let q = match self.rest().chars().next() {
                Some(c) if c == '"' || c == '\'' => c,
                _ => return self.err("expected a quote"),
            };
            self.p += 1;
            let v = self.until(&q.to_string())?;
            let v = self.unescape(v)?;
            e.attrs.push((k, v));
        }
        loop {
            if self.rest().is_empty() {
                return self.err("unexpected end");
            }
            if self.rest().starts_with("</") {
                self.p += 2;
                let n = self.name()?;
                if n != e.tag {
                    return self.err("mismatched end tag");
                }
                self.ws();
                if !self.rest().starts_with('>') {
                    return self.err("expected >");
                }
                self.p += 1;
                return Ok(e);
            }
            let text = if self.rest().starts_with("<!--") {
                self.until("-->")?;
                continue;
            } else if self.rest().starts_with("<?") {
                self.until("?>")?;
                continue;
            } else if self.rest().starts_with("<![CDATA[") {
                self.p += 9;
                self.until("]]>")?.to_string()
            } else if self.rest().starts_with('<') {
                let c = self.element()?;
                e.children.push(c);
                continue;
            } else {
                let k = self.rest().find('<').unwrap_or_else(|| self.rest().len());
                let t = &self.rest()[..k];
                self.p += k;
                self.unescape(t)?
            };
            match e.children.last_mut() {
                None => e.text.push_str(&text),
                Some(c) => c.tail.push_str(&text),
            }
        }
    }
}
