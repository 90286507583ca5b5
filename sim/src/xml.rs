//! Independent strict XML reader (namespace aware, no DTD), sharing nothing with the library's parser.
#[derive(Clone, Debug, PartialEq)]
pub enum Kid {
    E(Node),
    T(String),
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Node {
    pub name: String, // canonical: known namespaces by fixed prefix, main namespaces none
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Kid>,
}
const KNOWN: &[(&str, &str)] = &[
    ("http://schemas.openxmlformats.org/spreadsheetml/2006/main", ""),
    ("http://purl.oclc.org/ooxml/spreadsheetml/main", ""),
    ("http://schemas.openxmlformats.org/officeDocument/2006/relationships", "r:"),
    ("http://purl.oclc.org/ooxml/officeDocument/relationships", "r:"),
    ("http://schemas.openxmlformats.org/package/2006/relationships", ""),
    ("http://schemas.openxmlformats.org/package/2006/content-types", ""),
    ("http://www.w3.org/XML/1998/namespace", "xml:"),
    ("http://schemas.openxmlformats.org/markup-compatibility/2006", "mc:"),
    ("http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac", "x14ac:"),
    ("http://purl.org/dc/terms/", "dcterms:"),
    ("http://purl.org/dc/elements/1.1/", "dc:"),
    ("http://www.w3.org/2001/XMLSchema-instance", "xsi:"),
    ("http://schemas.openxmlformats.org/package/2006/metadata/core-properties", "cp:"),
];
impl Node {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| a.1.as_str())
    }
    pub fn elems(&self) -> impl Iterator<Item = &Node> {
        self.kids.iter().filter_map(|k| if let Kid::E(n) = k { Some(n) } else { None })
    }
    pub fn find(&self, n: &str) -> Option<&Node> {
        self.elems().find(|e| e.name == n)
    }
    pub fn all<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a Node> {
        self.elems().filter(move |e| e.name == n)
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Kid::T(t) => s.push_str(t),
                Kid::E(n) => s.push_str(&n.text()),
            }
        }
        s
    }
    /// Canonical text: sorted attributes, white space between elements dropped, `ws` keeps all text.
    pub fn canon(&self) -> String {
        let mut s = String::new();
        self.canon_into(&mut s);
        s
    }
    fn canon_into(&self, s: &mut String) {
        s.push('<');
        s.push_str(&self.name);
        let mut a: Vec<_> = self.attrs.iter().filter(|a| a.0 != "xml:space").collect();
        a.sort();
        for (k, v) in a {
            if k == "activeTab" && v == "0" {
                continue; // the default
            }
            s.push_str(&format!(" {}={:?}", k, v));
        }
        s.push('>');
        let has_elem = self.elems().next().is_some();
        for k in &self.kids {
            match k {
                Kid::E(n) => n.canon_into(s),
                Kid::T(t) => {
                    if !(has_elem && t.trim().is_empty()) {
                        s.push_str(&format!("{:?}", t));
                    }
                }
            }
        }
        s.push_str("</>");
    }
}
struct P<'a> {
    b: &'a [u8],
    i: usize,
}
type R<T> = Result<T, String>;
fn is_name_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_' || c == b':' || c >= 0x80
}
fn is_name(c: u8) -> bool {
    is_name_start(c) || c.is_ascii_digit() || c == b'-' || c == b'.'
}
impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        Err(format!("{} at byte {}", m, self.i))
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.i).cloned()
    }
    fn starts(&self, s: &str) -> bool {
        self.b[self.i..].starts_with(s.as_bytes())
    }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\r' | b'\n')) {
            self.i += 1;
        }
        self.i > s
    }
    fn name(&mut self) -> R<String> {
        let s = self.i;
        match self.peek() {
            Some(c) if is_name_start(c) => {}
            _ => return self.err("name expected"),
        }
        while matches!(self.peek(), Some(c) if is_name(c)) {
            self.i += 1;
        }
        Ok(String::from_utf8_lossy(&self.b[s..self.i]).into_owned())
    }
    fn until(&mut self, end: &str) -> R<&'a [u8]> {
        let s = self.i;
        let e = end.as_bytes();
        while self.i + e.len() <= self.b.len() {
            if &self.b[self.i..self.i + e.len()] == e {
                let r = &self.b[s..self.i];
                self.i += e.len();
                return Ok(r);
            }
            self.i += 1;
        }
        self.err(&format!("missing {}", end))
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.starts("<!--") {
                self.comment()?;
            } else if self.starts("<?") {
                self.i += 2;
                self.until("?>")?;
            } else {
                return Ok(());
            }
        }
    }
    fn comment(&mut self) -> R<()> {
        self.i += 4;
        let c = self.until("-->")?;
        if c.windows(2).any(|w| w == b"--") || c.ends_with(b"-") {
            return self.err("-- inside comment");
        }
        Ok(())
    }
}
fn chars_ok(s: &str) -> bool {
    s.chars().all(|c| matches!(c, '\t' | '\n' | '\r') || (c >= ' ' && c != '\u{FFFE}' && c != '\u{FFFF}'))
}
/// Expand references; line ends normalised (XML 1.0 2.11); `attr`: white space becomes a space (3.3.3).
fn expand(raw: &[u8], attr: bool) -> R<String> {
    let s = std::str::from_utf8(raw).map_err(|e| format!("not UTF-8: {}", e))?;
    if !chars_ok(s) {
        return Err("character not allowed in XML".into());
    }
    let mut o = String::with_capacity(s.len());
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        match c {
            '&' => {
                let rest = &s[i + 1..];
                let e = rest.find(';').ok_or("reference without ;")?;
                let n = &rest[..e];
                match n {
                    "amp" => o.push('&'),
                    "lt" => o.push('<'),
                    "gt" => o.push('>'),
                    "quot" => o.push('"'),
                    "apos" => o.push('\''),
                    _ if n.starts_with('#') => {
                        let v = if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16) } else { n[1..].parse() };
                        let ch = v.ok().and_then(char::from_u32).ok_or(format!("bad reference &{};", n))?;
                        if !(matches!(ch, '\t' | '\n' | '\r') || (ch >= ' ' && ch != '\u{FFFE}' && ch != '\u{FFFF}')) {
                            return Err(format!("reference to forbidden character &{};", n));
                        }
                        o.push(ch);
                    }
                    _ => return Err(format!("unknown entity &{};", n)),
                }
                while let Some((j, _)) = it.peek() {
                    if *j <= i + 1 + e {
                        it.next();
                    } else {
                        break;
                    }
                }
            }
            '<' => return Err("< in value".into()),
            '\r' => {
                if !matches!(it.peek(), Some((_, '\n'))) {
                    o.push(if attr { ' ' } else { '\n' });
                }
            }
            '\n' | '\t' if attr => o.push(' '),
            c => o.push(c),
        }
    }
    Ok(o)
}
pub fn parse(bytes: &[u8]) -> R<Node> {
    let wide: Option<Vec<u16>> = match bytes {
        [0xFF, 0xFE, x @ ..] if x.len() % 2 == 0 => Some(x.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()),
        [0xFE, 0xFF, x @ ..] if x.len() % 2 == 0 => Some(x.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect()),
        _ => None,
    };
    let wide = wide.map(|w| String::from_utf16(&w)).transpose().map_err(|e| format!("not UTF-16: {}", e))?;
    let bytes = wide.as_ref().map(|w| w.as_bytes()).unwrap_or(bytes);
    let b = bytes.strip_prefix(&[0xEF, 0xBB, 0xBF]).unwrap_or(bytes);
    let mut p = P { b, i: 0 };
    if p.starts("<?xml") {
        p.i += 2;
        p.until("?>")?;
    }
    p.misc()?;
    let mut scope: Vec<(String, String)> = vec![("xml".into(), "http://www.w3.org/XML/1998/namespace".into()), ("".into(), "".into())];
    let root = elem(&mut p, &mut scope, 0)?;
    p.misc()?;
    if p.i != p.b.len() {
        return p.err("content after the root element");
    }
    Ok(root)
}
fn resolve(scope: &[(String, String)], q: &str, attr: bool) -> R<String> {
    let (pre, loc) = match q.split_once(':') {
        Some((a, b)) => (a, b),
        None => ("", q),
    };
    if loc.is_empty() || loc.contains(':') {
        return Err(format!("bad qualified name {}", q));
    }
    if attr && pre.is_empty() {
        return Ok(loc.into());
    }
    let uri = scope.iter().rev().find(|s| s.0 == pre).map(|s| s.1.as_str());
    match uri {
        None => Err(format!("undeclared prefix {}", pre)),
        Some("") => Ok(loc.into()),
        Some(u) => match KNOWN.iter().find(|k| k.0 == u) {
            Some(k) => Ok(format!("{}{}", k.1, loc)),
            None => Ok(format!("{{{}}}{}", u, loc)),
        },
    }
}
fn elem(p: &mut P, scope: &mut Vec<(String, String)>, depth: usize) -> R<Node> {
    if depth > 200 {
        return p.err("nesting too deep");
    }
    if p.peek() != Some(b'<') {
        return p.err("element expected");
    }
    p.i += 1;
    let q = p.name()?;
    let base = scope.len();
    let mut raw: Vec<(String, String)> = vec![];
    let empty;
    loop {
        let sp = p.ws();
        match p.peek() {
            Some(b'>') => {
                p.i += 1;
                empty = false;
                break;
            }
            Some(b'/') => {
                p.i += 1;
                if p.peek() != Some(b'>') {
                    return p.err("> expected");
                }
                p.i += 1;
                empty = true;
                break;
            }
            Some(c) if is_name_start(c) && sp => {
                let k = p.name()?;
                p.ws();
                if p.peek() != Some(b'=') {
                    return p.err("= expected");
                }
                p.i += 1;
                p.ws();
                let qt = p.peek();
                if qt != Some(b'"') && qt != Some(b'\'') {
                    return p.err("quote expected");
                }
                p.i += 1;
                let v = p.until(if qt == Some(b'"') { "\"" } else { "'" })?;
                let v = expand(v, true).map_err(|e| format!("{} in attribute {}", e, k))?;
                if raw.iter().any(|a| a.0 == k) {
                    return p.err(&format!("duplicate attribute {}", k));
                }
                raw.push((k, v));
            }
            _ => return p.err("bad tag"),
        }
    }
    for (k, v) in &raw {
        if k == "xmlns" {
            scope.push(("".into(), v.clone()));
        } else if let Some(pre) = k.strip_prefix("xmlns:") {
            if v.is_empty() {
                return p.err("empty namespace for prefix");
            }
            scope.push((pre.into(), v.clone()));
        }
    }
    let mut n = Node { name: resolve(scope, &q, false)?, ..Default::default() };
    for (k, v) in raw {
        if k == "xmlns" || k.starts_with("xmlns:") {
            continue;
        }
        let name = resolve(scope, &k, true)?;
        if n.attrs.iter().any(|a| a.0 == name) {
            return p.err("duplicate attribute (same namespace)");
        }
        n.attrs.push((name, v));
    }
    if !empty {
        let mut text = String::new();
        loop {
            if p.i >= p.b.len() {
                return p.err("unexpected end");
            }
            if p.starts("</") {
                p.i += 2;
                let e = p.name()?;
                p.ws();
                if e != q || p.peek() != Some(b'>') {
                    return p.err(&format!("end tag {} for {}", e, q));
                }
                p.i += 1;
                break;
            } else if p.starts("<!--") {
                p.comment()?;
            } else if p.starts("<![CDATA[") {
                p.i += 9;
                let t = p.until("]]>")?;
                let t = std::str::from_utf8(t).map_err(|e| e.to_string())?;
                text.push_str(&t.replace("\r\n", "\n").replace('\r', "\n"));
            } else if p.starts("<?") {
                p.i += 2;
                p.until("?>")?;
            } else if p.starts("<!") {
                return p.err("markup declaration");
            } else if p.peek() == Some(b'<') {
                if !text.is_empty() {
                    n.kids.push(Kid::T(std::mem::take(&mut text)));
                }
                n.kids.push(Kid::E(elem(p, scope, depth + 1)?));
            } else {
                let s = p.i;
                while matches!(p.peek(), Some(c) if c != b'<') {
                    p.i += 1;
                }
                let raw = &p.b[s..p.i];
                if raw.windows(3).any(|w| w == b"]]>") {
                    return p.err("]]> in text");
                }
                text.push_str(&expand(raw, false)?);
            }
        }
        if !text.is_empty() {
            n.kids.push(Kid::T(text));
        }
    }
    scope.truncate(base);
    Ok(n)
}
/// Escape for writing test packages.
pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\r' => o.push_str("&#13;"),
            '\n' => o.push_str("&#10;"),
            '\t' => o.push_str("&#9;"),
            c => o.push(c),
        }
    }
    o
}
