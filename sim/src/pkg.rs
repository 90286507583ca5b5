//! Independent package reader/writer and the neutral view of a workbook that models and files are compared in.
use crate::xml::{self, Node};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};
use std::rc::Rc;

// ------------------------------------------------------------------ zip
pub fn u16le(b: &[u8], i: usize) -> usize {
    b[i] as usize | (b[i + 1] as usize) << 8
}
pub fn u32le(b: &[u8], i: usize) -> usize {
    u16le(b, i) | u16le(b, i + 2) << 16
}
pub struct ZEnt {
    pub name: String,
    pub data_at: usize,
    pub csize: usize,
    pub method: usize,
    pub crc: u32,
    pub usize_: usize,
}
pub fn zip_dir(b: &[u8]) -> Result<Vec<ZEnt>, String> {
    if b.len() < 22 {
        return Err("too short for a zip archive".into());
    }
    let mut e = b.len() - 22;
    loop {
        if &b[e..e + 4] == b"PK\x05\x06" && e + 22 + u16le(b, e + 20) == b.len() {
            break;
        }
        if e == 0 || b.len() - e > 66000 {
            return Err("no end of central directory".into());
        }
        e -= 1;
    }
    let n = u16le(b, e + 10);
    let mut p = u32le(b, e + 16);
    if p + u32le(b, e + 12) > e {
        return Err("central directory out of range".into());
    }
    let mut v = vec![];
    for _ in 0..n {
        if p + 46 > b.len() || &b[p..p + 4] != b"PK\x01\x02" {
            return Err("bad central directory entry".into());
        }
        let (nl, xl, cl) = (u16le(b, p + 28), u16le(b, p + 30), u16le(b, p + 32));
        let name = String::from_utf8(b[p + 46..p + 46 + nl].to_vec()).map_err(|_| "entry name is not UTF-8")?;
        let lh = u32le(b, p + 42);
        if lh + 30 > b.len() || &b[lh..lh + 4] != b"PK\x03\x04" {
            return Err(format!("bad local header of {}", name));
        }
        let lnl = u16le(b, lh + 26);
        let data_at = lh + 30 + lnl + u16le(b, lh + 28);
        if b[lh + 30..lh + 30 + lnl] != *name.as_bytes() {
            return Err(format!("local and central name of {} differ", name));
        }
        let csize = u32le(b, p + 20);
        if data_at + csize > b.len() {
            return Err(format!("data of {} out of range", name));
        }
        v.push(ZEnt { name, data_at, csize, method: u16le(b, p + 10), crc: u32le(b, p + 16) as u32, usize_: u32le(b, p + 24) });
        p += 46 + nl + xl + cl;
    }
    Ok(v)
}
pub fn unzip(b: &[u8]) -> Result<Vec<(String, Vec<u8>)>, String> {
    let mut out = vec![];
    for e in zip_dir(b)? {
        let raw = &b[e.data_at..e.data_at + e.csize];
        let data = match e.method {
            0 => raw.to_vec(),
            8 => {
                let mut v = vec![];
                flate2::read::DeflateDecoder::new(raw).read_to_end(&mut v).map_err(|x| format!("inflate {}: {}", e.name, x))?;
                v
            }
            m => return Err(format!("method {} of {}", m, e.name)),
        };
        let mut c = flate2::Crc::new();
        c.update(&data);
        if c.sum() != e.crc || data.len() != e.usize_ {
            return Err(format!("checksum or size of {} wrong", e.name));
        }
        out.push((e.name, data));
    }
    Ok(out)
}
pub fn zip(parts: &[(String, Vec<u8>)], deflate: bool) -> Vec<u8> {
    zip_as(parts, deflate, false, false)
}
/// descr: sizes after the data, as a producer that cannot seek writes them; extra: extra fields and a comment
pub fn zip_as(parts: &[(String, Vec<u8>)], deflate: bool, descr: bool, extra: bool) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let mut cd: Vec<u8> = vec![];
    for (name, data) in parts {
        let mut c = flate2::Crc::new();
        c.update(data);
        let comp = if deflate {
            let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(6));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        } else {
            data.clone()
        };
        let m: u16 = if deflate { 8 } else { 0 };
        let at = o.len() as u32;
        let descr = descr && deflate;
        let ex: &[u8] = if extra { &[0x55, 0x54, 5, 0, 1, 0x10, 0x20, 0x30, 0x60] } else { &[] };
        let head = |zero: bool| {
            let mut h: Vec<u8> = vec![];
            h.extend(20u16.to_le_bytes());
            h.extend(if descr { 0x0808u16 } else { 0x0800 }.to_le_bytes());
            h.extend(m.to_le_bytes());
            h.extend(0u16.to_le_bytes());
            h.extend(0x5821u16.to_le_bytes());
            h.extend(if zero { 0 } else { c.sum() }.to_le_bytes());
            h.extend(if zero { 0 } else { comp.len() as u32 }.to_le_bytes());
            h.extend(if zero { 0 } else { data.len() as u32 }.to_le_bytes());
            h.extend((name.len() as u16).to_le_bytes());
            h.extend((ex.len() as u16).to_le_bytes());
            h
        };
        o.extend(b"PK\x03\x04");
        o.extend(head(descr));
        o.extend(name.as_bytes());
        o.extend(ex);
        o.extend(&comp);
        if descr {
            o.extend(b"PK\x07\x08");
            o.extend(c.sum().to_le_bytes());
            o.extend((comp.len() as u32).to_le_bytes());
            o.extend((data.len() as u32).to_le_bytes());
        }
        let note: &[u8] = if extra { b"note" } else { b"" };
        cd.extend(b"PK\x01\x02");
        cd.extend(20u16.to_le_bytes());
        cd.extend(head(false));
        cd.extend((note.len() as u16).to_le_bytes());
        cd.extend([0u8; 8]); // disk, internal and external attributes
        cd.extend(at.to_le_bytes());
        cd.extend(name.as_bytes());
        cd.extend(ex);
        cd.extend(note);
    }
    let at = o.len() as u32;
    let n = parts.len() as u16;
    let cl = cd.len() as u32;
    o.extend(&cd);
    o.extend(b"PK\x05\x06");
    o.extend([0u8; 4]);
    o.extend(n.to_le_bytes());
    o.extend(n.to_le_bytes());
    o.extend(cl.to_le_bytes());
    o.extend(at.to_le_bytes());
    let note: &[u8] = if extra { b"archive comment" } else { b"" };
    o.extend((note.len() as u16).to_le_bytes());
    o.extend(note);
    o
}

// ------------------------------------------------------------------ package
#[derive(Clone, Debug, Default)]
pub struct Rel {
    pub id: String,
    pub ty: String,
    pub target: String, // resolved part name, or the raw target when external
    pub external: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Pkg {
    pub parts: BTreeMap<String, Vec<u8>>,
    pub ct_default: BTreeMap<String, String>,
    pub ct_override: BTreeMap<String, String>,
    pub errors: Vec<String>,
}
pub fn resolve(base_dir: &str, target: &str) -> String {
    let full = if let Some(t) = target.strip_prefix('/') { t.to_string() } else if base_dir.is_empty() { target.to_string() } else { format!("{}/{}", base_dir, target) };
    let mut v: Vec<&str> = vec![];
    for c in full.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            x => v.push(x),
        }
    }
    v.join("/")
}
pub fn dir_of(p: &str) -> &str {
    p.rfind('/').map(|i| &p[..i]).unwrap_or("")
}
pub fn rels_name(part: &str) -> String {
    let d = dir_of(part);
    let f = part.rsplit('/').next().unwrap();
    if d.is_empty() { format!("_rels/{}.rels", f) } else { format!("{}/_rels/{}.rels", d, f) }
}
/// part a .rels part belongs to ("" for the package)
pub fn rels_owner(rels: &str) -> Option<String> {
    let (d, f) = rels.rsplit_once('/').unwrap_or(("", rels));
    let d = if d == "_rels" { "" } else { d.strip_suffix("/_rels")? };
    let f = f.strip_suffix(".rels")?;
    Some(if f.is_empty() { "".into() } else if d.is_empty() { f.to_string() } else { format!("{}/{}", d, f) })
}
impl Pkg {
    pub fn read(b: &[u8]) -> Result<Pkg, String> {
        let ents = unzip(b)?;
        let mut p = Pkg::default();
        let mut ct = None;
        let mut seen = BTreeSet::new();
        for (n, d) in ents {
            if !seen.insert(n.to_lowercase()) {
                p.errors.push(format!("part name {} occurs twice", n));
            }
            if n.eq_ignore_ascii_case("[Content_Types].xml") {
                ct = Some(d);
            } else if n.ends_with('/') {
                // directory entry
            } else {
                p.parts.insert(n, d);
            }
        }
        let ct = ct.ok_or("[Content_Types].xml missing")?;
        let t = xml::parse(&ct).map_err(|e| format!("[Content_Types].xml: {}", e))?;
        if t.name != "Types" {
            return Err("content types root".into());
        }
        for e in t.elems() {
            let ty = e.attr("ContentType").unwrap_or("").to_string();
            match e.name.as_str() {
                "Default" => {
                    let x = e.attr("Extension").unwrap_or("").to_lowercase();
                    if x.is_empty() || ty.is_empty() {
                        p.errors.push("content types: Default with empty extension or type".into());
                        continue;
                    }
                    if p.ct_default.insert(x.clone(), ty).is_some() {
                        p.errors.push(format!("content types: Default for {} twice", x));
                    }
                }
                "Override" => {
                    let x = e.attr("PartName").unwrap_or("").to_string();
                    if !x.starts_with('/') || ty.is_empty() {
                        p.errors.push(format!("content types: bad Override {}", x));
                        continue;
                    }
                    if p.ct_override.insert(x[1..].to_string(), ty).is_some() {
                        p.errors.push(format!("content types: Override for {} twice", x));
                    }
                }
                o => p.errors.push(format!("content types: element {}", o)),
            }
        }
        Ok(p)
    }
    pub fn ct(&self, part: &str) -> Option<&str> {
        if let Some(t) = self.ct_override.iter().find(|(k, _)| k.eq_ignore_ascii_case(part)) {
            return Some(t.1);
        }
        let f = part.rsplit('/').next().unwrap_or("");
        let ext = f.rsplit_once('.').map(|x| x.1).unwrap_or("").to_lowercase();
        self.ct_default.get(&ext).map(|s| s.as_str())
    }
    pub fn part(&self, name: &str) -> Option<&Vec<u8>> {
        self.parts.get(name).or_else(|| self.parts.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|x| x.1))
    }
    /// the stored spelling of a part name
    pub fn actual(&self, n: String) -> String {
        if self.parts.contains_key(&n) {
            return n;
        }
        self.parts.keys().find(|k| k.eq_ignore_ascii_case(&n)).cloned().unwrap_or(n)
    }
    pub fn rels_of(&self, part: &str) -> Result<Vec<Rel>, String> {
        let rn = if part.is_empty() { "_rels/.rels".to_string() } else { rels_name(part) };
        let Some(d) = self.part(&rn) else { return Ok(vec![]) };
        let t = xml::parse(d).map_err(|e| format!("{}: {}", rn, e))?;
        let base = dir_of(part);
        Ok(t.all("Relationship")
            .map(|e| {
                let ext = e.attr("TargetMode") == Some("External");
                let raw = e.attr("Target").unwrap_or("");
                Rel { id: e.attr("Id").unwrap_or("").into(), ty: e.attr("Type").unwrap_or("").into(), target: if ext { raw.into() } else { self.actual(resolve(base, raw)) }, external: ext }
            })
            .collect())
    }
}
pub fn rel_kind(ty: &str) -> &str {
    ty.rsplit('/').next().unwrap_or("")
}

// ------------------------------------------------------------------ workbook view
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Cell {
    pub kind: char, // n number, s text, b boolean, e error, d date, ' ' blank
    pub val: String,
    pub rich: Option<String>,
    pub f: Option<String>,
    pub fattr: String,
    pub xf: usize,
    pub style: Rc<str>,
    pub extra: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct RowV {
    pub p: BTreeMap<String, String>,
    pub style: Option<Rc<str>>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct ColV {
    pub p: BTreeMap<String, String>,
    pub style: Option<Rc<str>>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct SheetV {
    pub name: String,
    pub state: String,
    pub sheet_id: String,
    pub part: String,
    pub kind: String, // worksheet, chartsheet, ...
    pub cells: BTreeMap<(u32, u32), Cell>,
    pub rows: BTreeMap<u32, RowV>,
    pub cols: Vec<(u32, u32, ColV)>, // disjoint, ascending, merged
    pub views: Vec<String>,
    pub others: Vec<(String, String)>,
    pub rels: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Wb {
    pub sheets: Vec<SheetV>,
    pub active: usize,
    pub view: BTreeMap<String, String>,
    pub others: Vec<(String, String)>,
    /// defined names: index of the sheet they belong to, content
    pub names: Vec<(Option<usize>, String)>,
    pub style_others: Vec<(String, String)>,
    pub xfs: Vec<Rc<str>>,
    pub calc: BTreeSet<(String, String)>,
    pub wb_part: String,
    pub wb_ct: String,
    pub sst_len: usize,
}
pub fn boolv(s: &str) -> bool {
    matches!(s.trim(), "1" | "true" | "on")
}
pub fn parse_ref(s: &str) -> Option<(u32, u32)> {
    let l: String = s.chars().take_while(|c| c.is_ascii_uppercase()).collect();
    let d = &s[l.len()..];
    if l.is_empty() || l.len() > 3 || d.is_empty() || d.starts_with('0') || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let c = l.bytes().fold(0u32, |a, b| a * 26 + (b - b'A' + 1) as u32);
    let r: u32 = d.parse().ok()?;
    if c > 16384 || r > 1_048_576 { None } else { Some((r, c)) }
}
pub fn col_name(mut c: u32) -> String {
    let mut s = String::new();
    while c > 0 {
        c -= 1;
        s.insert(0, (b'A' + (c % 26) as u8) as char);
        c /= 26;
    }
    s
}
fn num_eq(a: &str, b: &str) -> bool {
    a == b || matches!((a.parse::<f64>(), b.parse::<f64>()), (Ok(x), Ok(y)) if x == y)
}
impl Cell {
    pub fn same_value(&self, o: &Cell) -> bool {
        self.kind == o.kind && self.f == o.f && self.fattr == o.fattr && self.rich == o.rich && self.extra == o.extra && if self.kind == 'n' { num_eq(&self.val, &o.val) } else { self.val == o.val }
    }
    pub fn show(&self) -> String {
        format!("{}:{:?}{}{}", self.kind, self.val, self.f.as_ref().map(|f| format!(" f={:?}{}", f, self.fattr)).unwrap_or_default(), self.rich.as_ref().map(|r| format!(" rich={}", r)).unwrap_or_default())
    }
    pub fn is_blank_default(&self) -> bool {
        self.kind == ' ' && self.f.is_none() && self.xf == 0 && self.extra.is_empty()
    }
}
fn norm_font(n: &Node) -> String {
    let mut v: Vec<String> = vec![];
    for e in n.elems() {
        let val = e.attr("val");
        match e.name.as_str() {
            "b" | "i" | "strike" | "outline" | "shadow" | "condense" | "extend" => {
                if val.map(boolv).unwrap_or(true) {
                    v.push(e.name.clone());
                }
            }
            "u" => match val {
                Some("none") => {}
                None | Some("single") => v.push("u".into()),
                Some(x) => v.push(format!("u={}", x)),
            },
            "sz" => v.push(format!("sz={}", val.and_then(|x| x.parse::<f64>().ok()).unwrap_or(-1.0))),
            "color" => v.push(format!("color[{}]", norm_attrs(e))),
            n => v.push(format!("{}[{}]", n, norm_attrs(e))),
        }
    }
    v.sort();
    v.join(",")
}
fn norm_attrs(e: &Node) -> String {
    let mut a: Vec<String> = e.attrs.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    a.sort();
    a.join(" ")
}
fn norm_fill(n: &Node) -> String {
    if let Some(p) = n.find("patternFill") {
        let t = p.attr("patternType").unwrap_or("none");
        let mut s = format!("pat={}", t);
        for e in p.elems() {
            s.push_str(&format!(",{}[{}]", e.name, norm_attrs(e)));
        }
        return s;
    }
    n.elems().map(|e| e.canon()).collect()
}
fn norm_border(n: &Node) -> String {
    let mut v: Vec<String> = n.attrs.iter().filter(|a| boolv(&a.1)).map(|a| a.0.clone()).collect();
    for e in n.elems() {
        let st = e.attr("style").unwrap_or("none");
        if st == "none" && e.elems().next().is_none() {
            continue;
        }
        if st == "none" {
            continue;
        }
        v.push(format!("{}={}{}", e.name, st, e.elems().map(|c| format!("({} {})", c.name, norm_attrs(c))).collect::<String>()));
    }
    v.sort();
    v.join(",")
}
fn norm_align(n: &Node) -> String {
    let mut v: Vec<String> = vec![];
    for (k, x) in &n.attrs {
        match (k.as_str(), x.as_str()) {
            ("horizontal", "general") | ("horizontal", "none") | ("vertical", "none") | ("vertical", "bottom") => {}
            ("wrapText" | "shrinkToFit" | "justifyLastLine", b) => {
                if boolv(b) {
                    v.push(k.clone());
                }
            }
            ("indent" | "textRotation" | "readingOrder" | "relativeIndent", "0") => {}
            _ => v.push(format!("{}={}", k, x)),
        }
    }
    v.sort();
    v.join(",")
}
pub struct Styles {
    pub xfs: Vec<Rc<str>>,
    pub others: Vec<(String, String)>,
    pub errors: Vec<String>,
    pub dxfs: usize,
}
pub fn read_styles(d: &[u8]) -> Result<Styles, String> {
    let t = xml::parse(d).map_err(|e| format!("styles: {}", e))?;
    let mut errors = vec![];
    let list = |n: &str| -> Vec<&Node> { t.find(n).map(|x| x.elems().collect()).unwrap_or_default() };
    let mut nf: HashMap<String, String> = HashMap::new();
    for e in list("numFmts") {
        let id = e.attr("numFmtId").unwrap_or("").to_string();
        if nf.insert(id.clone(), e.attr("formatCode").unwrap_or("").to_string()).is_some() {
            errors.push(format!("number format id {} twice", id));
        }
    }
    let fonts: Vec<String> = list("fonts").iter().map(|n| norm_font(n)).collect();
    let fills: Vec<String> = list("fills").iter().map(|n| norm_fill(n)).collect();
    let borders: Vec<String> = list("borders").iter().map(|n| norm_border(n)).collect();
    for n in ["fonts", "fills", "borders", "cellXfs", "cellStyleXfs", "cellStyles", "dxfs", "numFmts"] {
        if let Some(e) = t.find(n) {
            if let Some(c) = e.attr("count") {
                if c.parse::<usize>().ok() != Some(e.elems().count()) {
                    errors.push(format!("styles: count of {} is {} but {} entries", n, c, e.elems().count()));
                }
            }
        }
    }
    let base = list("cellStyleXfs").len();
    let mut render = |x: &Node, what: &str| -> String {
        let ix = |k: &str| x.attr(k).unwrap_or("0").parse::<usize>().unwrap_or(usize::MAX);
        let mut get = |k: &str, v: &Vec<String>| match v.get(ix(k)) {
            Some(s) => s.clone(),
            None => {
                errors.push(format!("styles: {} {} {} out of range", what, k, x.attr(k).unwrap_or("0")));
                "?".into()
            }
        };
        let f = get("fontId", &fonts);
        let fi = get("fillId", &fills);
        let b = get("borderId", &borders);
        let id = x.attr("numFmtId").unwrap_or("0");
        let n = match nf.get(id) {
            Some(c) => format!("{:?}", c),
            None => {
                if id.parse::<u32>().map(|i| i >= 164).unwrap_or(true) {
                    errors.push(format!("styles: {} uses undefined number format {}", what, id));
                }
                format!("#{}", id)
            }
        };
        let al = x.find("alignment").map(norm_align).unwrap_or_default();
        let pr = x.find("protection").map(norm_attrs).unwrap_or_default();
        let q = format!("{}{}", if x.attr("quotePrefix").map(boolv).unwrap_or(false) { " quote" } else { "" }, if x.attr("pivotButton").map(boolv).unwrap_or(false) { " pivot" } else { "" });
        format!("font({}) fill({}) border({}) num({}) align({}) prot({}){}", f, fi, b, n, al, pr, q)
    };
    let mut xfs: Vec<Rc<str>> = vec![];
    let mut named = vec![];
    for x in list("cellStyleXfs") {
        named.push(render(x, "cellStyleXf"));
    }
    for x in list("cellXfs") {
        let s = render(x, "cellXf");
        xfs.push(s.into());
    }
    for x in list("cellXfs") {
        if let Some(i) = x.attr("xfId") {
            if base > 0 && i.parse::<usize>().map(|i| i >= base).unwrap_or(true) {
                errors.push(format!("styles: cellXf xfId {} out of range", i));
            }
        }
    }
    let mut others = vec![];
    for e in list("cellStyles") {
        let i: usize = e.attr("xfId").unwrap_or("0").parse().unwrap_or(usize::MAX);
        let mut a: Vec<String> = e.attrs.iter().filter(|a| a.0 != "xfId").map(|a| format!("{}={}", a.0, a.1)).collect();
        a.sort();
        others.push(("cellStyle".to_string(), format!("{} -> {}", a.join(" "), named.get(i).cloned().unwrap_or("?".into()))));
        if i >= base {
            errors.push("styles: cellStyle xfId out of range".into());
        }
    }
    for e in t.elems() {
        if !["numFmts", "fonts", "fills", "borders", "cellXfs", "cellStyleXfs", "cellStyles"].contains(&e.name.as_str()) {
            if e.elems().next().is_some() {
                others.push((e.name.clone(), e.canon()));
            }
        }
    }
    let dxfs = list("dxfs").len();
    Ok(Styles { xfs, others, errors, dxfs })
}
pub fn sst_item(si: &Node) -> (String, Option<String>) {
    // text of t and r/t; phonetic runs do not count
    let mut s = String::new();
    let mut rich = false;
    for e in si.elems() {
        match e.name.as_str() {
            "t" => s.push_str(&e.text()),
            "r" => {
                rich = true;
                for t in e.all("t") {
                    s.push_str(&t.text());
                }
            }
            "rPh" | "phoneticPr" => rich = true,
            _ => rich = true,
        }
    }
    // ST_Xstring escapes
    (unx(&s), if rich { Some(si.elems().map(|e| e.canon()).collect()) } else { None })
}
/// `_xHHHH_` escapes of ST_Xstring
pub fn unx(s: &str) -> String {
    if !s.contains("_x") {
        return s.to_string();
    }
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '_' && i + 6 < c.len() && c[i + 1] == 'x' && c[i + 6] == '_' && c[i + 2..i + 6].iter().all(|x| x.is_ascii_hexdigit()) {
            let h: String = c[i + 2..i + 6].iter().collect();
            if let Some(ch) = char::from_u32(u32::from_str_radix(&h, 16).unwrap()) {
                o.push(ch);
                i += 7;
                continue;
            }
        }
        o.push(c[i]);
        i += 1;
    }
    o
}
/// the text a `t` element must hold so that white space survives in other readers
pub fn t_space_ok(t: &Node) -> bool {
    let s = t.text();
    let edge = s.starts_with([' ', '\n', '\t', '\r']) || s.ends_with([' ', '\n', '\t', '\r']);
    !edge || t.attr("xml:space") == Some("preserve")
}
pub const SHEET_ORDER: &[&str] = &[
    "sheetPr", "dimension", "sheetViews", "sheetFormatPr", "cols", "sheetData", "sheetCalcPr", "sheetProtection", "protectedRanges", "scenarios", "autoFilter", "sortState", "dataConsolidate", "customSheetViews", "mergeCells", "phoneticPr", "conditionalFormatting", "dataValidations", "hyperlinks", "printOptions", "pageMargins", "pageSetup", "headerFooter", "rowBreaks", "colBreaks", "customProperties", "cellWatches", "ignoredErrors", "smartTags", "drawing", "legacyDrawing", "legacyDrawingHF", "drawingHF", "picture", "oleObjects", "controls", "webPublishItems", "tableParts", "extLst",
];
pub const WB_ORDER: &[&str] = &[
    "fileVersion", "fileSharing", "workbookPr", "mc:AlternateContent", "workbookProtection", "bookViews", "sheets", "functionGroups", "externalReferences", "definedNames", "calcPr", "oleSize", "customWorkbookViews", "pivotCaches", "smartTagPr", "smartTagTypes", "webPublishing", "fileRecoveryPr", "webPublishObjects", "extLst",
];
pub const STYLE_ORDER: &[&str] = &["numFmts", "fonts", "fills", "borders", "cellStyleXfs", "cellXfs", "cellStyles", "dxfs", "tableStyles", "colors", "extLst"];
pub fn find_workbook(p: &Pkg) -> Result<String, String> {
    let r = p.rels_of("")?;
    let w = r.iter().find(|r| rel_kind(&r.ty) == "officeDocument").ok_or("no office document relationship")?;
    if p.part(&w.target).is_none() {
        return Err(format!("office document part {} missing", w.target));
    }
    Ok(w.target.clone())
}
/// Reads the workbook; Err only when it cannot be read at all. Semantic flaws go to `lint`.
pub fn read_wb(p: &Pkg) -> Result<Wb, String> {
    let mut w = Wb::default();
    w.wb_part = find_workbook(p)?;
    w.wb_ct = p.ct(&w.wb_part).unwrap_or("").to_string();
    let t = xml::parse(p.part(&w.wb_part).unwrap()).map_err(|e| format!("{}: {}", w.wb_part, e))?;
    if t.name != "workbook" {
        return Err("root of the workbook part".into());
    }
    let rels = p.rels_of(&w.wb_part)?;
    let by_kind = |k: &str| rels.iter().find(|r| rel_kind(&r.ty) == k && !r.external).and_then(|r| p.part(&r.target));
    let mut sst: Vec<(String, Option<String>)> = vec![];
    if let Some(d) = by_kind("sharedStrings") {
        let t = xml::parse(d).map_err(|e| format!("shared strings: {}", e))?;
        sst = t.all("si").map(sst_item).collect();
    }
    w.sst_len = sst.len();
    let mut xfs: Vec<Rc<str>> = vec![];
    if let Some(d) = by_kind("styles") {
        let s = read_styles(d)?;
        xfs = s.xfs;
        w.style_others = s.others;
    }
    if let Some(d) = by_kind("calcChain") {
        let t = xml::parse(d).map_err(|e| format!("calc chain: {}", e))?;
        let mut i = String::new();
        for c in t.all("c") {
            if let Some(x) = c.attr("i") {
                i = x.into();
            }
            w.calc.insert((i.clone(), c.attr("r").unwrap_or("").into()));
        }
    }
    let unknown: Rc<str> = "?".into();
    let style = |i: usize| xfs.get(i).cloned().unwrap_or_else(|| if i == 0 { "".into() } else { unknown.clone() });
    if let Some(v) = t.find("bookViews").and_then(|b| b.find("workbookView")) {
        for (k, x) in &v.attrs {
            if k == "activeTab" {
                w.active = x.parse().unwrap_or(usize::MAX);
            } else {
                let (def, isb) = match k.as_str() {
                    "showSheetTabs" | "showHorizontalScroll" | "showVerticalScroll" | "autoFilterDateGrouping" => ("1", true),
                    "minimized" => ("0", true),
                    "visibility" => ("visible", false),
                    "firstSheet" => ("0", false),
                    "tabRatio" => ("600", false),
                    _ => ("", false),
                };
                let x = if isb { if boolv(x) { "1".to_string() } else { "0".to_string() } } else { x.clone() };
                if x != def {
                    w.view.insert(k.clone(), x);
                }
            }
        }
        for (i, v) in t.find("bookViews").unwrap().all("workbookView").enumerate().skip(1) {
            w.view.insert(format!("view{}", i), v.canon());
        }
    }
    for e in t.elems() {
        if e.name == "definedNames" {
            for n in e.all("definedName") {
                let mut x = n.clone();
                let l = n.attr("localSheetId").map(|l| l.parse().unwrap_or(usize::MAX - 1));
                x.attrs.retain(|a| a.0 != "localSheetId");
                w.names.push((l, x.canon()));
            }
        } else if e.name != "sheets" && e.name != "bookViews" {
            w.others.push((e.name.clone(), e.canon()));
        }
    }
    for s in t.find("sheets").map(|s| s.all("sheet").collect::<Vec<_>>()).unwrap_or_default() {
        let mut v = SheetV { name: s.attr("name").unwrap_or("").into(), state: s.attr("state").unwrap_or("visible").into(), sheet_id: s.attr("sheetId").unwrap_or("").into(), ..Default::default() };
        let rid = s.attr("r:id").unwrap_or("");
        let Some(rel) = rels.iter().find(|r| r.id == rid) else { return Err(format!("sheet {} has no relationship {}", v.name, rid)) };
        v.part = rel.target.clone();
        v.kind = rel_kind(&rel.ty).into();
        let Some(d) = p.part(&rel.target) else { return Err(format!("sheet {} leads to missing part {}", v.name, rel.target)) };
        let mut r: Vec<String> = p.rels_of(&rel.target)?.iter().map(|r| format!("{} {} {} {}", r.id, rel_kind(&r.ty), r.target, r.external)).collect();
        r.sort();
        v.rels = r;
        let st = xml::parse(d).map_err(|e| format!("{}: {}", rel.target, e))?;
        if v.kind != "worksheet" {
            v.others.push(("root".into(), st.canon()));
            w.sheets.push(v);
            continue;
        }
        if st.name != "worksheet" {
            return Err(format!("root of sheet part {}", rel.target));
        }
        for e in st.elems() {
            match e.name.as_str() {
                "dimension" => {}
                "sheetData" => {
                    let mut last_r = 0;
                    let mut shared = BTreeMap::new();
                    let mut users = vec![];
                    for row in e.all("row") {
                        let ri: u32 = match row.attr("r") {
                            Some(x) => x.parse().map_err(|_| format!("row number {}", x))?,
                            None => last_r + 1,
                        };
                        last_r = ri;
                        let mut rv = RowV::default();
                        let custom_f = row.attr("customFormat").map(boolv).unwrap_or(false);
                        for (k, x) in &row.attrs {
                            match k.as_str() {
                                "r" | "spans" | "customFormat" | "x14ac:dyDescent" => {}
                                "s" => {
                                    if custom_f {
                                        rv.style = Some(style(x.parse().unwrap_or(usize::MAX)));
                                    }
                                }
                                "hidden" | "collapsed" | "thickTop" | "thickBot" | "ph" | "customHeight" => {
                                    if boolv(x) {
                                        rv.p.insert(k.clone(), "1".into());
                                    }
                                }
                                "outlineLevel" => {
                                    if x != "0" {
                                        rv.p.insert(k.clone(), x.clone());
                                    }
                                }
                                "ht" => {
                                    rv.p.insert(k.clone(), format!("{}", x.parse::<f64>().unwrap_or(f64::NAN) as f32));
                                }
                                _ => {
                                    rv.p.insert(k.clone(), x.clone());
                                }
                            }
                        }
                        if rv != RowV::default() {
                            v.rows.insert(ri, rv);
                        }
                        let mut last_c = 0;
                        for c in row.all("c") {
                            let (r2, ci) = match c.attr("r") {
                                Some(x) => parse_ref(x).ok_or(format!("cell reference {}", x))?,
                                None => (ri, last_c + 1),
                            };
                            last_c = ci;
                            let mut cell = read_cell(c, &sst, &style)?;
                            if let Some(f) = c.find("f").filter(|f| f.attr("t") == Some("shared")) {
                                // a shared formula stands for the formula of each cell
                                let si = f.attr("si").unwrap_or("").to_string();
                                if !f.text().is_empty() {
                                    shared.insert(si, (r2, ci, f.text()));
                                } else {
                                    users.push((r2, ci, si));
                                }
                                cell.fattr = f.attrs.iter().filter(|a| !["t", "si", "ref", "xml:space"].contains(&a.0.as_str())).map(|a| format!(" {}={}", a.0, a.1)).collect::<Vec<_>>().concat();
                            }
                            if !cell.is_blank_default() {
                                v.cells.insert((r2, ci), cell);
                            }
                        }
                    }
                    for (r, c, si) in users {
                        if let Some(cell) = v.cells.get_mut(&(r, c)) {
                            cell.f = Some(match shared.get(&si) {
                                Some((r0, c0, t)) => shift_formula(t, r as i64 - *r0 as i64, c as i64 - *c0 as i64),
                                None => "(a shared formula without definition)".into(),
                            });
                        }
                    }
                }
                "cols" => {
                    let mut cols = vec![];
                    for c in e.all("col") {
                        let g = |k: &str| c.attr(k).and_then(|x| x.parse::<u32>().ok());
                        let (a, b) = (g("min").ok_or("col min")?, g("max").ok_or("col max")?);
                        let mut cv = ColV::default();
                        for (k, x) in &c.attrs {
                            match k.as_str() {
                                "min" | "max" => {}
                                "style" => {
                                    let i: usize = x.parse().unwrap_or(usize::MAX);
                                    if i != 0 {
                                        cv.style = Some(style(i));
                                    }
                                }
                                "hidden" | "bestFit" | "customWidth" | "collapsed" | "phonetic" => {
                                    if boolv(x) {
                                        cv.p.insert(k.clone(), "1".into());
                                    }
                                }
                                "outlineLevel" => {
                                    if x != "0" {
                                        cv.p.insert(k.clone(), x.clone());
                                    }
                                }
                                "width" => {
                                    cv.p.insert(k.clone(), format!("{}", x.parse::<f64>().unwrap_or(f64::NAN) as f32));
                                }
                                _ => {
                                    cv.p.insert(k.clone(), x.clone());
                                }
                            }
                        }
                        cols.push((a, b, cv));
                    }
                    v.cols = norm_cols(cols);
                }
                "sheetViews" => {
                    for x in e.elems() {
                        v.views.push(norm_view(x));
                    }
                }
                n => v.others.push((n.into(), e.canon())),
            }
        }
        w.sheets.push(v);
    }
    w.xfs = xfs.clone();
    Ok(w)
}
fn norm_view(x: &Node) -> String {
    let mut n = x.clone();
    n.attrs.retain_mut(|(k, v)| {
        let d = match k.as_str() {
            "showFormulas" | "windowProtection" | "rightToLeft" | "tabSelected" => Some("0"),
            "showGridLines" | "showRowColHeaders" | "showZeros" | "showRuler" | "showOutlineSymbols" | "defaultGridColor" | "showWhiteSpace" => Some("1"),
            _ => None,
        };
        if let Some(d) = d {
            *v = if boolv(v) { "1".into() } else { "0".into() };
            return v != d && k != "tabSelected";
        }
        !(k == "view" && v == "normal" || k == "zoomScale" && v == "100")
    });
    n.canon()
}
pub fn norm_cols(mut cols: Vec<(u32, u32, ColV)>) -> Vec<(u32, u32, ColV)> {
    cols.retain(|c| c.2 != ColV::default());
    cols.sort_by_key(|c| c.0);
    let mut o: Vec<(u32, u32, ColV)> = vec![];
    for c in cols {
        if let Some(l) = o.last_mut() {
            if l.1 + 1 == c.0 && l.2 == c.2 {
                l.1 = c.1;
                continue;
            }
        }
        o.push(c);
    }
    o
}
/// the formula as it reads for a cell that many rows and columns away
pub fn shift_formula(f: &str, dr: i64, dc: i64) -> String {
    let c: Vec<char> = f.chars().collect();
    let word = |x: char| x.is_alphanumeric() || x == '_' || x == '.' || x == '$';
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '"' || c[i] == '\'' {
            let q = c[i];
            let b = i;
            i += 1;
            while i < c.len() && c[i] != q {
                i += 1;
            }
            i = (i + 1).min(c.len());
            o.extend(&c[b..i]);
            continue;
        }
        if !word(c[i]) {
            o.push(c[i]);
            i += 1;
            continue;
        }
        let b = i;
        while i < c.len() && word(c[i]) {
            i += 1;
        }
        let w: String = c[b..i].iter().collect();
        let next = c.get(i).copied().unwrap_or(' ');
        let (ac, rest) = match w.strip_prefix('$') {
            Some(r) => (true, r),
            None => (false, w.as_str()),
        };
        let k = rest.find(|x: char| !x.is_ascii_uppercase()).unwrap_or(rest.len());
        let (col, rest) = rest.split_at(k);
        let (ar, row) = match rest.strip_prefix('$') {
            Some(r) => (true, r),
            None => (false, rest),
        };
        if next == '(' || next == '!' || col.is_empty() || col.len() > 3 || row.is_empty() || !row.bytes().all(|x| x.is_ascii_digit()) {
            o.push_str(&w);
            continue;
        }
        let Some((r, cc)) = parse_ref(&format!("{}{}", col, row)) else {
            o.push_str(&w);
            continue;
        };
        let r = if ar { r as i64 } else { r as i64 + dr };
        let cc = if ac { cc as i64 } else { cc as i64 + dc };
        o.push_str(&format!("{}{}{}{}", if ac { "$" } else { "" }, col_name(cc.max(1) as u32), if ar { "$" } else { "" }, r));
    }
    o
}
fn read_cell(c: &Node, sst: &[(String, Option<String>)], style: &dyn Fn(usize) -> Rc<str>) -> Result<Cell, String> {
    let mut o = Cell { kind: ' ', ..Default::default() };
    o.xf = c.attr("s").map(|x| x.parse().unwrap_or(usize::MAX)).unwrap_or(0);
    o.style = style(o.xf);
    let t = c.attr("t").unwrap_or("n");
    let v = c.find("v").map(|v| v.text());
    if let Some(f) = c.find("f") {
        let mut fa: Vec<String> = f.attrs.iter().filter(|a| !(a.0 == "ca" && a.1 == "0") && !(a.0 == "t" && a.1 == "normal") && a.0 != "xml:space").map(|a| format!(" {}={}", a.0, a.1)).collect();
        fa.sort();
        o.fattr = fa.concat();
        o.f = Some(f.text());
        if f.text().is_empty() && fa.is_empty() {
            o.f = None;
        }
    }
    match t {
        "s" => {
            let v = v.unwrap_or_default();
            let i: usize = v.trim().parse().map_err(|_| format!("shared string index {:?}", v))?;
            let (s, r) = sst.get(i).ok_or(format!("shared string {} of {}", i, sst.len()))?;
            o.kind = 's';
            o.val = s.clone();
            o.rich = r.clone();
        }
        "inlineStr" => {
            if let Some(is) = c.find("is") {
                let (s, r) = sst_item(is);
                o.kind = 's';
                o.val = s;
                o.rich = r;
            }
        }
        "str" => {
            o.kind = 's';
            o.val = unx(&v.unwrap_or_default());
        }
        "b" | "e" | "d" | "n" => {
            let v = v.unwrap_or_default();
            if !v.is_empty() {
                o.kind = t.chars().next().unwrap();
                o.val = if t == "b" { if boolv(&v) { "1".into() } else { "0".into() } } else { v };
            }
        }
        x => return Err(format!("cell type {:?}", x)),
    }
    let mut ex: Vec<String> = c.attrs.iter().filter(|a| matches!(a.0.as_str(), "cm" | "vm") || (a.0 == "ph" && boolv(&a.1))).map(|a| format!("{}={}", a.0, a.1)).collect();
    ex.sort();
    for e in c.elems() {
        if !matches!(e.name.as_str(), "v" | "f" | "is") {
            ex.push(e.canon());
        }
    }
    o.extra = ex.join(" ");
    Ok(o)
}

// ------------------------------------------------------------------ consistency of a saved package (D10)
const TYPES: &[(&str, &str)] = &[("officeDocument", ".main+xml"), ("worksheet", ".worksheet+xml"), ("sharedStrings", ".sharedStrings+xml"), ("styles", ".styles+xml"), ("theme", ".theme+xml"), ("calcChain", ".calcChain+xml"), ("core-properties", ".core-properties+xml"), ("chartsheet", ".chartsheet+xml"), ("drawing", ".drawing+xml"), ("comments", ".comments+xml"), ("table", ".table+xml")];
pub fn lint(p: &Pkg) -> Vec<String> {
    let mut e = p.errors.clone();
    let mut incoming: BTreeSet<String> = BTreeSet::new();
    for (n, d) in &p.parts {
        if p.ct(n).is_none() {
            e.push(format!("no content type for part {}", n));
        }
        let is_xml = n.ends_with(".xml") || n.ends_with(".rels") || n.ends_with(".vml");
        if is_xml {
            if let Err(x) = xml::parse(d) {
                e.push(format!("part {} is not well-formed: {}", n, x));
            }
        }
        if n.ends_with(".rels") && (n.starts_with("_rels/") || n.contains("/_rels/")) {
            let Some(owner) = rels_owner(n).map(|o| p.actual(o)) else { continue };
            if !owner.is_empty() && p.part(&owner).is_none() {
                e.push(format!("relationships {} belong to no part", n));
            }
            match p.rels_of(&owner) {
                Ok(rs) => {
                    let mut ids = BTreeSet::new();
                    for r in rs {
                        if r.id.is_empty() || !ids.insert(r.id.clone()) {
                            e.push(format!("relationship id {:?} of {} twice or empty", r.id, n));
                        }
                        if !r.external {
                            let t = r.target.split('#').next().unwrap_or("").to_string();
                            if p.part(&t).is_none() && !r.target.starts_with('#') && !t.is_empty() {
                                e.push(format!("relationship {} of {} leads to missing part {}", r.id, n, t));
                            }
                            // what stands at the end of a relationship of a known kind is of that kind
                            let kind = r.ty.rsplit('/').next().unwrap_or("");
                            if let (Some((_, want)), Some(ct)) = (TYPES.iter().find(|x| x.0 == kind), p.ct(&t)) {
                                if !ct.ends_with(want) {
                                    e.push(format!("part {} at the end of a {} relationship has content type {}", t, kind, ct));
                                }
                            }
                            incoming.insert(t.to_lowercase());
                        }
                    }
                }
                Err(x) => e.push(x),
            }
        }
    }
    for n in p.ct_override.keys() {
        if p.part(n).is_none() {
            e.push(format!("content type override for missing part {}", n));
        }
    }
    for n in p.parts.keys() {
        if let Some((dir, base)) = n.rsplit_once("_rels/") {
            let src = format!("{}{}", dir, base.strip_suffix(".rels").unwrap_or(base));
            if base != ".rels" && p.part(&src).is_none() {
                e.push(format!("relationships {} of a part that does not exist", n));
            }
        }
    }
    // what a deleted sheet referred to may stay behind, what the library itself manages may not
    const OWN: &[&str] = &["worksheet+xml", "sharedStrings+xml", "styles+xml", "theme+xml", "calcChain+xml", "core-properties+xml", "sheet.main+xml", "document.main+xml", "presentation.main+xml"];
    for n in p.parts.keys() {
        if (n.starts_with("_rels/") || n.contains("/_rels/")) || incoming.contains(&n.to_lowercase()) {
            continue;
        }
        if p.ct(n).is_some_and(|c| OWN.iter().any(|o| c.ends_with(o))) {
            e.push(format!("orphan part {}", n));
        }
    }
    e
}
fn order_check(e: &mut Vec<String>, what: &str, n: &Node, order: &[&str], repeat: &[&str]) {
    let mut last = 0;
    let mut seen: BTreeSet<&str> = BTreeSet::new();
    for c in n.elems() {
        // a branch of alternate content stands for its elements
        let branches: Vec<&Node> = if c.name == "mc:AlternateContent" { c.elems().flat_map(|b| b.elems()).chain([c]).collect() } else { vec![c] };
        let mut next = last;
        for b in branches {
            if let Some(i) = order.iter().position(|o| *o == b.name) {
                if i < last {
                    e.push(format!("{}: element {} out of schema order", what, b.name));
                }
                next = next.max(i);
            }
        }
        last = next;
        if !seen.insert(&c.name) && !repeat.contains(&c.name.as_str()) {
            e.push(format!("{}: element {} occurs twice", what, c.name));
        }
    }
}
// The simple types of the spreadsheet schema, for the attributes the code writes itself
const BOOLS: &[&str] = &["0", "1", "true", "false"];
const HALIGN: &[&str] = &["general", "left", "center", "right", "fill", "justify", "centerContinuous", "distributed"];
const VALIGN: &[&str] = &["top", "center", "bottom", "justify", "distributed"];
const BSTYLE: &[&str] = &["none", "thin", "medium", "dashed", "dotted", "thick", "double", "hair", "mediumDashed", "dashDot", "mediumDashDot", "dashDotDot", "mediumDashDotDot", "slantDashDot"];
const PATTERN: &[&str] = &["none", "solid", "mediumGray", "darkGray", "lightGray", "darkHorizontal", "darkVertical", "darkDown", "darkUp", "darkGrid", "darkTrellis", "lightHorizontal", "lightVertical", "lightDown", "lightUp", "lightGrid", "lightTrellis", "gray125", "gray0625"];
const ULINE: &[&str] = &["single", "double", "singleAccounting", "doubleAccounting", "none"];
const PANE: &[&str] = &["bottomRight", "topRight", "bottomLeft", "topLeft"];
const VIS: &[&str] = &["visible", "hidden", "veryHidden"];
const VALUES: &[(&str, &str, &[&str])] = &[
    ("b", "val", BOOLS),
    ("i", "val", BOOLS),
    ("strike", "val", BOOLS),
    ("outline", "val", BOOLS),
    ("u", "val", ULINE),
    ("scheme", "val", &["none", "major", "minor"]),
    ("vertAlign", "val", &["baseline", "superscript", "subscript"]),
    ("patternFill", "patternType", PATTERN),
    ("gradientFill", "type", &["linear", "path"]),
    ("left", "style", BSTYLE),
    ("right", "style", BSTYLE),
    ("top", "style", BSTYLE),
    ("bottom", "style", BSTYLE),
    ("diagonal", "style", BSTYLE),
    ("border", "diagonalUp", BOOLS),
    ("border", "diagonalDown", BOOLS),
    ("border", "outline", BOOLS),
    ("alignment", "horizontal", HALIGN),
    ("alignment", "vertical", VALIGN),
    ("alignment", "wrapText", BOOLS),
    ("alignment", "justifyLastLine", BOOLS),
    ("alignment", "shrinkToFit", BOOLS),
    ("protection", "locked", BOOLS),
    ("protection", "hidden", BOOLS),
    ("xf", "applyNumberFormat", BOOLS),
    ("xf", "applyFont", BOOLS),
    ("xf", "applyFill", BOOLS),
    ("xf", "applyBorder", BOOLS),
    ("xf", "applyAlignment", BOOLS),
    ("xf", "applyProtection", BOOLS),
    ("xf", "quotePrefix", BOOLS),
    ("xf", "pivotButton", BOOLS),
    ("color", "auto", BOOLS),
    ("sheet", "state", VIS),
    ("workbookView", "visibility", VIS),
    ("workbookView", "minimized", BOOLS),
    ("workbookView", "showHorizontalScroll", BOOLS),
    ("workbookView", "showVerticalScroll", BOOLS),
    ("workbookView", "showSheetTabs", BOOLS),
    ("workbookView", "autoFilterDateGrouping", BOOLS),
    ("sheetView", "windowProtection", BOOLS),
    ("sheetView", "showFormulas", BOOLS),
    ("sheetView", "showGridLines", BOOLS),
    ("sheetView", "showRowColHeaders", BOOLS),
    ("sheetView", "showZeros", BOOLS),
    ("sheetView", "rightToLeft", BOOLS),
    ("sheetView", "tabSelected", BOOLS),
    ("sheetView", "showRuler", BOOLS),
    ("sheetView", "showOutlineSymbols", BOOLS),
    ("sheetView", "defaultGridColor", BOOLS),
    ("sheetView", "showWhiteSpace", BOOLS),
    ("sheetView", "view", &["normal", "pageBreakPreview", "pageLayout"]),
    ("pane", "activePane", PANE),
    ("pane", "state", &["split", "frozen", "frozenSplit"]),
    ("selection", "pane", PANE),
    ("sheetFormatPr", "customHeight", BOOLS),
    ("sheetFormatPr", "zeroHeight", BOOLS),
    ("sheetFormatPr", "thickTop", BOOLS),
    ("sheetFormatPr", "thickBottom", BOOLS),
    ("col", "hidden", BOOLS),
    ("col", "bestFit", BOOLS),
    ("col", "customWidth", BOOLS),
    ("col", "phonetic", BOOLS),
    ("col", "collapsed", BOOLS),
    ("row", "customFormat", BOOLS),
    ("row", "hidden", BOOLS),
    ("row", "customHeight", BOOLS),
    ("row", "collapsed", BOOLS),
    ("row", "thickTop", BOOLS),
    ("row", "thickBot", BOOLS),
    ("row", "ph", BOOLS),
    ("c", "t", &["b", "n", "e", "s", "str", "inlineStr", "d"]),
    ("c", "ph", BOOLS),
    ("f", "t", &["normal", "array", "dataTable", "shared"]),
    ("f", "ca", BOOLS),
    ("definedName", "hidden", BOOLS),
];
/// non-negative whole numbers up to a limit
const COUNTS: &[(&str, &str, u64)] = &[
    ("col", "outlineLevel", 7),
    ("row", "outlineLevel", 7),
    ("alignment", "textRotation", 255),
    ("alignment", "indent", u32::MAX as u64),
    ("alignment", "readingOrder", 2),
    ("family", "val", 14),
    ("charset", "val", 255),
    ("color", "indexed", u32::MAX as u64),
    ("color", "theme", u32::MAX as u64),
    ("fgColor", "indexed", u32::MAX as u64),
    ("fgColor", "theme", u32::MAX as u64),
    ("bgColor", "indexed", u32::MAX as u64),
    ("bgColor", "theme", u32::MAX as u64),
    ("numFmt", "numFmtId", u32::MAX as u64),
    ("sheetView", "workbookViewId", u32::MAX as u64),
    ("sheetView", "zoomScale", 400),
    ("sheetView", "zoomScaleNormal", 400),
    ("workbookView", "windowWidth", u32::MAX as u64),
    ("workbookView", "windowHeight", u32::MAX as u64),
    ("cellStyle", "builtinId", u32::MAX as u64),
];
const NUMBERS: &[(&str, &str, f64, f64)] = &[
    ("sz", "val", 0.0, 409.55),
    ("col", "width", 0.0, 255.0),
    ("row", "ht", 0.0, 409.5),
    ("sheetFormatPr", "defaultRowHeight", 0.0, 409.5),
    ("sheetFormatPr", "defaultColWidth", 0.0, 255.0),
    ("color", "tint", -1.0, 1.0),
    ("fgColor", "tint", -1.0, 1.0),
    ("bgColor", "tint", -1.0, 1.0),
];
const REQUIRED: &[(&str, &str)] = &[
    ("numFmt", "numFmtId"),
    ("numFmt", "formatCode"),
    ("cellStyle", "xfId"),
    ("sheetView", "workbookViewId"),
    ("col", "min"),
    ("col", "max"),
    ("sheetFormatPr", "defaultRowHeight"),
    ("definedName", "name"),
    ("mergeCell", "ref"),
    ("hyperlink", "ref"),
    ("dataValidation", "sqref"),
    ("cfRule", "priority"),
];
const ORDERS: &[(&str, &[&str])] = &[
    ("border", &["start", "end", "left", "right", "top", "bottom", "diagonal", "vertical", "horizontal"]),
    ("patternFill", &["fgColor", "bgColor"]),
    ("xf", &["alignment", "protection", "extLst"]),
    ("sheetView", &["pane", "selection", "pivotSelection", "extLst"]),
];
/// every attribute of a known simple type holds a value of it
fn values_check(e: &mut Vec<String>, what: &str, n: &Node) {
    if n.name == "extLst" || n.name.contains(':') {
        return;
    }
    let at = |k: &str| n.attr(k);
    for (el, k, ok) in VALUES {
        if *el == n.name {
            if let Some(v) = at(k) {
                if !ok.contains(&v) {
                    e.push(format!("{}: {} {}={:?} is no value of the schema", what, el, k, v));
                }
            }
        }
    }
    for (el, k, max) in COUNTS {
        if *el == n.name {
            if let Some(v) = at(k) {
                if v.parse::<u64>().map(|x| x > *max).unwrap_or(true) {
                    e.push(format!("{}: {} {}={:?} is no value of the schema", what, el, k, v));
                }
            }
        }
    }
    for (el, k, a, b) in NUMBERS {
        if *el == n.name {
            if let Some(v) = at(k) {
                if v.parse::<f64>().map(|x| !(x >= *a && x <= *b)).unwrap_or(true) {
                    e.push(format!("{}: {} {}={:?} is out of range", what, el, k, v));
                }
            }
        }
    }
    if matches!(n.name.as_str(), "color" | "fgColor" | "bgColor") {
        if let Some(v) = at("rgb") {
            if v.len() != 8 || !v.bytes().all(|c| c.is_ascii_hexdigit()) {
                e.push(format!("{}: {} rgb={:?} is no value of the schema", what, n.name, v));
            }
        }
    }
    for (el, k) in REQUIRED {
        if *el == n.name && at(k).is_none() {
            e.push(format!("{}: {} without {}", what, el, k));
        }
    }
    for (el, order) in ORDERS {
        if *el == n.name {
            order_check(e, &format!("{}: {}", what, el), n, order, &["selection", "pivotSelection"]);
        }
    }
    for c in n.elems() {
        values_check(e, what, c);
    }
}
pub fn lint_wb(p: &Pkg) -> Vec<String> {
    let mut e = vec![];
    let wbp = match find_workbook(p) {
        Ok(x) => x,
        Err(x) => return vec![x],
    };
    let Some(Ok(t)) = p.part(&wbp).map(|d| xml::parse(d)) else { return e };
    let Ok(rels) = p.rels_of(&wbp) else { return e };
    order_check(&mut e, "workbook", &t, WB_ORDER, &["mc:AlternateContent", "fileRecoveryPr"]);
    values_check(&mut e, "workbook", &t);
    let part_of = |k: &str| rels.iter().find(|r| rel_kind(&r.ty) == k).and_then(|r| p.part(&r.target));
    for k in ["sharedStrings", "styles", "theme", "calcChain"] {
        if rels.iter().filter(|r| rel_kind(&r.ty) == k).count() > 1 {
            e.push(format!("workbook has several {} relationships", k));
        }
    }
    let mut n_sst = 0;
    if let Some(d) = part_of("sharedStrings") {
        if let Ok(s) = xml::parse(d) {
            n_sst = s.all("si").count();
            if let Some(u) = s.attr("uniqueCount") {
                if u.parse::<usize>().ok() != Some(n_sst) {
                    e.push(format!("shared strings: uniqueCount {} but {} items", u, n_sst));
                }
            }
            for si in s.all("si") {
                for t in si.all("t") {
                    if !t_space_ok(t) {
                        e.push(format!("shared strings: text {:?} would lose its white space", t.text()));
                    }
                }
            }
        }
    }
    let mut n_xf = usize::MAX;
    let mut n_dxf = usize::MAX;
    if let Some(d) = part_of("styles") {
        if let Ok(s) = xml::parse(d) {
            order_check(&mut e, "styles", &s, STYLE_ORDER, &[]);
            values_check(&mut e, "styles", &s);
        }
        match read_styles(d) {
            Ok(s) => {
                n_xf = s.xfs.len();
                n_dxf = s.dxfs;
                e.extend(s.errors);
            }
            Err(x) => e.push(x),
        }
    }
    let sheets: Vec<&Node> = t.find("sheets").map(|s| s.all("sheet").collect()).unwrap_or_default();
    if t.all("sheets").count() != 1 {
        e.push("workbook: exactly one sheets element expected".into());
    }
    let (mut names, mut ids, mut rids) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
    let mut formula_cells: BTreeSet<(String, String)> = BTreeSet::new();
    for s in &sheets {
        let name = s.attr("name").unwrap_or("");
        if name.is_empty() || !names.insert(name.to_lowercase()) {
            e.push(format!("sheet name {:?} empty or twice", name));
        }
        let id = s.attr("sheetId").unwrap_or("");
        if id.parse::<u32>().map(|x| x == 0).unwrap_or(true) || !ids.insert(id.to_string()) {
            e.push(format!("sheet id {:?} invalid or twice", id));
        }
        let rid = s.attr("r:id").unwrap_or("");
        if !rids.insert(rid.to_string()) {
            e.push(format!("two sheets use relationship {}", rid));
        }
        let Some(rel) = rels.iter().find(|r| r.id == rid) else {
            e.push(format!("sheet {} uses unknown relationship {}", name, rid));
            continue;
        };
        if rel_kind(&rel.ty) != "worksheet" {
            continue;
        }
        let Some(d) = p.part(&rel.target) else { continue };
        let Ok(st) = xml::parse(d) else { continue };
        lint_sheet(&mut e, name, id, &st, n_sst, n_xf, n_dxf, &mut formula_cells);
        let srels = p.rels_of(&rel.target).unwrap_or_default();
        let mut used = vec![];
        collect_rids(&st, &mut used);
        for u in used {
            if !srels.iter().any(|r| r.id == u) {
                e.push(format!("sheet {}: relationship {} does not exist", name, u));
            }
        }
    }
    // two relationships to one sheet part
    let mut tg = BTreeSet::new();
    for r in rels.iter().filter(|r| rel_kind(&r.ty) == "worksheet") {
        if !tg.insert(r.target.clone()) {
            e.push(format!("two relationships lead to sheet part {}", r.target));
        }
        if !rids.contains(&r.id) {
            e.push(format!("worksheet relationship {} is used by no sheet", r.id));
        }
    }
    if let Some(dn) = t.find("definedNames") {
        let mut seen = BTreeSet::new();
        for n in dn.all("definedName") {
            let l = n.attr("localSheetId").unwrap_or("");
            if !l.is_empty() && l.parse::<usize>().map(|l| l >= sheets.len()).unwrap_or(true) {
                e.push(format!("defined name {:?} belongs to sheet number {} but there are {}", n.attr("name"), l, sheets.len()));
            }
            if !seen.insert((n.attr("name").unwrap_or("").to_lowercase(), l)) {
                e.push(format!("defined name {:?} twice", n.attr("name")));
            }
        }
        if seen.is_empty() {
            e.push("definedNames without a name".into());
        }
    }
    if let Some(v) = t.find("bookViews").and_then(|b| b.find("workbookView")) {
        if t.find("bookViews").unwrap().all("workbookView").count() == 0 {
            e.push("bookViews without a view".into());
        }
        for k in ["activeTab", "firstSheet"] {
            if let Some(a) = v.attr(k) {
                if a.parse::<usize>().map(|a| a >= sheets.len().max(1)).unwrap_or(true) {
                    e.push(format!("{} {} but {} sheets", k, a, sheets.len()));
                }
            }
        }
        if let Some(a) = v.attr("tabRatio") {
            if a.parse::<u32>().map(|x| x > 1000).unwrap_or(true) {
                e.push(format!("tabRatio {}", a));
            }
        }
    }
    if let Some(d) = part_of("calcChain") {
        if let Ok(c) = xml::parse(d) {
            let mut i = String::new();
            let mut seen = BTreeSet::new();
            let mut n = 0;
            for x in c.all("c") {
                n += 1;
                if let Some(y) = x.attr("i") {
                    i = y.into();
                }
                let k = (i.clone(), x.attr("r").unwrap_or("").to_string());
                if !formula_cells.contains(&k) {
                    e.push(format!("calculation chain lists cell {} of sheet {} that has no formula", k.1, k.0));
                }
                if !seen.insert(k.clone()) {
                    e.push(format!("calculation chain lists cell {} of sheet {} twice", k.1, k.0));
                }
            }
            if n == 0 {
                e.push("calculation chain without entries".into());
            }
        }
    }
    e
}
fn collect_rids(n: &Node, v: &mut Vec<String>) {
    for (k, x) in &n.attrs {
        if k == "r:id" || k == "r:embed" || k == "r:link" {
            v.push(x.clone());
        }
    }
    for c in n.elems() {
        collect_rids(c, v);
    }
}
#[allow(clippy::too_many_arguments)]
fn lint_sheet(e: &mut Vec<String>, name: &str, id: &str, st: &Node, n_sst: usize, n_xf: usize, n_dxf: usize, fc: &mut BTreeSet<(String, String)>) {
    order_check(e, &format!("sheet {}", name), st, SHEET_ORDER, &["conditionalFormatting", "mc:AlternateContent"]);
    values_check(e, &format!("sheet {}", name), st);
    let xf_ok = |x: &str| x.parse::<usize>().map(|i| i < n_xf).unwrap_or(false);
    match st.find("sheetData") {
        None => e.push(format!("sheet {}: no sheetData", name)),
        Some(sd) => {
            let mut last = 0u32;
            let (mut minr, mut maxr, mut minc, mut maxc) = (u32::MAX, 0, u32::MAX, 0);
            for row in sd.elems() {
                if row.name != "row" {
                    e.push(format!("sheet {}: {} inside sheetData", name, row.name));
                    continue;
                }
                let r: u32 = row.attr("r").and_then(|x| x.parse().ok()).unwrap_or(last + 1);
                if r <= last || r > 1_048_576 {
                    e.push(format!("sheet {}: row {} after row {}", name, r, last));
                }
                last = r;
                if let Some(s) = row.attr("s") {
                    if !xf_ok(s) {
                        e.push(format!("sheet {}: row {} style {} out of range", name, r, s));
                    }
                }
                let mut lc = 0u32;
                let mut span = None;
                if let Some(x) = row.attr("spans") {
                    let b: Vec<(u32, u32)> = x.split_whitespace().filter_map(|y| y.split_once(':')).filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))).collect();
                    match (b.iter().map(|y| y.0).min(), b.iter().map(|y| y.1).max()) {
                        (Some(a), Some(b)) => span = Some((a, b)),
                        _ => e.push(format!("sheet {}: row {} spans {:?}", name, r, x)),
                    }
                }
                for c in row.elems() {
                    if c.name != "c" {
                        continue;
                    }
                    let rf = c.attr("r").unwrap_or("");
                    let (r2, ci) = if rf.is_empty() { (r, lc + 1) } else { parse_ref(rf).unwrap_or((0, 0)) };
                    if r2 != r || ci == 0 {
                        e.push(format!("sheet {}: cell {} inside row {}", name, rf, r));
                    }
                    if ci <= lc {
                        e.push(format!("sheet {}: cell {} after column {}", name, rf, lc));
                    }
                    lc = ci;
                    if span.map(|(a, b)| ci < a || ci > b).unwrap_or(false) {
                        e.push(format!("sheet {}: cell {} outside of the columns {:?} its row claims to span", name, rf, row.attr("spans")));
                    }
                    minr = minr.min(r);
                    maxr = maxr.max(r);
                    minc = minc.min(ci);
                    maxc = maxc.max(ci);
                    if let Some(s) = c.attr("s") {
                        if !xf_ok(s) {
                            e.push(format!("sheet {}: cell {} style {} out of range", name, rf, s));
                        }
                    }
                    let t = c.attr("t").unwrap_or("n");
                    let v = c.find("v").map(|v| v.text());
                    match t {
                        "s" => {
                            if v.as_deref().and_then(|x| x.parse::<usize>().ok()).map(|i| i >= n_sst).unwrap_or(true) {
                                e.push(format!("sheet {}: cell {} shared string {:?} of {}", name, rf, v, n_sst));
                            }
                        }
                        "n" => {
                            if let Some(v) = &v {
                                if !v.is_empty() && (v.parse::<f64>().map(|x| !x.is_finite()).unwrap_or(true) || v.to_ascii_lowercase().contains("inf")) {
                                    e.push(format!("sheet {}: cell {} number {:?}", name, rf, v));
                                }
                            }
                        }
                        "b" => {
                            if !matches!(v.as_deref(), Some("0" | "1" | "true" | "false")) {
                                e.push(format!("sheet {}: cell {} boolean {:?}", name, rf, v));
                            }
                        }
                        "str" | "inlineStr" | "e" | "d" => {}
                        x => e.push(format!("sheet {}: cell {} type {:?}", name, rf, x)),
                    }
                    if let Some(is) = c.find("is") {
                        for t in is.all("t") {
                            if !t_space_ok(t) {
                                e.push(format!("sheet {}: cell {} text {:?} would lose its white space", name, rf, t.text()));
                            }
                        }
                    }
                    let mut order = 0;
                    for k in c.elems() {
                        let o = match k.name.as_str() {
                            "f" => 1,
                            "v" => 2,
                            "is" => 3,
                            _ => 4,
                        };
                        if o <= order && o < 4 {
                            e.push(format!("sheet {}: cell {} children out of order", name, rf));
                        }
                        order = o;
                    }
                    if c.find("f").is_some() {
                        fc.insert((id.to_string(), rf.to_string()));
                    }
                }
            }
            if let Some(d) = st.find("dimension") {
                let rf = d.attr("ref").unwrap_or("");
                let (a, b) = rf.split_once(':').unwrap_or((rf, rf));
                match (parse_ref(a), parse_ref(b)) {
                    (Some(a), Some(b)) => {
                        if a.0 > b.0 || a.1 > b.1 {
                            e.push(format!("sheet {}: dimension {} is inverted", name, rf));
                        } else if maxr > 0 && (a.0 > minr || b.0 < maxr || a.1 > minc || b.1 < maxc) {
                            e.push(format!("sheet {}: dimension {} does not cover the cells", name, rf));
                        }
                    }
                    _ => e.push(format!("sheet {}: dimension {:?}", name, rf)),
                }
            }
        }
    }
    if let Some(c) = st.find("cols") {
        let mut last = 0u32;
        let mut n = 0;
        for x in c.all("col") {
            n += 1;
            let g = |k: &str| x.attr(k).and_then(|y| y.parse::<u32>().ok()).unwrap_or(0);
            let (a, b) = (g("min"), g("max"));
            if a == 0 || b < a || b > 16384 {
                e.push(format!("sheet {}: column range {}-{}", name, a, b));
            }
            if a <= last {
                e.push(format!("sheet {}: column range {}-{} overlaps or is out of order", name, a, b));
            }
            last = b;
            if let Some(s) = x.attr("style") {
                if !xf_ok(s) {
                    e.push(format!("sheet {}: column style {} out of range", name, s));
                }
            }
        }
        if n == 0 {
            e.push(format!("sheet {}: empty cols", name));
        }
    }
    if let Some(v) = st.find("sheetViews") {
        let mut seen = BTreeSet::new();
        let mut n = 0;
        for x in v.all("sheetView") {
            n += 1;
            if !seen.insert(x.attr("workbookViewId").unwrap_or("").to_string()) {
                e.push(format!("sheet {}: two views for workbook view {}", name, x.attr("workbookViewId").unwrap_or("")));
            }
        }
        if n == 0 {
            e.push(format!("sheet {}: sheetViews without a view", name));
        }
    }
    for cf in st.all("conditionalFormatting") {
        for r in cf.all("cfRule") {
            if let Some(d) = r.attr("dxfId") {
                if d.parse::<usize>().map(|i| i >= n_dxf).unwrap_or(true) {
                    e.push(format!("sheet {}: conditional format {} out of range", name, d));
                }
            }
        }
    }
    if let Some(m) = st.find("mergeCells") {
        if let Some(c) = m.attr("count") {
            if c.parse::<usize>().ok() != Some(m.all("mergeCell").count()) {
                e.push(format!("sheet {}: merge count", name));
            }
        }
    }
}
