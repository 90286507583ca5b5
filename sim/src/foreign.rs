//! Packages of other producers, built from a seed and named features. The library's own writer is not used.
use crate::pkg::col_name;
use crate::plan::Doc;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

/// Features of workbooks. The generator draws from these; those listed under known findings are left out there.
pub const XL: &[&str] = &[
    "abs_targets", "sst_rich", "sst_empty_si", "sst_phonetic", "sst_nocount", "shared_formula", "array_formula", "inline", "inline_rich", "date_t", "styles_rich", "dxfs", "cell_styles", "numfmt", "calcchain", "calcchain_l", "cols", "cols_outline", "rows_props", "rows_outline", "bool_true", "merge", "cf", "dv", "hyperlinks", "drawing", "comments", "table", "defined_names", "external_link", "pane", "view_attrs", "wbview_attrs",
    "two_views", "very_hidden", "custom_xml", "app", "custom_props", "core_rich", "no_core", "chartsheet", "ext", "bom", "cdata", "xml_comments", "entities", "single_quotes", "cells_no_r", "rows_no_r", "no_styles", "no_sst", "no_theme", "printer", "upper_ext", "sparse_ids", "odd_rids", "odd_names", "protection", "pretty", "stored", "zip_shuffle", "no_dim", "cell_meta", "header_footer", "wbpr", "sheetpr", "sst_space", "str_cells", "active_last", "no_bookviews", "hidden_sheet", "unknown_part", "unknown_sheet_el", "spans", "autofilter", "unicode", "numbers_odd", "no_decl", "utf8_lower", "empty_rows", "many_cells", "self_close", "ht_no_custom", "width_no_custom", "xml_space", "absolute_wb", "root_wb", "odd_wb", "prefix", "breaks", "row_style_nocf", "empty_part", "ext_rels", "root_custom", "core_prefix", "case_default", "case_override", "local_names", "no_ext_part", "long_text", "default_main", "ct_prefix", "core_bare", "core_default", "core_openpyxl", "case_target", "zip_dirs", "r_prefix", "r_nested", "big_part", "amp_attr", "macro", "template", "zip_descr", "zip_extra", "sst_long", "xr_uids", "pct_names", "pivot", "threaded", "array_range", "sheet_fmt", "custom_views", "fonts_many", "connections", "cell_cm", "space_names", "shared_strings_ext", "case_parts", "case_rels", "case_types", "odd_files", "mixed", "utf16", "look_alike", "crlf", "controls",
];
struct P {
    parts: Vec<(String, Vec<u8>)>,
    over: Vec<(String, String)>,
    def: BTreeMap<String, String>,
    rels: BTreeMap<String, Vec<(String, String, String, bool)>>, // owner -> id type target external
    default_main: Option<String>,
    case_target: bool,
    case_rels: bool,
    case_types: bool,
    ct_prefix: bool,
}
const RT: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
const MAIN: &str = "http://schemas.openxmlformats.org/spreadsheetml/2006/main";
const DECL: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n";
pub fn png(seed: u64) -> Vec<u8> {
    let mut v = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10, 0, 0, 0, 13, b'I', b'H', b'D', b'R'];
    let mut r = Rng::new(seed ^ 77);
    for _ in 0..60 + r.usize(200) {
        v.push(r.next() as u8);
    }
    v
}
fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| r.next() as u8).collect()
}
pub fn e(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}
/// apply a function to every tag outside CDATA, comments and processing instructions
fn map_tags(x: &str, f: &mut dyn FnMut(&str) -> String) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < x.len() {
        if x[i..].starts_with("<![CDATA[") {
            let j = x[i..].find("]]>").map(|k| i + k + 3).unwrap_or(x.len());
            o.push_str(&x[i..j]);
            i = j;
        } else if x[i..].starts_with("<!--") {
            let j = x[i..].find("-->").map(|k| i + k + 3).unwrap_or(x.len());
            o.push_str(&x[i..j]);
            i = j;
        } else if x[i..].starts_with("<?") {
            let j = x[i..].find("?>").map(|k| i + k + 2).unwrap_or(x.len());
            o.push_str(&x[i..j]);
            i = j;
        } else if x[i..].starts_with('<') {
            let j = x[i..].find('>').map(|k| i + k + 1).unwrap_or(x.len());
            o.push_str(&f(&x[i..j]));
            i = j;
        } else {
            let j = x[i..].find('<').map(|k| i + k).unwrap_or(x.len());
            o.push_str(&x[i..j]);
            i = j;
        }
    }
    o
}
impl P {
    fn new() -> P {
        let mut def = BTreeMap::new();
        def.insert("rels".into(), "application/vnd.openxmlformats-package.relationships+xml".into());
        def.insert("xml".into(), "application/xml".into());
        P { parts: vec![], over: vec![], def, rels: BTreeMap::new(), default_main: None, case_target: false, case_rels: false, case_types: false, ct_prefix: false }
    }
    fn add(&mut self, n: &str, d: impl Into<Vec<u8>>) {
        self.parts.push((n.into(), d.into()));
    }
    fn xml(&mut self, n: &str, d: String, ct: &str) {
        self.parts.push((n.into(), d.into_bytes()));
        if !ct.is_empty() {
            self.over.push((n.into(), ct.into()));
        }
    }
    fn rel(&mut self, owner: &str, id: &str, ty: &str, target: &str, ext: bool) {
        let ty = if ty.contains("://") { ty.to_string() } else { format!("{}/{}", RT, ty) };
        self.rels.entry(owner.into()).or_default().push((id.into(), ty, target.into(), ext));
    }
    fn finish(mut self, abs: bool, dress: &dyn Fn(String) -> String) -> Vec<(String, Vec<u8>)> {
        let rels = std::mem::take(&mut self.rels);
        for (o, rs) in rels {
            let dir = crate::pkg::dir_of(&o).to_string();
            let mut s = format!("{}<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">", DECL);
            for (id, ty, t, ext) in rs {
                // stored targets are package absolute in the table
                let t = if self.case_target && !ext { t.to_uppercase().replace(".XML", ".xml") } else { t };
                let tt = if ext {
                    t.clone()
                } else if abs {
                    format!("/{}", t)
                } else {
                    relative(&dir, &t)
                };
                s.push_str(&format!("<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{}/>", id, ty, e(&tt), if ext { " TargetMode=\"External\"" } else { "" }));
            }
            s.push_str("</Relationships>");
            let mut name = crate::pkg::rels_name(&o);
            if self.case_rels && !o.is_empty() {
                // part names are the same whatever their letter case
                let at = name.rfind('/').unwrap() + 1;
                let c = name[at..at + 1].to_string();
                name.replace_range(at..at + 1, &if c == c.to_uppercase() { c.to_lowercase() } else { c.to_uppercase() });
            }
            self.parts.push((name, dress(s).into_bytes()));
        }
        if let Some(m) = self.default_main.take() {
            // like the Open XML SDK: xml parts are main documents unless listed
            if let Some(i) = self.over.iter().position(|o| o.0 == m) {
                let (_, t) = self.over.remove(i);
                for (n, _) in &self.parts {
                    if n.ends_with(".xml") && *n != m && !self.over.iter().any(|o| o.0.eq_ignore_ascii_case(n)) {
                        self.over.push((n.clone(), "application/xml".into()));
                    }
                }
                self.def.insert("xml".into(), t);
            }
        }
        let mut s = format!("{}<Types xmlns=\"http://schemas.openxmlformats.org/package/2006/content-types\">", DECL);
        for (k, v) in &self.def {
            s.push_str(&format!("<Default Extension=\"{}\" ContentType=\"{}\"/>", k, v));
        }
        for (k, v) in &self.over {
            s.push_str(&format!("<Override PartName=\"/{}\" ContentType=\"{}\"/>", e(k), v));
        }
        s.push_str("</Types>");
        if self.ct_prefix {
            s = map_tags(&s, &mut |t| if t.starts_with("<?") { t.into() } else if let Some(x) = t.strip_prefix("</") { format!("</ct:{}", x) } else { format!("<ct:{}", &t[1..]) }).replace(" xmlns=", " xmlns:ct=");
        }
        self.parts.insert(0, ((if self.case_types { "[content_types].xml" } else { "[Content_Types].xml" }).into(), dress(s).into_bytes()));
        self.parts
    }
}
fn relative(dir: &str, t: &str) -> String {
    let a: Vec<&str> = dir.split('/').filter(|x| !x.is_empty()).collect();
    let b: Vec<&str> = t.split('/').collect();
    let mut k = 0;
    while k < a.len() && k + 1 < b.len() && a[k] == b[k] {
        k += 1;
    }
    let mut v: Vec<&str> = vec![".."; a.len() - k];
    v.extend(&b[k..]);
    v.join("/")
}
/// text and elements side by side
fn mixed(r: &mut Rng) -> String {
    let w = |r: &mut Rng| e(*r.pick(WORDS));
    match r.usize(5) {
        4 => {
            // names in other alphabets
            let names = ["größe", "ग्राहक", "名前", "l·l", "ação", "e\u{301}t", "a\u{203F}b", "Ωmega-1.x"];
            let (n, k, a) = (*r.pick(&names), *r.pick(&names), *r.pick(&names));
            format!("<n:{} {}=\"{}\">{}<n:{}/></n:{}>", n, a, w(r), w(r), k, n)
        }
        0 => format!("<n:p>{} <n:b>{}</n:b> and <n:i/>{}</n:p>", w(r), w(r), w(r)),
        1 => format!("<n:p><n:b>{}</n:b>{}</n:p><n:p>{}<n:br/></n:p>", w(r), w(r), w(r)),
        2 => format!("{} <n:b at=\"1\">{}<n:i>{}</n:i> {}</n:b>", w(r), w(r), w(r), w(r)),
        _ => format!("<n:p>{}<n:q/><n:q/>{} <![CDATA[<{}>]]></n:p>", w(r), w(r), "cd & ata"),
    }
}
fn core_xml(rich: bool, mix: bool, r: &mut Rng) -> String {
    let y = 1999 + r.usize(24);
    let t = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", y, 1 + r.usize(12), 1 + r.usize(28), r.usize(24), r.usize(60), r.usize(60));
    let mut s = format!("{}<cp:coreProperties xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\" xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:dcmitype=\"http://purl.org/dc/dcmitype/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\">", DECL);
    if rich {
        s.push_str("<dc:title>Q3 &amp; Q4 figures</dc:title><dc:subject>s &lt;1&gt;</dc:subject>");
    }
    s.push_str("<dc:creator>Ann &quot;A&quot; Other</dc:creator>");
    if mix {
        s.push_str("<cp:keywords xml:lang=\"en-US\">colour, <cp:value xml:lang=\"en-GB\">color &amp; hue</cp:value>, tint <cp:value xml:lang=\"fr-CA\">couleur</cp:value></cp:keywords>");
    }
    if rich && mix {
        s.push_str("<dc:description xml:lang=\"de\">eine Zeile</dc:description>");
    } else if rich {
        s.push_str("<cp:keywords>a, b</cp:keywords><dc:description>line one</dc:description>");
    }
    s.push_str("<cp:lastModifiedBy>Someone</cp:lastModifiedBy>");
    if rich {
        s.push_str("<cp:revision>7</cp:revision>");
    }
    s.push_str(&format!("<dcterms:created xsi:type=\"dcterms:W3CDTF\">{}</dcterms:created><dcterms:modified xsi:type=\"dcterms:W3CDTF\">{}</dcterms:modified>", t, t));
    if rich {
        s.push_str("<cp:category>cat</cp:category><cp:contentStatus>Draft</cp:contentStatus>");
    }
    s.push_str("</cp:coreProperties>");
    s
}
/// the same document with other namespace prefixes
fn core_other_prefix(x: String) -> String {
    x.replace("cp:", "c:").replace("xmlns:cp=", "xmlns:c=").replace("dc:", "d:").replace("xmlns:dc=", "xmlns:d=").replace("dcterms:", "t:").replace("xmlns:t=", "xmlns:t=").replace("xsi:type=\"t:W3CDTF\"", "xsi:type=\"t:W3CDTF\"").replace("xmlns:dcterms=", "xmlns:t=")
}
pub fn theme_xml(n: &str) -> String {
    let mut s = format!("{}<a:theme xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" name=\"{}\"><a:themeElements><a:clrScheme name=\"Office\">", DECL, n);
    for (k, v) in [("dk1", "000000"), ("lt1", "FFFFFF"), ("dk2", "44546A"), ("lt2", "E7E6E6"), ("accent1", "4472C4"), ("accent2", "ED7D31"), ("accent3", "A5A5A5"), ("accent4", "FFC000"), ("accent5", "5B9BD5"), ("accent6", "70AD47"), ("hlink", "0563C1"), ("folHlink", "954F72")] {
        s.push_str(&format!("<a:{}><a:srgbClr val=\"{}\"/></a:{}>", k, v, k));
    }
    s.push_str("</a:clrScheme><a:fontScheme name=\"Office\"><a:majorFont><a:latin typeface=\"Calibri Light\"/><a:ea typeface=\"\"/><a:cs typeface=\"\"/></a:majorFont><a:minorFont><a:latin typeface=\"Calibri\"/><a:ea typeface=\"\"/><a:cs typeface=\"\"/></a:minorFont></a:fontScheme><a:fmtScheme name=\"Office\"><a:fillStyleLst><a:solidFill><a:schemeClr val=\"phClr\"/></a:solidFill></a:fillStyleLst><a:lnStyleLst/><a:effectStyleLst/><a:bgFillStyleLst/></a:fmtScheme></a:themeElements></a:theme>");
    s
}
const WORDS: &[&str] = &["alpha", "beta & gamma", "a<b>c", "\"quoted\"", "it's", "delta", "0012", "true", "3.14x", "long text with several words in it", "Zeile", "x]]>y", "two\nlines"];
const UNI: &[&str] = &["naïve café", "日本語", "😀 ok", "e\u{301}", "\u{202E}rtl", "Ωmega", "a\u{A0}b"];

pub fn build(kind: &Doc, seed: u64, features: &[String]) -> Vec<u8> {
    match kind {
        Doc::Excel => excel(seed, features),
        Doc::Word => word(seed, features),
        Doc::Ppt => ppt(seed, features),
    }
}
fn pack(mut parts: Vec<(String, Vec<u8>)>, f: &BTreeSet<&str>, r: &mut Rng) -> Vec<u8> {
    if f.contains("zip_shuffle") {
        for i in (1..parts.len()).rev() {
            parts.swap(i, r.usize(i + 1));
        }
    }
    if f.contains("utf16") {
        // the other encoding XML parts may have
        for (n, b) in parts.iter_mut() {
            let Ok(t) = std::str::from_utf8(b) else { continue };
            let l = n.to_ascii_lowercase();
            let t = t.trim_start_matches('\u{FEFF}');
            if !(l.ends_with(".xml") || l.ends_with(".rels")) || !t.starts_with('<') || r.pct(25) {
                continue;
            }
            let t = t.replacen("encoding=\"UTF-8\"", "encoding=\"UTF-16\"", 1).replacen("encoding=\"utf-8\"", "encoding=\"utf-16\"", 1).replacen("encoding='UTF-8'", "encoding='UTF-16'", 1).replacen("encoding='utf-8'", "encoding='utf-16'", 1);
            let le = r.pct(60);
            *b = std::iter::once(0xFEFF).chain(t.encode_utf16()).flat_map(|u| if le { u.to_le_bytes() } else { u.to_be_bytes() }).collect();
        }
    }
    if f.contains("zip_dirs") {
        let mut dirs: BTreeSet<String> = BTreeSet::new();
        for (n, _) in &parts {
            for (i, _) in n.match_indices('/') {
                dirs.insert(n[..=i].to_string());
            }
        }
        parts.splice(0..0, dirs.into_iter().map(|d| (d, vec![])));
    }
    crate::pkg::zip_as(&parts, !f.contains("stored"), f.contains("zip_descr"), f.contains("zip_extra"))
}
fn dress(x: String, f: &BTreeSet<&str>, content: bool) -> String {
    let mut x = x;
    if f.contains("no_decl") {
        if let Some(i) = x.find("?>") {
            x = x[i + 2..].trim_start().to_string();
        }
    } else if f.contains("utf8_lower") {
        x = x.replacen("encoding=\"UTF-8\" standalone=\"yes\"", "encoding=\"utf-8\"", 1);
    }
    if f.contains("pretty") || f.contains("xml_comments") {
        let c = f.contains("xml_comments");
        let p = f.contains("pretty");
        let mut n = 0;
        x = map_tags(&x, &mut |t| {
            n += 1;
            let nm: String = t.trim_start_matches(['<', '/']).chars().take_while(|c| !c.is_whitespace() && *c != '>' && *c != '/').collect();
            let safe = matches!(nm.as_str(), "row" | "c" | "sheetData" | "cols" | "col" | "sheet" | "sheets" | "workbookPr" | "bookViews" | "si" | "font" | "fonts" | "fills" | "borders" | "cellXfs" | "xf" | "Relationship" | "Override" | "Default" | "mergeCells" | "mergeCell");
            if safe && t.starts_with('<') && !t.starts_with("</") {
                format!("{}{}{}", if p { "\n   " } else { "" }, if c && n % 5 == 0 { "<!-- note <x> & -->" } else if c && n % 7 == 0 { "<?note <x> & ?>" } else { "" }, t)
            } else {
                t.to_string()
            }
        });
        if c {
            // and beside the root, and in the middle of a text
            if let Some(i) = x.find("?>") {
                x.insert_str(i + 2, "\n<!-- head --><?mso-application progid=\"Excel.Sheet\"?>");
            }
            x.push_str("<!-- end --><?end?>\n");
            for (k, end) in ["</v>", "</t>", "</f>", "</dc:creator>"].into_iter().enumerate() {
                let mut at = 0;
                while let Some(i) = x[at..].find(end).map(|i| i + at) {
                    n += 1;
                    let b = x.as_bytes();
                    let mut grow = 0;
                    if n % 4 == 0 && i > 2 && b[i - 1].is_ascii_alphanumeric() && b[i - 2].is_ascii_alphanumeric() {
                        let s = if (n / 4 + k) % 3 == 0 { "<?in x?>" } else { "<!-- in -->" };
                        x.insert_str(i - 1, s);
                        grow = s.len();
                    }
                    at = i + grow + end.len();
                }
            }
        }
    }
    if f.contains("single_quotes") {
        x = map_tags(&x, &mut |t| if t.contains('\'') { t.to_string() } else { t.replace('"', "'") });
    }
    if !f.contains("self_close") && content {
        // nothing
    } else if content {
        // <a .../> -> <a ...></a> for a few leaf elements
        x = map_tags(&x, &mut |t| {
            if t.ends_with("/>") && !t.starts_with("</") {
                let nm: String = t[1..].chars().take_while(|c| !c.is_whitespace() && *c != '/').collect();
                format!("{}></{}>", t[..t.len() - 2].trim_end(), nm)
            } else {
                t.to_string()
            }
        });
    }
    if f.contains("crlf") {
        x = x.replace('\n', "\r\n");
    }
    if f.contains("bom") {
        x.insert(0, '\u{FEFF}');
    }
    x
}
fn prefix(x: String) -> String {
    let y = map_tags(&x, &mut |t| {
        let close = t.starts_with("</");
        let b = if close { 2 } else { 1 };
        let nm: String = t[b..].chars().take_while(|c| !c.is_whitespace() && *c != '/' && *c != '>').collect();
        if nm.contains(':') || nm.starts_with('?') || nm.starts_with('!') {
            t.to_string()
        } else {
            format!("{}x:{}", &t[..b], &t[b..])
        }
    });
    y.replace(&format!("xmlns=\"{}\"", MAIN), &format!("xmlns:x=\"{}\"", MAIN)).replace(&format!("xmlns='{}'", MAIN), &format!("xmlns:x='{}'", MAIN))
}
/// names of the sheets a workbook built from (seed, features) has
pub fn sheet_names(seed: u64, features: &[String]) -> Vec<String> {
    let f: BTreeSet<&str> = features.iter().map(|s| s.as_str()).collect();
    let mut r = Rng::new(seed ^ 0x5EE7);
    let n = 1 + r.usize(4);
    let pool = ["Data", "Sheet1", "Sum & Co", "Ein Blatt", "Z", "Sheet 2", "It's", "Bericht-1", "sheet2", "a<b"];
    let mut v: Vec<String> = vec![];
    let off = r.usize(pool.len());
    for i in 0..n {
        v.push(pool[(off + i * 3) % pool.len()].to_string());
    }
    if f.contains("unicode") {
        v[0] = "Übersicht 表".into();
    }
    if f.contains("space_names") && v.len() > 1 {
        v[1] = format!("{} ", v[0]);
    }
    if f.contains("chartsheet") {
        v.push("Chart1".into());
    }
    v
}
struct LookAlike {
    font: String,
    fill: String,
    border: String,
    num: u32,
    attrs: String,
    body: String,
}
fn color_el(tag: &str, c: &(u8, String), more: &str) -> String {
    format!("<{} {}=\"{}\"{}/>", tag, ["indexed", "theme", "rgb"][c.0.min(2) as usize], c.1, more)
}
fn look_alike(r: &mut Rng) -> LookAlike {
    let sp = crate::gen::style(r);
    let odd = if r.pct(25) { 99 } else { r.usize(26) };
    let is = |k: usize| odd == k;
    let mut f = String::new();
    let flag = |t: &str, on: bool, r: &mut Rng| if on { format!("<{}{}/>", t, *r.pick(&["", " val=\"1\"", " val=\"true\""])) } else if r.pct(10) { format!("<{} val=\"0\"/>", t) } else { String::new() };
    f += &flag("b", sp.bold != is(0), r);
    f += &flag("i", sp.italic != is(1), r);
    if is(2) {
        f += "<strike/>";
    }
    if is(3) {
        f += *r.pick(&["<outline/>", "<shadow/>", "<condense/>", "<extend/>"]);
    }
    if is(4) {
        f += *r.pick(&["<u val=\"singleAccounting\"/>", "<u val=\"doubleAccounting\"/>"]);
    } else if sp.dunderline != is(5) {
        f += "<u val=\"double\"/>";
    } else if sp.underline != is(6) {
        f += *r.pick(&["<u/>", "<u val=\"single\"/>"]);
    } else if r.pct(10) {
        f += "<u val=\"none\"/>";
    }
    if is(7) {
        f += "<vertAlign val=\"superscript\"/>";
    }
    f += &format!("<sz val=\"{}{}\"/>", sp.size, if is(8) { ".5" } else { "" });
    f += &color_el("color", sp.color.as_ref().unwrap_or(&(1, "1".into())), if is(9) { " tint=\"0.5\"" } else { "" });
    f += &format!("<name val=\"{}{}\"/>", e(&sp.font), if is(10) { " Light" } else { "" });
    f += *r.pick(&["<family val=\"2\"/>", "<family val=\"2\"/>", "", "<family val=\"1\"/>"]);
    if is(11) {
        f += "<charset val=\"238\"/>";
    }
    f += *r.pick(&["<scheme val=\"minor\"/>", "<scheme val=\"minor\"/>", "", "<scheme val=\"major\"/>"]);
    let rgb = |c: &String| (2u8, c.clone());
    let fill = if is(12) {
        "<fill><gradientFill degree=\"45\"><stop position=\"0\"><color rgb=\"FFFF0000\"/></stop><stop position=\"1\"><color rgb=\"FF00FF00\"/></stop></gradientFill></fill>".to_string()
    } else if sp.bg.is_none() && sp.fg.is_none() && !is(13) {
        "<fill><patternFill patternType=\"none\"/></fill>".to_string()
    } else {
        let p = if is(13) { *r.pick(&["darkGrid", "lightUp", "gray0625", "mediumGray"]) } else { *r.pick(&["none", "solid"]) };
        let fg = sp.fg.as_ref().map(|c| color_el("fgColor", &rgb(c), if is(14) { " tint=\"-0.1\"" } else { "" })).unwrap_or_default();
        let bg = sp.bg.as_ref().map(|c| color_el("bgColor", &rgb(c), if is(15) { " tint=\"0.25\"" } else { "" })).unwrap_or_default();
        format!("<fill><patternFill patternType=\"{}\">{}{}</patternFill></fill>", p, fg, bg)
    };
    let mut b = format!("<border{}>", if is(16) { " diagonalUp=\"1\"" } else if is(17) { " diagonalDown=\"1\"" } else { "" });
    for (i, n) in ["left", "right", "top", "bottom", "diagonal"].iter().enumerate() {
        let j = [0, 2, 1, 3, 4][i];
        let (st, c) = sp.borders.get(j).cloned().unwrap_or((0, None));
        if st == 0 {
            b += &format!("<{}/>", n);
        } else {
            b += &format!("<{} style=\"{}\">{}</{}>", n, crate::model::BORDERS[st as usize % crate::model::BORDERS.len()], c.map(|c| color_el("color", &c, if is(18) { " tint=\"0.1\"" } else { "" })).unwrap_or_default(), n);
        }
    }
    if is(19) {
        b += "<vertical style=\"thin\"/>";
    }
    b += "</border>";
    let mut al = String::new();
    let h = crate::model::HALIGN[sp.h as usize % crate::model::HALIGN.len()];
    if h != "none" {
        al += &format!(" horizontal=\"{}\"", h);
    }
    let v = crate::model::VALIGN[sp.v as usize % crate::model::VALIGN.len()];
    if v != "none" {
        al += &format!(" vertical=\"{}\"", v);
    }
    if sp.wrap {
        al += " wrapText=\"1\"";
    }
    al += match odd {
        20 => " indent=\"1\"",
        21 => " textRotation=\"90\"",
        22 => " shrinkToFit=\"1\"",
        23 => " readingOrder=\"2\"",
        _ => "",
    };
    let num = if sp.custom.is_some() { 0 } else { crate::model::NUMS[sp.num as usize % crate::model::NUMS.len()].1 };
    let mut attrs = String::new();
    if r.pct(80) {
        attrs += &format!(" applyNumberFormat=\"1\" applyFont=\"1\" applyFill=\"1\" applyBorder=\"1\"{}", if al.is_empty() { "" } else { " applyAlignment=\"1\"" });
    }
    if is(24) {
        attrs += " quotePrefix=\"1\"";
    }
    let mut body = if al.is_empty() { String::new() } else { format!("<alignment{}/>", al) };
    if is(25) {
        attrs += " applyProtection=\"1\"";
        body += "<protection locked=\"0\"/>";
    }
    LookAlike { font: format!("<font>{}</font>", f), fill, border: b, num, attrs, body }
}
fn excel(seed: u64, features: &[String]) -> Vec<u8> {
    let f: BTreeSet<&str> = features.iter().map(|s| s.as_str()).collect();
    let has = |x: &str| f.contains(x);
    let mut r = Rng::new(seed);
    let mut p = P::new();
    let names = sheet_names(seed, features);
    let nsheets = names.len();
    let wb_part = if has("root_wb") { "workbook.xml".to_string() } else if has("odd_wb") { "content/book/main.xml".to_string() } else { "xl/workbook.xml".to_string() };
    let wdir = crate::pkg::dir_of(&wb_part).to_string();
    let at = |n: &str| if wdir.is_empty() { n.to_string() } else { format!("{}/{}", wdir, n) };
    let ctp = "application/vnd.openxmlformats-officedocument.spreadsheetml.";
    let content = |x: String, allow_prefix: bool| -> String {
        let x = if has("r_prefix") { x.replace(" r:id=", " rel:id=").replace(" xmlns:r=", " xmlns:rel=") } else if has("r_nested") { x.replace(" r:id=", &format!(" xmlns:d3p1=\"{}\" d3p1:id=", RT)).replace(&format!(" xmlns:r=\"{}\"", RT), "") } else { x };
        let x = if has("prefix") && allow_prefix { prefix(x) } else { x };
        dress(x, &f, true)
    };
    // ---- styles
    let nxf;
    let rich = has("styles_rich");
    if has("no_styles") {
        nxf = 0;
    } else {
        let mut s = format!("{}<styleSheet xmlns=\"{}\">", DECL, MAIN);
        let nf = has("numfmt");
        if nf {
            s.push_str("<numFmts count=\"3\"><numFmt numFmtId=\"164\" formatCode=\"0.000&quot; kg&quot;\"/><numFmt numFmtId=\"170\" formatCode=\"[Red]#,##0;[Blue]-#,##0\"/><numFmt numFmtId=\"165\" formatCode=\"yyyy\\-mm\\-dd\"/></numFmts>");
        }
        let mut fonts = vec!["<font><sz val=\"11\"/><color theme=\"1\"/><name val=\"Calibri\"/><family val=\"2\"/><scheme val=\"minor\"/></font>".to_string()];
        if rich {
            fonts.push("<font><b/><sz val=\"12\"/><color rgb=\"FFFF0000\"/><name val=\"Arial\"/><family val=\"2\"/></font>".into());
            fonts.push("<font><i/><u/><sz val=\"10\"/><color indexed=\"8\"/><name val=\"Times New Roman\"/><family val=\"1\"/></font>".into());
            fonts.push("<font><b/><i/><strike/><u val=\"double\"/><sz val=\"10.5\"/><color theme=\"4\" tint=\"0.39997558519241921\"/><name val=\"Courier New\"/><family val=\"3\"/></font>".into());
            if has("ext") {
                fonts.push("<font><outline/><shadow/><vertAlign val=\"superscript\"/><sz val=\"9\"/><color auto=\"1\"/><name val=\"宋体\"/><charset val=\"134\"/></font>".into());
            }
        }
        if has("fonts_many") {
            for q in 0..300 {
                fonts.push(format!("<font><sz val=\"{}\"/><name val=\"F{}\"/></font>", 8 + q % 20, q));
            }
        }
        // entries close to what a session may ask for, with one setting it can not ask for
        let mut alike: Vec<LookAlike> = vec![];
        if has("look_alike") {
            for _ in 0..4 + r.usize(9) {
                let l = look_alike(&mut r);
                alike.push(l);
            }
            fonts.extend(alike.iter().map(|l| l.font.clone()));
        }
        s.push_str(&format!("<fonts count=\"{}\">{}</fonts>", fonts.len(), fonts.concat()));
        let mut fills = vec!["<fill><patternFill patternType=\"none\"/></fill>".to_string(), "<fill><patternFill patternType=\"gray125\"/></fill>".to_string()];
        if rich {
            fills.push("<fill><patternFill patternType=\"solid\"><fgColor rgb=\"FFFFFF00\"/><bgColor indexed=\"64\"/></patternFill></fill>".into());
            fills.push("<fill><patternFill patternType=\"solid\"><fgColor theme=\"5\" tint=\"-0.25\"/><bgColor indexed=\"64\"/></patternFill></fill>".into());
            if has("ext") {
                fills.push("<fill><gradientFill degree=\"90\"><stop position=\"0\"><color rgb=\"FFFF0000\"/></stop><stop position=\"1\"><color rgb=\"FF00FF00\"/></stop></gradientFill></fill>".into());
            }
        }
        fills.extend(alike.iter().map(|l| l.fill.clone()));
        s.push_str(&format!("<fills count=\"{}\">{}</fills>", fills.len(), fills.concat()));
        let mut borders = vec!["<border><left/><right/><top/><bottom/><diagonal/></border>".to_string()];
        if rich {
            borders.push("<border><left style=\"thin\"><color indexed=\"64\"/></left><right style=\"medium\"><color rgb=\"FF0000FF\"/></right><top style=\"double\"><color theme=\"1\"/></top><bottom style=\"hair\"><color auto=\"1\"/></bottom><diagonal/></border>".into());
            if has("ext") {
                borders.push("<border diagonalUp=\"1\" diagonalDown=\"1\"><left/><right/><top/><bottom/><diagonal style=\"thick\"><color rgb=\"FF00FF00\"/></diagonal></border>".into());
            }
        }
        borders.extend(alike.iter().map(|l| l.border.clone()));
        s.push_str(&format!("<borders count=\"{}\">{}</borders>", borders.len(), borders.concat()));
        let base = if has("cell_styles") { 3 } else { 1 };
        s.push_str(&format!("<cellStyleXfs count=\"{}\"><xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\"/>", base));
        if base > 1 {
            s.push_str(&format!("<xf numFmtId=\"9\" fontId=\"0\" fillId=\"0\" borderId=\"0\" applyFont=\"0\" applyFill=\"0\" applyBorder=\"0\" applyAlignment=\"0\" applyProtection=\"0\"/><xf numFmtId=\"0\" fontId=\"{}\" fillId=\"0\" borderId=\"0\" applyNumberFormat=\"0\"/>", fonts.len() - 1));
        }
        s.push_str("</cellStyleXfs>");
        let mut xfs = vec!["<xf numFmtId=\"0\" fontId=\"0\" fillId=\"0\" borderId=\"0\" xfId=\"0\"/>".to_string()];
        let n = if rich { 5 + r.usize(5) } else { 2 };
        for i in 0..n {
            let num = if nf && r.pct(40) { *r.pick(&[164, 170, 165]) } else { *r.pick(&[0, 1, 2, 4, 9, 10, 14, 22, 49]) };
            let (fo, fi, bo) = (r.usize(fonts.len()), if r.pct(50) { 0 } else { r.usize(fills.len()) }, r.usize(borders.len()));
            let xid = if base > 1 { r.usize(3) } else { 0 };
            let al = if rich && r.pct(50) { "<alignment horizontal=\"center\" vertical=\"top\" wrapText=\"1\"/>" } else if rich && has("ext") && r.pct(60) { "<alignment horizontal=\"left\" vertical=\"center\" textRotation=\"45\" indent=\"2\"/>" } else { "" };
            let pr = if rich && has("protection") && r.pct(50) { "<protection locked=\"0\" hidden=\"1\"/>" } else { "" };
            let q = if rich && has("ext") && i == 1 { " quotePrefix=\"1\"" } else { "" };
            let body = format!("{}{}", al, pr);
            let a = format!("<xf numFmtId=\"{}\" fontId=\"{}\" fillId=\"{}\" borderId=\"{}\" xfId=\"{}\"{}{}{}{}{}{}{}", num, fo, fi, bo, xid, if num != 0 { " applyNumberFormat=\"1\"" } else { "" }, if fo != 0 { " applyFont=\"1\"" } else { "" }, if fi != 0 { " applyFill=\"1\"" } else { "" }, if bo != 0 { " applyBorder=\"1\"" } else { "" }, if !al.is_empty() { " applyAlignment=\"1\"" } else { "" }, if !pr.is_empty() { " applyProtection=\"1\"" } else { "" }, q);
            xfs.push(if body.is_empty() { format!("{}/>", a) } else { format!("{}>{}</xf>", a, body) });
        }
        for (i, l) in alike.iter().enumerate() {
            let k = alike.len() - i;
            let a = format!("<xf numFmtId=\"{}\" fontId=\"{}\" fillId=\"{}\" borderId=\"{}\" xfId=\"0\"{}", l.num, fonts.len() - k, fills.len() - k, borders.len() - k, l.attrs);
            xfs.push(if l.body.is_empty() { format!("{}/>", a) } else { format!("{}>{}</xf>", a, l.body) });
        }
        nxf = xfs.len();
        s.push_str(&format!("<cellXfs count=\"{}\">{}</cellXfs>", nxf, xfs.concat()));
        if base > 1 {
            s.push_str("<cellStyles count=\"3\"><cellStyle name=\"Normal\" xfId=\"0\" builtinId=\"0\"/><cellStyle name=\"Percent\" xfId=\"1\" builtinId=\"5\"/><cellStyle name=\"My &amp; style\" xfId=\"2\"/></cellStyles>");
        } else {
            s.push_str("<cellStyles count=\"1\"><cellStyle name=\"Normal\" xfId=\"0\" builtinId=\"0\"/></cellStyles>");
        }
        if has("dxfs") || has("cf") {
            s.push_str("<dxfs count=\"2\"><dxf><font><b/><color rgb=\"FF9C0006\"/></font><fill><patternFill><bgColor rgb=\"FFFFC7CE\"/></patternFill></fill></dxf><dxf><border><left style=\"thin\"><color auto=\"1\"/></left></border></dxf></dxfs>");
        } else {
            s.push_str("<dxfs count=\"0\"/>");
        }
        s.push_str("<tableStyles count=\"0\" defaultTableStyle=\"TableStyleMedium2\" defaultPivotStyle=\"PivotStyleLight16\"/>");
        if has("controls") && !has("ext") {
            s.push_str("<mc:AlternateContent xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\"><mc:Choice Requires=\"x99\" xmlns:x99=\"urn:later\"><x99:note>a</x99:note></mc:Choice><mc:Fallback><colors><mruColors><color rgb=\"FF123456\"/></mruColors></colors></mc:Fallback></mc:AlternateContent>");
        }
        if rich && has("ext") {
            s.push_str("<colors><mruColors><color rgb=\"FF123456\"/></mruColors></colors><extLst><ext uri=\"{EB79DEF2-80B8-43e5-95BD-54CBDDF9020C}\" xmlns:x14=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/main\"><x14:slicerStyles defaultSlicerStyle=\"SlicerStyleLight1\"/></ext></extLst>");
        }
        if has("mixed") && !(rich && has("ext")) {
            s.push_str(&format!("<extLst><ext uri=\"{{0B}}\" xmlns:n=\"urn:notes\">{}</ext></extLst>", mixed(&mut r)));
        }
        s.push_str("</styleSheet>");
        p.xml(&at("styles.xml"), content(s, true), &format!("{}styles+xml", ctp));
        p.rel(&wb_part, "", "styles", &at("styles.xml"), false);
    }
    // ---- sheets
    let mut sst: Vec<String> = vec![];
    let txt = |s: &str, r: &mut Rng| -> String {
        if has("cdata") && r.pct(50) && !s.contains("]]>") {
            format!("<![CDATA[{}]]>", s)
        } else if has("entities") && r.pct(60) {
            s.chars().map(|c| if c.is_ascii_alphabetic() && c as u32 % 5 == 0 { format!("&#x{:X};", c as u32) } else if c == '\'' { "&apos;".into() } else { e(&c.to_string()) }).collect()
        } else {
            e(s)
        }
    };
    let mut chain: Vec<(usize, String)> = vec![];
    let mut sheet_parts: Vec<String> = vec![];
    let mut sheet_ids: Vec<u32> = vec![];
    for k in 0..nsheets {
        let id = if has("sparse_ids") { (k as u32) * 7 + 4 } else { k as u32 + 1 };
        sheet_ids.push(id);
    }
    if has("sparse_ids") && nsheets > 1 {
        sheet_ids.swap(0, nsheets - 1);
    }
    let (mut n_tab, mut n_dr) = (0, 0);
    for k in 0..nsheets {
        let part = if has("odd_names") { at(&format!("worksheets/{}.xml", ["page", "s_two", "blatt-3", "x4", "x5", "x6"][k])) } else if has("case_parts") { at(&format!("worksheets/Sheet{}.xml", k + 2)) } else { at(&format!("worksheets/sheet{}.xml", k + 1)) };
        if has("chartsheet") && k == nsheets - 1 {
            let part = at("chartsheets/sheet1.xml");
            let x = format!("{}<chartsheet xmlns=\"{}\" xmlns:r=\"{}\"><sheetPr/><sheetViews><sheetView workbookViewId=\"0\" zoomToFit=\"1\"/></sheetViews><pageMargins left=\"0.7\" right=\"0.7\" top=\"0.75\" bottom=\"0.75\" header=\"0.3\" footer=\"0.3\"/></chartsheet>", DECL, MAIN, RT);
            p.xml(&part, dress(x, &f, true), &format!("{}chartsheet+xml", ctp));
            sheet_parts.push(part);
            continue;
        }
        let mut rels: Vec<(String, &str, String, bool)> = vec![];
        let mut s = format!("{}<worksheet xmlns=\"{}\" xmlns:r=\"{}\"", DECL, MAIN, RT);
        if has("ext") || has("spans") {
            s.push_str(" xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\" mc:Ignorable=\"x14ac\" xmlns:x14ac=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac\"");
        } else if has("xr_uids") {
            s.push_str(&format!(" xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\" mc:Ignorable=\"xr xr2\" xmlns:xr=\"http://schemas.microsoft.com/office/spreadsheetml/2014/revision\" xmlns:xr2=\"http://schemas.microsoft.com/office/spreadsheetml/2015/revision2\" xr:uid=\"{{00000000-0001-0000-0{}00-000000000000}}\"", k));
        }
        s.push('>');
        if has("sheetpr") {
            s.push_str("<sheetPr codeName=\"Blatt1\"><tabColor rgb=\"FFFF0000\"/><outlinePr summaryBelow=\"0\"/><pageSetUpPr fitToPage=\"1\"/></sheetPr>");
        }
        // cells
        let mut grid: BTreeMap<u32, BTreeMap<u32, String>> = BTreeMap::new();
        let n = if has("many_cells") { 60 } else { 4 + r.usize(14) };
        let (mr, mc) = if r.pct(15) { (1_048_576u64, 16384u64) } else { (12, 8) };
        for _ in 0..n {
            let (row, col) = (1 + r.below(mr) as u32, 1 + r.below(mc) as u32);
            if grid.get(&row).map(|x| x.contains_key(&col)).unwrap_or(false) {
                continue;
            }
            let rf = format!("{}{}", col_name(col), row);
            let st = if nxf > 1 && r.pct(50) { format!(" s=\"{}\"", r.usize(nxf)) } else { String::new() };
            let mut cm = String::new();
            if has("cell_meta") && r.pct(20) {
                cm.push_str(" ph=\"1\"");
            }
            if has("cell_cm") && r.pct(25) {
                cm.push_str(" cm=\"1\"");
            }
            let long = "lorem ipsum ".repeat(if has("long_text") && r.pct(10) { 400 } else { 0 });
            let word = if !long.is_empty() { long.trim_end() } else if has("unicode") && r.pct(40) { *r.pick(UNI) } else { *r.pick(WORDS) };
            let head = |t: &str| format!("<c r=\"{}\"{}{}{}>", rf, st, if t.is_empty() { String::new() } else { format!(" t=\"{}\"", t) }, cm);
            let kind = r.usize(10);
            let x = match kind {
                0 | 1 => {
                    let v = if has("numbers_odd") { r.pick(&["1E-7", "0.1", "-12345678901234567", "1.7976931348623157E308", "3.0000000000000004", "-0", "1e5"]).to_string() } else { format!("{}", r.below(100000) as f64 / 8.0) };
                    format!("{}<v>{}</v></c>", head(if r.pct(20) { "n" } else { "" }), v)
                }
                2 | 3 if !has("no_sst") => {
                    let si = match r.usize(6) {
                        0 if has("sst_rich") => format!("<si><r><t>{}</t></r><r><rPr><b/><sz val=\"11\"/><color rgb=\"FFFF0000\"/><rFont val=\"Calibri\"/></rPr><t xml:space=\"preserve\"> bold</t></r></si>", e(word)),
                        1 if has("sst_empty_si") => if r.pct(50) { "<si/>".into() } else { "<si><t/></si>".to_string() },
                        2 if has("sst_phonetic") => format!("<si><t>{}</t><rPh sb=\"0\" eb=\"1\"><t>kana</t></rPh><phoneticPr fontId=\"0\"/></si>", e(word)),
                        3 if has("sst_space") => format!("<si><t xml:space=\"preserve\">  {}\n two </t></si>", e(word)),
                        _ => format!("<si><t>{}</t></si>", txt(word, &mut r)),
                    };
                    let i = match sst.iter().position(|q| *q == si) {
                        Some(i) if r.pct(90) => i,
                        _ => {
                            sst.push(si);
                            sst.len() - 1
                        }
                    };
                    format!("{}<v>{}</v></c>", head("s"), i)
                }
                4 => {
                    let b = if has("bool_true") { *r.pick(&["1", "0"]) } else { *r.pick(&["1", "0"]) };
                    format!("{}<v>{}</v></c>", head("b"), b)
                }
                5 => {
                    if r.pct(30) {
                        format!("{}<v>#DIV/0!</v></c>", head("e"))
                    } else {
                        chain.push((k, rf.clone()));
                        if has("str_cells") && r.pct(50) {
                            format!("{}<f>A1&amp;\"x &lt;\"</f><v>res &amp; x</v></c>", head("str"))
                        } else if has("array_formula") && r.pct(50) {
                            format!("{}<f t=\"array\" ref=\"{}\">SUM(A1:A3*B1:B3)</f><v>7</v></c>", head(""), rf)
                        } else {
                            format!("{}<f>SUM(A1:B{})*2</f><v>{}</v></c>", head(""), 1 + r.usize(9), r.usize(50))
                        }
                    }
                }
                6 if has("inline") => {
                    if has("inline_rich") && r.pct(40) {
                        format!("{}<is><r><rPr><i/></rPr><t>it</t></r><r><t>{}</t></r></is></c>", head("inlineStr"), e(word))
                    } else {
                        format!("{}<is><t>{}</t></is></c>", head("inlineStr"), txt(word, &mut r))
                    }
                }
                7 if has("date_t") => format!("{}<v>2021-03-04T05:06:07</v></c>", head("d")),
                8 if nxf > 1 => format!("<c r=\"{}\" s=\"{}\"{}/>", rf, r.usize(nxf), cm),
                _ => format!("{}<v>{}</v></c>", head(""), r.usize(1000)),
            };
            grid.entry(row).or_default().insert(col, x);
        }
        if has("shared_formula") {
            for q in 0..3u32 {
                let rf = format!("J{}", 3 + q);
                let fx = if q == 0 { "<f t=\"shared\" ref=\"J3:J5\" si=\"0\">A3*2</f>" } else { "<f t=\"shared\" si=\"0\"/>" };
                grid.entry(3 + q).or_default().insert(10, format!("<c r=\"{}\">{}<v>{}</v></c>", rf, fx, q));
                chain.push((k, rf));
            }
        }
        if has("array_range") {
            for q in 0..3u32 {
                let rf = format!("L{}", 3 + q);
                let fx = if q == 0 { "<f t=\"array\" ref=\"L3:L5\">A3:A5*2</f>" } else { "" };
                grid.entry(3 + q).or_default().insert(12, format!("<c r=\"{}\"{}>{}<v>{}</v></c>", rf, if has("cell_cm") { " cm=\"1\"" } else { "" }, fx, q));
            }
            chain.push((k, "L3".into()));
        }
        if has("empty_rows") {
            grid.entry(20).or_default();
        }
        let (mut a, mut b, mut c, mut d) = (u32::MAX, 0, u32::MAX, 0);
        for (row, cs) in &grid {
            for col in cs.keys() {
                a = a.min(*row);
                b = b.max(*row);
                c = c.min(*col);
                d = d.max(*col);
            }
        }
        if !has("no_dim") {
            let dim = if b == 0 { "A1".to_string() } else if a == b && c == d { format!("{}{}", col_name(c), a) } else { format!("{}{}:{}{}", col_name(c), a, col_name(d), b) };
            s.push_str(&format!("<dimension ref=\"{}\"/>", dim));
        }
        let tab = if (has("active_last") && k == nsheets - 1 && !has("chartsheet")) || (!has("active_last") && k == 0) { " tabSelected=\"1\"" } else { "" };
        let va = if has("view_attrs") { " showGridLines=\"0\" zoomScale=\"85\" zoomScaleNormal=\"85\"" } else { "" };
        let pane = if has("pane") { "<pane xSplit=\"1\" ySplit=\"2\" topLeftCell=\"B3\" activePane=\"bottomRight\" state=\"frozen\"/><selection pane=\"topRight\" activeCell=\"B1\" sqref=\"B1\"/><selection pane=\"bottomLeft\"/><selection pane=\"bottomRight\" activeCell=\"C4\" sqref=\"C4:D5\"/>" } else { "" };
        let mk = |id: usize, t: &str| if pane.is_empty() { format!("<sheetView{}{} workbookViewId=\"{}\"/>", va, t, id) } else { format!("<sheetView{}{} workbookViewId=\"{}\">{}</sheetView>", va, t, id, pane) };
        s.push_str(&format!("<sheetViews>{}{}</sheetViews>", mk(0, tab), if has("two_views") { mk(1, "") } else { String::new() }));
        s.push_str(if has("sheet_fmt") { "<sheetFormatPr baseColWidth=\"10\" defaultColWidth=\"11.5703125\" defaultRowHeight=\"12.75\" customHeight=\"1\" zeroHeight=\"1\"/>" } else if has("rows_outline") { "<sheetFormatPr baseColWidth=\"10\" defaultRowHeight=\"15\" outlineLevelRow=\"2\"/>" } else { "<sheetFormatPr defaultRowHeight=\"15\"/>" });
        if has("cols") {
            let st = if nxf > 1 { format!(" style=\"{}\"", r.usize(nxf)) } else { String::new() };
            s.push_str("<cols>");
            let cw = if has("width_no_custom") { "" } else { " customWidth=\"1\"" };
            s.push_str(&format!("<col min=\"1\" max=\"1\" width=\"12.7109375\"{}/>", cw));
            s.push_str(&format!("<col min=\"3\" max=\"6\" width=\"20\"{} customWidth=\"1\"/>", st));
            if has("cols_outline") {
                s.push_str("<col min=\"7\" max=\"8\" width=\"9.140625\" hidden=\"1\" customWidth=\"1\" outlineLevel=\"1\"/><col min=\"9\" max=\"9\" width=\"9.140625\" collapsed=\"1\"/>");
            } else {
                s.push_str("<col min=\"7\" max=\"9\" width=\"8.5\" bestFit=\"1\" customWidth=\"1\"/>");
            }
            s.push_str("<col min=\"12\" max=\"16384\" width=\"9.140625\" hidden=\"1\"/>");
            s.push_str("</cols>");
        }
        s.push_str(if grid.is_empty() { "<sheetData/>" } else { "<sheetData>" });
        let mut prev = 0;
        for (row, cs) in &grid {
            let mut at = String::new();
            if !(has("rows_no_r") && *row == prev + 1) {
                at.push_str(&format!(" r=\"{}\"", row));
            }
            prev = *row;
            if has("spans") && !cs.is_empty() {
                at.push_str(&format!(" spans=\"{}:{}\"", cs.keys().next().unwrap(), cs.keys().last().unwrap()));
            }
            if has("rows_props") && r.pct(40) {
                let t = if has("bool_true") { "true" } else { "1" };
                match r.usize(4) {
                    0 => at.push_str(&format!(" ht=\"30.75\" customHeight=\"{}\"", t)),
                    1 => at.push_str(&format!(" hidden=\"{}\"", t)),
                    2 => at.push_str(" thickBot=\"1\" thickTop=\"1\""),
                    _ if nxf > 1 => at.push_str(&format!(" s=\"{}\" customFormat=\"1\"", r.usize(nxf))),
                    _ => {}
                }
            } else if has("ht_no_custom") && r.pct(30) {
                at.push_str(" ht=\"15.75\"");
            } else if has("rows_outline") && r.pct(40) {
                at.push_str(r.pick(&[" outlineLevel=\"1\"", " outlineLevel=\"2\" hidden=\"1\"", " collapsed=\"1\""]));
            } else if has("row_style_nocf") && nxf > 1 && r.pct(30) {
                at.push_str(&format!(" s=\"{}\"", r.usize(nxf)));
            }
            if has("spans") && r.pct(50) {
                at.push_str(" x14ac:dyDescent=\"0.25\"");
            }
            if cs.is_empty() {
                s.push_str(&format!("<row{}/>", at));
                continue;
            }
            s.push_str(&format!("<row{}>", at));
            let mut lc = 0;
            for (col, x) in cs {
                if has("cells_no_r") && *col == lc + 1 && !x.contains("ref=") {
                    let rf = format!(" r=\"{}{}\"", col_name(*col), row);
                    s.push_str(&x.replacen(&rf, "", 1));
                } else {
                    s.push_str(x);
                }
                lc = *col;
            }
            s.push_str("</row>");
        }
        if !grid.is_empty() {
            s.push_str("</sheetData>");
        }
        if has("protection") {
            s.push_str("<sheetProtection algorithmName=\"SHA-512\" hashValue=\"abc=\" saltValue=\"def=\" spinCount=\"100000\" sheet=\"1\" objects=\"1\"/>");
        }
        if has("autofilter") {
            s.push_str("<autoFilter ref=\"A1:D10\"><filterColumn colId=\"1\"><filters><filter val=\"x &amp; y\"/></filters></filterColumn></autoFilter>");
        }
        if has("custom_views") {
            s.push_str("<customSheetViews><customSheetView guid=\"{11111111-2222-3333-4444-555555555555}\" scale=\"90\" hiddenColumns=\"1\"><pane xSplit=\"1\" topLeftCell=\"B1\" state=\"frozen\"/><selection activeCell=\"A1\"/><pageMargins left=\"1\" right=\"1\" top=\"1\" bottom=\"1\" header=\"0\" footer=\"0\"/></customSheetView></customSheetViews>");
        }
        if has("merge") {
            s.push_str("<mergeCells count=\"2\"><mergeCell ref=\"A30:B31\"/><mergeCell ref=\"D30:D34\"/></mergeCells>");
        }
        if has("cf") {
            s.push_str("<conditionalFormatting sqref=\"A1:A9\"><cfRule type=\"cellIs\" dxfId=\"0\" priority=\"2\" operator=\"greaterThan\"><formula>5</formula></cfRule></conditionalFormatting><conditionalFormatting sqref=\"B1:B9\"><cfRule type=\"expression\" dxfId=\"1\" priority=\"1\"><formula>B1&lt;&gt;\"x\"</formula></cfRule></conditionalFormatting>");
        }
        if has("dv") {
            s.push_str("<dataValidations count=\"1\"><dataValidation type=\"list\" allowBlank=\"1\" sqref=\"C1:C5\"><formula1>\"a,b &amp; c\"</formula1></dataValidation></dataValidations>");
        }
        if has("hyperlinks") {
            rels.push((format!("rId{}", 50 + k), "hyperlink", "https://example.com/?a=1&b=2".into(), true));
            s.push_str(&format!("<hyperlinks><hyperlink ref=\"A1\" r:id=\"rId{}\" tooltip=\"tip &quot;x&quot;\"/><hyperlink ref=\"A2\" location=\"'Data'!A1\" display=\"go\"/></hyperlinks>", 50 + k));
        }
        if has("ext_rels") && !has("hyperlinks") {
            s.push_str("<hyperlinks>");
            for (q, t) in EXT.iter().enumerate() {
                let id = format!("rIdE{}", q);
                s.push_str(&format!("<hyperlink ref=\"H{}\" r:id=\"{}\"/>", q + 1, id));
                rels.push((id, "hyperlink", t.to_string(), true));
            }
            s.push_str("</hyperlinks>");
        }
        if has("controls") && r.below(3) == 0 {
            s.push_str("<mc:AlternateContent xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\"><mc:Choice Requires=\"x99\" xmlns:x99=\"urn:later\"><x99:note>a</x99:note></mc:Choice><mc:Fallback><printOptions gridLines=\"1\"/></mc:Fallback></mc:AlternateContent>");
        }
        s.push_str("<pageMargins left=\"0.7\" right=\"0.7\" top=\"0.75\" bottom=\"0.75\" header=\"0.3\" footer=\"0.3\"/>");
        if has("printer") {
            let pp = at(&format!("printerSettings/printerSettings{}.bin", k + 1));
            p.def.insert("bin".into(), format!("{}printerSettings", ctp));
            p.add(&pp, noise(seed ^ k as u64, 400));
            rels.push(("rId1".into(), "printerSettings", pp, false));
            s.push_str("<pageSetup paperSize=\"9\" orientation=\"landscape\" r:id=\"rId1\"/>");
        }
        if has("header_footer") {
            s.push_str("<headerFooter><oddHeader>&amp;L&amp;\"Arial\"Left  text&amp;RPage &amp;P</oddHeader></headerFooter>");
        }
        if has("breaks") {
            s.push_str("<rowBreaks count=\"1\" manualBreakCount=\"1\"><brk id=\"7\" max=\"16383\" man=\"1\"/></rowBreaks>");
        }
        if has("drawing") {
            n_dr += 1;
            let (dp, img) = (at(&format!("drawings/drawing{}.xml", n_dr)), at(&format!("media/image{}.{}", n_dr, if has("upper_ext") { "PNG" } else { "png" })));
            p.def.insert(if has("upper_ext") { "PNG".into() } else { "png".into() }, "image/png".into());
            p.add(&img, png(seed ^ k as u64));
            p.xml(&dp, format!("{}<xdr:wsDr xmlns:xdr=\"http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing\" xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\"><xdr:twoCellAnchor><xdr:from><xdr:col>1</xdr:col><xdr:colOff>0</xdr:colOff><xdr:row>1</xdr:row><xdr:rowOff>0</xdr:rowOff></xdr:from><xdr:to><xdr:col>3</xdr:col><xdr:colOff>0</xdr:colOff><xdr:row>5</xdr:row><xdr:rowOff>0</xdr:rowOff></xdr:to><xdr:pic><xdr:nvPicPr><xdr:cNvPr id=\"2\" name=\"Pic\"/><xdr:cNvPicPr/></xdr:nvPicPr><xdr:blipFill><a:blip xmlns:r=\"{}\" r:embed=\"rId1\"/></xdr:blipFill><xdr:spPr/></xdr:pic><xdr:clientData/></xdr:twoCellAnchor></xdr:wsDr>", DECL, RT), "application/vnd.openxmlformats-officedocument.drawing+xml");
            p.rel(&dp, "rId1", "image", &img, false);
            rels.push(("rId7".into(), "drawing", dp, false));
            s.push_str("<drawing r:id=\"rId7\"/>");
        }
        if has("comments") {
            let (cp, vp) = (at(&format!("comments{}.xml", k + 1)), at(&format!("drawings/vmlDrawing{}.vml", k + 1)));
            p.def.insert("vml".into(), "application/vnd.openxmlformats-officedocument.vmlDrawing".into());
            p.xml(&cp, format!("{}<comments xmlns=\"{}\"><authors><author>Me</author></authors><commentList><comment ref=\"A1\" authorId=\"0\"><text><r><t xml:space=\"preserve\"> note </t></r></text></comment></commentList></comments>", DECL, MAIN), &format!("{}comments+xml", ctp));
            p.add(&vp, "<xml xmlns:v=\"urn:schemas-microsoft-com:vml\" xmlns:o=\"urn:schemas-microsoft-com:office:office\"><o:shapelayout v:ext=\"edit\"/><v:shape id=\"_x0000_s1025\"/></xml>".as_bytes());
            rels.push(("rId8".into(), "vmlDrawing", vp, false));
            rels.push(("rId9".into(), "comments", cp, false));
            s.push_str("<legacyDrawing r:id=\"rId8\"/>");
        }
        if has("controls") {
            let mc = "http://schemas.openxmlformats.org/markup-compatibility/2006";
            let cp = at(&format!("ctrlProps/ctrlProp{}.xml", k + 1));
            p.xml(&cp, format!("{}<formControlPr xmlns=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/main\" objectType=\"CheckBox\" checked=\"Checked\" lockText=\"1\"/>", DECL), "application/vnd.ms-excel.controlproperties+xml");
            rels.push(("rId31".into(), "ctrlProp", cp, false));
            s.push_str(&format!("<mc:AlternateContent xmlns:mc=\"{}\"><mc:Choice Requires=\"x14\" xmlns:x14=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/main\"><controls><mc:AlternateContent><mc:Choice Requires=\"x14\"><control shapeId=\"1025\" r:id=\"rId31\" name=\"Check Box 1\"><controlPr defaultSize=\"0\" autoFill=\"0\"/></control></mc:Choice></mc:AlternateContent></controls></mc:Choice></mc:AlternateContent>", mc));
        }
        if has("threaded") && !has("comments") {
            let (cp, tp) = (at(&format!("comments{}.xml", k + 1)), at(&format!("threadedComments/threadedComment{}.xml", k + 1)));
            p.xml(&cp, format!("{}<comments xmlns=\"{}\"><authors><author>tc={{1}}</author></authors><commentList><comment ref=\"B2\" authorId=\"0\"><text><t>[Threaded comment]</t></text></comment></commentList></comments>", DECL, MAIN), &format!("{}comments+xml", ctp));
            p.xml(&tp, format!("{}<ThreadedComments xmlns=\"http://schemas.microsoft.com/office/spreadsheetml/2018/threadedcomments\"><threadedComment ref=\"B2\" dT=\"2024-01-01T00:00:00.00\" personId=\"{{P}}\" id=\"{{1}}\"><text>hi &amp; bye</text></threadedComment></ThreadedComments>", DECL), "application/vnd.ms-excel.threadedcomments+xml");
            rels.push(("rId21".into(), "comments", cp, false));
            rels.push(("rId22".into(), "http://schemas.microsoft.com/office/2017/10/relationships/threadedComment", tp, false));
        }
        if has("pivot") && k == 0 {
            let pt = at("pivotTables/pivotTable1.xml");
            p.xml(&pt, format!("{}<pivotTableDefinition xmlns=\"{}\" name=\"PT\" cacheId=\"3\" dataCaption=\"Values\"><location ref=\"P3:Q9\" firstHeaderRow=\"1\" firstDataRow=\"1\" firstDataCol=\"1\"/></pivotTableDefinition>", DECL, MAIN), &format!("{}pivotTable+xml", ctp));
            p.rel(&pt, "rId1", "pivotCacheDefinition", &at("pivotCache/pivotCacheDefinition1.xml"), false);
            rels.push(("rId23".into(), "pivotTable", pt, false));
        }
        if has("table") && k == 0 {
            n_tab += 1;
            let tp = at(&format!("tables/table{}.xml", n_tab));
            p.xml(&tp, format!("{}<table xmlns=\"{}\" id=\"1\" name=\"T1\" displayName=\"T1\" ref=\"M40:N42\" totalsRowShown=\"0\"><autoFilter ref=\"M40:N42\"/><tableColumns count=\"2\"><tableColumn id=\"1\" name=\"a\"/><tableColumn id=\"2\" name=\"b\"/></tableColumns><tableStyleInfo name=\"TableStyleMedium2\" showRowStripes=\"1\"/></table>", DECL, MAIN), &format!("{}table+xml", ctp));
            rels.push(("rId12".into(), "table", tp, false));
            s.push_str("<tableParts count=\"1\"><tablePart r:id=\"rId12\"/></tableParts>");
        }
        if has("ext") {
            s.push_str("<extLst><ext uri=\"{05C60535-1F16-4fd2-B633-F4F36F0B64E0}\" xmlns:x14=\"http://schemas.microsoft.com/office/spreadsheetml/2009/9/main\"><x14:sparklineGroups xmlns:xm=\"http://schemas.microsoft.com/office/excel/2006/main\"><x14:sparklineGroup><x14:sparklines><x14:sparkline><xm:f>Data!A1:A5</xm:f><xm:sqref>B1</xm:sqref></x14:sparkline></x14:sparklines></x14:sparklineGroup></x14:sparklineGroups></ext></extLst>");
        }
        if has("mixed") && !has("ext") {
            s.push_str(&format!("<extLst><ext uri=\"{{0A}}\" xmlns:n=\"urn:notes\">{}</ext></extLst>", mixed(&mut r)));
        }
        s.push_str("</worksheet>");
        for (id, ty, t, x) in rels {
            p.rel(&part, &id, ty, &t, x);
        }
        p.xml(&part, content(s, true), &format!("{}worksheet+xml", ctp));
        sheet_parts.push(part);
    }
    if has("pivot") {
        let (d, c) = (at("pivotCache/pivotCacheDefinition1.xml"), at("pivotCache/pivotCacheRecords1.xml"));
        p.xml(&d, format!("{}<pivotCacheDefinition xmlns=\"{}\" xmlns:r=\"{}\" r:id=\"rId1\" recordCount=\"1\"><cacheSource type=\"worksheet\"><worksheetSource ref=\"A1:B2\" sheet=\"{}\"/></cacheSource><cacheFields count=\"1\"><cacheField name=\"a &amp; b\"><sharedItems/></cacheField></cacheFields></pivotCacheDefinition>", DECL, MAIN, RT, e(&names[0])), &format!("{}pivotCacheDefinition+xml", ctp));
        p.xml(&c, format!("{}<pivotCacheRecords xmlns=\"{}\" count=\"1\"><r><n v=\"1\"/></r></pivotCacheRecords>", DECL, MAIN), &format!("{}pivotCacheRecords+xml", ctp));
        p.rel(&d, "rId1", "pivotCacheRecords", &c, false);
        p.rel(&wb_part, "rIdPc", "pivotCacheDefinition", &d, false);
    }
    if has("threaded") && !has("comments") {
        p.xml(&at("persons/person.xml"), format!("{}<personList xmlns=\"http://schemas.microsoft.com/office/spreadsheetml/2018/threadedcomments\"><person displayName=\"A B\" id=\"{{P}}\" userId=\"u\" providerId=\"None\"/></personList>", DECL), "application/vnd.ms-excel.person+xml");
        p.rel(&wb_part, "rIdPe", "http://schemas.microsoft.com/office/2017/10/relationships/person", &at("persons/person.xml"), false);
    }
    if has("connections") {
        p.xml(&at("connections.xml"), format!("{}<connections xmlns=\"{}\"><connection id=\"1\" name=\"c\" type=\"1\" refreshedVersion=\"6\"><dbPr connection=\"DSN=x;a&amp;#65;\"/></connection></connections>", DECL, MAIN), &format!("{}connections+xml", ctp));
        p.rel(&wb_part, "rIdCo", "connections", &at("connections.xml"), false);
    }
    if has("cell_cm") {
        p.xml(&at("metadata.xml"), format!("{}<metadata xmlns=\"{}\"><metadataTypes count=\"1\"><metadataType name=\"XLDAPR\" minSupportedVersion=\"120000\" cellMeta=\"1\"/></metadataTypes><cellMetadata count=\"1\"><bk><rc t=\"1\" v=\"0\"/></bk></cellMetadata></metadata>", DECL, MAIN), &format!("{}sheetMetadata+xml", ctp));
        p.rel(&wb_part, "rIdMd", "sheetMetadata", &at("metadata.xml"), false);
    }
    // ---- shared strings
    if has("sst_long") {
        for q in 0..40 {
            sst.push(format!("<si><t>unused {}</t></si>", q));
        }
    }
    if !has("no_sst") && (!sst.is_empty() || r.pct(50)) {
        let c = if has("sst_nocount") { String::new() } else { format!(" count=\"{}\" uniqueCount=\"{}\"", sst.len(), sst.len()) };
        let x = format!("{}<sst xmlns=\"{}\"{}>{}{}</sst>", DECL, MAIN, c, sst.concat(), if has("shared_strings_ext") { "<extLst><ext uri=\"{AA}\"><y xmlns=\"urn:y\" a=\"&amp;#65;\"/></ext></extLst>" } else { "" });
        p.xml(&at("sharedStrings.xml"), content(x, true), &format!("{}sharedStrings+xml", ctp));
        p.rel(&wb_part, "", "sharedStrings", &at("sharedStrings.xml"), false);
    }
    if !has("no_theme") {
        p.xml(&at("theme/theme1.xml"), theme_xml("Other & co").replace("Other & co", "Other theme"), "application/vnd.openxmlformats-officedocument.theme+xml");
        p.rel(&wb_part, "", "theme", &at("theme/theme1.xml"), false);
    }
    if has("calcchain") && !chain.is_empty() {
        let mut x = format!("{}<calcChain xmlns=\"{}\">", DECL, MAIN);
        let mut last = usize::MAX;
        for (k, rf) in &chain {
            let i = if has("calcchain_l") && *k == last { String::new() } else { format!(" i=\"{}\"", sheet_ids[*k]) };
            x.push_str(&format!("<c r=\"{}\"{}{}/>", rf, i, if has("calcchain_l") && *k != last { " l=\"1\"" } else { "" }));
            last = *k;
        }
        x.push_str("</calcChain>");
        p.xml(&at("calcChain.xml"), content(x, true), &format!("{}calcChain+xml", ctp));
        p.rel(&wb_part, "", "calcChain", &at("calcChain.xml"), false);
    }
    if has("external_link") {
        let xp = at("externalLinks/externalLink1.xml");
        p.xml(&xp, format!("{}<externalLink xmlns=\"{}\" xmlns:r=\"{}\"><externalBook r:id=\"rId1\"><sheetNames><sheetName val=\"S\"/></sheetNames></externalBook></externalLink>", DECL, MAIN, RT), &format!("{}externalLink+xml", ctp));
        p.rel(&xp, "rId1", "externalLinkPath", "file:///C:\\other%20book.xlsx", true);
        p.rel(&wb_part, "rIdX", "externalLink", &xp, false);
    }
    if has("custom_xml") {
        p.add("customXml/item1.xml", "<root xmlns=\"urn:x\"><a b=\"1\">t</a></root>".as_bytes());
        p.xml("customXml/itemProps1.xml", format!("{}<ds:datastoreItem ds:itemID=\"{{A1B2C3D4-0000-1111-2222-333344445555}}\" xmlns:ds=\"http://schemas.openxmlformats.org/officeDocument/2006/customXml\"/>", DECL), "application/vnd.openxmlformats-officedocument.customXmlProperties+xml");
        p.rel("customXml/item1.xml", "rId1", "customXmlProps", "customXml/itemProps1.xml", false);
        p.rel(&wb_part, "rIdCx", "customXml", "customXml/item1.xml", false);
    }
    if has("unknown_part") {
        p.def.insert("dat".into(), "application/x-thing".into());
        p.add(&at("vendor/blob.dat"), noise(seed, 300));
        p.rel(&wb_part, "rIdV", "http://example.com/rel/vendor", &at("vendor/blob.dat"), false);
    }
    extras(&mut p, &wdir, &wb_part, &f, seed);
    // ---- relationship ids
    let mut ids: Vec<String> = vec![];
    for k in 0..nsheets {
        let id = if has("odd_rids") { format!("R{:x}ab", k * 37 + 11) } else { format!("rId{}", k + 1) };
        let kind = if has("chartsheet") && k == nsheets - 1 { "chartsheet" } else { "worksheet" };
        p.rel(&wb_part, &id, kind, &sheet_parts[k].clone(), false);
        ids.push(id);
    }
    let mut n = nsheets;
    for q in p.rels.get_mut(&wb_part).unwrap().iter_mut() {
        if q.0.is_empty() {
            n += 1;
            q.0 = if has("odd_rids") { format!("id{}", n * 3) } else { format!("rId{}", n) };
        }
    }
    if has("odd_rids") {
        p.rels.get_mut(&wb_part).unwrap().reverse();
    }
    // ---- workbook
    let mut w = format!("{}<workbook xmlns=\"{}\" xmlns:r=\"{}\"", DECL, MAIN, RT);
    if has("ext") {
        w.push_str(" xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\" mc:Ignorable=\"x15\" xmlns:x15=\"http://schemas.microsoft.com/office/spreadsheetml/2010/11/main\"");
    }
    w.push('>');
    if has("wbpr") {
        w.push_str("<fileVersion appName=\"xl\" lastEdited=\"7\" lowestEdited=\"7\" rupBuild=\"22228\"/><workbookPr date1904=\"1\" codeName=\"ThisWorkbook\" defaultThemeVersion=\"166925\"/>");
    }
    if has("ext") {
        w.push_str("<mc:AlternateContent xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\"><mc:Choice Requires=\"x15\"><x15ac:absPath url=\"C:\\x\\\" xmlns:x15ac=\"http://schemas.microsoft.com/office/spreadsheetml/2010/11/ac\"/></mc:Choice></mc:AlternateContent>");
    }
    if has("protection") {
        w.push_str("<workbookProtection lockStructure=\"1\"/>");
    }
    let active = if has("active_last") { nsheets - 1 } else { 0 };
    if !has("no_bookviews") || active > 0 {
        let mut at = " xWindow=\"0\" yWindow=\"0\" windowWidth=\"20000\" windowHeight=\"10000\"".to_string();
        if has("wbview_attrs") {
            at = " xWindow=\"-120\" yWindow=\"30\" windowWidth=\"29040\" windowHeight=\"15840\"".to_string();
            let first = r.usize(nsheets).to_string();
            let ratio = r.pick(&["750", "0", "1000", "600"]).to_string();
            for k in ["visibility", "showHorizontalScroll", "showVerticalScroll", "showSheetTabs", "minimized", "autoFilterDateGrouping", "tabRatio", "firstSheet"] {
                if r.pct(70) {
                    let v = match k {
                        "visibility" => *r.pick(&["visible", "hidden", "veryHidden"]),
                        "tabRatio" => &ratio,
                        "firstSheet" => &first,
                        _ => *r.pick(&["0", "1", "false", "true", "0"]),
                    };
                    at.push_str(&format!(" {}=\"{}\"", k, v));
                }
            }
        }
        let ac = if active > 0 || r.pct(50) { format!(" activeTab=\"{}\"", active) } else { String::new() };
        w.push_str(&format!("<bookViews><workbookView{}{}/>{}</bookViews>", at, ac, if has("two_views") { "<workbookView xWindow=\"5\" yWindow=\"5\" windowWidth=\"100\" windowHeight=\"100\"/>" } else { "" }));
    }
    w.push_str("<sheets>");
    for k in 0..nsheets {
        let st = if has("very_hidden") && k == 1 && active != 1 { " state=\"veryHidden\"" } else if has("hidden_sheet") && k == nsheets - 1 && k > 0 && active != k { " state=\"hidden\"" } else { "" };
        w.push_str(&format!("<sheet name=\"{}\" sheetId=\"{}\"{} r:id=\"{}\"/>", e(&names[k]), sheet_ids[k], st, ids[k]));
    }
    w.push_str("</sheets>");
    if has("external_link") {
        w.push_str("<externalReferences><externalReference r:id=\"rIdX\"/></externalReferences>");
    }
    if has("defined_names") {
        w.push_str(&format!("<definedNames><definedName name=\"Total\">'{}'!$A$1</definedName><definedName name=\"_xlnm.Print_Area\" localSheetId=\"0\">'{}'!$A$1:$C$9</definedName></definedNames>", e(&names[0]).replace('\'', "''"), e(&names[0]).replace('\'', "''")));
    }
    if has("local_names") && !has("defined_names") {
        w.push_str("<definedNames>");
        for k in 0..nsheets {
            w.push_str(&format!("<definedName name=\"loc\" localSheetId=\"{}\">'{}'!$B$2</definedName>", k, e(&names[k]).replace('\'', "''")));
        }
        w.push_str("</definedNames>");
    }
    w.push_str(if has("wbpr") { "<calcPr calcId=\"191029\" fullCalcOnLoad=\"1\"/>" } else { "<calcPr calcId=\"191029\"/>" });
    if has("controls") {
        w.push_str("<mc:AlternateContent xmlns:mc=\"http://schemas.openxmlformats.org/markup-compatibility/2006\"><mc:Choice Requires=\"x99\" xmlns:x99=\"urn:later\"><x99:note>a</x99:note></mc:Choice><mc:Fallback><oleSize ref=\"A1:B9\"/></mc:Fallback></mc:AlternateContent>");
    }
    if has("custom_views") {
        w.push_str("<customWorkbookViews><customWorkbookView name=\"v\" guid=\"{11111111-2222-3333-4444-555555555555}\" windowWidth=\"100\" windowHeight=\"100\" activeSheetId=\"1\"/></customWorkbookViews>");
    }
    if has("pivot") {
        w.push_str("<pivotCaches><pivotCache cacheId=\"3\" r:id=\"rIdPc\"/></pivotCaches>");
    }
    if has("ext") {
        w.push_str("<extLst><ext uri=\"{140A7094-0E35-4892-8432-C4D2E57EDEB5}\"><x15:workbookPr chartTrackingRefBase=\"1\"/></ext></extLst>");
    }
    w.push_str("</workbook>");
    p.xml(&wb_part, content(w, true), &format!("{}sheet.main+xml", ctp));
    root(&mut p, &wb_part, &f, &mut r);
    let parts = p.finish(has("abs_targets"), &|x| dress(x, &f, false));
    pack(parts, &f, &mut r)
}
fn root(p: &mut P, main: &str, f: &BTreeSet<&str>, r: &mut Rng) {
    if f.contains("macro") || f.contains("template") {
        for (n, t) in p.over.iter_mut() {
            if n == main {
                let (a, b) = if t.contains("spreadsheetml") { ("ms-excel.sheet.macroEnabled", "spreadsheetml.template") } else if t.contains("wordprocessingml") { ("ms-word.document.macroEnabled", "wordprocessingml.template") } else { ("ms-powerpoint.presentation.macroEnabled", "presentationml.template") };
                *t = if f.contains("macro") { format!("application/vnd.{}.main+xml", a) } else { format!("application/vnd.openxmlformats-officedocument.{}.main+xml", b) };
            }
        }
    }
    if f.contains("macro") {
        let d = crate::pkg::dir_of(main).to_string();
        let n = if d.is_empty() { "vbaProject.bin".to_string() } else { format!("{}/vbaProject.bin", d) };
        p.over.push((n.clone(), "application/vnd.ms-office.vbaProject".into()));
        p.add(&n, noise(77, 900));
        p.rel(main, "rIdVba", "http://schemas.microsoft.com/office/2006/relationships/vbaProject", &n, false);
    }
    p.rel("", "rId1", "officeDocument", main, false);
    if f.contains("default_main") {
        p.default_main = Some(main.to_string());
    }
    p.case_target = f.contains("case_target");
    p.case_rels = f.contains("case_rels");
    p.case_types = f.contains("case_types");
    p.ct_prefix = f.contains("ct_prefix");
    if !f.contains("no_core") {
        let c = core_xml(f.contains("core_rich"), f.contains("mixed"), r);
        let c = if f.contains("core_bare") {
            format!("{}<cp:coreProperties xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\" xmlns:dc=\"http://purl.org/dc/elements/1.1/\"><dc:creator>B</dc:creator></cp:coreProperties>", DECL)
        } else if f.contains("core_openpyxl") {
            format!("{}<cp:coreProperties xmlns:cp=\"http://schemas.openxmlformats.org/package/2006/metadata/core-properties\"><dc:creator xmlns:dc=\"http://purl.org/dc/elements/1.1/\">openpyxl</dc:creator><dcterms:created xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:type=\"dcterms:W3CDTF\">2020-01-02T03:04:05Z</dcterms:created><dcterms:modified xmlns:dcterms=\"http://purl.org/dc/terms/\" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:type=\"dcterms:W3CDTF\">2020-01-02T03:04:05Z</dcterms:modified></cp:coreProperties>", DECL)
        } else if f.contains("core_default") {
            c.replace("cp:", "").replace("xmlns:cp=", "xmlns=")
        } else {
            c
        };
        let c = if f.contains("core_prefix") { core_other_prefix(c) } else { c };
        p.xml("docProps/core.xml", c, "application/vnd.openxmlformats-package.core-properties+xml");
        p.rel("", "rId2", "http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties", "docProps/core.xml", false);
    }
    if f.contains("app") {
        p.xml("docProps/app.xml", format!("{}<Properties xmlns=\"http://schemas.openxmlformats.org/officeDocument/2006/extended-properties\"><Application>Other Office</Application><AppVersion>16.0300</AppVersion></Properties>", DECL), "application/vnd.openxmlformats-officedocument.extended-properties+xml");
        p.rel("", "rId3", "extended-properties", "docProps/app.xml", false);
    }
    if f.contains("custom_props") {
        p.xml("docProps/custom.xml", format!("{}<Properties xmlns=\"http://schemas.openxmlformats.org/officeDocument/2006/custom-properties\" xmlns:vt=\"http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes\"><property fmtid=\"{{D5CDD505-2E9C-101B-9397-08002B2CF9AE}}\" pid=\"2\" name=\"k\"><vt:lpwstr>v</vt:lpwstr></property></Properties>", DECL), "application/vnd.openxmlformats-officedocument.custom-properties+xml");
        p.rel("", "rId4", "custom-properties", "docProps/custom.xml", false);
    }
    if f.contains("odd_files") {
        // names a reader might take for something else than a part
        for (k, n) in [".state.bin", "custom/.hidden.xml", "custom/~backup.tmp", "thumbs.db", "META-INF/manifest.bin", "[trash]/0000.dat", "a/b/c/d/e/f/g/h/deep.bin", "docProps/thumbnail.jpeg", "custom/workbook.xml.bak", "custom/mimetype.txt", "__MACOSX/._custom.bin", "custom/desktop.ini", "custom/rels", "custom/core.xml", "custom/a..b.bin", "custom/UPPER.BIN"].iter().enumerate() {
            if r.pct(40) {
                p.over.push((n.to_string(), ["application/octet-stream", "application/x-other", "text/plain"][k % 3].into()));
                p.add(n, if n.ends_with(".xml") { b"<other xmlns=\"urn:o\"/>".to_vec() } else { noise(k as u64 + 5, 40 + k * 7) });
            }
        }
    }
    if f.contains("root_custom") {
        for k in 5..7 {
            let n = format!("customXml/root{}.xml", k);
            p.add(&n, format!("<r xmlns=\"urn:r\">{}</r>", k).into_bytes());
            p.rel("", &format!("rId{}", k), "customXml", &n, false);
        }
    }
}
/// features of the other two kinds 
pub const WP: &[&str] = &["abs_targets", "image", "upper_ext", "header", "footnotes", "custom_xml", "embed", "settings", "core_rich", "no_core", "app", "custom_props", "bom", "pretty", "single_quotes", "stored", "zip_shuffle", "no_decl", "unknown_part", "external", "glossary", "odd_names", "notes", "self_close", "entities", "cdata", "empty_part", "ext_rels", "root_custom", "core_prefix", "case_default", "case_override", "two_images", "no_ext_part", "default_main", "ct_prefix", "core_bare", "core_default", "core_openpyxl", "case_target", "zip_dirs", "big_part", "amp_attr", "macro", "template", "zip_descr", "zip_extra", "pct_names", "case_rels", "case_types", "odd_files", "mixed", "utf16", "crlf"];
fn body_text(r: &mut Rng, f: &BTreeSet<&str>) -> String {
    let w = if r.pct(30) { *r.pick(UNI) } else { *r.pick(WORDS) };
    if f.contains("cdata") && r.pct(40) && !w.contains("]]>") { format!("<![CDATA[{}]]>", w) } else { format!("{}  &#x41;{}", e(w), if f.contains("entities") { "&#10;&apos;" } else { "" }) }
}
fn word(seed: u64, features: &[String]) -> Vec<u8> {
    let f: BTreeSet<&str> = features.iter().map(|s| s.as_str()).collect();
    let has = |x: &str| f.contains(x);
    let mut r = Rng::new(seed);
    let mut p = P::new();
    let ct = "application/vnd.openxmlformats-officedocument.wordprocessingml.";
    let ns = "xmlns:w=\"http://schemas.openxmlformats.org/wordprocessingml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\"";
    let main = if has("odd_names") { "word/doc-main.xml" } else { "word/document.xml" };
    let mut d = format!("{}<w:document {}><w:body>", DECL, ns);
    for _ in 0..2 + r.usize(6) {
        d.push_str(&format!("<w:p><w:r><w:t xml:space=\"preserve\">{} </w:t></w:r></w:p>", body_text(&mut r, &f)));
    }
    d.push_str("<w:sectPr/></w:body></w:document>");
    p.xml(main, dress(d, &f, true), &format!("{}document.main+xml", ct));
    p.xml("word/styles.xml", format!("{}<w:styles {}><w:style w:type=\"paragraph\" w:styleId=\"a\"><w:name w:val=\"Normal\"/></w:style></w:styles>", DECL, ns), &format!("{}styles+xml", ct));
    p.rel(main, "rId1", "styles", "word/styles.xml", false);
    p.xml("word/theme/theme1.xml", theme_xml("T"), "application/vnd.openxmlformats-officedocument.theme+xml");
    p.rel(main, "rId2", "theme", "word/theme/theme1.xml", false);
    if has("settings") {
        p.xml("word/settings.xml", format!("{}<w:settings {}><w:zoom w:percent=\"100\"/></w:settings>", DECL, ns), &format!("{}settings+xml", ct));
        p.rel(main, "rId3", "settings", "word/settings.xml", false);
    }
    if has("header") {
        p.xml("word/header1.xml", format!("{}<w:hdr {}><w:p/></w:hdr>", DECL, ns), &format!("{}header+xml", ct));
        p.rel(main, "rId4", "header", "word/header1.xml", false);
    }
    if has("footnotes") {
        p.xml("word/footnotes.xml", format!("{}<w:footnotes {}/>", DECL, ns), &format!("{}footnotes+xml", ct));
        p.rel(main, "rId5", "footnotes", "word/footnotes.xml", false);
    }
    common(&mut p, "word", main, &f, seed);
    if has("glossary") {
        p.xml("word/glossary/document.xml", format!("{}<w:glossaryDocument {}/>", DECL, ns), &format!("{}document.glossary+xml", ct));
        p.rel(main, "rId15", "glossaryDocument", "word/glossary/document.xml", false);
    }
    root(&mut p, main, &f, &mut r);
    let parts = p.finish(has("abs_targets"), &|x| dress(x, &f, false));
    pack(parts, &f, &mut r)
}
fn common(p: &mut P, dir: &str, main: &str, f: &BTreeSet<&str>, seed: u64) {
    let has = |x: &str| f.contains(x);
    if has("image") {
        let up = has("upper_ext");
        let n = format!("{}/media/image1.{}", dir, if up { "JPEG" } else { "jpeg" });
        p.def.insert(if up { "JPEG".into() } else { "jpeg".into() }, "image/jpeg".into());
        p.add(&n, png(seed));
        p.rel(main, "rId10", "image", &n, false);
    }
    if has("embed") {
        let n = format!("{}/embeddings/oleObject1.bin", dir);
        p.def.insert("bin".into(), "application/vnd.openxmlformats-officedocument.oleObject".into());
        p.add(&n, noise(seed, 500));
        p.rel(main, "rId11", "oleObject", &n, false);
    }
    extras(p, dir, main, f, seed);
    if has("ext_rels") {
        for (q, t) in EXT.iter().enumerate() {
            p.rel(main, &format!("rIdE{}", q), "hyperlink", t, true);
        }
    }
    if has("external") {
        p.rel(main, "rId12", "hyperlink", "https://example.com/a?b=c&d=\"e\"", true);
    }
    if has("unknown_part") {
        p.def.insert("dat".into(), "application/x-thing".into());
        p.add("vendor/blob.dat", noise(seed ^ 3, 200));
        p.rel(main, "rId13", "http://example.com/rel/vendor", "vendor/blob.dat", false);
    }
    if has("custom_xml") {
        p.add("customXml/item1.xml", "<root xmlns=\"urn:x\"> <a b='1'>t</a> </root>".as_bytes());
        p.xml("customXml/itemProps1.xml", format!("{}<ds:datastoreItem ds:itemID=\"{{A1B2C3D4-0000-1111-2222-333344445555}}\" xmlns:ds=\"http://schemas.openxmlformats.org/officeDocument/2006/customXml\"/>", DECL), "application/vnd.openxmlformats-officedocument.customXmlProperties+xml");
        p.rel("customXml/item1.xml", "rId1", "customXmlProps", "customXml/itemProps1.xml", false);
        p.rel(main, "rId14", "customXml", "customXml/item1.xml", false);
    }
}
const EXT: &[&str] = &["mailto:a@example.com?subject=x%20y", "#Data!A1", "other.xlsx", "../up/other%20file.docx", "file:///C:\\share\\x.txt", "\\\\server\\share", "urn:x:y"];
/// features every kind of package has
fn extras(p: &mut P, dir: &str, main: &str, f: &BTreeSet<&str>, seed: u64) {
    let has = |x: &str| f.contains(x);
    let at = |n: &str| if dir.is_empty() { n.to_string() } else { format!("{}/{}", dir, n) };
    if has("empty_part") {
        p.over.push((at("vendor/empty.x"), "application/octet-stream".into()));
        p.add(&at("vendor/empty.x"), vec![]);
        p.rel(main, "rIdEmpty", "http://example.com/rel/empty", &at("vendor/empty.x"), false);
    }
    if has("no_ext_part") {
        p.over.push((at("vendor/noext"), "application/x-thing".into()));
        p.add(&at("vendor/noext"), noise(seed ^ 9, 64));
        p.rel(main, "rIdNoExt", "http://example.com/rel/noext", &at("vendor/noext"), false);
    }
    if has("case_default") {
        p.def.insert("WMF".into(), "image/x-wmf".into());
        p.add(&at("media/drawing1.wmf"), noise(seed ^ 10, 80));
        p.rel(main, "rIdWmf", "image", &at("media/drawing1.wmf"), false);
    }
    if has("case_override") {
        p.over.push((at("Vendor/Item.TXT"), "text/plain".into()));
        p.add(&at("vendor/item.txt"), noise(seed ^ 11, 40));
        p.rel(main, "rIdTxt", "http://example.com/rel/txt", &at("vendor/item.txt"), false);
    }
    if has("big_part") {
        let n = at("media/film.mpg");
        p.def.insert("mpg".into(), "video/mpeg".into());
        let block = noise(seed ^ 12, 4096);
        let mut r = Rng::new(seed ^ 13);
        let len = *r.pick(&[1_048_577usize, 1_500_000, 2_600_000, 70_000, 65_536]);
        let mut v = Vec::with_capacity(len);
        while v.len() < len {
            v.extend_from_slice(&block);
            v.push(r.next() as u8);
        }
        v.truncate(len);
        p.add(&n, v);
        p.rel(main, "rIdFilm", "http://schemas.openxmlformats.org/officeDocument/2006/relationships/video", &n, false);
    }
    if has("pct_names") {
        let n = at("media/my%20photo%C3%A9.gif");
        p.def.insert("gif".into(), "image/gif".into());
        p.add(&n, noise(seed ^ 14, 90));
        p.rel(main, "rIdPct", "image", &n, false);
        let n = at("vendor/a&b.xml");
        p.over.push((n.clone(), "application/x-thing+xml".into()));
        p.add(&n, "<t a=\"&amp;#65;\"/>".as_bytes());
        p.rel(main, "rIdAmp", "http://example.com/rel/amp", &n, false);
    }
    if has("amp_attr") {
        p.rel(main, "rIdRef", "hyperlink", "http://example.com/?q=&#65;&lt=1&amp;x", true);
        p.over.push((at("vendor/Q&amp;B.x"), "application/x-thing".into()));
        p.add(&at("vendor/Q&amp;B.x"), noise(seed ^ 15, 30));
        p.rel(main, "rIdRefP", "http://example.com/rel/ref", &at("vendor/Q&amp;B.x"), false);
    }
    if has("two_images") {
        for q in 0..3 {
            let n = at(&format!("media/pic{}.gif", q));
            p.def.insert("gif".into(), "image/gif".into());
            p.add(&n, noise(seed ^ (20 + q), 50));
            p.rel(main, &format!("rIdPic{}", q), "image", &n, false);
        }
    }
}
fn ppt(seed: u64, features: &[String]) -> Vec<u8> {
    let f: BTreeSet<&str> = features.iter().map(|s| s.as_str()).collect();
    let has = |x: &str| f.contains(x);
    let mut r = Rng::new(seed);
    let mut p = P::new();
    let ct = "application/vnd.openxmlformats-officedocument.presentationml.";
    let ns = "xmlns:a=\"http://schemas.openxmlformats.org/drawingml/2006/main\" xmlns:r=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships\" xmlns:p=\"http://schemas.openxmlformats.org/presentationml/2006/main\"";
    let main = if has("odd_names") { "ppt/pres-x.xml" } else { "ppt/presentation.xml" };
    let n = 1 + r.usize(4);
    let mut d = format!("{}<p:presentation {}><p:sldMasterIdLst><p:sldMasterId id=\"2147483648\" r:id=\"rId1\"/></p:sldMasterIdLst><p:sldIdLst>", DECL, ns);
    for k in 0..n {
        d.push_str(&format!("<p:sldId id=\"{}\" r:id=\"rId{}\"/>", 256 + k, 20 + k));
    }
    d.push_str("</p:sldIdLst><p:sldSz cx=\"12192000\" cy=\"6858000\"/><p:notesSz cx=\"6858000\" cy=\"9144000\"/></p:presentation>");
    p.xml(main, dress(d, &f, true), &format!("{}presentation.main+xml", ct));
    let tree = "<p:cSld><p:spTree><p:nvGrpSpPr><p:cNvPr id=\"1\" name=\"\"/><p:cNvGrpSpPr/><p:nvPr/></p:nvGrpSpPr><p:grpSpPr/></p:spTree></p:cSld>";
    p.xml("ppt/slideMasters/slideMaster1.xml", format!("{}<p:sldMaster {}>{}<p:clrMap bg1=\"lt1\" tx1=\"dk1\" bg2=\"lt2\" tx2=\"dk2\" accent1=\"accent1\" accent2=\"accent2\" accent3=\"accent3\" accent4=\"accent4\" accent5=\"accent5\" accent6=\"accent6\" hlink=\"hlink\" folHlink=\"folHlink\"/></p:sldMaster>", DECL, ns, tree), &format!("{}slideMaster+xml", ct));
    p.rel(main, "rId1", "slideMaster", "ppt/slideMasters/slideMaster1.xml", false);
    p.xml("ppt/slideLayouts/slideLayout1.xml", format!("{}<p:sldLayout {}>{}</p:sldLayout>", DECL, ns, tree), &format!("{}slideLayout+xml", ct));
    p.rel("ppt/slideMasters/slideMaster1.xml", "rId1", "slideLayout", "ppt/slideLayouts/slideLayout1.xml", false);
    p.rel("ppt/slideMasters/slideMaster1.xml", "rId2", "theme", "ppt/theme/theme1.xml", false);
    p.rel("ppt/slideLayouts/slideLayout1.xml", "rId1", "slideMaster", "ppt/slideMasters/slideMaster1.xml", false);
    p.xml("ppt/theme/theme1.xml", theme_xml("P"), "application/vnd.openxmlformats-officedocument.theme+xml");
    p.rel(main, "rId2", "theme", "ppt/theme/theme1.xml", false);
    for k in 0..n {
        let s = format!("ppt/slides/slide{}.xml", k + 1);
        p.xml(&s, dress(format!("{}<p:sld {}>{}<p:extLst><p:ext uri=\"x\">{}</p:ext></p:extLst></p:sld>", DECL, ns, tree, body_text(&mut r, &f)), &f, true), &format!("{}slide+xml", ct));
        p.rel(main, &format!("rId{}", 20 + k), "slide", &s, false);
        p.rel(&s, "rId1", "slideLayout", "ppt/slideLayouts/slideLayout1.xml", false);
        if has("notes") {
            let t = format!("ppt/notesSlides/notesSlide{}.xml", k + 1);
            p.xml(&t, format!("{}<p:notes {}>{}</p:notes>", DECL, ns, tree), &format!("{}notesSlide+xml", ct));
            p.rel(&s, "rId2", "notesSlide", &t, false);
            p.rel(&t, "rId1", "slide", &s, false);
        }
    }
    common(&mut p, "ppt", main, &f, seed);
    root(&mut p, main, &f, &mut r);
    let parts = p.finish(has("abs_targets"), &|x| dress(x, &f, false));
    pack(parts, &f, &mut r)
}
