//! The reference model: a small executable specification of a document under the public operations.
//! It is loaded from the bytes on the simulated disk by the independent reader and compared with what is saved.
use crate::pkg::*;
use crate::plan::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Diff {
    pub cat: &'static str,
    pub msg: String,
}
fn d(v: &mut Vec<Diff>, cat: &'static str, msg: String) {
    if v.len() < 60 {
        v.push(Diff { cat, msg });
    }
}
#[derive(Clone, Debug, Default)]
pub struct Touch {
    pub opened: bool,
    pub cells: BTreeSet<(u32, u32)>,
    pub rows: BTreeSet<u32>,
    pub cols: BTreeSet<u32>,
}
#[derive(Clone, Debug)]
pub struct Core {
    pub part: String,
    pub created: Option<String>,
    pub modified: Option<String>,
    pub rest: Vec<String>,
}
#[derive(Clone, Debug)]
pub struct Model {
    pub doc: Doc,
    pub is_new: bool,
    pub pkg: Rc<Pkg>,
    pub wb: Wb,
    pub uids: Vec<u32>,
    pub next_uid: u32,
    pub active: Option<u32>, // uid; None: any
    pub touch: BTreeMap<u32, Touch>,
    pub deleted: Vec<SheetV>,
    pub lint0: BTreeSet<String>,
    pub core: Option<Core>,
    pub view_set: BTreeSet<&'static str>,
    pub style_ids: Vec<(StyleSpec, u32)>,
}
pub const SPEC: &str = "\u{1}SPEC:";

pub fn read_core(p: &Pkg) -> Option<Core> {
    let r = p.rels_of("").ok()?;
    let r = r.iter().find(|r| rel_kind(&r.ty) == "core-properties")?;
    let d = p.part(&r.target)?;
    let t = crate::xml::parse(d).ok()?;
    let mut c = Core { part: r.target.clone(), created: None, modified: None, rest: vec![] };
    for e in t.elems() {
        match e.name.as_str() {
            "dcterms:created" => c.created = Some(e.text()),
            "dcterms:modified" => c.modified = Some(e.text()),
            // the library records itself as the last editor and counts revisions
            _ => c.rest.push(format!("{}={}", e.name, e.canon())),
        }
    }
    c.rest.sort();
    Some(c)
}
/// spec -> the facts the style must show
pub fn spec_string(s: &StyleSpec) -> Rc<str> {
    format!("{}{}", SPEC, serde_json::to_string(s).unwrap()).into()
}
pub const NUMS: &[(&str, u32)] = &[
    ("General", 0),
    ("Integer", 1),
    ("DecimalTwoPlaces", 2),
    ("ThousandsSeparator", 3),
    ("ThousandsSeparatorTwoDecimals", 4),
    ("Percentage", 9),
    ("PercentageTwoDecimals", 10),
    ("Scientific", 11),
    ("FractionOneDigit", 12),
    ("FractionTwoDigits", 13),
    ("DateMMDDYY", 14),
    ("DateDMmmYY", 15),
    ("Time24Hour", 20),
    ("DateTimeMMDDYY", 22),
    ("ScientificOneDecimal", 48),
    ("TextFormat", 49),
    ("CurrencyNoDecimals", 5),
    ("CurrencyNoDecimalsRed", 6),
    ("CurrencyTwoDecimals", 7),
    ("CurrencyTwoDecimalsRed", 8),
    ("DateDMmm", 16),
    ("DateMmmYY", 17),
    ("Time12Hour", 18),
    ("Time12HourWithSeconds", 19),
    ("Time24HourWithSeconds", 21),
    ("AccountingNoDecimals", 37),
    ("AccountingNoDecimalsRed", 38),
    ("AccountingTwoDecimals", 39),
    ("AccountingTwoDecimalsRed", 40),
    ("AccountingNegativeInParentheses", 41),
    ("AccountingTwoDecimalsNegativeInParentheses", 42),
    ("AccountingAlignedSymbols", 43),
    ("AccountingAlignedSymbolsTwoDecimals", 44),
    ("TimeMinutesSeconds", 45),
    ("TimeHoursMinutesSeconds", 46),
    ("ElapsedTimeWithFractions", 47),
];
pub const BORDERS: &[&str] = &["none", "thin", "thick", "dotted", "double", "dashed", "dashDot", "dashDotDot", "medium", "mediumDashed", "mediumDashDot", "mediumDashDotDot", "slantDashDot", "hair"];
pub const HALIGN: &[&str] = &["none", "left", "center", "right", "justify"];
pub const VALIGN: &[&str] = &["none", "top", "center", "bottom"];
fn color_attr(c: &(u8, String)) -> String {
    match c.0 {
        0 => format!("indexed={}", c.1),
        1 => format!("theme={}", c.1),
        _ => format!("rgb={}", c.1.trim_start_matches('#')),
    }
}
/// section `name(...)` of a rendered style
fn section<'a>(s: &'a str, name: &str) -> &'a str {
    let key = format!("{}(", name);
    let Some(i) = s.find(&key) else { return "" };
    let b = i + key.len();
    let mut depth = 1;
    for (k, c) in s[b..].char_indices() {
        match c {
            '(' => depth += 1,
            ')' => {
                depth -= 1;
                if depth == 0 {
                    return &s[b..b + k];
                }
            }
            _ => {}
        }
    }
    ""
}
fn split_tokens(s: &str) -> Vec<&str> {
    // commas outside brackets
    let mut v = vec![];
    let mut depth = 0;
    let mut b = 0;
    for (i, c) in s.char_indices() {
        match c {
            '[' | '(' => depth += 1,
            ']' | ')' => depth -= 1,
            ',' if depth == 0 => {
                v.push(&s[b..i]);
                b = i + 1;
            }
            _ => {}
        }
    }
    if b < s.len() {
        v.push(&s[b..]);
    }
    v
}
/// every way in which the rendered style does not denote the settings
pub fn spec_violations(sp: &StyleSpec, actual: &str) -> Vec<String> {
    let mut v = vec![];
    let f = split_tokens(section(actual, "font"));
    let has = |t: &str| f.iter().any(|x| *x == t);
    if has("b") != sp.bold {
        v.push(format!("bold {} but font is ({})", sp.bold, f.join(",")));
    }
    if has("i") != sp.italic {
        v.push(format!("italic {} but font is ({})", sp.italic, f.join(",")));
    }
    let u = if sp.dunderline { "u=double" } else { "u" };
    let want_u = sp.underline || sp.dunderline;
    let any_u = f.iter().find(|x| **x == "u" || x.starts_with("u="));
    if (want_u && any_u != Some(&u) && !(sp.underline && sp.dunderline)) || want_u != any_u.is_some() {
        v.push(format!("underline {}/{} but font is ({})", sp.underline, sp.dunderline, f.join(",")));
    }
    if !has(&format!("sz={}", sp.size as f64)) {
        v.push(format!("size {} but font is ({})", sp.size, f.join(",")));
    }
    if !has(&format!("name[val={}]", sp.font)) {
        v.push(format!("font name {:?} but font is ({})", sp.font, f.join(",")));
    }
    let col = sp.color.clone().unwrap_or((1, "1".into()));
    if !has(&format!("color[{}]", color_attr(&col))) {
        v.push(format!("colour {} but font is ({})", color_attr(&col), f.join(",")));
    }
    for x in &f {
        let known = matches!(*x, "b" | "i" | "u" | "u=double") || ["sz=", "name[", "color[", "family[", "scheme["].iter().any(|p| x.starts_with(p));
        if !known {
            v.push(format!("font is ({}), {} was not asked for", f.join(","), x));
        }
    }
    let pat = section(actual, "fill").split(',').next().unwrap_or("");
    // the interface has colours and no pattern
    if pat != "pat=none" && !(pat == "pat=solid" && (sp.bg.is_some() || sp.fg.is_some())) {
        v.push(format!("background {:?} {:?} but fill is ({})", sp.bg, sp.fg, section(actual, "fill")));
    }
    if !section(actual, "prot").is_empty() || actual.ends_with(" quote") || actual.ends_with(" pivot") {
        v.push(format!("protection or quoting was not asked for: {}", actual));
    }
    let fill = section(actual, "fill");
    for (n, c) in [("bgColor", &sp.bg), ("fgColor", &sp.fg)] {
        let want = c.as_ref().map(|c| format!("{}[rgb={}]", n, c));
        match want {
            Some(w) => {
                if !fill.contains(&w) {
                    v.push(format!("{} {:?} but fill is ({})", n, c, fill));
                }
            }
            None => {
                if fill.contains(n) {
                    v.push(format!("no {} but fill is ({})", n, fill));
                }
            }
        }
    }
    let border = section(actual, "border");
    let mut want: Vec<String> = vec![];
    for (i, side) in ["left", "top", "right", "bottom", "diagonal"].iter().enumerate() {
        if let Some((st, c)) = sp.borders.get(i) {
            if *st > 0 {
                want.push(format!("{}={}{}", side, BORDERS[*st as usize % BORDERS.len()], c.as_ref().map(|c| format!("(color {})", color_attr(c))).unwrap_or_default()));
            }
        }
    }
    want.sort();
    let have: Vec<&str> = split_tokens(border);
    if want.iter().map(|s| s.as_str()).collect::<Vec<_>>() != have {
        v.push(format!("borders {:?} but border is ({})", want, border));
    }
    let num = section(actual, "num");
    let wn = match &sp.custom {
        Some(c) => format!("{:?}", c),
        None => format!("#{}", NUMS[sp.num as usize % NUMS.len()].1),
    };
    if !(num == wn || (sp.custom.as_deref() == Some("General") && num == "#0")) {
        v.push(format!("number format {} but it is {}", wn, num));
    }
    let al = split_tokens(section(actual, "align"));
    let mut wa: Vec<String> = vec![];
    let h = HALIGN[sp.h as usize % HALIGN.len()];
    if h != "none" {
        wa.push(format!("horizontal={}", h));
    }
    let vv = VALIGN[sp.v as usize % VALIGN.len()];
    if vv != "none" && vv != "bottom" {
        wa.push(format!("vertical={}", vv));
    }
    if sp.wrap {
        wa.push("wrapText".into());
    }
    wa.sort();
    if wa.iter().map(|s| s.as_str()).collect::<Vec<_>>() != al {
        v.push(format!("alignment {:?} but it is {:?}", wa, al));
    }
    v
}
thread_local! {
    static STYLE_CACHE: std::cell::RefCell<HashMap<(String, String), bool>> = std::cell::RefCell::new(HashMap::new());
}
pub fn style_ok(want: &str, actual: &str) -> bool {
    if let Some(j) = want.strip_prefix(SPEC) {
        return STYLE_CACHE.with(|c| {
            let mut c = c.borrow_mut();
            if let Some(r) = c.get(&(want.to_string(), actual.to_string())) {
                return *r;
            }
            let sp: StyleSpec = serde_json::from_str(j).unwrap();
            let r = spec_violations(&sp, actual).is_empty();
            if c.len() > 4000 {
                c.clear();
            }
            c.insert((want.into(), actual.into()), r);
            r
        });
    }
    want == actual
}
pub fn show_style(s: &str) -> String {
    s.replace('\u{1}', "")
}

/// the value a cell must hold after a write, or None when the write must be refused
pub fn written_cell(c: &CellSpec, style: Rc<str>, xf: usize) -> Option<Cell> {
    let mut o = Cell { kind: ' ', xf, style, f: c.f.clone().filter(|f| !f.is_empty()), ..Default::default() };
    let Some(v) = &c.v else { return Some(o) };
    let finite = |s: &str| s.parse::<f64>().map(|x| x.is_finite()).unwrap_or(false) && s.bytes().all(|b| b.is_ascii_digit() || b"+-.eE".contains(&b));
    match c.t {
        Ty::Auto => {
            if finite(v) {
                o.kind = 'n';
                o.val = v.clone();
            } else if v == "true" || v == "false" {
                o.kind = 'b';
                o.val = if v == "true" { "1".into() } else { "0".into() };
            } else {
                o.kind = 's';
                o.val = v.clone();
            }
        }
        Ty::Number => {
            if !finite(v) {
                return None;
            }
            o.kind = 'n';
            o.val = v.clone();
        }
        Ty::Boolean => {
            o.kind = 'b';
            o.val = if matches!(v.to_lowercase().as_str(), "false" | "0" | "") { "0".into() } else { "1".into() };
        }
        Ty::String | Ty::Shared | Ty::Inline => {
            o.kind = 's';
            o.val = v.clone();
        }
        Ty::Error => {
            o.kind = 'e';
            o.val = v.clone();
        }
    }
    Some(o)
}
pub fn text_allowed(s: &str) -> bool {
    s.chars().all(|c| matches!(c, '\t' | '\n' | '\r') || (c >= ' ' && c != '\u{FFFE}' && c != '\u{FFFF}'))
}

impl Model {
    pub fn new_doc(doc: Doc) -> Model {
        let mut m = Model {
            doc: doc.clone(),
            is_new: true,
            pkg: Rc::new(Pkg::default()),
            wb: Wb::default(),
            uids: vec![],
            next_uid: 1,
            active: None,
            touch: BTreeMap::new(),
            deleted: vec![],
            lint0: BTreeSet::new(),
            core: None,
            view_set: BTreeSet::new(),
            style_ids: vec![],
        };
        if doc == Doc::Excel {
            m.add("sheet1");
            m.active = Some(m.uids[0]);
        }
        m
    }
    pub fn load(doc: Doc, b: &[u8]) -> Result<Model, String> {
        let p = Pkg::read(b)?;
        let mut lint0: BTreeSet<String> = lint(&p).into_iter().collect();
        let wb = if doc == Doc::Excel {
            lint0.extend(lint_wb(&p));
            read_wb(&p)?
        } else {
            Wb::default()
        };
        let n = wb.sheets.len() as u32;
        let uids: Vec<u32> = (1..=n).collect();
        let active = uids.get(wb.active).cloned();
        let core = read_core(&p);
        Ok(Model {
            doc,
            is_new: false,
            pkg: Rc::new(p),
            uids,
            next_uid: n + 1,
            active,
            touch: BTreeMap::new(),
            deleted: vec![],
            lint0,
            core,
            view_set: BTreeSet::new(),
            style_ids: vec![],
            wb,
        })
    }
    pub fn ix(&self, uid: u32) -> Option<usize> {
        self.uids.iter().position(|u| *u == uid)
    }
    pub fn by_name(&self, n: &str) -> Option<u32> {
        self.wb.sheets.iter().position(|s| s.name == n).map(|i| self.uids[i])
    }
    pub fn by_name_nocase(&self, n: &str) -> Option<u32> {
        self.by_name(n).or_else(|| self.wb.sheets.iter().position(|s| s.name.to_lowercase() == n.to_lowercase()).map(|i| self.uids[i]))
    }
    pub fn names(&self) -> Vec<String> {
        self.wb.sheets.iter().map(|s| s.name.clone()).collect()
    }
    pub fn add(&mut self, name: &str) -> u32 {
        let u = self.next_uid;
        self.next_uid += 1;
        self.wb.sheets.push(SheetV { name: name.into(), state: "visible".into(), kind: "worksheet".into(), ..Default::default() });
        self.uids.push(u);
        self.touch.insert(u, Touch { opened: true, ..Default::default() });
        u
    }
    pub fn delete(&mut self, uid: u32) {
        if let Some(i) = self.ix(uid) {
            // names of one sheet follow the sheet and go away with it
            for n in 0..self.wb.names.len() {
                match self.wb.names[n].0 {
                    Some(k) if k > i => self.wb.names[n].0 = Some(k - 1),
                    Some(k) if k == i => self.wb.names[n].0 = Some(usize::MAX),
                    _ => {}
                }
            }
            self.wb.names.retain(|n| n.0 != Some(usize::MAX));
            let s = self.wb.sheets.remove(i);
            self.deleted.push(s);
            self.uids.remove(i);
            if self.active == Some(uid) {
                self.active = None;
            }
        }
    }
    pub fn set_cell(&mut self, uid: u32, r: u32, c: u32, cell: Cell) {
        if let Some(i) = self.ix(uid) {
            self.touch.entry(uid).or_default().cells.insert((r, c));
            if cell.is_blank_default() {
                self.wb.sheets[i].cells.remove(&(r, c));
            } else {
                self.wb.sheets[i].cells.insert((r, c), cell);
            }
        }
    }
    pub fn set_row(&mut self, uid: u32, r: u32, v: RowV) {
        if let Some(i) = self.ix(uid) {
            self.touch.entry(uid).or_default().rows.insert(r);
            if v == RowV::default() {
                self.wb.sheets[i].rows.remove(&r);
            } else {
                self.wb.sheets[i].rows.insert(r, v);
            }
        }
    }
    pub fn set_col(&mut self, uid: u32, c: u32, v: Option<ColV>) {
        if let Some(i) = self.ix(uid) {
            self.touch.entry(uid).or_default().cols.insert(c);
            let mut out = vec![];
            for (a, b, p) in self.wb.sheets[i].cols.drain(..) {
                if c < a || c > b {
                    out.push((a, b, p));
                    continue;
                }
                if a < c {
                    out.push((a, c - 1, p.clone()));
                }
                if c < b {
                    out.push((c + 1, b, p));
                }
            }
            if let Some(v) = v {
                out.push((c, c, v));
            }
            self.wb.sheets[i].cols = norm_cols(out);
        }
    }
    pub fn set_view(&mut self, key: &'static str, val: &str, def: &str) {
        self.view_set.insert(key);
        if val == def {
            self.wb.view.remove(key);
        } else {
            self.wb.view.insert(key.into(), val.into());
        }
    }
    /// All differences between what the model says and a saved file.
    pub fn compare(&self, b: &[u8]) -> Vec<Diff> {
        let mut v = vec![];
        let p = match Pkg::read(b) {
            Ok(p) => p,
            Err(e) => {
                d(&mut v, "package", format!("saved file is not a readable package: {}", e));
                return v;
            }
        };
        for l in lint(&p) {
            if !self.lint0.contains(&l) {
                d(&mut v, "lint", l);
            }
        }
        self.compare_core(&p, &mut v);
        if self.doc != Doc::Excel {
            self.compare_parts(&p, &mut v, &|_| true);
            return v;
        }
        for l in lint_wb(&p) {
            if !self.lint0.contains(&l) {
                d(&mut v, "lint", l);
            }
        }
        let w = match read_wb(&p) {
            Ok(w) => w,
            Err(e) => {
                d(&mut v, "package", format!("saved workbook is not readable: {}", e));
                return v;
            }
        };
        self.compare_wb(&w, &mut v);
        let own = self.own_parts();
        self.compare_parts(&p, &mut v, &|n| !own.contains(n));
        v
    }
    /// parts the library maintains or the session edited, so that bytes may differ
    fn own_parts(&self) -> BTreeSet<String> {
        let mut o: BTreeSet<String> = BTreeSet::new();
        o.insert(self.wb.wb_part.clone());
        if let Ok(r) = self.pkg.rels_of(&self.wb.wb_part) {
            for r in r {
                if matches!(rel_kind(&r.ty), "sharedStrings" | "styles" | "calcChain") {
                    o.insert(r.target);
                }
            }
        }
        for (i, s) in self.wb.sheets.iter().enumerate() {
            if self.touch.get(&self.uids[i]).map(|t| t.opened).unwrap_or(false) {
                o.insert(s.part.clone());
            }
        }
        // deleted sheets and what only they lead to
        let mut gone: BTreeSet<String> = self.deleted.iter().map(|s| s.part.clone()).collect();
        let mut work: Vec<String> = gone.iter().cloned().collect();
        while let Some(x) = work.pop() {
            for r in self.pkg.rels_of(&x).unwrap_or_default() {
                if !r.external && !r.target.is_empty() && gone.insert(r.target.clone()) {
                    work.push(r.target);
                }
            }
        }
        // keep what live parts still reach
        let mut live: BTreeSet<String> = BTreeSet::new();
        let mut work = vec![String::new()];
        let dead: BTreeSet<String> = self.deleted.iter().map(|s| s.part.clone()).collect();
        while let Some(x) = work.pop() {
            for r in self.pkg.rels_of(&x).unwrap_or_default() {
                if !r.external && !dead.contains(&r.target) && live.insert(r.target.clone()) {
                    work.push(r.target);
                }
            }
        }
        for g in gone {
            if !live.contains(&g) {
                o.insert(rels_name(&g));
                o.insert(g);
            }
        }
        o
    }
    fn compare_core(&self, p: &Pkg, v: &mut Vec<Diff>) {
        let c = read_core(p);
        match (&self.core, &c) {
            (Some(a), Some(b)) => {
                if a.created.is_some() && a.created != b.created {
                    d(v, "created", format!("creation time was {:?} and is now {:?}", a.created, b.created));
                }
                for x in &a.rest {
                    let k = x.split('=').next().unwrap();
                    if matches!(k, "cp:lastModifiedBy" | "cp:revision") {
                        continue;
                    }
                    if !b.rest.contains(x) {
                        d(v, "core", format!("core property {} is lost or changed", x));
                    }
                }
            }
            (Some(_), None) => d(v, "core", "core properties are lost".into()),
            (None, Some(_)) => {}
            (None, None) => d(v, "core", "saved file has no core properties".into()),
        }
    }
    fn compare_parts(&self, p: &Pkg, v: &mut Vec<Diff>, check: &dyn Fn(&str) -> bool) {
        let core = self.core.as_ref().map(|c| c.part.clone()).unwrap_or_default();
        for (n, b) in &self.pkg.parts {
            if !check(n) {
                continue;
            }
            if n.ends_with(".rels") && rels_owner(n).is_some() {
                let o = self.pkg.actual(rels_owner(n).unwrap());
                if !o.is_empty() && !check(&o) && self.deleted.iter().any(|s| s.part == o) {
                    continue;
                }
                let (a, c) = (self.pkg.rels_of(&o).unwrap_or_default(), p.rels_of(&o).unwrap_or_default());
                for r in &a {
                    if self.deleted.iter().any(|s| s.part == r.target) && !self.wb.sheets.iter().any(|s| s.part == r.target) {
                        continue;
                    }
                    if rel_kind(&r.ty) == "calcChain" {
                        continue;
                    }
                    if !c.iter().any(|x| x.id == r.id && x.ty == r.ty && x.target == r.target && x.external == r.external) {
                        d(v, "rel", format!("relationship {} ({} -> {}) of {:?} is lost or changed", r.id, rel_kind(&r.ty), r.target, o));
                    }
                }
                continue;
            }
            match p.part(n) {
                None => d(v, "part", format!("part {} is lost", n)),
                Some(x) => {
                    if *n != core && x != b {
                        d(v, "part", format!("part {} changed ({} bytes, now {})", n, b.len(), x.len()));
                    }
                }
            }
            if p.part(n).is_some() && self.pkg.ct(n) != p.ct(n) {
                d(v, "ct", format!("content type of {} was {:?} and is now {:?}", n, self.pkg.ct(n), p.ct(n)));
            }
        }
        for n in self.pkg.parts.keys() {
            if !check(n) && p.part(n).is_some() && !n.ends_with(".rels") && self.pkg.ct(n) != p.ct(n) {
                d(v, "ct", format!("content type of {} was {:?} and is now {:?}", n, self.pkg.ct(n), p.ct(n)));
            }
        }
    }
    pub fn compare_wb(&self, w: &Wb, v: &mut Vec<Diff>) {
        let want: Vec<&str> = self.wb.sheets.iter().map(|s| s.name.as_str()).collect();
        let have: Vec<&str> = w.sheets.iter().map(|s| s.name.as_str()).collect();
        if want != have {
            d(v, "sheets", format!("sheets should be {:?} but are {:?}", want, have));
        }
        if let Some(a) = self.active {
            if let Some(i) = self.ix(a) {
                let n = &self.wb.sheets[i].name;
                if w.sheets.get(w.active).map(|s| &s.name) != Some(n) {
                    d(v, "active", format!("active sheet should be {:?} but is number {} of {:?}", n, w.active, have));
                }
            }
        }
        for (i, s) in self.wb.sheets.iter().enumerate() {
            let Some(x) = w.sheets.iter().find(|x| x.name == s.name) else { continue };
            self.compare_sheet(self.uids[i], s, x, v);
        }
        // view settings
        let keys: BTreeSet<&String> = self.wb.view.keys().chain(w.view.keys()).collect();
        for k in keys {
            let (a, b) = (self.wb.view.get(k), w.view.get(k));
            if a != b {
                if k == "firstSheet" && !self.deleted.is_empty() {
                    continue;
                }
                d(v, "view", format!("window setting {} should be {:?} but is {:?}", k, a, b));
            }
        }
        if !self.is_new {
            let (a, b) = (&self.wb.others, &w.others);
            if a != b {
                for x in a {
                    if !b.contains(x) {
                        d(v, "wb.other", format!("workbook element {} is lost or changed: {}", x.0, x.1));
                    }
                }
                for x in b {
                    if !a.contains(x) {
                        d(v, "wb.other", format!("workbook element {} appeared: {}", x.0, x.1));
                    }
                }
            }
            if self.wb.names != w.names {
                d(v, "wb.other", format!("defined names (sheet, name) should be {:?} but are {:?}", self.wb.names, w.names));
            }
            for (id, rf) in &self.wb.calc {
                // the calculation order of the formulas nobody changed
                let Some((i, s)) = self.wb.sheets.iter().enumerate().find(|(_, s)| &s.sheet_id == id) else { continue };
                let Some(k) = parse_ref(rf) else { continue };
                let touched = self.touch.get(&self.uids[i]).map(|t| t.cells.contains(&k)).unwrap_or(false);
                let formula = s.cells.get(&k).map(|c| c.f.is_some()).unwrap_or(false);
                if formula && !touched && !w.calc.contains(&(id.clone(), rf.clone())) {
                    d(v, "wb.other", format!("calculation chain entry of cell {} of sheet {:?} is lost", rf, s.name));
                }
            }
            for x in &self.wb.style_others {
                if !w.style_others.contains(x) {
                    d(v, "style.other", format!("style sheet element {} is lost or changed: {}", x.0, x.1));
                }
            }
        }
        for (sp, id) in &self.style_ids {
            match w.xfs.get(*id as usize) {
                None => d(v, "style", format!("style id {} does not exist in the saved file", id)),
                Some(a) => {
                    for x in spec_violations(sp, a) {
                        d(v, "style", format!("style id {}: {}", id, x));
                    }
                }
            }
        }
        for (i, a) in self.wb.xfs.iter().enumerate() {
            match w.xfs.get(i) {
                Some(b) if a == b => {}
                b => d(v, "style.existing", format!("existing style {} was {} and is now {:?}", i, a, b)),
            }
        }
    }
    fn compare_sheet(&self, uid: u32, s: &SheetV, x: &SheetV, v: &mut Vec<Diff>) {
        let n = &s.name;
        let t = self.touch.get(&uid).cloned().unwrap_or_default();
        if s.state != x.state {
            d(v, "state", format!("sheet {:?} should be {} but is {}", n, s.state, x.state));
        }
        if !s.sheet_id.is_empty() && s.sheet_id != x.sheet_id {
            d(v, "sheetid", format!("sheet {:?} had id {} and has now {}", n, s.sheet_id, x.sheet_id));
        }
        let keys: BTreeSet<&(u32, u32)> = s.cells.keys().chain(x.cells.keys()).collect();
        let none = Cell { kind: ' ', ..Default::default() };
        for k in keys {
            let (a, b) = (s.cells.get(k).unwrap_or(&none), x.cells.get(k).unwrap_or(&none));
            let w = t.cells.contains(k);
            let rf = format!("{}{}", col_name(k.1), k.0);
            if !a.same_value(b) {
                let cat = if w { "cell" } else { "cell.other" };
                d(v, cat, format!("sheet {:?} cell {} should be {} but is {}{}{}", n, rf, a.show(), b.show(), if a.extra != b.extra { format!(" extra {:?} / {:?}", a.extra, b.extra) } else { String::new() }, if s.cells.contains_key(k) { "" } else { " (never written)" }));
            }
            let st_ok = if a.xf == 0 && b.xf == 0 { true } else if a.xf == 0 && a.style.is_empty() { b.xf == 0 } else { style_ok(&a.style, &b.style) };
            if !st_ok {
                d(v, if w { "cell.style" } else { "cell.style.other" }, format!("sheet {:?} cell {} should have style {} but has {}", n, rf, show_style(&a.style), b.style));
            }
        }
        let keys: BTreeSet<&u32> = s.rows.keys().chain(x.rows.keys()).collect();
        let rn = RowV::default();
        for k in keys {
            let (mut a, mut b) = (s.rows.get(k).cloned().unwrap_or(rn.clone()), x.rows.get(k).cloned().unwrap_or(rn.clone()));
            let w = t.rows.contains(k);
            if w {
                for q in ["outlineLevel", "collapsed", "ph"] {
                    a.p.remove(q);
                    b.p.remove(q);
                }
            }
            let cat = if w { "row" } else { "row.other" };
            if a.p != b.p {
                d(v, cat, format!("sheet {:?} row {} should have {:?} but has {:?}", n, k, a.p, b.p));
            }
            match (&a.style, &b.style) {
                (None, None) => {}
                (Some(x), Some(y)) if style_ok(x, y) => {}
                (x, y) => d(v, cat, format!("sheet {:?} row {} should have style {:?} but has {:?}", n, k, x.as_ref().map(|s| show_style(s)), y)),
            }
        }
        // columns, compared over elementary ranges
        let mut cuts: BTreeSet<u32> = BTreeSet::new();
        for (a, b, _) in s.cols.iter().chain(x.cols.iter()) {
            cuts.insert(*a);
            cuts.insert(b + 1);
        }
        for c in &t.cols {
            cuts.insert(*c);
            cuts.insert(c + 1);
        }
        let get = |l: &Vec<(u32, u32, ColV)>, c: u32| l.iter().find(|(a, b, _)| *a <= c && c <= *b).map(|x| x.2.clone()).unwrap_or_default();
        for c in cuts {
            let (mut a, mut b) = (get(&s.cols, c), get(&x.cols, c));
            let w = t.cols.contains(&c);
            if w {
                for q in ["outlineLevel", "collapsed", "phonetic"] {
                    a.p.remove(q);
                    b.p.remove(q);
                }
            }
            let cat = if w { "col" } else { "col.other" };
            if a.p != b.p {
                d(v, cat, format!("sheet {:?} column {} should have {:?} but has {:?}", n, col_name(c), a.p, b.p));
            }
            match (&a.style, &b.style) {
                (None, None) => {}
                (Some(x), Some(y)) if style_ok(x, y) => {}
                (x, y) => d(v, cat, format!("sheet {:?} column {} should have style {:?} but has {:?}", n, col_name(c), x.as_ref().map(|s| show_style(s)), y)),
            }
        }
        if !s.part.is_empty() {
            if s.views != x.views {
                d(v, "sheetview", format!("sheet {:?} views were {:?} and are {:?}", n, s.views, x.views));
            }
            for o in &s.others {
                if !x.others.contains(o) {
                    d(v, "sheet.other", format!("sheet {:?} element {} is lost or changed: {}", n, o.0, o.1.chars().take(300).collect::<String>()));
                }
            }
            for o in &x.others {
                if !s.others.contains(o) {
                    d(v, "sheet.other", format!("sheet {:?} element {} appeared: {}", n, o.0, o.1.chars().take(300).collect::<String>()));
                }
            }
            if s.rels != x.rels {
                d(v, "rel", format!("sheet {:?} relationships were {:?} and are {:?}", n, s.rels, x.rels));
            }
            if s.kind != x.kind {
                d(v, "sheets", format!("sheet {:?} was a {} and is a {}", n, s.kind, x.kind));
            }
        } else if x.views.len() > 1 {
            d(v, "sheetview", format!("new sheet {:?} has {} views", n, x.views.len()));
        }
    }
}

/// Canonical content for comparing two runs (D14, D15, D16): every part, times and package bookkeeping order aside.
pub fn canon_file(b: &[u8]) -> Result<BTreeMap<String, Vec<u8>>, String> {
    let p = Pkg::read(b)?;
    let core = read_core(&p).map(|c| c.part).unwrap_or_default();
    let mut o = BTreeMap::new();
    for (n, x) in &p.parts {
        let y = if n.ends_with(".xml") || n.ends_with(".rels") {
            match crate::xml::parse(x) {
                Ok(mut t) => {
                    if *n == core {
                        t.kids.retain(|k| !matches!(k, crate::xml::Kid::E(e) if e.name == "dcterms:modified" || e.name == "dcterms:created"));
                    }
                    t.canon().into_bytes()
                }
                Err(e) => return Err(format!("{}: {}", n, e)),
            }
        } else {
            x.clone()
        };
        o.insert(n.clone(), y);
        o.insert(format!("{} content type", n), p.ct(n).unwrap_or("").as_bytes().to_vec());
    }
    Ok(o)
}
pub fn canon_diff(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    for k in a.keys().chain(b.keys()) {
        match (a.get(k), b.get(k)) {
            (Some(x), Some(y)) if x == y => {}
            (None, _) => return Some(format!("part {} exists only in the second", k)),
            (_, None) => return Some(format!("part {} exists only in the first", k)),
            (Some(x), Some(y)) => {
                let i = x.iter().zip(y.iter()).take_while(|(p, q)| p == q).count();
                let s = |v: &Vec<u8>| String::from_utf8_lossy(&v[i.saturating_sub(60).min(v.len())..(i + 120).min(v.len())]).into_owned();
                return Some(format!("part {} differs: ...{}... / ...{}...", k, s(x), s(y)));
            }
        }
    }
    None
}
