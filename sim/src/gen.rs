//! Plan generators: from (property, seed) to one plan. Every choice comes from the seed.
use crate::foreign;
use crate::plan::*;
use crate::rng::{fnv, mix, Rng, FNV0};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Profile {
    pub sessions: (u64, u64),
    pub ops: (u64, u64),
    pub new_pct: u64,     // a session starts from a new document
    pub foreign_pct: u64, // a pre-existing file comes from another producer
    pub feat_pct: u64,    // chance of each feature
    pub save_pct: u64,
    pub overwrite_pct: u64,
    pub files: (u64, u64),
    pub clients: (u64, u64),
    pub docs: [u64; 3], // weights excel word ppt
    pub w: Vec<(Op, u64)>,
    pub invalid_pct: u64,
    pub close_pct: u64, // close handles before a save
    pub faults: (u64, u64),
    pub hard: bool,
    pub crash: bool,
    pub clock_pct: u64,
    pub power_cycle_pct: u64,
    pub heal_tail: bool,
    pub new_sheets: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Cells,
    Row,
    Col,
    Style,
    Add,
    Get,
    Close,
    Delete,
    Rename,
    Hide,
    Active,
    View,
    List,
}
fn base() -> Profile {
    use Op::*;
    Profile {
        sessions: (1, 4),
        ops: (2, 12),
        new_pct: 35,
        foreign_pct: 50,
        feat_pct: 12,
        save_pct: 88,
        overwrite_pct: 55,
        files: (0, 2),
        clients: (1, 1),
        docs: [1, 0, 0],
        w: vec![(Cells, 40), (Row, 6), (Col, 6), (Style, 8), (Add, 8), (Get, 12), (Close, 8), (Delete, 3), (Rename, 5), (Hide, 3), (Active, 4), (View, 3), (List, 2)],
        invalid_pct: 2,
        close_pct: 60,
        faults: (0, 2),
        hard: true,
        crash: true,
        clock_pct: 4,
        power_cycle_pct: 3,
        heal_tail: false,
        new_sheets: true,
    }
}
pub fn profile(prop: &str) -> Profile {
    use Op::*;
    let b = base();
    match prop {
        "S01" => Profile { docs: [3, 1, 1], ops: (0, 4), sessions: (1, 4), faults: (1, 3), overwrite_pct: 80, files: (1, 3), power_cycle_pct: 15, feat_pct: 5, new_pct: 40, invalid_pct: 0, ..b },
        "S02" => Profile { docs: [3, 1, 1], ops: (0, 6), sessions: (1, 4), faults: (1, 5), overwrite_pct: 70, files: (1, 3), feat_pct: 5, heal_tail: true, invalid_pct: 0, ..b },
        "S03" => Profile { docs: [3, 1, 1], ops: (0, 5), sessions: (1, 4), faults: (0, 4), overwrite_pct: 50, files: (1, 4), save_pct: 70, feat_pct: 5, invalid_pct: 1, ..b },
        "S04" => Profile { docs: [3, 1, 1], ops: (0, 3), sessions: (1, 2), faults: (0, 3), files: (1, 2), feat_pct: 10, new_pct: 10, crash: false, invalid_pct: 0, ..b },
        "S05" => Profile { docs: [4, 1, 1], clients: (2, 4), ops: (0, 6), sessions: (1, 4), faults: (0, 3), files: (1, 2), feat_pct: 4, overwrite_pct: 85, new_pct: 25, ..b },
        "D06" => Profile { w: vec![(Cells, 80), (Row, 3), (Col, 2), (Style, 3), (Add, 6), (Get, 12), (Close, 8), (Rename, 2), (Delete, 1)], ops: (4, 22), invalid_pct: 6, ..b },
        "D07" => Profile { w: vec![(Cells, 30), (Row, 4), (Col, 3), (Add, 10), (Get, 30), (Close, 22), (Rename, 8), (Delete, 4), (List, 2), (Hide, 2), (Active, 2)], ops: (5, 22), close_pct: 35, ..b },
        "D08" => Profile { w: vec![(Cells, 12), (Add, 24), (Get, 10), (Close, 8), (Delete, 14), (Rename, 16), (Hide, 10), (Active, 10), (List, 6)], ops: (4, 20), invalid_pct: 5, ..b },
        "D09" => Profile { new_pct: 5, foreign_pct: 95, feat_pct: 22, files: (1, 2), ops: (0, 8), ..b },
        "D10" => Profile { feat_pct: 10, ops: (3, 20), sessions: (1, 5), ..b },
        "D11" => Profile { w: vec![(Cells, 25), (Row, 8), (Col, 8), (Style, 45), (Add, 4), (Get, 12), (Close, 3)], ops: (4, 20), feat_pct: 10, ..b },
        "D12" => Profile { w: vec![(Cells, 14), (Row, 32), (Col, 36), (Style, 8), (Add, 4), (Get, 10), (Close, 4)], ops: (4, 20), feat_pct: 10, invalid_pct: 4, ..b },
        "D13" => Profile { w: vec![(Cells, 8), (View, 50), (Active, 10), (Hide, 6), (Add, 8), (Get, 8), (Delete, 4), (Rename, 4), (Close, 4)], ops: (1, 8), sessions: (1, 5), feat_pct: 10, ..b },
        "D14" => Profile { w: vec![(Cells, 30), (Row, 6), (Col, 6), (Style, 6), (Add, 8), (Get, 12), (Close, 8), (Delete, 4), (Rename, 7), (Hide, 8), (Active, 6), (View, 3), (List, 2)], invalid_pct: 40, ops: (3, 14), faults: (0, 0), clock_pct: 0, power_cycle_pct: 0, feat_pct: 12, ..b },
        "D15" => Profile { ops: (2, 14), faults: (0, 0), hard: false, crash: false, clock_pct: 0, power_cycle_pct: 0, ..b },
        "D16" => Profile { ops: (0, 8), faults: (0, 1), hard: false, crash: false, power_cycle_pct: 0, feat_pct: 15, sessions: (1, 2), ..b },
        "T17" => Profile { docs: [2, 1, 1], ops: (0, 3), sessions: (1, 5), clock_pct: 70, faults: (0, 4), feat_pct: 5, ..b },
        "F21" => Profile { docs: [4, 1, 1], w: vec![(Cells, 14), (Style, 14), (Add, 18), (Get, 14), (Close, 8), (Delete, 3), (Rename, 16), (Hide, 10), (List, 3), (Row, 2), (Col, 2)], ops: (1, 10), sessions: (1, 4), faults: (0, 4), invalid_pct: 12, feat_pct: 5, new_pct: 35, ..b },
        "W18" => Profile { docs: [0, 1, 1], ops: (0, 0), sessions: (1, 5), foreign_pct: 80, feat_pct: 25, faults: (0, 3), new_pct: 25, files: (1, 3), ..b },
        _ => b,
    }
}
/// features that are left out of random plans because a known finding is recorded for them
pub fn excluded(kind: &Doc) -> &'static [&'static str] {
    match kind {
        Doc::Excel => EXCLUDED_XL,
        _ => EXCLUDED_WP,
    }
}
pub const EXCLUDED_XL: &[&str] = &[];
pub const EXCLUDED_WP: &[&str] = &[];

pub fn features(r: &mut Rng, kind: &Doc, pct: u64) -> Vec<String> {
    let all = if *kind == Doc::Excel { foreign::XL } else { foreign::WP };
    // swarm: now and then a lot, mostly a few
    let pct = match r.usize(4) {
        0 => pct / 3,
        1 => pct * 2,
        _ => pct,
    };
    let mut v: Vec<String> = vec![];
    for f in all {
        if excluded(kind).contains(f) {
            continue;
        }
        let pct = if *f == "big_part" || *f == "fonts_many" { (pct / 4).clamp(1, 3) } else { pct };
        if r.pct(pct) {
            v.push(f.to_string());
        }
    }
    // exclusive pairs
    if v.iter().any(|x| x == "no_styles") {
        v.retain(|x| !["styles_rich", "cell_styles", "dxfs", "cf", "numfmt"].contains(&x.as_str()));
    }
    if v.iter().any(|x| x == "root_wb") {
        v.retain(|x| x != "odd_wb");
    }
    v
}
pub fn text(r: &mut Rng) -> String {
    const T: &[&str] = &[
        "hello", "a & b", "<tag attr=\"v\">", "it's \"quoted\"", " lead", "trail ", "  two  spaces  ", "line\nbreak", "tab\there", "cr\r\nlf", "lone\rcr", "&amp;", "&#65;", "]]>", "<![CDATA[x]]>", "ümläut", "日本語テキスト", "😀👍", "e\u{301}", "\u{202E}rtl", "x", "", " ", "\n", "_x000D_", "=1+1", "'0012", "TRUE", "True", "nan", "inf", "-inf", "NaN", "infinity", "1,5", "1 000", "0x10", "12abc", "1e", "--1", "\u{FEFF}bom", "\u{85}nel", "\u{2028}ls", "<!-- c -->", "a\u{A0}nbsp", "%PDF", "null", "\\n", "hello ", " hello", "Hello", "a  & b", "trail", "lead", "x\n", "x ", "\u{a0}x", "ｘ", "e", "É", "ß", "SS", "1 ", " 1", "true ", "#N/A",
    ];
    match r.usize(12) {
        0 => format!("s{}", r.below(1000)),
        1 => "x".repeat(1 + if r.pct(3) { 32_766 } else { r.usize(300) }),
        2 => {
            let mut s = String::new();
            for _ in 0..1 + r.usize(12) {
                s.push(*r.pick(&['a', '<', '>', '&', '"', '\'', ' ', '\n', '\t', 'é', '漢', '😀', ';', '=', '/', '\\', '0']));
            }
            s
        }
        _ => r.pick(T).to_string(),
    }
}
fn number(r: &mut Rng) -> String {
    match r.usize(8) {
        0 => r.pick(&["0", "-0", "1", "-1", "007", "+5", "1e10", "1E-7", ".5", "5.", "123456789012345678", "0.1", "-12.5e-3", "1.7976931348623157e308", "5e-324"]).to_string(),
        1 => format!("{}", r.below(1 << 40) as f64 / 1024.0),
        2 => format!("-{}", r.below(100000)),
        _ => format!("{}", r.below(100000)),
    }
}
fn formula(r: &mut Rng) -> String {
    r.pick(&["SUM(A1:B2)", "A1+1", "IF(A1<B1,\"x\",\"y & z\")", "\"a\"&\"b\"", "Sheet1!A1*2", "TODAY()", "A1>=2", "CONCATENATE(\" lead\",\"'\")"]).to_string()
}
pub fn cell(r: &mut Rng, styles: &[u8], invalid: bool) -> CellSpec {
    let mut c = CellSpec::default();
    if invalid {
        match r.usize(3) {
            0 => {
                c.t = Ty::Number;
                c.v = Some(r.pick(&["abc", "", "1,5", "NaN", "inf", "0x10", "1 2", "--3", "true"]).to_string());
            }
            1 => {
                c.t = *r.pick(&[Ty::Auto, Ty::String, Ty::Shared, Ty::Inline]);
                c.v = Some(format!("a{}b", r.pick(&['\u{1}', '\u{0}', '\u{8}', '\u{FFFF}', '\u{1F}', '\u{C}'])));
            }
            _ => {
                c.f = Some(format!("A1&\"{}\"", r.pick(&['\u{1}', '\u{FFFE}'])));
            }
        }
        return c;
    }
    match r.usize(20) {
        0..=4 => {
            c.v = Some(text(r));
        }
        5..=7 => c.v = Some(number(r)),
        8 => c.v = Some(r.pick(&["true", "false"]).to_string()),
        9..=11 => {
            c.t = *r.pick(&[Ty::String, Ty::Shared, Ty::Inline]);
            c.v = Some(if r.pct(15) { number(r) } else { text(r) });
        }
        12 => {
            c.t = Ty::Number;
            c.v = Some(number(r));
        }
        13 => {
            c.t = Ty::Boolean;
            c.v = Some(r.pick(&["true", "false", "1", "0"]).to_string());
        }
        14 => {
            c.t = Ty::Error;
            c.v = Some(r.pick(&["#DIV/0!", "#N/A", "#REF!"]).to_string());
        }
        15..=16 => {
            c.f = Some(formula(r));
        }
        17 => {
            c.f = Some(formula(r));
            match r.usize(4) {
                0 => {
                    c.t = Ty::Number;
                    c.v = Some(number(r));
                }
                1 => {
                    c.t = *r.pick(&[Ty::Shared, Ty::String]);
                    c.v = Some(text(r));
                }
                2 => {
                    c.t = Ty::Boolean;
                    c.v = Some("1".into());
                }
                _ => c.v = Some(number(r)),
            }
        }
        _ => {} // blank
    }
    if !styles.is_empty() && r.pct(35) {
        c.s = Some(*r.pick(styles));
    }
    c
}
fn rgb(r: &mut Rng) -> String {
    r.pick(&["FFFF0000", "FF00FF00", "FF0000FF", "FF123456", "FFABCDEF"]).to_string()
}
fn color(r: &mut Rng) -> (u8, String) {
    match r.usize(3) {
        0 => (0, format!("{}", r.usize(60))),
        1 => (1, format!("{}", r.usize(10))),
        _ => (2, rgb(r)),
    }
}
pub fn style(r: &mut Rng) -> StyleSpec {
    let mut s = StyleSpec { font: "Calibri".into(), size: 11, ..Default::default() };
    for _ in 0..5 {
        s.borders.push((0, None));
    }
    // few changes so that near-equal settings are frequent
    for _ in 0..r.usize(4) {
        match r.usize(13) {
            0 => s.num = r.usize(crate::model::NUMS.len()) as u8,
            1 => {
                s.num = 255;
                s.custom = Some(r.pick(&["0.000", "yyyy-mm-dd", "#,##0.00 \"kg\"", "[Red]0;[Blue]-0", "0.0%", "@", "<0>&\"x\"", "0.00", "0\n0", "0\t\"a\"", "_x0041_0"]).to_string());
            }
            2 => s.font = r.pick(&["Arial", "Times New Roman", "A & B", "宋体", " Arial", "Arial ", "arial", "Ari\tal", "_x0041_"]).to_string(),
            3 => s.size = *r.pick(&[8, 10, 12, 72]),
            4 => s.bold = true,
            5 => s.italic = true,
            6 => s.underline = true,
            7 => s.dunderline = true,
            8 => s.wrap = true,
            9 => s.color = Some(color(r)),
            10 => {
                if r.pct(60) {
                    s.bg = Some(rgb(r));
                }
                if r.pct(60) {
                    s.fg = Some(rgb(r));
                }
            }
            11 => {
                let i = r.usize(5);
                s.borders[i] = (1 + r.usize(crate::model::BORDERS.len() - 1) as u8, if r.pct(60) { Some(color(r)) } else { None });
            }
            _ => {
                s.h = r.usize(5) as u8;
                s.v = r.usize(4) as u8;
            }
        }
    }
    s
}
const NAMES: &[&str] = &["Data", "Notes", "R & D", "a<b>", "O'Neil", "Ünï 表", "x y", "2024", "Q1\"x\"", "Totals", "last one", "A1", "Sheet9", "Tab-5", "semi;colon", "plan", "plan ", " plan", "plan  b", "plan b", "thirty one characters long name", "Straße", "100%", "#1", "a!b", "=x", "tab\tin", "line\nin", "cr\rin", "🙂", "]]>", "&#65;", "_x0041_", "{0}", "..", "nul"];
#[derive(Clone, Default)]
struct Sess {
    names: Vec<String>,
    handles: BTreeMap<u8, String>,
    styles: Vec<u8>,
    writable: bool, // an Excel document is open
    chart: Option<String>,
}
pub struct Gen {
    r: Rng,
    p: Profile,
    known: BTreeMap<String, (Doc, Vec<String>, Option<String>)>,
    specs: Vec<StyleSpec>,
}
fn at_cell(r: &mut Rng, far: bool) -> (u32, u16) {
    if far {
        match r.usize(8) {
            0 => return (1_048_576, 16384),
            1 => return (1, 16384),
            2 => return (1_048_576, 1),
            3 => return (1 + r.below(1_048_576) as u32, 1 + r.below(16384) as u16),
            4 => return (1 + r.below(30) as u32, *r.pick(&[25, 26, 27, 51, 52, 53, 701, 702, 703, 704, 728, 729])),
            _ => {}
        }
    }
    (1 + r.below(7) as u32, 1 + r.below(6) as u16)
}
impl Gen {
    fn pick_op(&mut self) -> Op {
        let total: u64 = self.p.w.iter().map(|x| x.1).sum();
        let mut k = self.r.below(total);
        for (o, w) in &self.p.w {
            if k < *w {
                return *o;
            }
            k -= w;
        }
        Op::List
    }
    fn handle(&mut self, s: &mut Sess, out: &mut Vec<Step>) -> Option<u8> {
        let hs: Vec<u8> = s.handles.keys().cloned().collect();
        if hs.is_empty() {
            let names: Vec<String> = s.names.iter().filter(|n| s.chart.as_ref() != Some(n)).cloned().collect();
            if names.is_empty() {
                return None;
            }
            let n = self.r.pick(&names).clone();
            let h = 0;
            s.handles.insert(h, n.clone());
            out.push(Step::Get { name: n, h });
            return Some(h);
        }
        Some(*self.r.pick(&hs))
    }
    fn fresh(&mut self, s: &Sess) -> String {
        for _ in 0..8 {
            let n = self.r.pick(NAMES).to_string();
            if !s.names.iter().any(|x| x.to_lowercase() == n.to_lowercase()) {
                return n;
            }
        }
        let mut k = s.names.len();
        loop {
            let n = format!("N{}", k);
            if !s.names.iter().any(|x| x.to_lowercase() == n.to_lowercase()) {
                return n;
            }
            k += 1;
        }
    }
    fn op(&mut self, s: &mut Sess, out: &mut Vec<Step>) {
        let invalid = self.r.pct(self.p.invalid_pct);
        let op = self.pick_op();
        match op {
            Op::Cells => {
                let Some(h) = self.handle(s, out) else { return };
                let n = match self.r.usize(10) {
                    0 => 2 + self.r.usize(4),
                    1 => 2,
                    _ => 1,
                };
                let far = self.r.pct(8);
                let (row, col) = at_cell(&mut self.r, far);
                let col = col.min(16384 - n as u16 + 1);
                if invalid {
                    match self.r.usize(4) {
                        0 => {
                            let c = *self.r.pick(&["", "A", "1", "A0", "1A", "A-1", "XFE1", "A1048577", "A99999999999", "É1", "A1B2", "AAAAAAAA1", "ZZZ1", " A1", "A 1", "A1 ", "A+1", "A1.5"]);
                            out.push(Step::RefCells { h, cell_ref: c.into(), cells: vec![cell(&mut self.r, &s.styles, false)] });
                        }
                        1 => {
                            let (row, col) = *self.r.pick(&[(0u32, 1u16), (1, 0), (1_048_577, 1), (1, 16385), (u32::MAX, 3), (2, u16::MAX), (0, 0)]);
                            out.push(Step::Cells { h, row, col, by_ref: false, cells: vec![cell(&mut self.r, &s.styles, false)] });
                        }
                        2 => {
                            // a run of cells across the last column
                            let by_ref = self.r.pct(50);
                            out.push(Step::Cells { h, row, col: 16383, by_ref, cells: (0..4).map(|_| cell(&mut self.r, &s.styles, false)).collect() });
                        }
                        _ => {
                            let mut cells: Vec<CellSpec> = (0..n).map(|_| cell(&mut self.r, &s.styles, false)).collect();
                            let k = self.r.usize(n);
                            cells[k] = cell(&mut self.r, &s.styles, true);
                            let by_ref = self.r.pct(50);
                            out.push(Step::Cells { h, row, col, by_ref, cells });
                        }
                    }
                    return;
                }
                let cells: Vec<CellSpec> = (0..n).map(|_| cell(&mut self.r, &s.styles, false)).collect();
                let by_ref = self.r.pct(50);
                out.push(Step::Cells { h, row, col, by_ref, cells });
            }
            Op::Row => {
                let Some(h) = self.handle(s, out) else { return };
                let r = &mut self.r;
                let row = if invalid { *r.pick(&[0, 1_048_577, u32::MAX]) } else if r.pct(5) { 1_048_576 } else { 1 + r.below(9) as u32 };
                let o = |r: &mut Rng| match r.usize(3) {
                    0 => None,
                    1 => Some(true),
                    _ => Some(false),
                };
                let height = if r.pct(40) { Some(*r.pick(&[15.0, 30.75, 0.0, 409.5, 12.3])) } else { None };
                let style = if !s.styles.is_empty() && r.pct(30) { Some(*r.pick(&s.styles)) } else { None };
                let (a, b, c) = (o(r), o(r), o(r));
                out.push(Step::Row { h, row, height, hidden: a, style, top: b, bot: c });
            }
            Op::Col => {
                let Some(h) = self.handle(s, out) else { return };
                let r = &mut self.r;
                if invalid {
                    if r.pct(50) {
                        let c = *r.pick(&["", "1", "A1", "XFE", "É", "AAAA", " A", "A ", "-"]);
                        out.push(Step::ColRef { h, col_ref: c.into() });
                    } else {
                        out.push(Step::Col { h, col: *r.pick(&[0, 16385, u16::MAX]), by_ref: false, clear: false, width: Some(10.0), hidden: None, style: None, best: None });
                    }
                    return;
                }
                let col = match r.usize(12) {
                    0 => 16384,
                    1 => *r.pick(&[26, 27, 702, 703, 5000]),
                    _ => 1 + r.below(12) as u16,
                };
                let o = |r: &mut Rng| match r.usize(3) {
                    0 => None,
                    1 => Some(true),
                    _ => Some(false),
                };
                let width = if r.pct(50) { Some(*r.pick(&[8.43, 20.0, 0.0, 255.0, 12.7109375])) } else { None };
                let style = if !s.styles.is_empty() && r.pct(30) { Some(*r.pick(&s.styles)) } else { None };
                let (a, b) = (o(r), o(r));
                let by_ref = r.pct(50);
                let clear = r.pct(12);
                out.push(Step::Col { h, col, by_ref, clear, width, hidden: a, style, best: b });
            }
            Op::Style => {
                if invalid {
                    // a custom format that is none
                    let mut sp = style(&mut self.r);
                    if self.r.pct(30) {
                        sp.font = format!("Ari{}al", self.r.pick(&['\u{1}', '\u{0}', '\u{FFFE}']));
                    } else {
                        sp.num = 255;
                        sp.custom = if self.r.pct(30) { Some(format!("0{}", self.r.pick(&['\u{2}', '\u{FFFF}']))) } else { None };
                    }
                    out.push(Step::Style { slot: 99, spec: sp });
                    return;
                }
                let slot = self.r.usize(6) as u8;
                let spec = if !self.specs.is_empty() && self.r.pct(35) { self.r.pick(&self.specs).clone() } else { style(&mut self.r) };
                if self.specs.len() < 12 {
                    self.specs.push(spec.clone());
                }
                if !s.styles.contains(&slot) {
                    s.styles.push(slot);
                }
                out.push(Step::Style { slot, spec });
            }
            Op::Add => {
                let h = self.r.usize(4) as u8;
                if invalid && !s.names.is_empty() {
                    let n = self.r.pick(&s.names).clone();
                    if self.r.pct(20) {
                        // a name no package can hold
                        let h = (0..9).find(|h| !s.handles.contains_key(h)).unwrap();
                        out.push(Step::Add { name: Some(format!("x{}y", self.r.pick(&['\u{1}', '\u{0}', '\u{FFFE}', '\u{1F}']))), h });
                        return;
                    }
                    if self.r.pct(40) {
                        let v = other_case(&n);
                        if !s.names.contains(&v) {
                            let h = (0..9).find(|h| !s.handles.contains_key(h)).unwrap();
                            out.push(Step::Add { name: Some(v), h });
                        }
                        return;
                    }
                    // re-adding an existing name: refused or opens it
                    if s.handles.values().any(|x| *x == n) {
                        let h = (0..9).find(|h| !s.handles.contains_key(h)).unwrap();
                        out.push(Step::Add { name: Some(n), h });
                    }
                    return;
                }
                if s.names.len() > 9 {
                    return;
                }
                if self.r.pct(30) {
                    out.push(Step::Add { name: None, h });
                    s.handles.insert(h, "\u{0}".into());
                } else {
                    let n = self.fresh(s);
                    s.names.push(n.clone());
                    s.handles.insert(h, n.clone());
                    out.push(Step::Add { name: Some(n), h });
                }
            }
            Op::Get => {
                if s.names.is_empty() {
                    return;
                }
                if invalid && self.r.pct(50) {
                    // a second handle while one is open
                    if let Some(n) = s.handles.values().find(|n| s.names.contains(n)).cloned() {
                        let h = (0..9).find(|h| !s.handles.contains_key(h)).unwrap();
                        out.push(Step::Get { name: n, h });
                        return;
                    }
                }
                if self.r.pct(12) {
                    if let Some(n) = s.handles.values().find(|n| s.names.contains(n)).cloned() {
                        let h = (0..9).find(|h| !s.handles.contains_key(h)).unwrap();
                        out.push(Step::Get { name: n, h });
                        return;
                    }
                }
                let n = self.r.pick(&s.names).clone();
                if s.handles.values().any(|x| *x == n) {
                    return;
                }
                let h = self.r.usize(4) as u8;
                out.push(Step::Get { name: n.clone(), h });
                if s.chart.as_ref() != Some(&n) {
                    s.handles.insert(h, n);
                } else {
                    s.handles.remove(&h);
                }
            }
            Op::Close => {
                let hs: Vec<u8> = s.handles.keys().cloned().collect();
                if hs.is_empty() {
                    return;
                }
                let h = *self.r.pick(&hs);
                s.handles.remove(&h);
                out.push(Step::Close { h });
            }
            Op::Delete => {
                if s.names.len() < 2 {
                    return;
                }
                let Some(h) = self.handle(s, out) else { return };
                let n = s.handles.remove(&h).unwrap();
                s.names.retain(|x| *x != n);
                out.push(Step::Delete { h });
            }
            Op::Rename => {
                if s.names.is_empty() {
                    return;
                }
                let mut old = self.r.pick(&s.names).clone();
                let mut new = self.fresh(s);
                if invalid {
                    match self.r.usize(4) {
                        3 => new = format!("x{}y", self.r.pick(&['\u{1}', '\u{0}', '\u{FFFF}', '\u{B}'])),
                        0 => old = "no such sheet".into(),
                        1 if s.names.len() > 1 => {
                            new = s.names.iter().find(|n| **n != old).unwrap().clone();
                            if self.r.pct(40) {
                                new = other_case(&new);
                                if new.to_lowercase() == old.to_lowercase() {
                                    return;
                                }
                            }
                        }
                        _ => new = String::new(),
                    }
                } else {
                    // the same name in other letters is still its own
                    if self.r.pct(12) && other_case(&old) != old && other_case(&old).to_lowercase() == old.to_lowercase() {
                        new = other_case(&old);
                    }
                    for n in s.names.iter_mut() {
                        if *n == old {
                            *n = new.clone();
                        }
                    }
                    for n in s.handles.values_mut() {
                        if *n == old {
                            *n = new.clone();
                        }
                    }
                    if s.chart.as_ref() == Some(&old) {
                        s.chart = Some(new.clone());
                    }
                }
                out.push(Step::Rename { old, new });
            }
            Op::Hide => {
                if invalid {
                    out.push(Step::Hide { name: "no such sheet".into() });
                } else if !s.names.is_empty() {
                    let n = self.r.pick(&s.names).clone();
                    out.push(Step::Hide { name: n });
                }
            }
            Op::Active => {
                if invalid {
                    out.push(Step::Active { name: "no such sheet".into() });
                } else if !s.names.is_empty() {
                    let n = self.r.pick(&s.names).clone();
                    out.push(Step::Active { name: n });
                }
            }
            Op::View => {
                let which = self.r.usize(5) as u8;
                let on = self.r.pct(50);
                out.push(Step::View { which, on });
            }
            Op::List => out.push(Step::List),
        }
    }
    /// a lot of one kind: what only shows beyond a size
    fn bulk(&mut self, s: &mut Sess, out: &mut Vec<Step>) {
        match self.r.usize(5) {
            0 => {
                // more kinds of style than one byte counts
                let n = *self.r.pick(&[40u32, 130, 270]);
                let what = self.r.usize(3);
                for k in 0..n {
                    let mut sp = StyleSpec { font: "Calibri".into(), size: 11, borders: vec![(0, None); 5], ..Default::default() };
                    match what {
                        0 => sp.font = format!("Font {}", k),
                        1 => {
                            sp.num = 255;
                            sp.custom = Some(format!("0.0\"u{}\"", k));
                        }
                        _ => sp.fg = Some(format!("FF{:06X}", k * 257)),
                    }
                    let slot = (k % 6) as u8;
                    if !s.styles.contains(&slot) {
                        s.styles.push(slot);
                    }
                    out.push(Step::Style { slot, spec: sp });
                }
            }
            1 => {
                // many rows, in no order
                let Some(h) = self.handle(s, out) else { return };
                for _ in 0..60 + self.r.usize(100) {
                    let row = 1 + self.r.below(3000) as u32;
                    let col = 1 + self.r.below(60) as u16;
                    let c = cell(&mut self.r, &s.styles, false);
                    let by_ref = self.r.pct(50);
                    out.push(Step::Cells { h, row, col, by_ref, cells: vec![c] });
                }
            }
            2 => {
                // a long run of cells
                let Some(h) = self.handle(s, out) else { return };
                let row = 1 + self.r.below(7) as u32;
                let n = 30 + self.r.usize(90);
                let cells = (0..n).map(|_| cell(&mut self.r, &s.styles, false)).collect();
                let by_ref = self.r.pct(50);
                out.push(Step::Cells { h, row, col: 1 + self.r.below(30) as u16, by_ref, cells });
            }
            3 => {
                // more sheets than one digit counts
                for k in 0..11 {
                    let n = format!("bulk {}", k);
                    if s.names.contains(&n) {
                        continue;
                    }
                    s.names.push(n.clone());
                    let h = self.r.usize(4) as u8;
                    s.handles.insert(h, n.clone());
                    out.push(Step::Add { name: Some(n), h });
                    if self.r.pct(50) {
                        let c = cell(&mut self.r, &s.styles, false);
                        out.push(Step::Cells { h, row: 1, col: 1 + k as u16, by_ref: false, cells: vec![c] });
                    }
                }
            }
            _ => {
                // many texts, all new
                let Some(h) = self.handle(s, out) else { return };
                let n = 30 + self.r.usize(60);
                let cells = (0..n).map(|k| CellSpec { t: Ty::Shared, v: Some(format!("t{}{}", self.r.below(50), if k % 3 == 0 { " " } else { "" })), ..Default::default() }).collect();
                out.push(Step::Cells { h, row: 1 + self.r.below(7) as u32, col: 1, by_ref: false, cells });
            }
        }
    }
    fn doc(&mut self) -> Doc {
        let t: u64 = self.p.docs.iter().sum();
        let k = self.r.below(t);
        if k < self.p.docs[0] {
            Doc::Excel
        } else if k < self.p.docs[0] + self.p.docs[1] {
            Doc::Word
        } else {
            Doc::Ppt
        }
    }
    fn clock(&mut self, out: &mut Vec<Step>) {
        if self.r.pct(self.p.clock_pct) {
            if self.r.pct(25) {
                let on = self.r.pct(60);
                out.push(Step::Freeze { on });
            } else {
                let secs = self.jump();
                out.push(Step::Jump { secs });
            }
        }
    }
    fn jump(&mut self) -> i64 {
        let m = *self.r.pick(&[1i64, 60, 3600, 86400, 2_678_400, 31_622_400, 1_000_000_000, 4_000_000_000]);
        let k = m * (1 + self.r.below(5) as i64) + self.r.below(100) as i64;
        if self.r.pct(50) { k } else { -k }
    }
    fn ext(d: &Doc) -> &'static str {
        match d {
            Doc::Excel => "xlsx",
            Doc::Word => "docx",
            Doc::Ppt => "pptx",
        }
    }
    fn target(&mut self, d: &Doc) -> String {
        let over: Vec<String> = self.known.iter().filter(|k| k.1 .0 == *d).map(|k| k.0.clone()).collect();
        if !over.is_empty() && self.r.pct(self.p.overwrite_pct) {
            return self.r.pick(&over).clone();
        }
        if self.r.pct(3) {
            // as long as a name can be
            let n = *self.r.pick(&[200usize, 243, 244, 250]);
            return format!("{}.{}", "n".repeat(n), Self::ext(d));
        }
        if self.r.pct(3) {
            // where nothing can be stored: no such folder, a folder itself, or below a file
            let below = self.known.keys().find(|k| !k.contains('/')).cloned().unwrap_or("gone".into());
            let x = Self::ext(d);
            return self.r.pick(&[format!("gone/out.{}", x), "sub".to_string(), format!("{}/out.{}", below, x), format!("/simfs/no/such/{}", x)]).clone();
        }
        let n = self.r.pick(&["out", "copy", "sub/deep", "/simfs/work/abs", "/tmp/elsewhere", "ä ö", "x.y", "./dot", "sub/../up"]).to_string();
        format!("{}.{}", n, Self::ext(d))
    }
    fn session(&mut self, out: &mut Vec<Step>) {
        let d = self.doc();
        let have: Vec<String> = self.known.iter().filter(|k| k.1 .0 == d).map(|k| k.0.clone()).collect();
        let path = if have.is_empty() || self.r.pct(self.p.new_pct) { None } else { Some(self.r.pick(&have).clone()) };
        self.session_on(d, path, out)
    }
    fn session_on(&mut self, d: Doc, path: Option<String>, out: &mut Vec<Step>) {
        self.clock(out);
        let mut s = Sess::default();
        match &path {
            Some(p) => {
                let k = &self.known[p];
                s.names = k.1.clone();
                s.chart = k.2.clone();
            }
            None => s.names = vec!["sheet1".into()],
        }
        s.writable = d == Doc::Excel;
        out.push(Step::Open { path: path.clone(), doc: d.clone() });
        if s.writable {
            let n = self.r.range(self.p.ops.0, self.p.ops.1);
            let bulk = if self.p.ops.1 > 6 && self.r.pct(3) { self.r.usize(n as usize + 1) } else { usize::MAX };
            for k in 0..n as usize {
                if k == bulk {
                    self.bulk(&mut s, out);
                }
                self.op(&mut s, out);
            }
        }
        self.clock(out);
        if self.r.pct(self.p.save_pct) {
            if self.r.pct(self.p.close_pct) {
                for h in s.handles.keys() {
                    out.push(Step::Close { h: *h });
                }
            }
            let t = if path.is_some() && self.r.pct(self.p.overwrite_pct) { path.clone().unwrap() } else { self.target(&d) };
            out.push(Step::Save { path: t.clone() });
            if t.contains('.') && !t.starts_with("gone/") && !t.starts_with("/simfs/no/") && !self.known.keys().any(|k| t.starts_with(&format!("{}/", k))) {
                self.known.insert(t, (d, s.names, s.chart));
            }
        } else {
            out.push(Step::Drop);
        }
        if self.r.pct(self.p.power_cycle_pct) {
            let seed = self.r.below(1 << 20);
            out.push(Step::PowerCycle { seed });
        }
    }
    pub fn fault(&mut self, client: u8, nsys: u32) -> Fault {
        let hard = self.p.hard;
        let crash = self.p.crash;
        loop {
            let k = self.r.usize(12);
            let kind = match k {
                0 if hard => FaultKind::Eio,
                1 if hard => FaultKind::Enospc,
                2 if hard => FaultKind::Eacces,
                3 if hard => FaultKind::Emfile,
                4 | 5 => FaultKind::Eintr,
                6 | 7 => FaultKind::Short(self.r.below(100_000) as u32),
                8 if crash => FaultKind::Kill,
                9 if crash => FaultKind::Power(self.r.below(1 << 30)),
                10 => FaultKind::Jump(self.jump()),
                11 => FaultKind::Stall(1 + self.r.below(100_000) as u32),
                _ => continue,
            };
            let op = match self.r.usize(6) {
                0 => Some("save".to_string()),
                1 => Some("open".to_string()),
                _ => None,
            };
            let at = self.r.below(nsys.max(1) as u64 + 2) as u32;
            return Fault { client, at, op, kind };
        }
    }
}
pub fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
    mix(fnv(FNV0, prop.as_bytes()) ^ mix(seed) ^ mix(i.wrapping_mul(0x9E37)))
}
/// The plan without faults that depend on a dry run.
pub fn plan(prop: &str, seed: u64) -> (Plan, Gen) {
    let p = profile(prop);
    let mut g = Gen { r: Rng::new(seed), p, known: BTreeMap::new(), specs: vec![] };
    let entropy = g.r.next();
    let clock0 = 86_400 * 365 * 5 + g.r.below(86_400 * 365 * 80) as i64;
    let mut plan = Plan { prop: prop.into(), seed, clock0, entropy, files: vec![], capacity: None, clients: vec![], faults: vec![], sched: vec![], preempt: vec![], aux: vec![] };
    let nf = g.r.range(g.p.files.0, g.p.files.1);
    for k in 0..nf {
        let d = g.doc();
        let path = format!("{}.{}", ["in", "base", "sub/third", "fourth"][k as usize], Gen::ext(&d));
        if g.r.pct(g.p.foreign_pct) {
            let pct = g.p.feat_pct;
            let features = features(&mut g.r, &d, pct);
            let fseed = g.r.below(1 << 40);
            let (names, chart) = if d == Doc::Excel { (foreign::sheet_names(fseed, &features), if features.iter().any(|f| f == "chartsheet") { Some("Chart1".to_string()) } else { None }) } else { (vec![], None) };
            g.known.insert(path.clone(), (d.clone(), names, chart));
            plan.files.push(PlanFile { path, src: Src::Foreign { kind: d, seed: fseed, features } });
        } else if d == Doc::Excel && g.r.pct(20) {
            // a workbook of this library's test data, if present
            let features = vec!["styles_rich".to_string(), "app".to_string(), "cols".to_string()];
            let fseed = g.r.below(1 << 40);
            g.known.insert(path.clone(), (d.clone(), foreign::sheet_names(fseed, &features), None));
            plan.files.push(PlanFile { path, src: Src::Foreign { kind: d, seed: fseed, features } });
        } else {
            let fseed = g.r.below(1 << 40);
            let names = if d == Doc::Excel { foreign::sheet_names(fseed, &[]) } else { vec![] };
            g.known.insert(path.clone(), (d.clone(), names, None));
            plan.files.push(PlanFile { path, src: Src::Foreign { kind: d, seed: fseed, features: vec![] } });
        }
    }
    let nc = g.r.range(g.p.clients.0, g.p.clients.1);
    let known0 = g.known.clone();
    for _ in 0..nc {
        g.known = known0.clone();
        let mut steps = vec![];
        let ns = g.r.range(g.p.sessions.0, g.p.sessions.1);
        for _ in 0..ns {
            g.session(&mut steps);
        }
        plan.clients.push(steps);
    }
    special(prop, &mut g, &mut plan);
    if nc > 1 {
        let long = g.r.pct(40);
        let n = 40 + g.r.usize(if long { 900 } else { 200 });
        let style = g.r.usize(4);
        for _ in 0..n {
            let v = match style {
                0 => if g.r.pct(50) { 0 } else { g.r.below(5) as u16 },
                1 => g.r.below(6) as u16,
                2 => if g.r.pct(90) { 0 } else { 1 + g.r.below(4) as u16 },
                _ => if g.r.pct(75) { 0 } else { 1 + g.r.below(4) as u16 },
            };
            plan.sched.push(v);
        }
    }
    (plan, g)
}
fn special(prop: &str, g: &mut Gen, plan: &mut Plan) {
    match prop {
        "S01" | "S02" => {
            if g.r.pct(12) {
                // a disk that fills up
                plan.capacity = Some(g.r.below(60_000));
            }
            if prop == "S02" {
                let mut tail = vec![Step::Capacity { bytes: None }, Step::Heal];
                if plan.capacity.is_none() {
                    tail.remove(0);
                }
                let known: Vec<(String, Doc)> = g.known.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
                // service after the faults: a new document to each known path, then open it again
                for (p, d) in known.iter().take(3) {
                    tail.push(Step::Open { path: None, doc: d.clone() });
                    tail.push(Step::Save { path: p.clone() });
                    tail.push(Step::Open { path: Some(p.clone()), doc: d.clone() });
                    tail.push(Step::Save { path: p.clone() });
                }
                plan.clients[0].extend(tail);
            }
        }
        "S04" => {
            if g.r.pct(25) {
                // files that are no document of the kind asked for
                let kinds = [Doc::Excel, Doc::Word, Doc::Ppt];
                for q in 0..1 + g.r.usize(2) {
                    let asked = g.r.pick(&kinds).clone();
                    let path = format!("odd{}.{}", q, Gen::ext(&asked));
                    let src = match g.r.usize(4) {
                        0 => Src::Bytes { hex: (0..g.r.usize(90)).map(|_| format!("{:02x}", g.r.below(256))).collect() },
                        1 => Src::Bytes { hex: crate::pkg::zip(&[("a.txt".into(), b"x".to_vec())], true).iter().map(|b| format!("{:02x}", b)).collect() },
                        _ => {
                            let kind = g.r.pick(&kinds).clone();
                            let features = features(&mut g.r, &kind, 5);
                            Src::Foreign { kind, seed: g.r.below(1 << 40), features }
                        }
                    };
                    plan.files.push(PlanFile { path: path.clone(), src });
                    plan.clients[0].push(Step::Open { path: Some(path), doc: asked.clone() });
                    plan.clients[0].push(Step::Save { path: format!("oddcopy{}.{}", q, Gen::ext(&asked)) });
                }
            }
            // damage a stored file, open it, save what was read elsewhere
            let files: Vec<(String, Doc)> = g.known.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
            for q in 0..1 + g.r.usize(4) {
                if files.is_empty() {
                    break;
                }
                let (f, d) = g.r.pick(&files).clone();
                let dam = format!("damaged{}.{}", q, Gen::ext(&d));
                plan.clients[0].push(Step::Copy { from: f.clone(), to: dam.clone() });
                let at = g.r.below(1 << 20) as u32;
                if g.r.pct(35) {
                    plan.clients[0].push(Step::Truncate { path: dam.clone(), at });
                } else {
                    let n = if g.r.pct(80) { 1 } else { 2 };
                    for _ in 0..n {
                        let mask = 1 << g.r.usize(8);
                        let at = g.r.below(1 << 20) as u32;
                        let region = g.r.below(256) as u8;
                        plan.clients[0].push(Step::Corrupt { path: dam.clone(), at, mask, region });
                    }
                }
                plan.clients[0].push(Step::Open { path: Some(dam.clone()), doc: d.clone() });
                if d == Doc::Excel && g.r.pct(60) {
                    for n in g.known[&f].1.clone() {
                        plan.clients[0].push(Step::Get { name: n, h: 0 });
                    }
                }
                plan.clients[0].push(Step::Save { path: format!("rescued{}.{}", q, Gen::ext(&d)) });
            }
        }
        "D15" => {
            // the second execution: other entropy, clock, faults, and a neighbour
            plan.aux = vec![g.r.next(), g.r.next(), g.r.next()];
        }
        "D16" => {
            let known: Vec<(String, (Doc, Vec<String>, Option<String>))> = g.known.clone().into_iter().collect();
            let mut steps = std::mem::take(&mut plan.clients[0]);
            for (p, (d, names, chart)) in known.iter().take(2) {
                steps.push(Step::Open { path: Some(p.clone()), doc: d.clone() });
                steps.push(Step::Save { path: p.clone() });
                if g.r.pct(50) && *d == Doc::Excel {
                    // the same edits three times over
                    let mut s = Sess { names: names.clone(), chart: chart.clone(), ..Default::default() };
                    let w = std::mem::replace(&mut g.p.w, vec![(Op::Cells, 50), (Op::Row, 10), (Op::Col, 10), (Op::Style, 15), (Op::Get, 10), (Op::View, 5), (Op::Active, 5), (Op::Close, 5)]);
                    let inv = std::mem::replace(&mut g.p.invalid_pct, 0);
                    let mut e = vec![];
                    for _ in 0..1 + g.r.usize(6) {
                        g.op(&mut s, &mut e);
                    }
                    g.p.w = w;
                    g.p.invalid_pct = inv;
                    for _ in 0..3 {
                        steps.push(Step::Open { path: Some(p.clone()), doc: d.clone() });
                        steps.extend(e.clone());
                        steps.push(Step::Save { path: p.clone() });
                    }
                }
                let n = 2 + g.r.usize(3);
                for _ in 0..n {
                    steps.push(Step::Open { path: Some(p.clone()), doc: d.clone() });
                    if *d == Doc::Excel && g.r.pct(25) {
                        // opening a sheet without writing is no edit
                        if let Some(n) = names.iter().find(|n| chart.as_ref() != Some(n)) {
                            steps.push(Step::Get { name: n.clone(), h: 0 });
                            if g.r.pct(50) {
                                steps.push(Step::Close { h: 0 });
                            }
                        }
                    }
                    steps.push(Step::Save { path: p.clone() });
                }
            }
            plan.clients[0] = steps;
        }
        _ => {}
    }
}
/// Faults placed with the help of a run without them.
pub fn add_faults(plan: &mut Plan, g: &mut Gen, nsys: &[u32]) {
    let n = g.r.range(g.p.faults.0, g.p.faults.1);
    for _ in 0..n {
        let c = g.r.usize(plan.clients.len()) as u8;
        let f = g.fault(c, nsys.get(c as usize).cloned().unwrap_or(1));
        plan.faults.push(f);
    }
    // storage that misbehaves many times in a row
    if g.p.faults.1 > 0 && g.r.pct(18) {
        let c = g.r.usize(plan.clients.len()) as u8;
        let at = g.r.below(nsys.get(c as usize).cloned().unwrap_or(1).max(1) as u64 + 2) as u32;
        let op = if g.r.pct(70) { Some("save".to_string()) } else { None };
        let style = g.r.usize(if g.p.hard { 4 } else { 3 });
        let hard = match g.r.usize(3) {
            0 => FaultKind::Eio,
            1 => FaultKind::Enospc,
            _ => FaultKind::Eacces,
        };
        for _ in 0..2 + g.r.usize(40) {
            let kind = match style {
                0 => FaultKind::Short(g.r.below(120) as u32),
                1 => FaultKind::Eintr,
                2 => if g.r.pct(50) { FaultKind::Eintr } else { FaultKind::Short(g.r.below(900) as u32) },
                _ => hard.clone(),
            };
            plan.faults.push(Fault { client: c, at, op: op.clone(), kind });
        }
    }
}
/// files with the names the library used for its temporary files, belonging to someone else
pub fn add_squatters(plan: &mut Plan, names: &[String]) {
    for n in names {
        if !plan.files.iter().any(|f| f.path == *n) {
            plan.files.push(PlanFile { path: n.clone(), src: Src::Bytes { hex: "736f6d656f6e6520656c7365".into() } });
        }
    }
}

fn other_case(n: &str) -> String {
    if n.to_lowercase() != n {
        n.to_lowercase()
    } else {
        n.to_uppercase()
    }
}
/// places between system calls where a client loses the processor
pub fn add_preemptions(plan: &mut Plan, g: &mut Gen, nalloc: &[u32]) {
    let style = g.r.usize(5);
    for c in 0..plan.clients.len() {
        let n = nalloc.get(c).cloned().unwrap_or(1).max(1);
        match style {
            // none
            0 => {}
            // spread over everything
            1 | 2 => {
                for _ in 0..g.r.usize(250) {
                    plan.preempt.push((c as u8, g.r.below(n as u64) as u32));
                }
            }
            // a few stretches in which the clients take turns
            3 => {
                for _ in 0..1 + g.r.usize(4) {
                    let at = g.r.below(n as u64) as u32;
                    let step = 1 + g.r.below(12) as u32;
                    for k in 0..60 {
                        plan.preempt.push((c as u8, at.saturating_add(k * step)));
                    }
                }
            }
            // rare
            _ => {
                for _ in 0..g.r.usize(6) {
                    plan.preempt.push((c as u8, g.r.below(n as u64) as u32));
                }
            }
        }
    }
}
