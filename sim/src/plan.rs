//! A plan is one exactly repeatable execution: files, clients, steps, faults, schedule, clock and entropy.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum FaultKind {
    Eio,
    Enospc,
    Eacces,
    Emfile,
    Eintr,
    Short(u32),
    Kill,
    Power(u64),
    Jump(i64),
    Stall(u32),
}
/// Fires once, at the first applicable storage operation of `client` whose index is >= `at` (and inside `op`, if given).
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Fault {
    pub client: u8,
    pub at: u32,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub op: Option<String>,
    pub kind: FaultKind,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct CellSpec {
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub v: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub f: Option<String>,
    pub t: Ty,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub s: Option<u8>,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Default)]
pub enum Ty {
    #[default]
    Auto,
    Number,
    Boolean,
    String,
    Shared,
    Inline,
    Error,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct StyleSpec {
    pub num: u8, // 0 general .. index into the list of formats; 255 custom
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub custom: Option<String>,
    pub font: String,
    pub size: u8,
    pub bold: bool,
    pub italic: bool,
    pub underline: bool,
    pub dunderline: bool,
    pub wrap: bool,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub color: Option<(u8, String)>,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub bg: Option<String>,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub fg: Option<String>,
    pub borders: Vec<(u8, Option<(u8, String)>)>, // left top right bottom diagonal: style index, colour
    pub h: u8,
    pub v: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Doc {
    Excel,
    Word,
    Ppt,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Step {
    Open { path: Option<String>, doc: Doc },
    Save { path: String },
    Drop,
    Add { name: Option<String>, h: u8 },
    Get { name: String, h: u8 },
    Close { h: u8 },
    Cells { h: u8, row: u32, col: u16, by_ref: bool, cells: Vec<CellSpec> },
    RefCells { h: u8, cell_ref: String, cells: Vec<CellSpec> },
    Row { h: u8, row: u32, height: Option<f32>, hidden: Option<bool>, style: Option<u8>, top: Option<bool>, bot: Option<bool> },
    Col { h: u8, col: u16, by_ref: bool, clear: bool, width: Option<f32>, hidden: Option<bool>, style: Option<u8>, best: Option<bool> },
    ColRef { h: u8, col_ref: String },
    Style { slot: u8, spec: StyleSpec },
    Delete { h: u8 },
    Rename { old: String, new: String },
    Hide { name: String },
    Active { name: String },
    View { which: u8, on: bool },
    List,
    // environment
    Jump { secs: i64 },
    Freeze { on: bool },
    Corrupt { path: String, at: u32, mask: u8, region: u8 },
    Truncate { path: String, at: u32 },
    PowerCycle { seed: u64 },
    Copy { from: String, to: String },
    Heal,
    Capacity { bytes: Option<u64> },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Src {
    /// a package of another producer, built from named features
    Foreign { kind: Doc, seed: u64, features: Vec<String> },
    /// a file of the repository
    Repo { path: String },
    Bytes { hex: String },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct PlanFile {
    pub path: String,
    pub src: Src,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub clock0: i64,
    pub entropy: u64,
    pub files: Vec<PlanFile>,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    pub capacity: Option<u64>,
    pub clients: Vec<Vec<Step>>,
    pub faults: Vec<Fault>,
    pub sched: Vec<u16>,
    /// (client, heap operation of the library): the client loses the processor there, between two system calls
    #[serde(skip_serializing_if = "Vec::is_empty", default)]
    pub preempt: Vec<(u8, u32)>,
    /// per property switches (second run parameters and the like)
    #[serde(default)]
    pub aux: Vec<u64>,
}
