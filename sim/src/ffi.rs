//! Calls through the C interface of /repo/rs_ffi, as a caller in another language makes them (property F21).
//! Every call is checked for the contract of the interface itself: a status of success exactly with an object and no
//! message, any other status with a message and no object. What the call did is judged like any other call.
use draviavemal_openxml_office::document_2007::Word;
use draviavemal_openxml_office::presentation_2007::PowerPoint;
use draviavemal_openxml_office::spreadsheet_2007::parts::WorkSheet;
use draviavemal_openxml_office::spreadsheet_2007::Excel;
use std::cell::{Cell, RefCell};
use std::ffi::{c_char, c_void, CStr, CString};
use std::ptr::{null, null_mut};

extern "C" {
    fn excel_create(file: *const c_char, buf: *const u8, n: usize, out: *mut *mut c_void, e: *mut *const c_char) -> i8;
    fn excel_add_sheet(x: *const c_void, name: *const c_char, out: *mut *mut c_void, e: *mut *const c_char) -> i8;
    fn excel_rename_sheet(x: *const c_void, old: *const c_char, new: *const c_char, e: *mut *const c_char) -> i8;
    fn excel_get_sheet(x: *const c_void, name: *const c_char, out: *mut *mut c_void, e: *mut *const c_char) -> i8;
    fn excel_hide_sheet(x: *const c_void, name: *const c_char, e: *mut *const c_char) -> i8;
    fn get_style_id_mut(x: *const c_void, buf: *const u8, n: usize, out: *mut *mut u32, e: *mut *const c_char) -> i8;
    fn excel_save_as(x: *const c_void, file: *const c_char, e: *mut *const c_char) -> i8;
    fn word_create(file: *const c_char, buf: *const u8, n: usize, out: *mut *mut c_void, e: *mut *const c_char) -> i8;
    fn word_save_as(x: *const c_void, file: *const c_char, e: *mut *const c_char) -> i8;
    fn power_point_create(file: *const c_char, buf: *const u8, n: usize, out: *mut *mut c_void, e: *mut *const c_char) -> i8;
    fn power_point_save_as(x: *const c_void, file: *const c_char, e: *mut *const c_char) -> i8;
}
thread_local! {
    /// this run calls through the interface
    static VIA: Cell<bool> = const { Cell::new(false) };
    static TURN: Cell<u32> = const { Cell::new(0) };
    static PROBLEMS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
pub fn start(on: bool) {
    if on && ffi_shim::linked() == 0 {
        return;
    }
    VIA.with(|v| v.set(on));
    TURN.with(|v| v.set(0));
}
pub fn via() -> bool {
    VIA.with(|v| v.get())
}
pub fn problems() -> Vec<String> {
    PROBLEMS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
pub fn problem(s: String) {
    PROBLEMS.with(|p| p.borrow_mut().push(s));
}
fn c(s: &str) -> Option<CString> {
    CString::new(s).ok()
}
/// text a C caller can not pass
pub fn odd(s: &str) -> bool {
    s.contains('\0')
}
fn turn(n: u32) -> bool {
    TURN.with(|t| {
        t.set(t.get() + 1);
        t.get() % n == 0
    })
}
type Raw = *mut c_void;
/// the status against what was handed out; the message is read and released
fn outcome(what: &str, st: i8, out: Option<Raw>, e: *const c_char) -> Result<Raw, String> {
    let msg = if e.is_null() {
        None
    } else {
        let s = unsafe { CStr::from_ptr(e) }.to_string_lossy().into_owned();
        drop(unsafe { CString::from_raw(e as *mut c_char) });
        Some(s)
    };
    if st == 0 {
        if out.map_or(false, |o| o.is_null()) {
            problem(format!("{} reports success but hands out no object", what));
            return Err("no object".into());
        }
        if let Some(m) = msg {
            problem(format!("{} reports success with the error message {:?}", what, m));
            return Err(m);
        }
        return Ok(out.unwrap_or(null_mut()));
    }
    if out.map_or(false, |o| !o.is_null()) {
        problem(format!("{} reports status {} but hands out an object", what, st));
    }
    if msg.as_deref().unwrap_or("").is_empty() {
        problem(format!("{} reports status {} without a message", what, st));
    }
    Err(format!("status {}: {}", st, msg.unwrap_or_default()))
}
/// a call that has to be refused: success is wrong, and so is an object
fn refused(what: &str, st: i8, out: Raw, e: *const c_char) {
    if !e.is_null() {
        drop(unsafe { CString::from_raw(e as *mut c_char) });
    }
    if st == 0 {
        problem(format!("{} reports success", what));
    }
    if !out.is_null() {
        problem(format!("{} hands out an object", what));
    }
}
type Create = unsafe extern "C" fn(*const c_char, *const u8, usize, *mut *mut c_void, *mut *const c_char) -> i8;
fn create(what: &str, f: Create, path: Option<&str>) -> Result<Raw, String> {
    let p = match path {
        Some(p) => Some(c(p).ok_or("path")?),
        None => None,
    };
    let props = ffi_shim::caller::properties(true, true);
    let pp = p.as_ref().map_or(null(), |p| p.as_ptr());
    if turn(5) {
        let (mut o, mut e) = (null_mut(), null());
        let st = unsafe { f(pp, null(), 0, &mut o, &mut e) };
        refused(&format!("{} without properties", what), st, o, e);
    }
    if turn(7) {
        let bad = [0xffu8, 0xff, 0xff, 0x7f, 1, 2, 3];
        let (mut o, mut e) = (null_mut(), null());
        let st = unsafe { f(pp, bad.as_ptr(), bad.len(), &mut o, &mut e) };
        refused(&format!("{} with damaged properties", what), st, o, e);
    }
    let (mut o, mut e) = (null_mut(), null());
    let st = unsafe { f(pp, props.as_ptr(), props.len(), &mut o, &mut e) };
    outcome(what, st, Some(o), e)
}
type SaveAs = unsafe extern "C" fn(*const c_void, *const c_char, *mut *const c_char) -> i8;
fn save(what: &str, f: SaveAs, x: Raw, path: &str) -> Result<(), String> {
    let p = c(path).ok_or("path")?;
    if turn(5) {
        let mut e = null();
        let st = unsafe { f(x, null(), &mut e) };
        refused(&format!("{} without a path", what), st, null_mut(), e);
    }
    if turn(5) {
        let mut e = null();
        let st = unsafe { f(null(), p.as_ptr(), &mut e) };
        refused(&format!("{} without a document", what), st, null_mut(), e);
    }
    let mut e = null();
    let st = unsafe { f(x, p.as_ptr(), &mut e) };
    outcome(what, st, None, e).map(|_| ())
}
pub trait Foreign: Sized {
    fn open(path: Option<&str>) -> Result<*mut Self, String>;
    fn store(x: *mut Self, path: &str) -> Result<(), String>;
}
impl Foreign for Excel {
    fn open(path: Option<&str>) -> Result<*mut Self, String> {
        create("excel_create", excel_create, path).map(|x| x as *mut Self)
    }
    fn store(x: *mut Self, path: &str) -> Result<(), String> {
        save("excel_save_as", excel_save_as, x as Raw, path)
    }
}
impl Foreign for Word {
    fn open(path: Option<&str>) -> Result<*mut Self, String> {
        create("word_create", word_create, path).map(|x| x as *mut Self)
    }
    fn store(x: *mut Self, path: &str) -> Result<(), String> {
        save("word_save_as", word_save_as, x as Raw, path)
    }
}
impl Foreign for PowerPoint {
    fn open(path: Option<&str>) -> Result<*mut Self, String> {
        create("power_point_create", power_point_create, path).map(|x| x as *mut Self)
    }
    fn store(x: *mut Self, path: &str) -> Result<(), String> {
        save("power_point_save_as", power_point_save_as, x as Raw, path)
    }
}
fn handle(x: *mut Excel) -> *const c_void {
    x as *const c_void
}
pub fn add_sheet(x: *mut Excel, name: Option<&str>) -> Result<WorkSheet, String> {
    let n = match name {
        Some(n) => Some(c(n).ok_or("name")?),
        None => None,
    };
    let (mut o, mut e) = (null_mut(), null());
    let st = unsafe { excel_add_sheet(handle(x), n.as_ref().map_or(null(), |n| n.as_ptr()), &mut o, &mut e) };
    outcome("excel_add_sheet", st, Some(o), e).map(|o| *unsafe { Box::from_raw(o as *mut WorkSheet) })
}
pub fn get_sheet(x: *mut Excel, name: &str) -> Result<WorkSheet, String> {
    let n = c(name).ok_or("name")?;
    if turn(6) {
        let (mut o, mut e) = (null_mut(), null());
        let st = unsafe { excel_get_sheet(handle(x), null(), &mut o, &mut e) };
        refused("excel_get_sheet without a name", st, o, e);
    }
    let (mut o, mut e) = (null_mut(), null());
    let st = unsafe { excel_get_sheet(handle(x), n.as_ptr(), &mut o, &mut e) };
    outcome("excel_get_sheet", st, Some(o), e).map(|o| *unsafe { Box::from_raw(o as *mut WorkSheet) })
}
pub fn rename_sheet(x: *mut Excel, old: &str, new: &str) -> Result<(), String> {
    let (a, b) = (c(old).ok_or("name")?, c(new).ok_or("name")?);
    if turn(6) {
        let mut e = null();
        let st = unsafe { excel_rename_sheet(handle(x), a.as_ptr(), null(), &mut e) };
        refused("excel_rename_sheet without a new name", st, null_mut(), e);
    }
    let mut e = null();
    let st = unsafe { excel_rename_sheet(handle(x), a.as_ptr(), b.as_ptr(), &mut e) };
    outcome("excel_rename_sheet", st, None, e).map(|_| ())
}
pub fn hide_sheet(x: *mut Excel, name: &str) -> Result<(), String> {
    let n = c(name).ok_or("name")?;
    let mut e = null();
    let st = unsafe { excel_hide_sheet(handle(x), n.as_ptr(), &mut e) };
    outcome("excel_hide_sheet", st, None, e).map(|_| ())
}
pub fn style_id(x: *mut Excel, s: &ffi_shim::caller::Style) -> Result<u32, String> {
    let b = ffi_shim::caller::style(s);
    if turn(6) {
        let (mut o, mut e) = (null_mut(), null());
        let st = unsafe { get_style_id_mut(handle(x), null(), 0, &mut o, &mut e) };
        refused("get_style_id_mut without settings", st, o as Raw, e);
    }
    let (mut o, mut e) = (null_mut(), null());
    let st = unsafe { get_style_id_mut(handle(x), b.as_ptr(), b.len(), &mut o, &mut e) };
    outcome("get_style_id_mut", st, Some(o as Raw), e).map(|o| *unsafe { Box::from_raw(o as *mut u32) })
}
