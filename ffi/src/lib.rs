#![allow(warnings)]
//! The C interface of the library, as it is in /repo/rs_ffi.
include!(concat!(env!("OUT_DIR"), "/root.rs"));
/// so that the linker takes this crate in
pub fn linked() -> usize {
    excel::excel_create as usize + excel::excel_save_as as usize
}
/// what a caller in another language builds with its own flatbuffers code
pub mod caller {
    pub fn properties(in_memory: bool, editable: bool) -> Vec<u8> {
        let mut b = flatbuffers::FlatBufferBuilder::new();
        let t = b.start_table();
        b.push_slot::<bool>(4, in_memory, false);
        b.push_slot::<bool>(6, editable, false);
        let t = b.end_table(t);
        b.finish(t, None);
        b.finished_data().to_vec()
    }
    #[derive(Default)]
    pub struct Style {
        pub number_format: u16,
        pub custom: Option<String>,
        pub font: Option<String>,
        pub size: u8,
        pub bold: bool,
        pub italic: bool,
        pub underline: bool,
        pub double_underline: bool,
        pub wrap: bool,
        pub bg: Option<String>,
        pub fg: Option<String>,
    }
    pub fn style(s: &Style) -> Vec<u8> {
        let mut b = flatbuffers::FlatBufferBuilder::new();
        let c = s.custom.as_ref().map(|x| b.create_string(x));
        let f = s.font.as_ref().map(|x| b.create_string(x));
        let bg = s.bg.as_ref().map(|x| b.create_string(x));
        let fg = s.fg.as_ref().map(|x| b.create_string(x));
        let t = b.start_table();
        b.push_slot::<u16>(4, s.number_format, 0);
        if let Some(x) = c {
            b.push_slot_always(6, x);
        }
        if let Some(x) = f {
            b.push_slot_always(18, x);
        }
        b.push_slot::<u8>(20, s.size, 0);
        b.push_slot::<bool>(24, s.bold, false);
        b.push_slot::<bool>(26, s.italic, false);
        b.push_slot::<bool>(28, s.underline, false);
        b.push_slot::<bool>(30, s.double_underline, false);
        b.push_slot::<bool>(32, s.wrap, false);
        if let Some(x) = bg {
            b.push_slot_always(34, x);
        }
        if let Some(x) = fg {
            b.push_slot_always(36, x);
        }
        let t = b.end_table(t);
        b.finish(t, None);
        b.finished_data().to_vec()
    }
}
