// Stand-in for the code flatc generates from /repo/fbs: the tables with the fields the interface reads, in the layout
// the schema gives them. Fields of nested tables (borders, colours) are read as absent.
pub mod openxml_office_fbs {
pub mod presentation_2007 {
    use flatbuffers::*;
    #[derive(Copy, Clone)]
    pub struct PresentationPropertiesModel<'a> {
        _tab: Table<'a>,
    }
    impl<'a> Follow<'a> for PresentationPropertiesModel<'a> {
        type Inner = Self;
        unsafe fn follow(buf: &'a [u8], loc: usize) -> Self {
            Self { _tab: Table::new(buf, loc) }
        }
    }
    impl<'a> Verifiable for PresentationPropertiesModel<'a> {
        fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
            v.visit_table(pos)?
                .visit_field::<bool>("is_in_memory", 4, false)?
                .finish();
            Ok(())
        }
    }
    impl<'a> PresentationPropertiesModel<'a> {
        pub fn is_in_memory(&self) -> bool {
            unsafe { self._tab.get::<bool>(4, Some(false)).unwrap() }
        }
    }
}
pub mod document_2007 {
    use flatbuffers::*;
    #[derive(Copy, Clone)]
    pub struct DocumentPropertiesModel<'a> {
        _tab: Table<'a>,
    }
    impl<'a> Follow<'a> for DocumentPropertiesModel<'a> {
        type Inner = Self;
        unsafe fn follow(buf: &'a [u8], loc: usize) -> Self {
            Self { _tab: Table::new(buf, loc) }
        }
    }
    impl<'a> Verifiable for DocumentPropertiesModel<'a> {
        fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
            v.visit_table(pos)?
                .visit_field::<bool>("is_in_memory", 4, false)?
                .finish();
            Ok(())
        }
    }
    impl<'a> DocumentPropertiesModel<'a> {
        pub fn is_in_memory(&self) -> bool {
            unsafe { self._tab.get::<bool>(4, Some(false)).unwrap() }
        }
    }
}
pub mod spreadsheet_2007 {
    use flatbuffers::*;
    #[derive(Copy, Clone)]
    pub struct ExcelPropertiesModel<'a> {
        _tab: Table<'a>,
    }
    impl<'a> Follow<'a> for ExcelPropertiesModel<'a> {
        type Inner = Self;
        unsafe fn follow(buf: &'a [u8], loc: usize) -> Self {
            Self { _tab: Table::new(buf, loc) }
        }
    }
    impl<'a> Verifiable for ExcelPropertiesModel<'a> {
        fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
            v.visit_table(pos)?
                .visit_field::<bool>("is_in_memory", 4, false)?
                .visit_field::<bool>("is_editable", 6, false)?
                .finish();
            Ok(())
        }
    }
    impl<'a> ExcelPropertiesModel<'a> {
        pub fn is_in_memory(&self) -> bool {
            unsafe { self._tab.get::<bool>(4, Some(false)).unwrap() }
        }
        pub fn is_editable(&self) -> bool {
            unsafe { self._tab.get::<bool>(6, Some(false)).unwrap() }
        }
    }
    #[derive(Copy, Clone)]
    pub struct StyleSetting<'a> {
        _tab: Table<'a>,
    }
    impl<'a> Follow<'a> for StyleSetting<'a> {
        type Inner = Self;
        unsafe fn follow(buf: &'a [u8], loc: usize) -> Self {
            Self { _tab: Table::new(buf, loc) }
        }
    }
    impl<'a> Verifiable for StyleSetting<'a> {
        fn run_verifier(v: &mut Verifier, pos: usize) -> Result<(), InvalidFlatbuffer> {
            v.visit_table(pos)?
                .visit_field::<u16>("number_format", 4, false)?
                .visit_field::<ForwardsUOffset<&str>>("custom_number_format", 6, false)?
                .visit_field::<ForwardsUOffset<&str>>("font_family", 18, false)?
                .visit_field::<u8>("font_size", 20, false)?
                .visit_field::<bool>("is_bold", 24, false)?
                .visit_field::<bool>("is_italic", 26, false)?
                .visit_field::<bool>("is_underline", 28, false)?
                .visit_field::<bool>("is_double_underline", 30, false)?
                .visit_field::<bool>("is_wrap_text", 32, false)?
                .visit_field::<ForwardsUOffset<&str>>("background_color", 34, false)?
                .visit_field::<ForwardsUOffset<&str>>("foreground_color", 36, false)?
                .finish();
            Ok(())
        }
    }
    impl<'a> StyleSetting<'a> {
        pub fn number_format(&self) -> u16 {
            unsafe { self._tab.get::<u16>(4, Some(0)).unwrap() }
        }
        pub fn custom_number_format(&self) -> Option<&'a str> {
            unsafe { self._tab.get::<ForwardsUOffset<&str>>(6, None) }
        }
        pub fn font_family(&self) -> Option<&'a str> {
            unsafe { self._tab.get::<ForwardsUOffset<&str>>(18, None) }
        }
        pub fn font_size(&self) -> u8 {
            unsafe { self._tab.get::<u8>(20, Some(0)).unwrap() }
        }
        pub fn is_bold(&self) -> bool {
            unsafe { self._tab.get::<bool>(24, Some(false)).unwrap() }
        }
        pub fn is_italic(&self) -> bool {
            unsafe { self._tab.get::<bool>(26, Some(false)).unwrap() }
        }
        pub fn is_underline(&self) -> bool {
            unsafe { self._tab.get::<bool>(28, Some(false)).unwrap() }
        }
        pub fn is_double_underline(&self) -> bool {
            unsafe { self._tab.get::<bool>(30, Some(false)).unwrap() }
        }
        pub fn is_wrap_text(&self) -> bool {
            unsafe { self._tab.get::<bool>(32, Some(false)).unwrap() }
        }
        pub fn background_color(&self) -> Option<&'a str> {
            unsafe { self._tab.get::<ForwardsUOffset<&str>>(34, None) }
        }
        pub fn foreground_color(&self) -> Option<&'a str> {
            unsafe { self._tab.get::<ForwardsUOffset<&str>>(36, None) }
        }
        pub fn border_left(&self) -> draviavemal_openxml_office::spreadsheet_2007::models::BorderSetting {
            Default::default()
        }
        pub fn border_top(&self) -> draviavemal_openxml_office::spreadsheet_2007::models::BorderSetting {
            Default::default()
        }
        pub fn border_right(&self) -> draviavemal_openxml_office::spreadsheet_2007::models::BorderSetting {
            Default::default()
        }
        pub fn border_bottom(&self) -> draviavemal_openxml_office::spreadsheet_2007::models::BorderSetting {
            Default::default()
        }
        pub fn border_diagonal(&self) -> draviavemal_openxml_office::spreadsheet_2007::models::BorderSetting {
            Default::default()
        }
        pub fn text_color(&self) -> Option<()> {
            None
        }
    }
}
pub mod global_2007 {}
}
