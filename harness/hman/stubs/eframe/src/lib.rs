//! Stand-in: a window system that cannot be started.
pub mod egui {
    #[derive(Default)]
    pub struct Tweak {
        pub scale: f32,
    }
    #[derive(Default)]
    pub struct FontData {
        pub tweak: Tweak,
    }
    #[derive(Default)]
    pub struct FontDefinitions {
        pub font_data: std::collections::BTreeMap<String, FontData>,
    }
    #[derive(Default)]
    pub struct Style;
    #[derive(Default)]
    pub struct Context;
    impl Context {
        pub fn set_fonts(&self, _: FontDefinitions) {}
        pub fn set_style(&self, _: Style) {}
    }
    #[derive(Clone, Copy, Default)]
    pub struct Vec2;
    pub fn vec2(_: f32, _: f32) -> Vec2 {
        Vec2
    }
}
pub trait App {}
pub struct IconData {
    pub rgba: Vec<u8>,
    pub width: u32,
    pub height: u32,
}
#[derive(Default)]
pub struct NativeOptions {
    pub follow_system_theme: bool,
    pub initial_window_size: Option<egui::Vec2>,
    pub icon_data: Option<IconData>,
}
#[derive(Default)]
pub struct CreationContext {
    pub egui_ctx: egui::Context,
}
#[derive(Debug)]
pub struct Error;
pub type AppCreator = Box<dyn FnOnce(&CreationContext) -> Box<dyn App>>;
pub fn run_native(_: &str, _: NativeOptions, _: AppCreator) -> Result<(), Error> {
    Err(Error)
}
