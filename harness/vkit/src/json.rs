//! Minimal JSON text building.
pub fn string(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c if (c as u32) > 0xffff => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
#[derive(Default)]
pub struct Obj(Vec<String>);
impl Obj {
    pub fn new() -> Self {
        Obj(vec![])
    }
    pub fn str(&mut self, k: &str, v: &str) {
        self.0.push(format!("{}:{}", string(k), string(v)));
    }
    pub fn raw(&mut self, k: &str, v: &str) {
        self.0.push(format!("{}:{}", string(k), v));
    }
    pub fn finish(&self) -> String {
        format!("{{{}}}", self.0.join(","))
    }
}
