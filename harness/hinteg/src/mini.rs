//! A small encoder of UE 4.23 packages of our own: names, imports and exports with given data.

#[derive(Clone, Default)]
pub struct Exp {
    pub class: i32,
    pub template: i32,
    pub outer: i32,
    pub name: String,
    pub body: Vec<u8>,
}
#[derive(Clone, Default)]
pub struct Mini {
    pub names: Vec<String>,
    /// class package, class, outer, name
    pub imports: Vec<(String, String, i32, String)>,
    pub exports: Vec<Exp>,
}

pub fn put_str(w: &mut Vec<u8>, x: &str) {
    if x.is_empty() {
        w.extend(0i32.to_le_bytes());
    } else if x.is_ascii() {
        w.extend((x.len() as i32 + 1).to_le_bytes());
        w.extend(x.bytes());
        w.push(0);
    } else {
        let u: Vec<u16> = x.encode_utf16().collect();
        w.extend((-(u.len() as i32) - 1).to_le_bytes());
        for c in u {
            w.extend(c.to_le_bytes());
        }
        w.extend([0, 0]);
    }
}

/// what a class of a package is itself
pub fn class_kind(pkg: &str) -> (&'static str, &'static str) {
    match pkg.starts_with("/Game/") {
        true => ("/Script/Engine", "BlueprintGeneratedClass"),
        false => ("/Script/CoreUObject", "Class"),
    }
}

impl Mini {
    /// a name, with its number after a '#'
    pub fn name(&mut self, n: &str) -> Vec<u8> {
        let (n, number) = n.split_once('#').map_or((n, 0), |(n, k)| (n, k.parse::<i32>().unwrap()));
        let at = match self.names.iter().position(|e| e == n) {
            Some(e) => e,
            None => {
                self.names.push(n.to_string());
                self.names.len() - 1
            }
        };
        let mut w = (at as i32).to_le_bytes().to_vec();
        w.extend(number.to_le_bytes());
        w
    }
    pub fn import(&mut self, pkg: &str, class: &str, outer: i32, name: &str) -> i32 {
        let e = (pkg.to_string(), class.to_string(), outer, name.to_string());
        if let Some(k) = self.imports.iter().position(|x| *x == e) {
            return -1 - k as i32;
        }
        self.imports.push(e);
        -(self.imports.len() as i32)
    }
    /// a class of an engine package
    pub fn class(&mut self, pkg: &str, name: &str) -> i32 {
        let p = self.import("/Script/CoreUObject", "Package", 0, pkg);
        let (a, b) = class_kind(pkg);
        self.import(a, b, p, name)
    }
    pub fn export(&mut self, class: i32, outer: i32, name: &str, body: Vec<u8>) -> i32 {
        self.exports.push(Exp { class, template: 0, outer, name: name.into(), body });
        self.exports.len() as i32
    }
    fn tag(&mut self, w: &mut Vec<u8>, name: &str, ty: &str, extra: Vec<u8>, value: Vec<u8>) {
        w.extend(self.name(name));
        w.extend(self.name(ty));
        w.extend((value.len() as i32).to_le_bytes());
        w.extend(0i32.to_le_bytes());
        w.extend(extra);
        w.push(0);
        w.extend(value);
    }
    pub fn str_prop(&mut self, w: &mut Vec<u8>, name: &str, x: &str) {
        let mut v = vec![];
        put_str(&mut v, x);
        self.tag(w, name, "StrProperty", vec![], v);
    }
    pub fn bool_prop(&mut self, w: &mut Vec<u8>, name: &str, x: bool) {
        self.tag(w, name, "BoolProperty", vec![x as u8], vec![]);
    }
    pub fn int_prop(&mut self, w: &mut Vec<u8>, name: &str, x: i32) {
        self.tag(w, name, "IntProperty", vec![], x.to_le_bytes().to_vec());
    }
    pub fn name_prop(&mut self, w: &mut Vec<u8>, name: &str, x: &str, number: i32) {
        let mut v = self.name(x);
        v[4..].copy_from_slice(&number.to_le_bytes());
        self.tag(w, name, "NameProperty", vec![], v);
    }
    pub fn enum_byte_prop(&mut self, w: &mut Vec<u8>, name: &str, ty: &str, x: &str) {
        let (e, v) = (self.name(ty), self.name(x));
        self.tag(w, name, "ByteProperty", e, v);
    }
    pub fn obj_prop(&mut self, w: &mut Vec<u8>, name: &str, x: i32) {
        self.tag(w, name, "ObjectProperty", vec![], x.to_le_bytes().to_vec());
    }
    pub fn objs_prop(&mut self, w: &mut Vec<u8>, name: &str, xs: &[i32]) {
        let e = self.name("ObjectProperty");
        let mut v = (xs.len() as i32).to_le_bytes().to_vec();
        for x in xs {
            v.extend(x.to_le_bytes());
        }
        self.tag(w, name, "ArrayProperty", e, v);
    }
    pub fn end(&mut self, w: &mut Vec<u8>) {
        w.extend(self.name("None"));
    }

    fn header(&self, offs: &[i32; 6], total: i32, bulk: i64) -> Vec<u8> {
        let mut w: Vec<u8> = vec![];
        macro_rules! p { ($($x:expr),*) => {{ $( w.extend(($x).to_le_bytes()); )* }}; }
        let (nn, ni, ne) = (self.names.len() as i32, self.imports.len() as i32, self.exports.len() as i32);
        p!(0x9e2a83c1u32, -7i32, 0i32, 0i32, 0i32, 0i32, total);
        put_str(&mut w, "None");
        p!(0u32, nn, offs[0], 0i32, 0i32, ne, offs[2], ni, offs[1], offs[3], 0i32, 0i32, 0i32, 0i32);
        w.extend([7; 16]);
        p!(1i32, ne, nn);
        for _ in 0..2 {
            p!(4u16, 23u16, 1u16, 0u32);
            put_str(&mut w, "++UE4+Release-4.23");
        }
        p!(0u32, 0u32, 0u32, 0i32, offs[4], bulk, 0i32, 0i32, 0i32, offs[5]);
        w
    }
    /// the header file and the file of export data
    pub fn build(mut self) -> (Vec<u8>, Vec<u8>) {
        // names of the tables
        for (a, b, _, c) in self.imports.clone() {
            for n in [a, b, c] {
                self.name(&n);
            }
        }
        for e in self.exports.clone() {
            self.name(&e.name);
        }
        let mut names = vec![];
        for n in &self.names {
            put_str(&mut names, n);
            names.extend(0u32.to_le_bytes());
        }
        let mut imports = vec![];
        for (a, b, o, c) in self.imports.clone() {
            imports.extend(self.name(&a));
            imports.extend(self.name(&b));
            imports.extend(o.to_le_bytes());
            imports.extend(self.name(&c));
        }
        let h = self.header(&[0; 6], 0, 0).len();
        let exps = self.exports.clone();
        let exp_len = exps.len() * 104;
        let mut offs = [0i32; 6];
        let mut pos = h;
        for (k, l) in [names.len(), imports.len(), exp_len, exps.len() * 4, 4, 0].into_iter().enumerate() {
            offs[k] = pos as i32;
            pos += l;
        }
        let mut table = vec![];
        let mut data = vec![];
        for e in &exps {
            for x in [e.class, 0, e.template, e.outer] {
                table.extend(x.to_le_bytes());
            }
            table.extend(self.name(&e.name));
            table.extend(1u32.to_le_bytes());
            table.extend((e.body.len() as i64).to_le_bytes());
            table.extend(((pos + data.len()) as i64).to_le_bytes());
            table.extend([0; 12]);
            table.extend([0; 16]);
            table.extend([0; 4]);
            table.extend(1i32.to_le_bytes());
            table.extend(0i32.to_le_bytes());
            table.extend((-1i32).to_le_bytes());
            table.extend([0; 16]);
            data.extend(&e.body);
        }
        assert_eq!(table.len(), exp_len);
        let mut out = self.header(&offs, pos as i32, (pos + data.len()) as i64);
        out.extend(names);
        out.extend(imports);
        out.extend(table);
        out.extend(vec![0; exps.len() * 4]);
        out.extend([0; 4]);
        assert_eq!(out.len(), pos);
        data.extend(0x9e2a83c1u32.to_le_bytes());
        (out, data)
    }
}
