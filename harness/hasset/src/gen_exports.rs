//! Generators of the export kinds, of field definitions and of the world tile info.
use crate::model::*;

pub const OBJECT_FLAGS: u32 = 0x0fff_ffff;
pub const PACKAGE_FLAGS: u32 = 0xf077_47f7; // all but "unversioned properties"
pub const PROPERTY_FLAGS: u64 = 0x00ff_ffdf_fb2f_6fff;
pub const STRUCT_FLAGS: u32 = 0x00ff_fe7e;

pub const KINDS: &[&str] = &[
    "Normal", "Level", "World", "UserDefinedStruct", "StringTable", "Enum", "Function", "DataTable", "Class", "Property", "Raw",
];
pub const UPROPS: &[(&str, usize)] = &[
    ("EnumProperty", 2), ("ArrayProperty", 1), ("SetProperty", 1), ("ObjectProperty", 1), ("SoftObjectProperty", 1),
    ("LazyObjectProperty", 1), ("ClassProperty", 2), ("SoftClassProperty", 2), ("DelegateProperty", 1),
    ("MulticastDelegateProperty", 1), ("MulticastInlineDelegateProperty", 1), ("InterfaceProperty", 1), ("MapProperty", 2),
    ("BoolProperty", 100), ("ByteProperty", 1), ("StructProperty", 1), ("DoubleProperty", 0), ("FloatProperty", 0),
    ("IntProperty", 0), ("Int8Property", 0), ("Int16Property", 0), ("Int64Property", 0), ("UInt8Property", 0),
    ("UInt16Property", 0), ("UInt64Property", 0), ("NameProperty", 0), ("StrProperty", 0), ("TextProperty", 0), ("UInt32Property", 0),
];
/// definitions of fields: (type, package indices, inner definitions)
pub const FPROPS: &[(&str, usize, usize)] = &[
    ("EnumProperty", 1, 1), ("ArrayProperty", 0, 1), ("SetProperty", 0, 1), ("MapProperty", 0, 2), ("ObjectProperty", 1, 0),
    ("SoftObjectProperty", 1, 0), ("ClassProperty", 2, 0), ("SoftClassProperty", 2, 0), ("DelegateProperty", 1, 0),
    ("MulticastDelegateProperty", 1, 0), ("MulticastInlineDelegateProperty", 1, 0), ("InterfaceProperty", 1, 0),
    ("BoolProperty", 100, 0), ("ByteProperty", 1, 0), ("StructProperty", 1, 0), ("NumericProperty", 0, 0), ("IntProperty", 0, 0),
    ("FloatProperty", 0, 0), ("StrProperty", 0, 0), ("NameProperty", 0, 0), ("TextProperty", 0, 0), ("WeirdProperty", 0, 0),
    ("MapProperty", 0, 2), ("MapProperty", 0, 2),
];

/// What class an export has, as decided before its body is written.
#[derive(Clone, Debug)]
pub struct Plan {
    pub kind: &'static str,
    pub class: String,
}

impl Enc<'_> {
    fn gflags32(&mut self, mask: u32) -> V {
        let x = match self.s.below(4) {
            0 => 0,
            1 => mask,
            2 => mask & (1 << self.s.below(32)),
            _ => mask & self.s.u32v(),
        };
        self.u32(x);
        i(x)
    }
    fn gflags64(&mut self, mask: u64) -> V {
        let x = match self.s.below(4) {
            0 => 0,
            1 => mask,
            2 => mask & (1 << self.s.below(64)),
            _ => mask & self.s.u64v(),
        };
        self.u64(x);
        i(x)
    }
    pub fn gdim(&mut self) -> V {
        let x = self.s.range(0, 2) as i32;
        self.i32(x);
        i(x)
    }
    pub fn gcond(&mut self) -> V {
        let x = *self.s.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16]);
        self.u8(x);
        i(x)
    }
    fn ufield(&mut self) -> V {
        if self.v.cv[FRAMEWORK] < 29 {
            self.gpkg()
        } else {
            V::Nil
        }
    }
    fn gpkgs(&mut self, max: usize) -> V {
        self.list(max, |e| e.gpkg())
    }

    pub fn fproperty(&mut self, depth: usize) -> V {
        let ok: Vec<_> = FPROPS.iter().filter(|e| depth > 0 || e.2 == 0).collect();
        let (mut ty, mut idx, mut inner) = **self.s.pick(&ok);
        if self.focus == 4 && (depth == 2 && self.s.chance(3, 4) || depth == 1 && self.s.chance(2, 3)) {
            // maps of structs
            let want = if depth == 2 { "MapProperty" } else { "StructProperty" };
            (ty, idx, inner) = **ok.iter().find(|e| e.0 == want).unwrap();
        }
        self.kinds.insert(format!("F{ty}"));
        self.tyname(ty);
        let w = if ty == "MapProperty" && self.s.chance(1, 4) { "PlayerCharacterIDs".to_string() } else { self.word() };
        let num = self.number();
        let name = self.vname(&w, num);
        let fl = self.gflags32(OBJECT_FLAGS);
        let dim = self.gdim();
        let el = self.gi32();
        let pf = self.gflags64(PROPERTY_FLAGS);
        let rep = self.gu16();
        let nf = self.gname();
        let c = self.gcond();
        let mut rest = vec![];
        if idx == 100 {
            for _ in 0..4 {
                rest.push(self.gu8());
            }
            rest.push(self.gbool8());
            rest.push(self.gbool8());
        } else {
            for _ in 0..idx {
                if self.focus == 4 && self.n_imp > 0 && self.s.chance(3, 4) {
                    let x = -1 - self.s.below(self.n_imp as usize) as i32;
                    self.i32(x);
                    rest.push(i(x));
                } else {
                    rest.push(self.gpkg());
                }
            }
        }
        for _ in 0..inner {
            rest.push(self.fproperty(depth - 1));
        }
        t(&format!("F{ty}"), vec![name, fl, dim, el, pf, rep, nf, c, V::L(rest)])
    }

    /// Code of a struct: (size in memory, what the code is).
    fn code(&mut self) -> V {
        let parsed = (self.v.engine as i32) >= unreal_asset_base::engine_version::EngineVersion::VER_UE4_16 as i32;
        if parsed {
            return self.script();
        }
        let mem = self.gi32();
        let n = self.len(20);
        self.i32(n as i32);
        let x = self.gbytes(n);
        t("RawCode", vec![mem, x])
    }

    fn strukt_export(&mut self, class: bool) -> V {
        let f = self.ufield();
        let sup = self.gpkg();
        let ch = self.gpkgs(4);
        let props = if self.v.cv[CORE] >= 4 { { let n = if self.focus == 4 { 8 } else { 4 }; self.list(n, |e| e.fproperty(2)) } } else { V::L(vec![]) };
        if class {
            self.learn(&props);
        }
        let code = self.code();
        t("Struct", vec![f, sup, ch, props, code])
    }
    /// Map fields of a generated class whose key or value is an imported struct type tell how later
    /// maps of that name are stored.
    fn learn(&mut self, props: &V) {
        let V::L(props) = props else { return };
        for p in props {
            let V::T(ty, f) = p else { continue };
            if ty != "FMapProperty" {
                continue;
            }
            let (V::N(name, _), V::L(rest)) = (&f[0], &f[8]) else { continue };
            for (k, inner) in rest.iter().enumerate() {
                let V::T(ity, fi) = inner else { continue };
                if ity != "FStructProperty" {
                    continue;
                }
                let V::L(r) = &fi[8] else { continue };
                let V::I(x) = r[0] else { continue };
                if x >= 0 || -x > self.n_imp as i128 {
                    continue;
                }
                let st = self.import_names[(-x - 1) as usize].clone();
                self.kinds.insert("map types learned from a class".into());
                if k == 0 {
                    self.pending_key.push((name.clone(), st));
                } else {
                    self.pending_val.push((name.clone(), st));
                }
            }
        }
    }

    pub fn export_body(&mut self, plan: &Plan) -> V {
        let kind = plan.kind;
        self.kinds.insert(format!("{kind} export"));
        if kind == "Raw" {
            // no name has such an index: nothing can be read from it
            let p = self.out.len();
            let x = *self.s.pick(&[-1, i32::MIN, i32::MAX, 1 << 24]);
            self.i32(x);
            self.i32(0);
            let n = self.len(30);
            self.gbytes(n);
            return t("Raw", vec![V::B(self.out[p..].to_vec())]);
        }
        let props = if kind == "DataTable" && self.n_imp > 0 && self.s.chance(3, 4) {
            // RowStruct names the type of the rows
            let mut before = (0..self.s.size(2)).map(|_| self.prop(1)).collect::<Vec<_>>();
            before.push(self.row_struct());
            self.tyname("None");
            V::L(before)
        } else {
            self.row_type = None;
            self.props(6, 2)
        };
        let mut rest = vec![];
        if kind != "Normal" {
            self.i32(0);
        }
        match kind {
            "Normal" => {}
            "Level" => {
                rest.push(self.gpkgs(5));
                for _ in 0..4 {
                    rest.push(self.gstr());
                }
                rest.push(self.list(3, |e| e.gstr()));
                rest.push(self.gi32());
                rest.push(self.gi32());
                rest.push(self.gpkg());
                rest.push(self.gpkgs(3));
                for _ in 0..3 {
                    rest.push(self.gpkg());
                }
            }
            "World" => {
                rest.push(self.gpkg());
                rest.push(self.gpkgs(3));
                rest.push(self.gpkgs(3));
            }
            "Enum" => {
                let n = self.len(5);
                self.i32(n as i32);
                let mut l = vec![];
                for k in 0..n {
                    let name = self.gname();
                    let x = if self.v.ov < ov::TIGHTLY_PACKED_ENUMS {
                        i(k as i32)
                    } else if self.v.cv[CORE] < 2 {
                        self.gu8()
                    } else {
                        self.gi64()
                    };
                    l.push(V::L(vec![name, x]));
                }
                rest.push(V::L(l));
                rest.push(if self.v.ov < ov::ENUM_CLASS_SUPPORT { self.gbool32() } else { self.genum(3) });
            }
            "StringTable" => {
                rest.push(self.gstr());
                let want = self.len(5);
                let at = self.place32();
                let mut l: Vec<V> = vec![];
                for _ in 0..want {
                    let k = Some(self.s.ascii_text(8).replace('\0', " "));
                    if l.iter().any(|e| matches!(e, V::L(p) if p[0] == V::S(k.clone()))) {
                        continue;
                    }
                    self.fstr(&k);
                    let x = Some(if self.s.chance(1, 3) { self.s.text(10) } else { self.s.ascii_text(10) }.replace('\0', " "));
                    self.fstr(&x);
                    l.push(V::L(vec![V::S(k), V::S(x)]));
                }
                self.patch32(at, l.len() as i32);
                rest.push(V::L(l));
            }
            "DataTable" => {
                let st = self.row_type.take().unwrap_or("Generic".into());
                let n = self.len(5);
                self.i32(n as i32);
                let mut l = vec![];
                for _ in 0..n {
                    let name = self.gname();
                    let body = self.struct_body(&st, 1);
                    l.push(V::L(vec![name, V::N(st.clone(), 0), body]));
                }
                rest.push(V::L(l));
            }
            "Function" => {
                rest.push(self.strukt_export(false));
                rest.push(self.gflags32(u32::MAX));
            }
            "UserDefinedStruct" => {
                rest.push(self.strukt_export(false));
                rest.push(self.gflags32(STRUCT_FLAGS));
                rest.push(self.props(4, 1));
            }
            "Class" => {
                rest.push(self.strukt_export(true));
                let want = self.len(4);
                let at = self.place32();
                let mut l: Vec<V> = vec![];
                for _ in 0..want {
                    let undo = self.out.len();
                    let name = self.gname();
                    if l.iter().any(|e| matches!(e, V::L(p) if p[0] == name)) {
                        self.out.truncate(undo);
                        continue;
                    }
                    let x = self.gpkg();
                    l.push(V::L(vec![name, x]));
                }
                self.patch32(at, l.len() as i32);
                rest.push(V::L(l));
                rest.push(self.gflags32(u32::MAX));
                rest.push(self.gpkg());
                rest.push(self.gname());
                let iface = |e: &mut Self| {
                    let c = e.gpkg();
                    let o = e.gi32();
                    let k = e.gbool32();
                    V::L(vec![c, o, k])
                };
                if self.v.ov < ov::INTERFACES_AFTER_LINKING {
                    let l = self.list(3, iface);
                    rest.push(self.gpkg());
                    rest.push(l);
                } else {
                    rest.push(self.gpkg());
                    rest.push(self.list(3, iface));
                }
                rest.push(self.gbool32());
                self.tyname("None");
                rest.push(self.gbool32());
                rest.push(self.gpkg());
            }
            "Property" => {
                let ty = plan.class.clone();
                let n = UPROPS.iter().find(|e| e.0 == ty).map_or(0, |e| e.1);
                self.kinds.insert(format!("U{ty}"));
                rest.push(self.ufield());
                rest.push(self.gdim());
                rest.push(self.gflags64(PROPERTY_FLAGS));
                rest.push(self.gname());
                rest.push(if self.v.cv[RELEASE] >= 21 { self.gcond() } else { V::Nil });
                let mut l = vec![];
                if n == 100 {
                    l.push(self.gu8());
                    l.push(self.gbool8());
                } else {
                    for _ in 0..n {
                        l.push(self.gpkg());
                    }
                }
                rest.push(V::L(l));
            }
            _ => unreachable!("{kind}"),
        }
        let n = if self.s.chance(1, 2) { 0 } else { self.len(12) };
        let extras = self.gbytes(n);
        t(kind, vec![props, V::L(rest), extras])
    }

    fn row_struct(&mut self) -> V {
        let name = self.vname("RowStruct", 0);
        self.tyname("ObjectProperty");
        self.i32(4);
        self.i32(0);
        let g = if self.v.has_prop_guid() {
            self.u8(0);
            V::Nil
        } else {
            V::Nil
        };
        let x = if self.s.chance(1, 6) { 0 } else { -1 - self.s.below(self.n_imp as usize) as i32 };
        self.row_type = if x < 0 { Some(self.import_names[(-x - 1) as usize].clone()) } else { None };
        self.i32(x);
        t("Prop", vec![name, i(0), g, t("ObjectProperty", vec![i(x)])])
    }

    pub fn world_tile(&mut self) -> V {
        let mut pos = vec![self.gi32(), self.gi32()];
        pos.push(if self.v.cv[FORTNITE] >= 1 { self.gi32() } else { i(0) });
        let lo = V::L(self.coords(3));
        let hi = V::L(self.coords(3));
        let bx = vec![lo, hi, self.gbool8()];
        let ln = self.gstr();
        let r0 = self.gi32();
        let r1 = V::L(vec![self.gi32(), self.gi32()]);
        let sd = self.gi32();
        let en = if self.v.ov >= ov::WORLD_LAYER_ENABLE_DISTANCE_STREAMING { self.gbool32() } else { V::Nil };
        let hide = self.gbool32();
        let parent = self.gstr();
        let lods = self.list(3, |e| {
            let a = e.gi32();
            let b = e.gf32();
            let c = e.gf32();
            V::L(vec![a, b, c, e.gi32(), e.gi32()])
        });
        let z = self.gi32();
        t("WorldTile", vec![V::L(pos), V::L(bx), V::L(vec![ln, r0, r1, sd, en]), hide, parent, lods, z])
    }
}
