//! Generators of tagged properties: every function writes the bytes and returns the value they state.
use crate::model::*;

pub const SCALARS: &[&str] = &[
    "BoolProperty", "Int8Property", "Int16Property", "IntProperty", "Int64Property", "UInt16Property", "UInt32Property",
    "UInt64Property", "FloatProperty", "DoubleProperty", "NameProperty", "StrProperty", "TextProperty", "ObjectProperty",
    "AssetObjectProperty", "SoftObjectProperty", "DelegateProperty", "MulticastDelegateProperty",
    "MulticastSparseDelegateProperty", "MulticastInlineDelegateProperty", "ByteProperty", "EnumProperty",
];
/// Element types of arrays, sets and maps (bytes only in arrays, where their width is known).
const KEYS: &[&str] = &[
    "IntProperty", "Int64Property", "NameProperty", "StrProperty", "ObjectProperty", "EnumProperty", "UInt32Property",
    "Int16Property", "Int8Property", "UInt64Property", "UInt16Property", "SoftObjectProperty", "BoolProperty",
];
const ELEMS: &[&str] = &[
    "IntProperty", "Int64Property", "NameProperty", "StrProperty", "ObjectProperty", "EnumProperty", "FloatProperty",
    "DoubleProperty", "BoolProperty", "TextProperty", "SoftObjectProperty", "AssetObjectProperty", "UInt32Property",
    "Int8Property", "Int16Property", "UInt16Property", "UInt64Property", "DelegateProperty", "MulticastDelegateProperty",
];

pub const CUSTOM: &[&str] = &[
    "SkeletalMeshSamplingLODBuiltData", "SkeletalMeshAreaWeightedTriangleSampler", "SmartName", "SoftObjectPath",
    "WeightedRandomSampler", "SoftClassPath", "StringAssetReference", "Color", "ExpressionInput", "MaterialAttributesInput",
    "ColorMaterialInput", "ScalarMaterialInput", "ShadingModelMaterialInput", "VectorMaterialInput", "Vector2MaterialInput",
    "GameplayTagContainer", "PerPlatformBool", "PerPlatformInt", "RichCurveKey", "SoftAssetPath", "Timespan", "DateTime",
    "Guid", "IntPoint", "LinearColor", "Quat", "Rotator", "Vector2D", "Box", "PerPlatformFloat", "Vector4", "Vector",
    "ViewTargetBlendParams", "FontCharacter", "UniqueNetIdRepl", "NiagaraVariable", "NiagaraVariableWithOffset", "FontData",
    "ClothLODData", "FloatRange", "MovieSceneEvalTemplatePtr", "MovieSceneTrackImplementationPtr",
    "MovieSceneEvaluationFieldEntityTree", "MovieSceneSubSequenceTree", "MovieSceneSequenceInstanceDataPtr",
    "SectionEvaluationDataTree", "MovieSceneTrackFieldData", "MovieSceneEventParameters", "MovieSceneFloatChannel",
    "MovieSceneFloatValue", "MovieSceneFrameRange", "MovieSceneSegment", "MovieSceneSegmentIdentifier",
    "MovieSceneTrackIdentifier", "MovieSceneSequenceId", "MovieSceneEvaluationKey",
];

impl Enc<'_> {
    fn prop_guid(&mut self) -> V {
        if !self.v.has_prop_guid() {
            return V::Nil;
        }
        if self.s.chance(1, 6) {
            self.u8(1);
            self.gguid()
        } else {
            self.u8(0);
            V::Nil
        }
    }

    pub fn delegate(&mut self) -> V {
        let o = self.gpkg();
        let n = self.gname();
        V::L(vec![o, n])
    }

    pub fn soft_path(&mut self) -> V {
        let pkg = if self.v.ue5 >= ue5::SOFTOBJECTPATH_NO_FNAMES { self.gname() } else { V::Nil };
        let asset = self.gname();
        let sub = self.gstr();
        V::L(vec![pkg, asset, sub])
    }

    fn text(&mut self) -> V {
        // flags, history, namespace, table id, value, culture invariant
        if self.v.ov < ov::FTEXT_HISTORY {
            let culture = self.gstr();
            let ns = self.gstr();
            let val = self.gstr();
            let flags = self.gu32();
            return V::L(vec![flags, V::Nil, ns, V::Nil, val, culture]);
        }
        let flags = self.gu32();
        let hist = *self.s.pick(&[0i8, -1, 11]);
        self.u8(hist as u8);
        let h = i(hist);
        let none = V::S(None);
        match hist {
            -1 => {
                let mut culture = none.clone();
                if self.v.cv[EDITOR] >= 32 {
                    if self.s.flag() {
                        self.i32(1);
                        let x = Some(format!("c{}", self.s.ascii_text(8)));
                        self.fstr(&x);
                        culture = V::S(x);
                    } else {
                        self.i32(0);
                    }
                }
                V::L(vec![flags, h, none.clone(), V::Nil, none, culture])
            }
            0 => {
                let ns = self.gstr();
                let val = self.gstr();
                let culture = self.gstr();
                V::L(vec![flags, h, ns, V::Nil, val, culture])
            }
            _ => {
                let id = self.gname();
                let val = self.gstr();
                V::L(vec![flags, h, none.clone(), id, val, none])
            }
        }
    }

    /// Value without tag of a scalar type (Byte: `wide` stores a name).
    pub fn scalar(&mut self, ty: &str, wide: bool) -> V {
        match ty {
            "BoolProperty" => self.gbool8(),
            "Int8Property" => self.gi8(),
            "Int16Property" => self.gi16(),
            "IntProperty" => self.gi32(),
            "Int64Property" => self.gi64(),
            "UInt16Property" => self.gu16(),
            "UInt32Property" => self.gu32(),
            "UInt64Property" => self.gu64(),
            "FloatProperty" => self.gf32(),
            "DoubleProperty" => self.gf64(),
            "NameProperty" | "EnumProperty" => self.gname(),
            "StrProperty" | "AssetObjectProperty" => self.gstr(),
            "TextProperty" => self.text(),
            "ObjectProperty" => self.gpkg(),
            "SoftObjectProperty" => self.soft_path(),
            "DelegateProperty" => self.delegate(),
            "MulticastDelegateProperty" | "MulticastSparseDelegateProperty" | "MulticastInlineDelegateProperty" => {
                self.list(3, |e| e.delegate())
            }
            "ByteProperty" if wide => self.gname(),
            "ByteProperty" => self.gu8(),
            _ => unreachable!("{ty}"),
        }
    }
    fn elem(&mut self, ty: &str, wide: bool) -> V {
        let x = self.scalar(ty, wide);
        let inner = match ty {
            "ByteProperty" | "EnumProperty" => vec![V::Nil, x],
            _ => vec![x],
        };
        t(ty, inner)
    }

    /// One complete tagged property.
    pub fn prop(&mut self, depth: usize) -> V {
        let d = (depth > 0) as u32;
        let w = match self.focus {
            1 => [80, 2, 6 * d, 2, 1, 1, 8],
            2 => [8, 60, 8 * d, 8, 0, 8, 0],
            3 => [10, 6, 14 * d, 26, 18, 24, 2],
            4 => [8, 4, 6 * d, 6, 4, 60, 2],
            _ => [50, 6 + 12 * d, 12 * d, 10, 5, 6, 2],
        };
        let ty = match self.s.weighted(&w) {
            0 => self.s.pick(SCALARS).to_string(),
            1 => "StructProperty".into(),
            2 => "Generic".into(),
            3 => "ArrayProperty".into(),
            4 => "SetProperty".into(),
            5 => "MapProperty".into(),
            _ => self.s.pick(&["FieldPathProperty", "LazyObjectProperty", "WeirdProperty"]).to_string(),
        };
        self.prop_of(&ty, depth)
    }

    pub fn prop_of(&mut self, ty: &str, depth: usize) -> V {
        let w = match ty {
            "MapProperty" => self.map_name(),
            _ => self.word(),
        };
        self.prop_named(&w, ty, depth)
    }
    fn map_name(&mut self) -> String {
        if self.focus == 4 && !self.learned.is_empty() && self.s.chance(2, 3) {
            let k = self.s.below(self.learned.len());
            self.kinds.insert("map of a learned name".into());
            return self.learned[k].clone();
        }
        if self.s.chance(1, 3) {
            let mut keys: Vec<String> = self.map_key_over.keys().chain(self.map_val_over.keys()).cloned().collect();
            keys.sort();
            keys.dedup();
            let k = self.s.below(keys.len());
            keys[k].clone()
        } else {
            self.word()
        }
    }

    pub fn prop_named(&mut self, w: &str, ty: &str, depth: usize) -> V {
        self.budget -= 1;
        let num = self.number();
        let name = self.vname(w, num);
        let real = if ty == "Generic" { "StructProperty" } else { ty };
        self.kinds.insert(ty.to_string());
        self.tyname(real);
        let len_at = self.place32();
        let dup = if self.s.chance(1, 5) { self.s.range(0, 9) as i32 } else { 0 };
        self.i32(dup);
        let head = |e: &mut Self, g: V, body: V| {
            let _ = e;
            t("Prop", vec![name.clone(), i(dup), g, body])
        };
        match ty {
            "BoolProperty" => {
                let x = self.gbool8();
                let g = self.prop_guid();
                return head(self, g, t(ty, vec![x]));
            }
            "ByteProperty" => {
                let et = self.gname();
                let g = self.prop_guid();
                let wide = self.s.flag();
                let p = self.out.len();
                let x = self.scalar(ty, wide);
                self.patch32(len_at, (self.out.len() - p) as i32);
                return head(self, g, t(ty, vec![et, x]));
            }
            "EnumProperty" => {
                let et = self.gname();
                let g = self.prop_guid();
                let p = self.out.len();
                let x = self.gname();
                self.patch32(len_at, (self.out.len() - p) as i32);
                return head(self, g, t(ty, vec![et, x]));
            }
            "FieldPathProperty" | "LazyObjectProperty" | "WeirdProperty" => {
                let g = self.prop_guid();
                let n = self.len(12);
                let x = self.gbytes(n);
                self.patch32(len_at, n as i32);
                return head(self, g, t("Unknown", vec![V::N(ty.into(), 0), x]));
            }
            _ => {}
        }
        if SCALARS.contains(&ty) {
            let g = self.prop_guid();
            let p = self.out.len();
            let x = self.scalar(ty, false);
            self.patch32(len_at, (self.out.len() - p) as i32);
            return head(self, g, t(ty, vec![x]));
        }
        match ty {
            "StructProperty" | "Generic" => {
                let st = if ty == "Generic" {
                    format!("S{}", self.s.pick(&["Info", "Entry", "tats", "Thing"]))
                } else {
                    self.custom_name()
                };
                self.tyname(&st);
                let sg = if self.v.ov >= ov::STRUCT_GUID_IN_PROPERTY_TAG { self.gguid() } else { V::Nil };
                let g = self.prop_guid();
                let p = self.out.len();
                let (none, vals) = if ty == "Generic" && self.s.chance(1, 10) {
                    self.kinds.insert("empty struct".into());
                    (false, V::L(vec![]))
                } else {
                    (true, self.struct_body(&st, depth))
                };
                self.patch32(len_at, (self.out.len() - p) as i32);
                head(self, g, t("Struct", vec![V::N(st, 0), sg, b(none), vals]))
            }
            "ArrayProperty" => self.array(&name, w, dup, len_at, depth),
            "SetProperty" => {
                let et = if depth > 0 && self.s.chance(1, 4) { "StructProperty" } else { *self.s.pick(ELEMS) };
                self.tyname(et);
                let g = self.prop_guid();
                let p = self.out.len();
                let mut parts = vec![];
                for max in [2, 4] {
                    let mut list = vec![];
                    let n = self.len(max);
                    self.i32(n as i32);
                    for _ in 0..n {
                        let x = if et == "StructProperty" {
                            let vals = self.struct_body("Generic", depth - 1);
                            t("Struct", vec![V::N("Generic".into(), 0), V::Nil, b(true), vals])
                        } else {
                            self.elem(et, false)
                        };
                        list.push(x);
                    }
                    parts.push(V::L(list));
                }
                self.patch32(len_at, (self.out.len() - p) as i32);
                parts.insert(0, V::N(et.into(), 0));
                head(self, g, t("Set", parts))
            }
            "MapProperty" => self.map(&name, w, dup, len_at, depth),
            _ => unreachable!("{ty}"),
        }
    }

    fn array(&mut self, name: &V, own: &str, dup: i32, len_at: usize, depth: usize) -> V {
        let st = depth > 0 && self.s.chance(2, 5);
        if st {
            self.kinds.insert("array of structs".into());
            self.tyname("StructProperty");
            let g = self.prop_guid();
            let p = self.out.len();
            let n = self.len(4);
            self.i32(n as i32);
            let (inner, stype, sg, at);
            if self.v.ov >= ov::INNER_ARRAY_TAG_INFO {
                // repeats the name of the array
                let again = self.out[len_at - 16..len_at - 8].to_vec();
                self.out.extend(again);
                inner = name.clone();
                self.tyname("StructProperty");
                at = Some(self.out.len());
                self.i64(0);
                stype = if self.s.flag() { self.custom_name() } else { "SEntry".to_string() };
                self.tyname(&stype);
                sg = self.gguid();
                self.u8(0);
            } else {
                inner = name.clone();
                stype = if own == "Keys" { "RichCurveKey".into() } else { "Generic".to_string() };
                sg = V::Nil;
                at = None;
            }
            let q = self.out.len();
            let mut list = vec![];
            for _ in 0..n {
                let vals = self.struct_body(&stype, depth - 1);
                list.push(t("Struct", vec![V::N(stype.clone(), 0), sg.clone(), b(true), vals]));
            }
            if let Some(at) = at {
                let l = (self.out.len() - q) as i32;
                self.patch32(at, l);
            }
            self.patch32(len_at, (self.out.len() - p) as i32);
            let tag = t("Inner", vec![inner, V::N(stype, 0), sg]);
            return t("Prop", vec![name.clone(), i(dup), g, t("StructArray", vec![tag, V::L(list)])]);
        }
        let et = if self.s.chance(1, 6) { "ByteProperty" } else { *self.s.pick(ELEMS) };
        let wide = self.s.flag();
        self.tyname(et);
        let g = self.prop_guid();
        let p = self.out.len();
        let n = self.len(6);
        self.i32(n as i32);
        let list = (0..n).map(|_| self.elem(et, wide)).collect();
        self.patch32(len_at, (self.out.len() - p) as i32);
        t("Prop", vec![name.clone(), i(dup), g, t("Array", vec![V::N(et.into(), 0), V::L(list)])])
    }

    fn map_item(&mut self, ty: &str, st: &str, depth: usize) -> V {
        if ty == "StructProperty" {
            let vals = self.struct_body(st, depth);
            t("Struct", vec![V::N(st.into(), 0), V::Nil, b(true), vals])
        } else {
            self.elem(ty, false)
        }
    }

    fn map(&mut self, name: &V, own: &str, dup: i32, len_at: usize, depth: usize) -> V {
        let kover = self.map_key_over.get(own).cloned();
        let vover = self.map_val_over.get(own).cloned();
        let kt = if depth > 0 && self.s.chance(if kover.is_some() { 4 } else { 1 }, 5) { "StructProperty" } else { *self.s.pick(KEYS) };
        let vt = if depth > 0 && self.s.chance(if vover.is_some() { 4 } else { 2 }, 5) { "StructProperty" } else { *self.s.pick(ELEMS) };
        if (kt == "StructProperty" && kover.is_some()) || (vt == "StructProperty" && vover.is_some()) {
            self.kinds.insert("map with known struct types".into());
        }
        let kst = kover.unwrap_or("Generic".into());
        let vst = vover.unwrap_or("Generic".into());
        self.tyname(kt);
        self.tyname(vt);
        let g = self.prop_guid();
        let p = self.out.len();
        let n = self.len(2);
        self.i32(n as i32);
        let d = depth.saturating_sub(1);
        let removed: Vec<V> = (0..n).map(|_| self.map_item(kt, &kst, d)).collect();
        let n_at = self.place32();
        let want = self.len(4);
        let mut pairs: Vec<V> = vec![];
        let mut keys: Vec<V> = vec![];
        for _ in 0..want {
            let undo = self.out.len();
            let k = self.map_item(kt, &kst, d);
            if keys.iter().any(|e| same_key(e, &k)) || has_nan(&k) {
                self.out.truncate(undo);
                continue;
            }
            let v = self.map_item(vt, &vst, d);
            keys.push(k.clone());
            pairs.push(V::L(vec![k, v]));
        }
        self.patch32(n_at, pairs.len() as i32);
        self.patch32(len_at, (self.out.len() - p) as i32);
        let body = t("Map", vec![V::N(kt.into(), 0), V::N(vt.into(), 0), V::L(removed), V::L(pairs)]);
        t("Prop", vec![name.clone(), i(dup), g, body])
    }

    /// Terminated list of tagged properties.
    pub fn props(&mut self, max: usize, depth: usize) -> V {
        let n = if self.budget <= 0 { 0 } else { self.len(max) };
        let list = (0..n).map(|_| self.prop(depth)).collect();
        self.tyname("None");
        V::L(list)
    }

    fn custom_name(&mut self) -> String {
        let x = *self.s.pick(CUSTOM);
        // old font data has no bytes at all, which no file contains
        if x == "FontData" && self.v.cv[EDITOR] < 9 {
            return "Guid".into();
        }
        x.to_string()
    }

    /// Whether a struct type is stored in its own binary form in this file's version.
    pub fn is_custom(&self, st: &str) -> bool {
        match st {
            "RichCurveKey" => self.v.ov >= ov::SERIALIZE_RICH_CURVE_KEY,
                        "MovieSceneTrackIdentifier" => self.v.cv[EDITOR] >= 19,
            "MovieSceneFloatChannel" => self.v.cv[SEQUENCER] >= 12 || self.v.cv[FORTNITE] >= 53,
            _ => CUSTOM.contains(&st),
        }
    }

    pub fn struct_body(&mut self, st: &str, depth: usize) -> V {
        if st == "FloatRange" && self.s.chance(1, 3) {
            // the tagged form starts with the property LowerBound
            self.kinds.insert("FloatRange (tagged)".into());
            let a = self.lower_bound();
            let b = self.prop_named("UpperBound", "FloatProperty", 0);
            self.tyname("None");
            return V::L(vec![a, b]);
        }
        if self.is_custom(st) {
            self.kinds.insert(st.to_string());
            V::L(vec![self.custom(st, depth.saturating_sub(1))])
        } else {
            self.props(4, depth.saturating_sub(1))
        }
    }
    fn lower_bound(&mut self) -> V {
        self.prop_named("LowerBound", "FloatProperty", 0)
    }

    fn expression(&mut self) -> V {
        let a = self.gi32();
        let n = self.gname();
        let x = self.gbytes(20);
        let e = self.gname();
        V::L(vec![a, n, x, e])
    }
    fn vec3(&mut self) -> V {
        V::L(self.coords(3))
    }
    fn range(&mut self) -> V {
        let mut r = vec![];
        for _ in 0..2 {
            r.push(self.genum(4));
            r.push(self.gi32());
        }
        V::L(r)
    }
    fn tree(&mut self, mut item: impl FnMut(&mut Self) -> V) -> V {
        fn node(e: &mut Enc) -> V {
            let r = e.range();
            let mut n = vec![r];
            for _ in 0..4 {
                n.push(e.gi32());
            }
            V::L(n)
        }
        fn entry(e: &mut Enc) -> V {
            V::L((0..3).map(|_| e.gi32()).collect())
        }
        let root = node(self);
        let ce = self.list(3, entry);
        let ci = self.list(3, node);
        let de = self.list(3, entry);
        let di = self.list(3, &mut item);
        V::L(vec![root, ce, ci, de, di])
    }
    fn float_value(&mut self) -> V {
        let mut v: Vec<V> = (0..5).map(|_| self.gf32()).collect();
        for _ in 0..3 {
            v.push(self.genum(4));
        }
        V::L(v)
    }
    fn sampler(&mut self) -> Vec<V> {
        let p = self.list(4, |e| e.gf32());
        let a = self.list(4, |e| e.gi32());
        let w = self.gf32();
        vec![p, a, w]
    }
    fn mesh_data(&mut self) -> V {
        self.list(2, |e| {
            let mut v = vec![];
            for _ in 0..3 {
                v.push(V::L(e.coords(4)));
            }
            v.push(V::L((0..4).map(|_| e.gu16()).collect()));
            v.push(e.gf32());
            e.u32(0);
            V::L(v)
        })
    }

    fn custom(&mut self, st: &str, depth: usize) -> V {
        self.budget -= 1;
        let d = depth.min(1);
        let v = match st {
            "Vector" | "Rotator" => self.coords(3),
            "Vector4" | "Quat" => self.coords(4),
            "Vector2D" => self.coords(2),
            "Box" => vec![self.vec3(), self.vec3(), self.gbool8()],
            "IntPoint" => vec![self.gi32(), self.gi32()],
            "Color" => {
                // stored as B, G, R, A; seen as r, g, b, a
                let x = self.s.bytes(4);
                self.out.extend(&x);
                vec![i(x[2]), i(x[1]), i(x[0]), i(x[3])]
            }
            "LinearColor" => (0..4).map(|_| self.gf32()).collect(),
            "Timespan" | "DateTime" => vec![self.gi64()],
            "Guid" => vec![self.gguid()],
            "SoftObjectPath" | "SoftAssetPath" | "SoftClassPath" | "StringAssetReference" => {
                if self.v.ov < ov::ADDED_SOFT_OBJECT_PATH {
                    vec![self.gstr()]
                } else {
                    vec![self.soft_path()]
                }
            }
            "FloatRange" => {
                // the binary form must not start with an index of the name LowerBound
                let mut a = self.s.f32v();
                let k = a.to_bits() as i32;
                if k >= 0 && k < 4000 {
                    a = 1.5;
                }
                self.f32(a);
                vec![f4(a), self.gf32()]
            }
            "FontCharacter" => {
                let mut v: Vec<V> = (0..4).map(|_| self.gi32()).collect();
                v.push(self.gu8());
                v.push(self.gi32());
                v
            }
            "GameplayTagContainer" => vec![self.list(4, |e| e.gname())],
            "PerPlatformBool" => vec![self.list(3, |e| e.gbool8())],
            "PerPlatformInt" => vec![self.list(3, |e| e.gi32())],
            "PerPlatformFloat" => vec![self.list(3, |e| e.gf32())],
            "ExpressionInput" | "MaterialAttributesInput" => vec![self.expression()],
            "ColorMaterialInput" => {
                let a = self.expression();
                let c = self.gi32();
                let x = self.s.bytes(4);
                self.out.extend(&x);
                vec![a, c, V::L(vec![i(x[2]), i(x[1]), i(x[0]), i(x[3])])]
            }
            "ScalarMaterialInput" => vec![self.expression(), self.gi32(), self.gf32()],
            "ShadingModelMaterialInput" => vec![self.expression(), self.gi32(), self.gu32()],
            "VectorMaterialInput" => vec![self.expression(), self.gi32(), self.vec3()],
            "Vector2MaterialInput" => vec![self.expression(), self.gi32(), V::L(self.coords(2))],
            "RichCurveKey" => {
                let mut v: Vec<V> = (0..3).map(|_| self.genum(4)).collect();
                v.extend((0..6).map(|_| self.gf32()));
                v
            }
            "WeightedRandomSampler" | "SkeletalMeshAreaWeightedTriangleSampler" | "SkeletalMeshSamplingLODBuiltData" => self.sampler(),
            "SmartName" => {
                let n = self.gname();
                let id = if self.v.cv[ANIMPHYS] < 5 { self.gu16() } else { V::Nil };
                let g = if self.v.cv[ANIMPHYS] < 10 { self.gguid() } else { V::Nil };
                vec![n, id, g]
            }
            "ViewTargetBlendParams" => vec![self.gf32(), self.genum(6), self.gf32(), self.gbool32()],
            "UniqueNetIdRepl" => {
                if self.s.chance(1, 4) {
                    self.i32(0);
                    vec![V::Nil]
                } else {
                    let at = self.place32();
                    let p = self.out.len();
                    let n = self.gname();
                    let c = self.gstr();
                    // the size counts itself, the type name and the string with its length field
                    self.patch32(at, (self.out.len() - p) as i32 + 4);
                    vec![V::L(vec![n, c])]
                }
            }
            "NiagaraVariable" | "NiagaraVariableWithOffset" => {
                let n = self.gname();
                let p = self.props(2, d);
                let o = self.gi32();
                vec![n, p, o]
            }
            "FontData" => {
                if self.v.cv[EDITOR] >= 9 {
                    let cooked = self.s.chance(3, 4);
                    self.i32(cooked as i32);
                    if cooked {
                        let face = if self.s.flag() { 0 } else { self.s.range(-5, 5) as i32 };
                        self.i32(face);
                        if face == 0 {
                            self.gstr();
                            self.genum(5);
                            self.genum(3);
                        }
                        self.gi32();
                    }
                }
                vec![]
            }
            "ClothLODData" => vec![self.props(2, d), self.mesh_data(), self.mesh_data()],
            "MovieSceneEvalTemplatePtr" | "MovieSceneTrackImplementationPtr" => {
                if self.s.chance(1, 3) {
                    self.i32(0);
                    vec![V::L(vec![])]
                } else {
                    let ty = Some(format!("/Script/X.{}", self.s.ascii_ident(6)));
                    self.fstr(&ty);
                    let p = self.props(3, d);
                    vec![V::L(vec![V::S(ty), p])]
                }
            }
            "MovieSceneEvaluationFieldEntityTree" => vec![self.tree(|e| V::L(vec![e.gi32(), e.gi32()]))],
            "MovieSceneSubSequenceTree" => vec![self.tree(|e| V::L(vec![e.gu32(), e.genum(4)]))],
            "MovieSceneTrackFieldData" => vec![self.tree(|e| e.gu32())],
            "SectionEvaluationDataTree" => vec![self.tree(|e| e.props(2, 0))],
            "MovieSceneSequenceInstanceDataPtr" => vec![self.gpkg()],
            "MovieSceneEventParameters" => {
                let p = self.soft_path();
                let n = self.len(9);
                self.i32(n as i32);
                vec![p, self.gbytes(n)]
            }
            "MovieSceneFloatChannel" => {
                let a = self.genum(7);
                let b = self.genum(7);
                let tl = self.gi32();
                let ts = self.list(4, |e| e.gi32());
                let vl = self.gi32();
                let vs = self.list(4, |e| e.float_value());
                vec![a, b, tl, ts, vl, vs, self.gf32(), self.gbool32(), self.gi32(), self.gi32()]
            }
            "MovieSceneFloatValue" => vec![self.float_value()],
            "MovieSceneFrameRange" => vec![self.range()],
            "MovieSceneSegment" => {
                let r = self.range();
                let id = self.gi32();
                let ae = self.gbool32();
                let l = self.list(2, |e| e.props(2, 0));
                vec![r, id, ae, l]
            }
            "MovieSceneSegmentIdentifier" => vec![self.gi32()],
            "MovieSceneTrackIdentifier" | "MovieSceneSequenceId" => vec![self.gu32()],
            "MovieSceneEvaluationKey" => vec![self.gu32(), self.gu32(), self.gu32()],
            _ => unreachable!("{st}"),
        };
        t(st, v)
    }
}

/// Keys the library may take for equal although their bytes differ (signed zeros), or equal ones.
fn same_key(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::F4(x), V::F4(y)) => f32::from_bits(*x) == f32::from_bits(*y) || x == y,
        (V::F8(x), V::F8(y)) => f64::from_bits(*x) == f64::from_bits(*y) || x == y,
        (V::L(x), V::L(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_key(p, q)),
        (V::T(n, x), V::T(m, y)) => n == m && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_key(p, q)),
        _ => a == b,
    }
}
/// Keys for which equality is not decided by the value this model holds.
fn has_nan(a: &V) -> bool {
    match a {
        V::F4(x) => f32::from_bits(*x).is_nan(),
        V::F8(x) => f64::from_bits(*x).is_nan(),
        V::L(x) => x.iter().any(has_nan),
        // values whose content the model does not hold
        V::T(n, x) => n == "FontData" || n == "Map" || x.iter().any(has_nan),
        _ => false,
    }
}
