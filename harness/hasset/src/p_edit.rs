//! Edited packages: after any history of edits the written files hold exactly the edited content.
use crate::gen_exports::*;
use crate::model::*;
use crate::p_asset::*;
use crate::pkg::*;
use crate::view::View;
use ordered_float::OrderedFloat;
use unreal_asset_base::flags::{EObjectFlags, EPackageFlags};
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_base::unversioned::ancestry::Ancestry;
use unreal_asset_base::{Guid, Import};
use unreal_asset_exports::{Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset_properties::int_property::*;
use unreal_asset_properties::object_property::ObjectProperty;
use unreal_asset_properties::str_property::{NameProperty, StrProperty};
use unreal_asset_properties::{str_property, Property, PropertyDataTrait};
use vkit::*;

type E = Export<PackageIndex>;

/// What the package has to contain.
struct M {
    names: Vec<String>,
    imports: Vec<V>,
    exports: Vec<(V, V)>,
    header: Vec<V>,
    world: V,
    split: bool,
    /// some map types were learned from class exports: the order of exports matters
    learned: bool,
    /// names made by the history, to be renamed in place
    fresh: Vec<i32>,
    transferred: bool,
    /// there are names of another package since the name map was rebuilt
    foreign: bool,
    ov: i32,
    v: Ver,
    /// scripts were edited: what they take in memory is computed when they are written (C25)
    recoded: bool,
    log: Vec<String>,
}

fn fields(v: &mut V) -> &mut Vec<V> {
    match v {
        V::T(_, f) => f,
        V::L(f) => f,
        _ => panic!("not a list"),
    }
}
fn tag(v: &V) -> &str {
    match v {
        V::T(n, _) => n,
        _ => "",
    }
}

fn word(s: &mut Src) -> String {
    if s.chance(1, 3) {
        s.pick(&["Health", "Mesh", "Value", "/Game/Stuff/Thing", "A", "Location"]).to_string()
    } else {
        let w = if s.chance(1, 5) { s.text(8) } else { s.ascii_ident(10) };
        format!("n{}", w.replace('\0', " "))
    }
}
fn text(s: &mut Src) -> Option<String> {
    match s.below(5) {
        0 => None,
        1 => Some(String::new()),
        2 => Some(s.text(10).replace('\0', " ")),
        _ => Some(s.ascii_text(20).replace('\0', " ")),
    }
}
fn number(s: &mut Src) -> i32 {
    if s.chance(1, 3) {
        s.range(1, 9) as i32
    } else {
        0
    }
}

impl M {
    fn add_name(&mut self, a: &mut A, w: &str, num: i32) -> (FName, V) {
        let n = a.get_name_map().get_mut().add_fname_with_number(w, num);
        if !self.names.iter().any(|e| e == w) {
            self.names.push(w.to_string());
        }
        (n, V::N(w.to_string(), num))
    }
    /// A new property of a basic type.
    fn new_prop(&mut self, s: &mut Src, a: &mut A) -> (Property, V) {
        let w = word(s);
        let num = number(s);
        let (name, vname) = self.add_name(a, &w, num);
        let dup = if s.chance(1, 5) { s.range(0, 3) as i32 } else { 0 };
        let guid = (self.ov >= ov::PROPERTY_GUID_IN_PROPERTY_TAG && s.chance(1, 6)).then(|| s.guid());
        let ancestry = Ancestry::new(name.clone());
        let property_guid = guid.map(Guid);
        macro_rules! p {
            ($t:ident, $v:expr) => {
                $t { name, ancestry, property_guid, duplication_index: dup, value: $v }.into()
            };
        }
        let (p, body): (Property, V) = match s.below(9) {
            0 => {
                let x = s.i32v();
                (p!(IntProperty, x), t("IntProperty", vec![i(x)]))
            }
            1 => {
                let x = text(s);
                (p!(StrProperty, x.clone()), t("StrProperty", vec![V::S(x)]))
            }
            2 => {
                let w = format!("fresh{}{}", self.fresh.len(), s.ascii_ident(4));
                let num = number(s);
                let (n, vn) = self.add_name(a, &w, num);
                if let Some(k) = a.search_name_reference(&w) {
                    self.fresh.push(k);
                }
                (p!(NameProperty, n), t("NameProperty", vec![vn]))
            }
            3 => {
                let x = s.flag();
                (p!(BoolProperty, x), t("BoolProperty", vec![b(x)]))
            }
            4 => {
                let x = s.range(-4, 4) as i32;
                (p!(ObjectProperty, PackageIndex::new(x)), t("ObjectProperty", vec![i(x)]))
            }
            5 => {
                let x = s.f32v();
                (p!(FloatProperty, OrderedFloat(x)), t("FloatProperty", vec![f4(x)]))
            }
            6 => {
                let x = s.f64v();
                (p!(DoubleProperty, OrderedFloat(x)), t("DoubleProperty", vec![f8(x)]))
            }
            7 => {
                let x = s.u64v();
                (p!(UInt64Property, x), t("UInt64Property", vec![i(x)]))
            }
            _ => {
                let x = s.i8v();
                (p!(Int8Property, x), t("Int8Property", vec![i(x)]))
            }
        };
        (p, t("Prop", vec![vname, i(dup), guid.map_or(V::Nil, |g| V::B(g.to_vec())), body]))
    }

    /// Edits a list (properties, elements, rows): duplicate, remove, swap.
    fn list_op<T: Clone>(&mut self, s: &mut Src, l: &mut Vec<T>, v: &mut Vec<V>, keep: usize) -> &'static str {
        assert_eq!(l.len(), v.len());
        if l.is_empty() {
            return "nothing";
        }
        let k = s.below(l.len());
        match s.below(3) {
            0 => {
                let at = s.below(l.len() + 1);
                let (x, y) = (l[k].clone(), v[k].clone());
                l.insert(at, x);
                v.insert(at, y);
                "duplicate"
            }
            1 if l.len() > keep => {
                l.remove(k);
                v.remove(k);
                "remove"
            }
            _ => {
                let j = s.below(l.len());
                l.swap(k, j);
                v.swap(k, j);
                "swap"
            }
        }
    }

    /// Edits one property value in place; `v` is the value without tag.
    fn edit_value(&mut self, s: &mut Src, a: &mut A, p: &mut Property, v: &mut V) -> String {
        use Property::*;
        let ty = tag(v).to_string();
        macro_rules! num {
            ($p:expr, $x:expr, $m:ident) => {{
                let x = $x;
                $p.value = x.into();
                fields(v)[0] = $m(x);
            }};
        }
        match p {
            BoolProperty(p) => num!(p, s.flag(), b),
            Int8Property(p) => num!(p, s.i8v(), i),
            Int16Property(p) => num!(p, s.i16v(), i),
            IntProperty(p) => num!(p, s.i32v(), i),
            Int64Property(p) => num!(p, s.i64v(), i),
            UInt16Property(p) => num!(p, s.u16v(), i),
            UInt32Property(p) => num!(p, s.u32v(), i),
            UInt64Property(p) => num!(p, s.u64v(), i),
            FloatProperty(p) => num!(p, s.f32v(), f4),
            DoubleProperty(p) => num!(p, s.f64v(), f8),
            StrProperty(p) => {
                p.value = text(s);
                fields(v)[0] = V::S(p.value.clone());
            }
            AssetObjectProperty(p) => {
                p.value = text(s);
                fields(v)[0] = V::S(p.value.clone());
            }
            TextProperty(p) if matches!(p.history_type, str_property::TextHistoryType::Base) && self.ov >= ov::FTEXT_HISTORY => {
                p.value = text(s);
                if let V::L(f) = &mut fields(v)[0] {
                    f[4] = V::S(p.value.clone());
                }
            }
            NameProperty(p) => {
                let (w, k) = (word(s), number(s));
                let (n, vn) = self.add_name(a, &w, k);
                p.value = n;
                fields(v)[0] = vn;
            }
            EnumProperty(p) => {
                let (w, k) = (word(s), number(s));
                let (n, vn) = self.add_name(a, &w, k);
                p.value = Some(n);
                fields(v)[1] = vn;
            }
            ByteProperty(p) => match &mut p.value {
                BytePropertyValue::Byte(x) => {
                    *x = s.u8v();
                    fields(v)[1] = i(*x);
                }
                BytePropertyValue::FName(x) => {
                    let (w, k) = (word(s), number(s));
                    let (n, vn) = self.add_name(a, &w, k);
                    *x = n;
                    fields(v)[1] = vn;
                }
            },
            ObjectProperty(p) => {
                p.value = PackageIndex::new(s.range(-9, 9) as i32);
                fields(v)[0] = i(p.value.index);
            }
            UnknownProperty(p) => {
                let n = s.size(8);
                p.value = s.bytes(n);
                fields(v)[1] = V::B(p.value.clone());
            }
            MulticastDelegateProperty(p) => {
                let V::L(l) = &mut fields(v)[0] else { unreachable!() };
                return format!("{ty} {}", self.list_op(s, &mut p.value, l, 0));
            }
            ArrayProperty(p) => {
                let V::L(l) = &mut fields(v)[1] else { unreachable!() };
                if !l.is_empty() && s.flag() {
                    let k = s.below(l.len());
                    return format!("{ty}[{k}] {}", self.edit_value(s, a, &mut p.value[k], &mut l[k]));
                }
                return format!("{ty} {}", self.list_op(s, &mut p.value, l, 0));
            }
            SetProperty(p) => {
                let r = s.chance(1, 4);
                let V::L(l) = &mut fields(v)[if r { 1 } else { 2 }] else { unreachable!() };
                let x = if r { &mut p.removed_items.value } else { &mut p.value.value };
                return format!("{ty} {}", self.list_op(s, x, l, 0));
            }
            Property::MapProperty(p) => {
                if s.chance(1, 4) {
                    let V::L(l) = &mut fields(v)[2] else { unreachable!() };
                    let mut none = vec![];
                    return format!("{ty} removed {}", self.list_op(s, p.keys_to_remove.as_mut().unwrap_or(&mut none), l, 0));
                }
                let V::L(l) = &mut fields(v)[3] else { unreachable!() };
                if l.is_empty() {
                    return "nothing".into();
                }
                let k = s.below(l.len());
                let j = s.below(l.len());
                // insertion indices are kept when entries are removed
                let at = |p: &unreal_asset_properties::map_property::MapProperty, k: usize| p.value.iter().nth(k).unwrap().0;
                match s.below(4) {
                    0 => {
                        p.value.remove_by_index(at(p, k));
                        l.remove(k);
                        return format!("{ty} remove {k}");
                    }
                    1 => {
                        // value of another key
                        let x = p.value.get_by_index(at(p, j)).unwrap().clone();
                        let k2 = at(p, k);
                        *p.value.get_by_index_mut(k2).unwrap() = x;
                        let x = fields(&mut l[j])[1].clone();
                        fields(&mut l[k])[1] = x;
                        return format!("{ty} copy {j} to {k}");
                    }
                    2 => {
                        // removed and inserted again: moves to the end
                        let (_, key, x) = p.value.remove_by_index(at(p, k)).unwrap();
                        p.value.insert(key, x);
                        let x = l.remove(k);
                        l.push(x);
                        return format!("{ty} move {k} to the end");
                    }
                    _ => {
                        let k2 = at(p, k);
                        let x = p.value.get_by_index_mut(k2).unwrap();
                        let pair = fields(&mut l[k]);
                        return format!("{ty} value {k} {}", self.edit_value(s, a, x, &mut pair[1]));
                    }
                }
            }
            StructProperty(p) => {
                let f = fields(v);
                // the reader tells the forms of a FloatRange apart by its first member
                let range = matches!(&f[0], V::N(n, _) if n == "FloatRange");
                let V::L(l) = &mut f[3] else { unreachable!() };
                if !range && f_is_tagged(l) && f[2] == b(true) {
                    let V::L(l) = &mut f[3] else { unreachable!() };
                    return format!("{ty} {}", self.edit_props(s, a, &mut p.value, l));
                }
                return "nothing".into();
            }
            _ => return "nothing".into(),
        }
        format!("{ty} set")
    }

    fn edit_props(&mut self, s: &mut Src, a: &mut A, p: &mut Vec<Property>, v: &mut Vec<V>) -> String {
        match s.below(4) {
            0 => {
                let (x, y) = self.new_prop(s, a);
                let at = s.below(p.len() + 1);
                p.insert(at, x);
                let d = format!("insert {y:?} at {at}");
                v.insert(at, y);
                d
            }
            1 => self.list_op(s, p, v, 0).to_string(),
            2 if !p.is_empty() => {
                // rename or renumber
                let k = s.below(p.len());
                if matches!(p[k], Property::ArrayProperty(_) | Property::MapProperty(_)) {
                    return "nothing".into();
                }
                let (w, n) = (word(s), number(s));
                let (n, vn) = self.add_name(a, &w, n);
                *p[k].get_name_mut() = n;
                fields(&mut v[k])[0] = vn;
                format!("rename {k} to {w}")
            }
            _ if !p.is_empty() => {
                let k = s.below(p.len());
                let f = fields(&mut v[k]);
                format!("{k}: {}", self.edit_value(s, a, &mut p[k], &mut f[3]))
            }
            _ => "nothing".into(),
        }
    }

    fn edit_base(&mut self, s: &mut Src, a: &mut A, k: usize) -> String {
        let (w, n) = (word(s), number(s));
        let which = s.below(8);
        let name = (which == 0).then(|| self.add_name(a, &w, n));
        let e = a.asset_data.exports[k].get_base_export_mut();
        let f = fields(&mut self.exports[k].0);
        match which {
            0 => {
                let (n, v) = name.unwrap();
                e.object_name = n;
                f[4] = v;
            }
            1 => {
                e.outer_index = PackageIndex::new(s.range(-5, 5) as i32);
                f[3] = i(e.outer_index.index);
            }
            2 => {
                let x = OBJECT_FLAGS & s.u32v();
                e.object_flags = EObjectFlags::from_bits_truncate(x);
                f[5] = i(x);
            }
            3 => {
                e.forced_export = !e.forced_export;
                f[6] = b(e.forced_export);
                e.not_for_server = !e.not_for_server;
                f[8] = b(e.not_for_server);
            }
            4 => {
                e.super_index = PackageIndex::new(s.range(-5, 5) as i32);
                f[1] = i(e.super_index.index);
            }
            _ if self.split => {
                let l = match which {
                    5 => &mut e.serialization_before_serialization_dependencies,
                    6 => &mut e.create_before_serialization_dependencies,
                    7 => &mut e.serialization_before_create_dependencies,
                    _ => &mut e.create_before_create_dependencies,
                };
                let V::L(v) = &mut f[16 + which - 5] else { unreachable!() };
                let at = s.below(l.len() + 1);
                let x = s.range(-5, 5) as i32;
                if s.chance(2, 3) {
                    l.insert(at, PackageIndex::new(x));
                    v.insert(at, i(x));
                } else {
                    l.pop();
                    v.pop();
                }
            }
            _ => {
                e.package_flags = s.u32v();
                f[11] = i(e.package_flags);
            }
        }
        format!("base field {which}")
    }

    fn step(&mut self, s: &mut Src, a: &mut A) -> String {
        let n = self.exports.len();
        match s.below(10) {
            0 => {
                let h = &mut self.header;
                match s.below(5) {
                    0 => {
                        a.folder_name = text(s).unwrap_or_default();
                        h[6] = V::S(Some(a.folder_name.clone()));
                    }
                    1 => {
                        let g = s.guid();
                        a.package_guid = Guid(g);
                        h[8] = V::B(g.to_vec());
                    }
                    2 => {
                        a.package_source = s.u32v();
                        h[10] = i(a.package_source);
                    }
                    3 => {
                        a.asset_data.summary.file_licensee_version = s.i32v();
                        h[4] = i(a.asset_data.summary.file_licensee_version);
                    }
                    _ => {
                        let x = PACKAGE_FLAGS & s.u32v();
                        a.asset_data.summary.package_flags = EPackageFlags::from_bits_truncate(x);
                        h[7] = i(x);
                    }
                }
                "header field".into()
            }
            1 => {
                let w = word(s);
                if s.chance(1, 4) {
                    a.add_name_reference(w.clone(), true);
                    self.names.push(w);
                } else {
                    self.add_name(a, &w, 0);
                }
                "add a name".into()
            }
            2 => {
                let mut f = vec![];
                let mut v = vec![];
                for _ in 0..3 {
                    let (w, k) = (word(s), number(s));
                    let (n, vn) = self.add_name(a, &w, k);
                    f.push(n);
                    v.push(vn);
                }
                let outer = s.range(-5, 5) as i32;
                let opt = s.flag() && matches!(self.header[3], V::I(x) if x >= ue5::OPTIONAL_RESOURCES as i128);
                let x = a.add_import(Import::new(f[0].clone(), f[1].clone(), PackageIndex::new(outer), f[2].clone(), opt));
                v.insert(2, i(outer));
                v.push(b(opt));
                self.imports.push(t("Import", v));
                format!("add import {}", x.index)
            }
            3 if !self.fresh.is_empty() => {
                // rename in place
                let k = *s.pick(&self.fresh) as usize;
                let new = format!("renamed{}{}", self.log.len(), s.ascii_ident(4));
                let old = std::mem::replace(&mut self.names[k], new.clone());
                *a.get_name_map().get_mut().get_name_reference_mut(k as i32) = new.clone();
                for (base, body) in &mut self.exports {
                    rename(base, &old, &new);
                    rename(body, &old, &new);
                }
                for x in &mut self.imports {
                    rename(x, &old, &new);
                }
                format!("rename {old} to {new}")
            }
            4 if n > 0 => {
                let k = s.below(n);
                format!("export {k} {}", self.edit_base(s, a, k))
            }
            5 if n > 0 && !self.learned => {
                let k = s.below(n);
                match s.below(3) {
                    0 if n < 8 => {
                        let x = a.asset_data.exports[k].clone();
                        a.asset_data.exports.push(x);
                        let m = self.exports[k].clone();
                        self.exports.push(m);
                        format!("duplicate export {k}")
                    }
                    1 if !self.exports.iter_mut().any(|e| fields(&mut e.0)[0] == i(n as i32)) => {
                        a.asset_data.exports.pop();
                        self.exports.pop();
                        "drop the last export".into()
                    }
                    _ => {
                        let j = s.below(n);
                        a.asset_data.exports.swap(k, j);
                        self.exports.swap(k, j);
                        format!("swap exports {k} and {j}")
                    }
                }
            }
            _ if n > 0 => {
                let k = s.below(n);
                let mut x = a.asset_data.exports[k].clone();
                let mut body = std::mem::replace(&mut self.exports[k].1, V::Nil);
                let d = self.edit_export(s, a, &mut x, &mut body);
                a.asset_data.exports[k] = x;
                self.exports[k].1 = body;
                format!("export {k} {d}")
            }
            _ => "nothing".into(),
        }
    }

    /// what kinds of exports have of their own; the model takes over what is in memory afterwards
    fn edit_own(&mut self, s: &mut Src, a: &mut A, x: &mut E) -> Option<String> {
        fn index(s: &mut Src) -> PackageIndex {
            PackageIndex::new(s.range(-9, 9) as i32)
        }
        fn list(s: &mut Src, l: &mut Vec<PackageIndex>) -> &'static str {
            match s.below(3) {
                0 if !l.is_empty() => {
                    l.remove(s.below(l.len()));
                    "remove"
                }
                1 if !l.is_empty() => {
                    let k = s.below(l.len());
                    l[k] = index(s);
                    "replace"
                }
                _ => {
                    let k = s.below(l.len() + 1);
                    l.insert(k, index(s));
                    "insert"
                }
            }
        }
        let what = match x {
            Export::LevelExport(d) => match s.below(11) {
                0 => format!("components {}", list(s, &mut d.model_components)),
                1 => format!("actors {}", list(s, &mut d.actors)),
                2 => {
                    let k = s.below(d.url.options.len() + 1);
                    d.url.options.insert(k, text(s));
                    "option".into()
                }
                3 => {
                    d.url.options.pop();
                    "option less".into()
                }
                4 => {
                    (d.url.protocol, d.url.map) = (text(s), text(s));
                    "url".into()
                }
                5 => {
                    (d.url.host, d.url.portal) = (text(s), text(s));
                    "url".into()
                }
                6 => {
                    (d.url.port, d.url.valid) = (s.draw(70000) as _, s.draw(3) as _);
                    "port".into()
                }
                7 => {
                    d.model = index(s);
                    "model".into()
                }
                8 => {
                    d.level_script = index(s);
                    "script".into()
                }
                9 => {
                    d.nav_list_start = index(s);
                    "start".into()
                }
                _ => {
                    d.nav_list_end = index(s);
                    "end".into()
                }
            },
            Export::WorldExport(d) => match s.below(3) {
                0 => format!("objects {}", list(s, &mut d.extra_objects)),
                1 => format!("levels {}", list(s, &mut d.streaming_levels)),
                _ => {
                    d.persistent_level = index(s);
                    "level".into()
                }
            },
            Export::StringTableExport(d) => {
                d.namespace = text(s);
                "namespace".into()
            }
            Export::ClassExport(d) if s.chance(2, 3) => match s.below(8) {
                // names of another package compare by their index until the name map is rebuilt
                0 if self.foreign => return None,
                0 => {
                    let (w, n) = (word(s), number(s));
                    let k = self.add_name(a, &w, n).0;
                    d.func_map.insert(k, index(s));
                    "function".into()
                }
                1 => {
                    let keys: Vec<_> = d.func_map.keys().cloned().collect();
                    if keys.is_empty() {
                        return None;
                    }
                    let k = s.pick(&keys).clone();
                    if s.flag() {
                        d.func_map.remove_by_key(&k);
                        "function less".into()
                    } else {
                        *d.func_map.get_by_key_mut(&k).unwrap() = index(s);
                        "function replaced".into()
                    }
                }
                2 => {
                    d.class_within = index(s);
                    "within".into()
                }
                3 => {
                    let (w, n) = (word(s), number(s));
                    d.class_config_name = self.add_name(a, &w, n).0;
                    "config name".into()
                }
                4 => {
                    d.class_generated_by = index(s);
                    "generated by".into()
                }
                5 => {
                    d.class_default_object = index(s);
                    "default object".into()
                }
                6 => {
                    if d.interfaces.is_empty() {
                        return None;
                    }
                    let k = s.below(d.interfaces.len());
                    match s.below(3) {
                        0 => {
                            d.interfaces.remove(k);
                        }
                        1 => {
                            let e = d.interfaces[k].clone();
                            d.interfaces.push(e);
                        }
                        _ => d.interfaces[k].pointer_offset = s.draw(100) as _,
                    }
                    "interfaces".into()
                }
                _ => {
                    d.deprecated_force_script_order ^= true;
                    d.cooked = d.cooked.map(|e| !e);
                    "script order".into()
                }
            },
            Export::ClassExport(_) | Export::FunctionExport(_) | Export::StructExport(_) | Export::UserDefinedStructExport(_) => {
                let d = match x {
                    Export::ClassExport(d) => &mut d.struct_export,
                    Export::FunctionExport(d) => &mut d.struct_export,
                    Export::UserDefinedStructExport(d) => &mut d.struct_export,
                    Export::StructExport(d) => d,
                    _ => unreachable!(),
                };
                match (s.below(4), &mut d.script_bytecode, &mut d.script_bytecode_raw) {
                    (0, _, _) => {
                        d.super_struct = index(s);
                        "super".into()
                    }
                    (_, Some(c), _) => {
                        self.recoded = true;
                        match s.below(3) {
                            0 if !c.is_empty() => {
                                c.remove(s.below(c.len()));
                                "code less".into()
                            }
                            1 if !c.is_empty() => {
                                let (j, k) = (s.below(c.len()), s.below(c.len()));
                                c.swap(j, k);
                                "code swapped".into()
                            }
                            _ if !c.is_empty() => {
                                let k = s.below(c.len());
                                let e = c[k].clone();
                                c.insert(s.below(k + 1), e);
                                "code repeated".into()
                            }
                            _ => return None,
                        }
                    }
                    // (later ones might become readable)
                    (_, _, Some(c)) if (self.v.engine as i32) < unreal_asset_base::engine_version::EngineVersion::VER_UE4_16 as i32 => {
                        let n = s.size(5);
                        let b = s.bytes(n);
                        if s.flag() {
                            c.truncate(c.len() / 2);
                        }
                        c.extend(b);
                        "raw code".into()
                    }
                    _ => return None,
                }
            }
            _ => return None,
        };
        Some(what)
    }

    fn edit_export(&mut self, s: &mut Src, a: &mut A, x: &mut E, body: &mut V) -> String {
        let kind = tag(body).to_string();
        if s.flag() {
            if let Some(d) = self.edit_own(s, a, x) {
                *body = View::new(&self.v).export(x);
                return format!("{kind} {d}");
            }
        }
        if let Export::RawExport(r) = x {
            let n = s.size(6);
            r.data.extend(s.bytes(n));
            fields(body)[0] = V::B(r.data.clone());
            return "raw data".into();
        }
        if let (Export::DataTableExport(d), true) = (&mut *x, s.flag()) {
            let V::L(rest) = &mut fields(body)[1] else { unreachable!() };
            let V::L(rows) = &mut rest[0] else { unreachable!() };
            if !rows.is_empty() && s.flag() {
                let k = s.below(rows.len());
                let (w, n) = (word(s), number(s));
                let (n, vn) = self.add_name(a, &w, n);
                d.table.data[k].name = n;
                fields(&mut rows[k])[0] = vn;
                return "rename a row".into();
            }
            return format!("rows {}", self.list_op(s, &mut d.table.data, rows, 0));
        }
        if let (Export::StringTableExport(d), true) = (&mut *x, s.flag()) {
            let V::L(rest) = &mut fields(body)[1] else { unreachable!() };
            let V::L(rows) = &mut rest[1] else { unreachable!() };
            let (k, v) = (s.ascii_text(6).replace('\0', " "), text(s).unwrap_or_default());
            d.table.insert(k.clone(), v.clone());
            let (k, v) = (V::S(Some(k)), V::S(Some(v)));
            match rows.iter_mut().find(|e| matches!(e, V::L(p) if p[0] == k)) {
                Some(e) => fields(e)[1] = v,
                None => rows.push(V::L(vec![k, v])),
            }
            return "string table entry".into();
        }
        if let (Export::LevelExport(d), true) = (&mut *x, s.flag()) {
            let V::L(rest) = &mut fields(body)[1] else { unreachable!() };
            let V::L(l) = &mut rest[0] else { unreachable!() };
            let k = s.range(-9, 9) as i32;
            let at = s.below(l.len() + 1);
            d.actors.insert(at, PackageIndex::new(k));
            l.insert(at, i(k));
            return "add an actor".into();
        }
        if let (Export::EnumExport(d), true) = (&mut *x, s.flag()) {
            if self.ov >= ov::TIGHTLY_PACKED_ENUMS {
                let V::L(rest) = &mut fields(body)[1] else { unreachable!() };
                let V::L(l) = &mut rest[0] else { unreachable!() };
                return format!("enum entries {}", self.list_op(s, &mut d.value.names, l, 0));
            }
        }
        let Some(n) = x.get_normal_export_mut() else { return "nothing".into() };
        let f = fields(body);
        if s.chance(1, 6) {
            let k = s.size(10);
            n.extras = s.bytes(k);
            f[2] = V::B(n.extras.clone());
            return "extras".into();
        }
        if kind == "DataTable" {
            return "nothing".into();
        }
        let V::L(l) = &mut f[0] else { unreachable!() };
        self.edit_props(s, a, &mut n.properties, l)
    }

    fn transfer(&mut self, s: &mut Src, a: &mut A, pb: &Pkg, other: &A) -> String {
        if pb.exports.is_empty() {
            return "nothing".into();
        }
        let k = s.below(pb.exports.len());
        let src = &other.asset_data.exports[k];
        let m = &pb.exports[k];
        if s.flag() {
            // a whole export
            let class = if m.plan.kind == "Normal" { "Thing_C".to_string() } else { m.plan.class.clone() };
            let mut x = src.clone();
            let mut names = vec![];
            let mut v = vec![];
            for w in ["/Script/Engine", "Class", &class] {
                let (n, vn) = self.add_name(a, w, 0);
                names.push(n);
                v.push(vn);
            }
            v.insert(2, i(0));
            v.push(b(false));
            let c = a.add_import(Import::new(names[0].clone(), names[1].clone(), PackageIndex::new(0), names[2].clone(), false));
            self.imports.push(t("Import", v));
            x.get_base_export_mut().class_index = c;
            let mut body = m.body.clone();
            if m.plan.kind == "DataTable" {
                // the import that names the type of the rows comes along
                let V::L(l) = &mut fields(&mut body)[0] else { unreachable!() };
                let d = x.get_normal_export_mut().unwrap();
                for (p, w) in d.properties.iter_mut().zip(l) {
                    let w = fields(w);
                    match (p, &w[0]) {
                        (Property::ObjectProperty(p), V::N(n, _)) if n == "RowStruct" && p.value.index < 0 => {
                            let mut import = pb.imports[(-p.value.index - 1) as usize].clone();
                            let V::N(n, k) = fields(&mut import)[3].clone() else { unreachable!() };
                            let mut names = vec![];
                            let mut v = vec![];
                            for (w, k) in [("/Script/Engine", 0), ("ScriptStruct", 0), (n.as_str(), k)] {
                                let (n, vn) = self.add_name(a, w, k);
                                names.push(n);
                                v.push(vn);
                            }
                            v.insert(2, i(0));
                            v.push(b(false));
                            p.value = a.add_import(Import::new(names[0].clone(), names[1].clone(), PackageIndex::new(0), names[2].clone(), false));
                            self.imports.push(t("Import", v));
                            fields(&mut w[3])[0] = i(p.value.index);
                        }
                        _ => {}
                    }
                }
            }
            a.asset_data.exports.push(x);
            let mut base = m.base.clone();
            fields(&mut base)[0] = i(c.index);
            self.exports.push((base, body));
            self.transferred = true;
            self.foreign = true;
            return format!("transfer export {k} ({})", m.plan.kind);
        }
        // one property
        let (Some(n), V::T(_, f)) = (src.get_normal_export(), &m.body) else { return "nothing".into() };
        let V::L(l) = &f[0] else { return "nothing".into() };
        if l.is_empty() || self.exports.is_empty() {
            return "nothing".into();
        }
        let j = s.below(l.len());
        let to = s.below(self.exports.len());
        if tag(&self.exports[to].1) == "DataTable" {
            return "nothing".into();
        }
        let Some(d) = a.asset_data.exports[to].get_normal_export_mut() else { return "nothing".into() };
        d.properties.push(n.properties[j].clone());
        let V::L(dl) = &mut fields(&mut self.exports[to].1)[0] else { unreachable!() };
        dl.push(l[j].clone());
        self.transferred = true;
            self.foreign = true;
        format!("transfer property {j} of {k} to {to}")
    }
}

fn f_is_tagged(l: &[V]) -> bool {
    l.iter().all(|e| tag(e) == "Prop")
}
fn rename(v: &mut V, old: &str, new: &str) {
    match v {
        V::N(n, _) if n == old => *n = new.to_string(),
        V::L(l) | V::T(_, l) => l.iter_mut().for_each(|e| rename(e, old, new)),
        _ => {}
    }
}

fn forget_size(v: &mut V) {
    match v {
        V::T(n, f) if n == "Code" => f[0] = V::Nil,
        V::T(_, f) | V::L(f) => f.iter_mut().for_each(forget_size),
        _ => {}
    }
}
fn compare(s: &mut Src, m: &M, a: &A, v: &View, when: &str) -> Res {
    for (k, (x, w)) in a.imports.iter().zip(&m.imports).enumerate() {
        same(s, &v.import(x), w, &format!("{when}: import"), &format!("import {k}"))?;
    }
    ensure_eq!(s, a.imports.len(), m.imports.len(), format!("{when}: imports"), "number of imports");
    ensure_eq!(s, a.asset_data.exports.len(), m.exports.len(), format!("{when}: exports"), "number of exports");
    for (k, (x, w)) in a.asset_data.exports.iter().zip(&m.exports).enumerate() {
        let (mut x, mut w) = (v.export(x), w.1.clone());
        if m.recoded {
            forget_size(&mut x);
            forget_size(&mut w);
        }
        same(s, &x, &w, &format!("{when}: export data"), &format!("data of export {k}"))?;
    }
    same(s, &v.world(&a.asset_data.world_tile_info), &m.world, &format!("{when}: world tile"), "the world tile info")
}

/// Names there were come first and in order, the rest is new
fn new_names(s: &mut Src, had: &[String], names: &[String]) -> Res {
    ensure!(s, names.len() >= had.len() && names[..had.len()] == *had, "names", "names {:?} do not start with {:?}", names, had);
    let mut extra = names[had.len()..].to_vec();
    ensure!(s, extra.iter().all(|e| !had.contains(e)), "names: added twice", "of {:?} some are in {:?}", extra, had);
    let all = extra.len();
    extra.sort();
    extra.dedup();
    ensure!(s, extra.len() == all, "names: added twice", "names are added twice: {:?}", names);
    Ok(())
}

fn run(s: &mut Src, kinds: &'static [&'static str], transfer: bool) -> Res {
    let o = Opts { budget: 14, max_exports: 4, kinds, ..Default::default() };
    let p = gen(s, &o);
    let pb = transfer.then(|| gen(s, &Opts { ver: Some(p.v.clone()), split: Some(p.bulk.is_some()), budget: 14, max_exports: 3, kinds, ..Default::default() }));
    s.note(format!("{:?} {} names {} imports {} exports, split {}", p.v, p.names.len(), p.imports.len(), p.exports.len(), p.bulk.is_some()));
    for e in &p.exports {
        s.note(clip(&format!("{} {:?}", e.plan.class, e.body)));
    }
    let mut a = open(s, &p)?;
    let other = match &pb {
        Some(b) => Some(open(s, b)?),
        None => None,
    };
    let V::T(_, header) = p.header.clone() else { unreachable!() };
    let mut m = M {
        names: p.names.clone(),
        imports: p.imports.clone(),
        exports: p.exports.iter().map(|e| (e.base.clone(), e.body.clone())).collect(),
        header,
        world: p.world.clone(),
        split: p.bulk.is_some(),
        learned: p.kinds.iter().any(|k| k.contains("learned")),
        fresh: vec![],
        transferred: false,
        foreign: false,
        ov: p.v.ov,
        v: p.v.clone(),
        recoded: false,
        log: vec![],
    };
    let steps = s.size(16);
    for _ in 0..steps {
        let d = match (&pb, &other) {
            (Some(b), Some(o)) if s.chance(1, 3) => m.transfer(s, &mut a, b, o),
            (Some(_), _) if s.chance(1, 8) => {
                guarded(std::panic::AssertUnwindSafe(|| a.rebuild_name_map())).or_else(|(m, at)| fail(format!("rebuild_name_map: panic {}", norm(&m)), at))?;
                m.foreign = false;
                let names = a.get_name_map().get_ref().get_name_map_index_list().to_vec();
                new_names(s, &m.names, &names)?;
                m.names = names;
                "rebuild the name map".into()
            }
            _ => m.step(s, &mut a),
        };
        s.note(clip(&d));
        m.log.push(d);
    }
    if m.log.iter().filter(|e| !e.ends_with("nothing")).count() >= 3 && !m.exports.is_empty() && (!transfer || m.transferred) {
        s.nontrivial();
    }
    s.class(format!("history of {}", steps / 5 * 5));
    let v = View::new(&p.v);
    if m.foreign {
        guarded(std::panic::AssertUnwindSafe(|| a.rebuild_name_map())).or_else(|(m, at)| fail(format!("rebuild_name_map: panic {}", norm(&m)), at))?;
    }
    compare(s, &m, &a, &v, "edited")?;
    let (x, u) = save(&a)?;
    let again = save(&a)?;
    ensure!(s, again.0 == x && again.1 == u, "second write differs", "the second write differs from the first");
    let kept = Pkg { asset: x, bulk: u, ..p.clone() };
    // parts of the file that cannot be edited are still in it; exports that are new depend on nothing
    let [names, mut depends, soft] = p.parts.clone();
    if !depends.is_empty() {
        depends.extend(vec![0; 4 * m.exports.len().saturating_sub(p.exports.len())]);
    }
    for (part, what) in [(names, "name table"), (depends, "dependencies"), (soft, "soft references")] {
        if part.is_empty() || what == "dependencies" && m.log.iter().any(|e| e.starts_with("swap") || e.starts_with("drop")) {
            continue;
        }
        let found = kept.asset.windows(part.len()).any(|w| w == part);
        ensure!(s, found, format!("{what} changed"), "the written package does not hold the {what} it had");
    }
    let r = open(s, &kept)?;
    // names: those there were or were added come first and in order, the rest is needed and new
    let names = r.get_name_map().get_ref().get_name_map_index_list().to_vec();
    new_names(s, &m.names, &names)?;
    compare(s, &m, &r, &v, "re-read")?;
    let mut first = 0;
    let mut end = None;
    for (k, (x, (base, _))) in r.asset_data.exports.iter().zip(&m.exports).enumerate() {
        let mut base = base.clone();
        let f = fields(&mut base);
        f[15] = if p.v.ov < ov::PRELOAD_DEPENDENCIES {
            i(0)
        } else if m.split {
            i(first)
        } else {
            i(-1)
        };
        for l in &f[16..20] {
            if let V::L(l) = l {
                first += l.len() as i32;
            }
        }
        same(s, &v.base(x), &base, "re-read: export entry", &format!("export map entry {k}"))?;
        let b = x.get_base_export();
        ensure!(s, b.serial_size >= 0 && end.map_or(true, |e| e == b.serial_offset), "extents", "export {k} starts at {} instead of {end:?}", b.serial_offset);
        end = Some(b.serial_offset + b.serial_size);
    }
    let total = kept.asset.len() as i64 + kept.bulk.as_ref().map_or(0, |e| e.len() as i64) - 4;
    if let Some(end) = end {
        ensure_eq!(s, end, total, "extents", "end of the export data");
        if m.split {
            ensure_eq!(s, r.asset_data.exports[0].get_base_export().serial_offset, kept.asset.len() as i64, "extents", "start of the export data");
        }
    }
    let mut h = m.header.clone();
    let n = m.exports.len() as i32;
    if let V::L(g) = &mut h[9] {
        for g in g {
            *g = V::L(vec![i(n), i(names.len() as i32)]);
        }
    }
    h[11] = i(total);
    h[12] = i(n);
    h[13] = i(m.imports.len() as i32);
    same(s, &v.header(&r), &t("Header", h), "re-read: header", "the header")?;
    let (x2, u2) = save(&r)?;
    if x2 != kept.asset || u2 != kept.bulk {
        return fail("re-read: rewritten differently", bytediff(&x2, &kept.asset));
    }
    Ok(())
}

fn edits(s: &mut Src) -> Res {
    run(s, KINDS, false)
}
fn transfers(s: &mut Src) -> Res {
    run(s, &["Normal", "Normal", "Level", "World", "UserDefinedStruct", "StringTable", "Enum", "Function", "Class", "DataTable", "Property", "Raw"], true)
}

pub fn props() -> Vec<Property2> {
    vec![
        Property2 {
            id: "C21",
            rule: "at least three steps of the history changed something and the package has exports",
            assumptions: &[],
            facets: vec![Facet { name: "edits", quick: 500_000, thorough: 6_000_000, run: edits }],
        },
        Property2 {
            id: "C22",
            rule: "at least three steps changed something and an export or property was transferred",
            assumptions: &[],
            facets: vec![Facet { name: "transfers", quick: 400_000, thorough: 6_000_000, run: transfers }],
        },
    ]
}
use vkit::Property as Property2;
