//! What the library says it read: header, imports, exports.
use crate::model::*;
use crate::view::*;
use std::io::{Read, Seek};
use unreal_asset::Asset;
use unreal_asset_base::types::PackageIndex;
use unreal_asset_exports::properties::fproperty::*;
use unreal_asset_exports::properties::uproperty::*;
use unreal_asset_exports::struct_export::StructExport;
use unreal_asset_exports::{Export, ExportBaseTrait, ExportNormalTrait};
use unreal_asset_properties::world_tile_property::FWorldTileInfo;

fn px(p: &PackageIndex) -> V {
    i(p.index)
}
fn pxs(p: &[PackageIndex]) -> V {
    V::L(p.iter().map(px).collect())
}
fn st(s: &Option<String>) -> V {
    V::S(s.clone())
}

pub fn fprop(p: &FProperty) -> V {
    use FProperty::*;
    macro_rules! g {
        ($n:expr, $p:expr, [$($x:expr),*]) => { fgen($n, &$p.generic_property, vec![$($x),*]) };
    }
    match p {
        FGenericProperty(p) => {
            let n = p.serialized_type.as_ref().map(|e| e.get_owned_content()).unwrap_or_default();
            fgen(&n, p, vec![])
        }
        FEnumProperty(p) => g!("EnumProperty", p, [px(&p.enum_value), fprop(&p.underlying_prop)]),
        FArrayProperty(p) => g!("ArrayProperty", p, [fprop(&p.inner)]),
        FSetProperty(p) => g!("SetProperty", p, [fprop(&p.element_prop)]),
        FMapProperty(p) => g!("MapProperty", p, [fprop(&p.key_prop), fprop(&p.value_prop)]),
        FObjectProperty(p) => g!("ObjectProperty", p, [px(&p.property_class)]),
        FSoftObjectProperty(p) => g!("SoftObjectProperty", p, [px(&p.property_class)]),
        FClassProperty(p) => g!("ClassProperty", p, [px(&p.property_class), px(&p.meta_class)]),
        FSoftClassProperty(p) => g!("SoftClassProperty", p, [px(&p.property_class), px(&p.meta_class)]),
        FDelegateProperty(p) => g!("DelegateProperty", p, [px(&p.signature_function)]),
        FMulticastDelegateProperty(p) => g!("MulticastDelegateProperty", p, [px(&p.signature_function)]),
        FMulticastInlineDelegateProperty(p) => g!("MulticastInlineDelegateProperty", p, [px(&p.signature_function)]),
        FInterfaceProperty(p) => g!("InterfaceProperty", p, [px(&p.interface_class)]),
        FByteProperty(p) => g!("ByteProperty", p, [px(&p.enum_value)]),
        FStructProperty(p) => g!("StructProperty", p, [px(&p.struct_value)]),
        FNumericProperty(p) => g!("NumericProperty", p, []),
        FBoolProperty(p) => g!(
            "BoolProperty",
            p,
            [i(p.field_size), i(p.byte_offset), i(p.byte_mask), i(p.field_mask), b(p.native_bool), b(p.value)]
        ),
    }
}
fn fgen(n: &str, g: &FGenericProperty, rest: Vec<V>) -> V {
    t(
        &format!("F{n}"),
        vec![
            nm(&g.name),
            i(g.flags.bits()),
            i(g.array_dim as i32),
            i(g.element_size),
            i(g.property_flags.bits()),
            i(g.rep_index),
            nm(&g.rep_notify_func),
            i(g.blueprint_replication_condition as u8),
            V::L(rest),
        ],
    )
}
fn uprop(p: &UProperty) -> Vec<V> {
    use UProperty::*;
    macro_rules! g {
        ($p:expr, $($x:ident),*) => { ugen(&$p.generic_property, vec![$(px(&$p.$x)),*]) };
    }
    match p {
        UGenericProperty(p) => ugen(p, vec![]),
        UBoolProperty(p) => ugen(&p.generic_property, vec![i(p.element_size), b(p.native_bool)]),
        UEnumProperty(p) => g!(p, value, underlying_prop),
        UArrayProperty(p) => g!(p, inner),
        USetProperty(p) => g!(p, element_prop),
        UObjectProperty(p) => g!(p, property_class),
        USoftObjectProperty(p) => g!(p, property_class),
        ULazyObjectProperty(p) => g!(p, property_class),
        UClassProperty(p) => g!(p, property_class, meta_class),
        USoftClassProperty(p) => g!(p, property_class, meta_class),
        UDelegateProperty(p) => g!(p, signature_function),
        UMulticastDelegateProperty(p) => g!(p, signature_function),
        UMulticastInlineDelegateProperty(p) => g!(p, signature_function),
        UInterfaceProperty(p) => g!(p, interface_class),
        UMapProperty(p) => g!(p, key_prop, value_prop),
        UByteProperty(p) => g!(p, enum_value),
        UStructProperty(p) => g!(p, struct_value),
        UDoubleProperty(p) => g!(p,),
        UFloatProperty(p) => g!(p,),
        UIntProperty(p) => g!(p,),
        UInt8Property(p) => g!(p,),
        UInt16Property(p) => g!(p,),
        UInt64Property(p) => g!(p,),
        UUInt8Property(p) => g!(p,),
        UUInt16Property(p) => g!(p,),
        UUInt64Property(p) => g!(p,),
        UNameProperty(p) => g!(p,),
        UStrProperty(p) => g!(p,),
    }
}
fn ugen(g: &UGenericProperty, rest: Vec<V>) -> Vec<V> {
    vec![
        g.u_field.next.as_ref().map_or(V::Nil, px),
        i(g.array_dim as i32),
        i(g.property_flags.bits()),
        nm(&g.rep_notify_func),
        g.blueprint_replication_condition.map_or(V::Nil, |e| i(e as u8)),
        V::L(rest),
    ]
}

impl View {
    fn strukt_export(&self, x: &StructExport<PackageIndex>) -> V {
        let code = match (&x.script_bytecode, &x.script_bytecode_raw) {
            (Some(c), None) => t("Code", vec![i(x.script_bytecode_size), V::L(c.iter().map(crate::kismet::view).collect())]),
            (None, Some(r)) => t("RawCode", vec![i(x.script_bytecode_size), V::B(r.clone())]),
            _ => V::Nil,
        };
        t(
            "Struct",
            vec![
                x.field.next.as_ref().map_or(V::Nil, px),
                px(&x.super_struct),
                pxs(&x.children),
                V::L(x.loaded_properties.iter().map(fprop).collect()),
                code,
            ],
        )
    }

    pub fn export(&self, x: &Export<PackageIndex>) -> V {
        let (kind, rest) = match x {
            Export::RawExport(r) => return t("Raw", vec![V::B(r.data.clone())]),
            Export::NormalExport(_) => ("Normal", vec![]),
            Export::LevelExport(x) => (
                "Level",
                vec![
                    pxs(&x.actors),
                    st(&x.url.protocol),
                    st(&x.url.host),
                    st(&x.url.map),
                    st(&x.url.portal),
                    V::L(x.url.options.iter().map(st).collect()),
                    i(x.url.port),
                    i(x.url.valid),
                    px(&x.model),
                    pxs(&x.model_components),
                    px(&x.level_script),
                    px(&x.nav_list_start),
                    px(&x.nav_list_end),
                ],
            ),
            Export::WorldExport(x) => ("World", vec![px(&x.persistent_level), pxs(&x.extra_objects), pxs(&x.streaming_levels)]),
            Export::EnumExport(x) => (
                "Enum",
                vec![
                    V::L(x.value.names.iter().map(|(n, k)| V::L(vec![nm(n), i(*k)])).collect()),
                    i(x.value.cpp_form as u8),
                ],
            ),
            Export::StringTableExport(x) => (
                "StringTable",
                vec![
                    st(&x.namespace),
                    V::L((&x.table).into_iter().map(|(_, k, v)| V::L(vec![V::S(Some(k.clone())), V::S(Some(v.clone()))])).collect()),
                ],
            ),
            Export::DataTableExport(x) => (
                "DataTable",
                vec![V::L(
                    x.table
                        .data
                        .iter()
                        .map(|r| match self.strukt(r) {
                            V::T(_, f) => {
                                // the number of the imported row type does not matter
                                let ty = r.struct_type.as_ref().map_or(V::Nil, |e| V::N(e.get_owned_content(), 0));
                                V::L(vec![nm(&r.name), ty, f[3].clone()])
                            }
                            o => o,
                        })
                        .collect(),
                )],
            ),
            Export::FunctionExport(x) => ("Function", vec![self.strukt_export(&x.struct_export), i(x.function_flags.bits())]),
            Export::UserDefinedStructExport(x) => (
                "UserDefinedStruct",
                vec![self.strukt_export(&x.struct_export), i(x.flags.bits()), self.props(&x.default_struct_instance)],
            ),
            Export::ClassExport(x) => (
                "Class",
                vec![
                    self.strukt_export(&x.struct_export),
                    V::L((&x.func_map).into_iter().map(|(_, k, v)| V::L(vec![nm(k), px(v)])).collect()),
                    i(x.class_flags.bits()),
                    px(&x.class_within),
                    nm(&x.class_config_name),
                    px(&x.class_generated_by),
                    V::L(
                        x.interfaces
                            .iter()
                            .map(|e| V::L(vec![px(&e.class), i(e.pointer_offset), b(e.implemented_by_k2)]))
                            .collect(),
                    ),
                    b(x.deprecated_force_script_order),
                    x.cooked.map_or(V::Nil, b),
                    px(&x.class_default_object),
                ],
            ),
            Export::PropertyExport(x) => ("Property", uprop(&x.property)),
            Export::StructExport(x) => ("Struct", vec![self.strukt_export(x)]),
            Export::BaseExport(_) => ("Base", vec![]),
        };
        let n = x.get_normal_export();
        let props = n.map_or(V::Nil, |n| self.props(&n.properties));
        let extras = n.map_or(V::Nil, |n| V::B(n.extras.clone()));
        t(kind, vec![props, V::L(rest), extras])
    }
    pub fn base(&self, x: &Export<PackageIndex>) -> V {
        let e = x.get_base_export();
        t(
            "Export",
            vec![
                px(&e.class_index),
                px(&e.super_index),
                px(&e.template_index),
                px(&e.outer_index),
                nm(&e.object_name),
                i(e.object_flags.bits()),
                b(e.forced_export),
                b(e.not_for_client),
                b(e.not_for_server),
                gd(&e.package_guid),
                b(e.is_inherited_instance),
                i(e.package_flags),
                b(e.not_always_loaded_for_editor_game),
                b(e.is_asset),
                b(e.generate_public_hash),
                i(e.first_export_dependency_offset),
                pxs(&e.serialization_before_serialization_dependencies),
                pxs(&e.create_before_serialization_dependencies),
                pxs(&e.serialization_before_create_dependencies),
                pxs(&e.create_before_create_dependencies),
            ],
        )
    }
    pub fn import(&self, e: &unreal_asset_base::Import) -> V {
        t("Import", vec![nm(&e.class_package), nm(&e.class_name), px(&e.outer_index), nm(&e.object_name), b(e.optional)])
    }
    pub fn world(&self, w: &Option<FWorldTileInfo>) -> V {
        let Some(w) = w else { return V::Nil };
        let bx = match self.body(&w.bounds.clone().into()) {
            V::T(_, f) => f,
            _ => vec![],
        };
        let l = &w.layer;
        t(
            "WorldTile",
            vec![
                V::L(vec![i(w.position.x), i(w.position.y), i(w.position.z)]),
                V::L(bx),
                V::L(vec![
                    st(&l.name),
                    i(l.reserved_0),
                    V::L(vec![i(l.reserved_1.value.x), i(l.reserved_1.value.y)]),
                    l.streaming_distance.map_or(V::Nil, i),
                    l.distance_streaming_enabled.map_or(V::Nil, b),
                ]),
                w.hide_in_tile_view.map_or(V::Nil, b),
                st(&w.parent_tile_package_name),
                w.lod_list.as_ref().map_or(V::Nil, |e| {
                    V::L(
                        e.iter()
                            .map(|e| {
                                V::L(vec![
                                    i(e.relative_streaming_distance),
                                    f4(e.reserved_0.0),
                                    f4(e.reserved_1.0),
                                    i(e.reserved_2),
                                    i(e.reserved_3),
                                ])
                            })
                            .collect(),
                    )
                }),
                w.z_order.map_or(V::Nil, i),
            ],
        )
    }
    pub fn header<C: Read + Seek>(&self, a: &Asset<C>) -> V {
        let s = &a.asset_data.summary;
        let customs = if s.unversioned {
            V::Nil
        } else {
            V::L(s.custom_versions.iter().map(|e| V::L(vec![gd(&e.guid), i(e.version)])).collect())
        };
        t(
            "Header",
            vec![
                i(a.legacy_file_version),
                b(s.unversioned),
                i(a.asset_data.object_version as i32),
                i(a.asset_data.object_version_ue5 as i32),
                i(s.file_licensee_version),
                customs,
                V::S(Some(a.folder_name.clone())),
                i(s.package_flags.bits()),
                gd(&a.package_guid),
                V::L(a.generations.iter().map(|g| V::L(vec![i(g.export_count), i(g.name_count)])).collect()),
                i(a.package_source),
                i(a.bulk_data_start_offset),
                i(s.export_count),
                i(s.import_count),
                b(a.asset_data.use_event_driven_loader),
            ],
        )
    }
}
