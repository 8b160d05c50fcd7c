//! What the library says it read, in the model's terms.
use crate::model::*;
use ordered_float::OrderedFloat;
use unreal_asset_base::types::movie::FFrameNumberRange;
use unreal_asset_base::types::FName;
use unreal_asset_base::Guid;
use unreal_asset_properties::int_property::BytePropertyValue;
use unreal_asset_properties::material_input_property::MaterialExpression;
use unreal_asset_properties::movies::movie_scene_evaluation::*;
use unreal_asset_properties::movies::movie_scene_float_value_property::MovieSceneFloatValue;
use unreal_asset_properties::object_property::SoftObjectPath;
use unreal_asset_properties::soft_path_property::SoftObjectPathPropertyValue;
use unreal_asset_properties::str_property::{TextHistoryType, TextProperty};
use unreal_asset_properties::struct_property::StructProperty;
use unreal_asset_properties::vector_property::*;
use unreal_asset_properties::*;

macro_rules! en {
    ($e:expr) => {
        i($e.clone() as i32)
    };
}
type O4 = OrderedFloat<f32>;
type O8 = OrderedFloat<f64>;

pub fn nm(n: &FName) -> V {
    V::N(n.get_owned_content(), n.get_number())
}
fn onm(n: &Option<FName>) -> V {
    n.as_ref().map_or(V::Nil, nm)
}
pub fn gd(g: &Guid) -> V {
    V::B(g.0.to_vec())
}
fn ogd(g: &Option<Guid>) -> V {
    g.as_ref().map_or(V::Nil, gd)
}
fn st(s: &Option<String>) -> V {
    V::S(s.clone())
}
fn d(x: &O8) -> V {
    f8(x.0)
}
fn f(x: &O4) -> V {
    f4(x.0)
}
fn ls<T>(x: &[T], g: impl FnMut(&T) -> V) -> V {
    V::L(x.iter().map(g).collect())
}
fn soft(p: &SoftObjectPath) -> V {
    V::L(vec![onm(&p.asset_path.package_name), nm(&p.asset_path.asset_name), st(&p.sub_path_string)])
}
fn softv(p: &SoftObjectPathPropertyValue) -> V {
    match p {
        SoftObjectPathPropertyValue::Old(x) => st(x),
        SoftObjectPathPropertyValue::New(x) => soft(x),
    }
}
fn v3(v: &VectorProperty) -> V {
    V::L(vec![d(&v.value.x), d(&v.value.y), d(&v.value.z)])
}
fn v4(v: &Vector4Property) -> V {
    V::L(vec![d(&v.value.x), d(&v.value.y), d(&v.value.z), d(&v.value.w)])
}
fn expr(m: &MaterialExpression) -> V {
    V::L(vec![i(m.output_index), nm(&m.input_name), V::B(m.extras.clone()), nm(&m.expression_name)])
}
fn frange(r: &FFrameNumberRange) -> V {
    V::L(vec![en!(r.lower_bound.ty), i(r.lower_bound.value.value), en!(r.upper_bound.ty), i(r.upper_bound.value.value)])
}
fn tree<T: Clone + std::fmt::Debug + Eq + std::hash::Hash>(x: &TMovieSceneEvaluationTree<T>, item: impl FnMut(&T) -> V) -> V {
    fn node(n: &MovieSceneEvaluationTreeNode) -> V {
        V::L(vec![
            frange(&n.range),
            i(n.parent.children_handle.entry_index),
            i(n.parent.index),
            i(n.children_id.entry_index),
            i(n.data_id.entry_index),
        ])
    }
    fn entry(e: &FEntry) -> V {
        V::L(vec![i(e.start_index), i(e.size), i(e.capacity)])
    }
    V::L(vec![
        node(&x.root_node),
        ls(&x.child_nodes.entries, entry),
        ls(&x.child_nodes.items, node),
        ls(&x.data.entries, entry),
        ls(&x.data.items, item),
    ])
}
fn fval(v: &MovieSceneFloatValue) -> V {
    V::L(vec![
        f(&v.value),
        f(&v.tangent.arrive_tangent),
        f(&v.tangent.leave_tangent),
        f(&v.tangent.arrive_tangent_weight),
        f(&v.tangent.leave_tangent_weight),
        en!(v.tangent.tangent_weight_mode),
        en!(v.interp_mode),
        en!(v.tangent_mode),
    ])
}
fn deleg(x: &delegate_property::Delegate) -> V {
    V::L(vec![i(x.object.index), nm(&x.delegate)])
}
fn mesh(x: &[cloth_lod_property::MeshToMeshVertData]) -> V {
    ls(x, |m| {
        V::L(vec![
            v4(&m.position_bary_coords_and_dist),
            v4(&m.normal_bary_coords_and_dist),
            v4(&m.tangent_bary_coords_and_dist),
            ls(&m.source_mesh_vert_indices, |e| i(*e)),
            f(&m.weight),
        ])
    })
}
fn text(p: &TextProperty, old: bool) -> V {
    let h = if old { V::Nil } else { en!(p.history_type) };
    let table = match p.history_type {
        TextHistoryType::StringTableEntry => onm(&p.table_id),
        _ => V::Nil,
    };
    V::L(vec![i(p.flags), h, st(&p.namespace), table, st(&p.value), st(&p.culture_invariant_string)])
}

pub struct View {
    /// file older than text histories
    pub old_text: bool,
}

impl View {
    pub fn new(v: &Ver) -> Self {
        View { old_text: v.ov < ov::FTEXT_HISTORY }
    }
    pub fn props(&self, p: &[Property]) -> V {
        ls(p, |e| self.prop(e))
    }
    /// A property of a tagged list.
    pub fn prop(&self, p: &Property) -> V {
        t("Prop", vec![nm(&p.get_name()), i(p.get_duplication_index()), ogd(&p.get_property_guid()), self.body(p)])
    }
    pub fn strukt(&self, p: &StructProperty) -> V {
        // a binary struct holds one value without tag; the list of a tagged one holds tagged values
        let ty = p.struct_type.as_ref().map(|e| e.get_owned_content()).unwrap_or_default();
        let vals = if p.value.len() == 1 && is_binary(&p.value[0], &ty) {
            V::L(vec![self.body(&p.value[0])])
        } else {
            self.props(&p.value)
        };
        t("Struct", vec![onm(&p.struct_type), ogd(&p.struct_guid), b(p.serialize_none), vals])
    }
    /// The value alone.
    pub fn body(&self, p: &Property) -> V {
        use Property::*;
        let s = |n: &str, v: Vec<V>| t(n, v);
        match p {
            BoolProperty(p) => s("BoolProperty", vec![b(p.value)]),
            Int8Property(p) => s("Int8Property", vec![i(p.value)]),
            Int16Property(p) => s("Int16Property", vec![i(p.value)]),
            IntProperty(p) => s("IntProperty", vec![i(p.value)]),
            Int64Property(p) => s("Int64Property", vec![i(p.value)]),
            UInt16Property(p) => s("UInt16Property", vec![i(p.value)]),
            UInt32Property(p) => s("UInt32Property", vec![i(p.value)]),
            UInt64Property(p) => s("UInt64Property", vec![i(p.value)]),
            FloatProperty(p) => s("FloatProperty", vec![f(&p.value)]),
            DoubleProperty(p) => s("DoubleProperty", vec![d(&p.value)]),
            NameProperty(p) => s("NameProperty", vec![nm(&p.value)]),
            StrProperty(p) => s("StrProperty", vec![st(&p.value)]),
            TextProperty(p) => s("TextProperty", vec![text(p, self.old_text)]),
            ObjectProperty(p) => s("ObjectProperty", vec![i(p.value.index)]),
            AssetObjectProperty(p) => s("AssetObjectProperty", vec![st(&p.value)]),
            SoftObjectProperty(p) => s("SoftObjectProperty", vec![soft(&p.value)]),
            DelegateProperty(p) => s("DelegateProperty", vec![deleg(&p.value)]),
            MulticastDelegateProperty(p) => s("MulticastDelegateProperty", vec![ls(&p.value, deleg)]),
            MulticastSparseDelegateProperty(p) => s("MulticastSparseDelegateProperty", vec![ls(&p.value, deleg)]),
            MulticastInlineDelegateProperty(p) => s("MulticastInlineDelegateProperty", vec![ls(&p.value, deleg)]),
            ByteProperty(p) => s(
                "ByteProperty",
                vec![
                    onm(&p.enum_type),
                    match &p.value {
                        BytePropertyValue::Byte(x) => i(*x),
                        BytePropertyValue::FName(x) => nm(x),
                    },
                ],
            ),
            EnumProperty(p) => s("EnumProperty", vec![onm(&p.enum_type), onm(&p.value)]),
            UnknownProperty(p) => s("Unknown", vec![nm(&p.serialized_type), V::B(p.value.clone())]),
            StructProperty(p) => self.strukt(p),
            ArrayProperty(p) => {
                if p.array_type.as_ref().map(|e| e.get_owned_content()).as_deref() == Some("StructProperty") {
                    let first = p.value.first().and_then(|e| match e {
                        StructProperty(s) => Some(s),
                        _ => None,
                    });
                    let tag = first.or(p.dummy_property.as_ref());
                    let tag = match tag {
                        Some(x) => t("Inner", vec![nm(&x.name), onm(&x.struct_type), ogd(&x.struct_guid)]),
                        None => V::Nil,
                    };
                    s("StructArray", vec![tag, ls(&p.value, |e| self.body(e))])
                } else {
                    s("Array", vec![onm(&p.array_type), ls(&p.value, |e| self.body(e))])
                }
            }
            SetProperty(p) => s(
                "Set",
                vec![onm(&p.array_type), ls(&p.removed_items.value, |e| self.body(e)), ls(&p.value.value, |e| self.body(e))],
            ),
            MapProperty(p) => s(
                "Map",
                vec![
                    nm(&p.key_type),
                    nm(&p.value_type),
                    p.keys_to_remove.as_ref().map_or(V::L(vec![]), |k| ls(k, |e| self.body(e))),
                    V::L(p.value.iter().map(|(_, k, v)| V::L(vec![self.body(k), self.body(v)])).collect()),
                ],
            ),
            // ---- binary structs
            VectorProperty(p) => s("Vector", vec![d(&p.value.x), d(&p.value.y), d(&p.value.z)]),
            RotatorProperty(p) => s("Rotator", vec![d(&p.value.x), d(&p.value.y), d(&p.value.z)]),
            Vector4Property(p) => s("Vector4", vec![d(&p.value.x), d(&p.value.y), d(&p.value.z), d(&p.value.w)]),
            QuatProperty(p) => s("Quat", vec![d(&p.value.x), d(&p.value.y), d(&p.value.z), d(&p.value.w)]),
            Vector2DProperty(p) => s("Vector2D", vec![d(&p.value.x), d(&p.value.y)]),
            BoxProperty(p) => s("Box", vec![v3(&p.v1), v3(&p.v2), b(p.is_valid)]),
            IntPointProperty(p) => s("IntPoint", vec![i(p.value.x), i(p.value.y)]),
            ColorProperty(p) => s("Color", vec![i(p.color.r), i(p.color.g), i(p.color.b), i(p.color.a)]),
            LinearColorProperty(p) => s("LinearColor", vec![f(&p.color.r), f(&p.color.g), f(&p.color.b), f(&p.color.a)]),
            TimeSpanProperty(p) => s("Timespan", vec![i(p.ticks)]),
            DateTimeProperty(p) => s("DateTime", vec![i(p.ticks)]),
            GuidProperty(p) => s("Guid", vec![gd(&p.value)]),
            SoftObjectPathProperty(p) => s("SoftObjectPath", vec![softv(&p.value)]),
            SoftAssetPathProperty(p) => s("SoftAssetPath", vec![softv(&p.value)]),
            SoftClassPathProperty(p) => s("SoftClassPath", vec![softv(&p.value)]),
            StringAssetReferenceProperty(p) => s("StringAssetReference", vec![softv(&p.value)]),
            FloatRangeProperty(p) => s("FloatRange", vec![f(&p.lower_bound), f(&p.upper_bound)]),
            FontCharacterProperty(p) => {
                let v = &p.value;
                s("FontCharacter", vec![i(v.start_u), i(v.start_v), i(v.size_u), i(v.size_v), i(v.texture_index), i(v.vertical_offset)])
            }
            GameplayTagContainerProperty(p) => s("GameplayTagContainer", vec![ls(&p.value, nm)]),
            PerPlatformBoolProperty(p) => s("PerPlatformBool", vec![ls(&p.value, |e| b(*e))]),
            PerPlatformIntProperty(p) => s("PerPlatformInt", vec![ls(&p.value, |e| i(*e))]),
            PerPlatformFloatProperty(p) => s("PerPlatformFloat", vec![ls(&p.value, f)]),
            ExpressionInputProperty(p) => s("ExpressionInput", vec![expr(&p.material_expression)]),
            MaterialAttributesInputProperty(p) => s("MaterialAttributesInput", vec![expr(&p.material_expression)]),
            ColorMaterialInputProperty(p) => {
                let c = &p.value.color;
                s("ColorMaterialInput", vec![expr(&p.material_expression), i(p.use_constant), V::L(vec![i(c.r), i(c.g), i(c.b), i(c.a)])])
            }
            ScalarMaterialInputProperty(p) => s("ScalarMaterialInput", vec![expr(&p.material_expression), i(p.use_constant), f(&p.value)]),
            ShadingModelMaterialInputProperty(p) => {
                s("ShadingModelMaterialInput", vec![expr(&p.material_expression), i(p.use_constant), i(p.value)])
            }
            VectorMaterialInputProperty(p) => s("VectorMaterialInput", vec![expr(&p.material_expression), i(p.use_constant), v3(&p.value)]),
            Vector2MaterialInputProperty(p) => s(
                "Vector2MaterialInput",
                vec![expr(&p.material_expression), i(p.use_constant), V::L(vec![d(&p.value.value.x), d(&p.value.value.y)])],
            ),
            RichCurveKeyProperty(p) => s(
                "RichCurveKey",
                vec![
                    en!(p.interp_mode),
                    en!(p.tangent_mode),
                    en!(p.tangent_weight_mode),
                    f(&p.time),
                    f(&p.value),
                    f(&p.arrive_tangent),
                    f(&p.arrive_tangent_weight),
                    f(&p.leave_tangent),
                    f(&p.leave_tangent_weight),
                ],
            ),
            WeightedRandomSamplerProperty(p) => {
                s("WeightedRandomSampler", vec![ls(&p.prob, f), ls(&p.alias, |e| i(*e)), f(&p.total_weight)])
            }
            SkeletalMeshAreaWeightedTriangleSampler(p) => {
                s("SkeletalMeshAreaWeightedTriangleSampler", vec![ls(&p.prob, f), ls(&p.alias, |e| i(*e)), f(&p.total_weight)])
            }
            SkeletalMeshSamplingLODBuiltDataProperty(p) => {
                let p = &p.sampler_property;
                s("SkeletalMeshSamplingLODBuiltData", vec![ls(&p.prob, f), ls(&p.alias, |e| i(*e)), f(&p.total_weight)])
            }
            SmartNameProperty(p) => {
                s("SmartName", vec![nm(&p.display_name), p.smart_name_id.map_or(V::Nil, |e| i(e)), ogd(&p.temp_guid)])
            }
            ViewTargetBlendParamsProperty(p) => {
                s("ViewTargetBlendParams", vec![f(&p.blend_time), en!(p.blend_function), f(&p.blend_exp), b(p.lock_outgoing)])
            }
            UniqueNetIdProperty(p) => {
                s("UniqueNetIdRepl", vec![p.value.as_ref().map_or(V::Nil, |e| V::L(vec![nm(&e.ty), st(&e.contents)]))])
            }
            NiagaraVariableProperty(p) => {
                s("NiagaraVariable", vec![nm(&p.variable_name), self.props(&p.struct_property.value), i(p.variable_offset)])
            }
            NiagaraVariableWithOffsetProperty(p) => {
                let p = &p.niagara_variable;
                s("NiagaraVariableWithOffset", vec![nm(&p.variable_name), self.props(&p.struct_property.value), i(p.variable_offset)])
            }
            FontDataProperty(_) => s("FontData", vec![]),
            ClothLodDataProperty(p) => s(
                "ClothLODData",
                vec![self.props(&p.struct_property.value), mesh(&p.transition_up_skin_data), mesh(&p.transition_down_skin_data)],
            ),
            MovieSceneEvalTemplatePtrProperty(p) => s("MovieSceneEvalTemplatePtr", vec![self.ptr(&p.value)]),
            MovieSceneTrackImplementationPtrProperty(p) => s("MovieSceneTrackImplementationPtr", vec![self.ptr(&p.value)]),
            MovieSceneEvaluationFieldEntityTreeProperty(p) => s(
                "MovieSceneEvaluationFieldEntityTree",
                vec![tree(&p.value.serialized_data, |e| V::L(vec![i(e.entity_index), i(e.meta_data_index)]))],
            ),
            MovieSceneSubSequenceTreeProperty(p) => {
                s("MovieSceneSubSequenceTree", vec![tree(&p.value.data, |e| V::L(vec![i(e.sequence_id.value), en!(e.flags)]))])
            }
            MovieSceneTrackFieldDataProperty(p) => s("MovieSceneTrackFieldData", vec![tree(&p.value.field, |e| i(e.value))]),
            SectionEvaluationDataTreeProperty(p) => s("SectionEvaluationDataTree", vec![tree(&p.value.tree, |e| self.props(e))]),
            MovieSceneSequenceInstanceDataPtrProperty(p) => s("MovieSceneSequenceInstanceDataPtr", vec![i(p.value.index)]),
            MovieSceneEventParametersProperty(p) => {
                s("MovieSceneEventParameters", vec![soft(&p.value.struct_type), V::B(p.value.struct_bytes.clone())])
            }
            MovieSceneFloatChannelProperty(p) => {
                let p = &p.value;
                s(
                    "MovieSceneFloatChannel",
                    vec![
                        en!(p.pre_infinity_extrap),
                        en!(p.post_infinity_extrap),
                        i(p.times_struct_length),
                        ls(&p.times, |e| i(e.value)),
                        i(p.values_struct_length),
                        ls(&p.values, fval),
                        f(&p.default_value),
                        b(p.has_default_value),
                        i(p.tick_resolution.numerator),
                        i(p.tick_resolution.denominator),
                    ],
                )
            }
            MovieSceneFloatValueProperty(p) => s("MovieSceneFloatValue", vec![fval(&p.value)]),
            MovieSceneFrameRangeProperty(p) => s(
                "MovieSceneFrameRange",
                vec![V::L(vec![en!(p.lower_bound.ty), i(p.lower_bound.value), en!(p.upper_bound.ty), i(p.upper_bound.value)])],
            ),
            MovieSceneSegmentProperty(p) => {
                let p = &p.value;
                s(
                    "MovieSceneSegment",
                    vec![frange(&p.range), i(p.id.identifier_index), b(p.allow_empty), ls(&p.impls, |e| self.props(e))],
                )
            }
            MovieSceneSegmentIdentifierProperty(p) => s("MovieSceneSegmentIdentifier", vec![i(p.value.identifier_index)]),
            MovieSceneTrackIdentifierProperty(p) => s("MovieSceneTrackIdentifier", vec![i(p.value.value)]),
            MovieSceneSequenceIdProperty(p) => s("MovieSceneSequenceId", vec![i(p.value.value)]),
            MovieSceneEvaluationKeyProperty(p) => s(
                "MovieSceneEvaluationKey",
                vec![i(p.value.sequence_id.value), i(p.value.track_identifier.value), i(p.value.section_index)],
            ),
            EmptyProperty(_) | RawStructProperty(_) | Box2DProperty(_) | PlaneProperty(_) => s("Unexpected", vec![]),
        }
    }
    /// Movie scene pointers: the type name as a leading string value, then the tagged list.
    fn ptr(&self, v: &[Property]) -> V {
        match v.split_first() {
            None => V::L(vec![]),
            Some((Property::StrProperty(n), rest)) => V::L(vec![st(&n.value), self.props(rest)]),
            Some((o, _)) => t("unexpected type name", vec![self.prop(o)]),
        }
    }
}

/// Whether the only value of a struct is its binary form: a value of the struct's own type, which no
/// tagged property has.
fn is_binary(p: &Property, ty: &str) -> bool {
    use Property::*;
    let _ = ty;
    !matches!(
        p,
        BoolProperty(_) | Int8Property(_) | Int16Property(_) | IntProperty(_) | Int64Property(_) | UInt16Property(_)
            | UInt32Property(_) | UInt64Property(_) | FloatProperty(_) | DoubleProperty(_) | NameProperty(_)
            | StrProperty(_) | TextProperty(_) | ObjectProperty(_) | AssetObjectProperty(_) | SoftObjectProperty(_)
            | DelegateProperty(_) | MulticastDelegateProperty(_) | MulticastSparseDelegateProperty(_)
            | MulticastInlineDelegateProperty(_) | ByteProperty(_) | EnumProperty(_) | UnknownProperty(_)
            | StructProperty(_) | ArrayProperty(_) | SetProperty(_) | MapProperty(_) | EmptyProperty(_)
    )
}
