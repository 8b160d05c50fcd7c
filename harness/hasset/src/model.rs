//! Version tables and the independent little-endian encoder used by the asset generators.
//! Numbers are those of Unreal's own enums, pinned here and not taken from the library.
use std::collections::HashMap;
use unreal_asset_base::engine_version::EngineVersion;
use vkit::*;

pub mod ov {
    pub const WORLD_LEVEL_INFO_UPDATED: i32 = 268;
    pub const ADDED_CHUNKID: i32 = 278;
    pub const CLASS_NOTPLACEABLE_ADDED: i32 = 315;
    pub const WORLD_LEVEL_INFO_LOD_LIST: i32 = 316;
    pub const WORLD_LEVEL_INFO_ZORDER: i32 = 319;
    pub const CHUNKID_ARRAY: i32 = 326;
    pub const WORLD_LAYER_ENABLE_DISTANCE_STREAMING: i32 = 329;
    pub const ENGINE_VERSION_OBJECT: i32 = 336;
    pub const INTERFACES_AFTER_LINKING: i32 = 361;
    pub const LOAD_FOR_EDITOR_GAME: i32 = 365;
    pub const SERIALIZE_RICH_CURVE_KEY: i32 = 366;
    pub const FTEXT_HISTORY: i32 = 368;
    pub const ADD_STRING_ASSET_REFERENCES_MAP: i32 = 384;
    pub const ENUM_CLASS_SUPPORT: i32 = 390;
    pub const STRUCT_GUID_IN_PROPERTY_TAG: i32 = 441;
    pub const COMPATIBLE_ENGINE_VERSION: i32 = 444;
    pub const SERIALIZE_TEXT_IN_PACKAGES: i32 = 459;
    pub const TIGHTLY_PACKED_ENUMS: i32 = 463;
    pub const COOKED_ASSETS_IN_EDITOR_SUPPORT: i32 = 485;
    pub const INNER_ARRAY_TAG_INFO: i32 = 500;
    pub const PROPERTY_GUID_IN_PROPERTY_TAG: i32 = 503;
    pub const NAME_HASHES_SERIALIZED: i32 = 504;
    pub const PRELOAD_DEPENDENCIES: i32 = 507;
    pub const TEMPLATE_INDEX: i32 = 508;
    pub const ADDED_SEARCHABLE_NAMES: i32 = 510;
    pub const EXPORTMAP_64BIT: i32 = 511;
    pub const ADDED_SOFT_OBJECT_PATH: i32 = 514;
}
pub mod ue5 {
    pub const NAMES_REFERENCED: i32 = 1001;
    pub const PAYLOAD_TOC: i32 = 1002;
    pub const OPTIONAL_RESOURCES: i32 = 1003;
    pub const LARGE_WORLD_COORDINATES: i32 = 1004;
    pub const REMOVE_EXPORT_GUID: i32 = 1005;
    pub const TRACK_INHERITED: i32 = 1006;
    pub const SOFTOBJECTPATH_NO_FNAMES: i32 = 1007;
    pub const SOFTOBJECTPATH_LIST: i32 = 1008;
    pub const DATA_RESOURCES: i32 = 1009;
}

/// Custom versions: core, editor, framework, animphys, release, sequencer, fortnite.
pub const CORE: usize = 0;
pub const EDITOR: usize = 1;
pub const FRAMEWORK: usize = 2;
pub const ANIMPHYS: usize = 3;
pub const RELEASE: usize = 4;
pub const SEQUENCER: usize = 5;
pub const FORTNITE: usize = 6;
const CUSTOM_MAX: [i32; 7] = [4, 40, 37, 17, 44, 13, 60];
pub const CUSTOM_GUIDS: [[u32; 4]; 7] = [
    [0x375EC13C, 0x06E448FB, 0xB50084F0, 0x262A717E],
    [0xE4B068ED, 0xF49442E9, 0xA231DA0B, 0x2E46BB41],
    [0xCFFC743F, 0x43B04480, 0x939114DF, 0x171D2073],
    [0x29E575DD, 0xE0A34627, 0x9D10D276, 0x232CDCEA],
    [0x9C54D522, 0xA8264FBE, 0x94210746, 0x61B482D0],
    [0x7B5AE74C, 0xD2704C10, 0xA9585798, 0x0B212A5A],
    [0x601D1886, 0xAC644F84, 0xAA16D3DE, 0x0DEAC7D6],
];
use EngineVersion::*;
/// Released engine versions: object version, UE5 version and the custom versions an unversioned
/// file of that engine is understood with.
pub const ENGINES: &[(EngineVersion, i32, i32, [i32; 7])] = &[
    (VER_UE4_0, 342, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_1, 352, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_2, 363, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_3, 382, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_4, 385, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_5, 401, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_6, 413, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_7, 434, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_8, 451, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_9, 482, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_10, 482, 0, [0, 0, 0, 0, 0, 0, 0]),
    (VER_UE4_11, 498, 0, [0, 0, 0, 0, 1, 0, 0]),
    (VER_UE4_12, 504, 0, [1, 2, 6, 0, 1, 0, 0]),
    (VER_UE4_13, 505, 0, [1, 6, 12, 0, 3, 0, 0]),
    (VER_UE4_14, 508, 0, [1, 9, 17, 0, 4, 1, 0]),
    (VER_UE4_15, 510, 0, [2, 14, 22, 0, 7, 3, 0]),
    (VER_UE4_16, 513, 0, [2, 17, 23, 0, 9, 4, 0]),
    (VER_UE4_17, 513, 0, [2, 20, 28, 0, 10, 4, 0]),
    (VER_UE4_18, 514, 0, [2, 20, 30, 0, 10, 4, 0]),
    (VER_UE4_19, 516, 0, [2, 23, 33, 0, 13, 6, 0]),
    (VER_UE4_20, 516, 0, [2, 24, 34, 0, 17, 9, 12]),
    (VER_UE4_21, 517, 0, [2, 26, 34, 0, 20, 9, 17]),
    (VER_UE4_22, 517, 0, [3, 30, 35, 0, 20, 11, 25]),
    (VER_UE4_23, 517, 0, [3, 34, 35, 0, 23, 11, 27]),
    (VER_UE4_24, 518, 0, [3, 37, 36, 0, 28, 11, 31]),
    (VER_UE4_25, 518, 0, [4, 38, 37, 0, 30, 12, 31]),
    (VER_UE4_26, 519, 0, [4, 40, 37, 0, 38, 12, 43]),
    (VER_UE4_27, 522, 0, [4, 40, 37, 0, 43, 13, 47]),
    (VER_UE5_0, 522, 1004, [4, 40, 37, 0, 43, 13, 47]),
    (VER_UE5_1, 522, 1008, [4, 40, 37, 0, 43, 13, 47]),
    (VER_UE5_2, 522, 1010, [4, 40, 37, 0, 43, 13, 47]),
];

#[derive(Clone, Debug)]
pub struct Ver {
    pub engine: EngineVersion,
    pub ov: i32,
    pub ue5: i32,
    pub cv: [i32; 7],
    pub versioned: bool,
    pub legacy: i32,
    /// custom version records of a versioned file, in file order
    pub records: Vec<([u8; 16], i32)>,
}

fn pack_guid(g: &[u32; 4]) -> [u8; 16] {
    let mut o = [0; 16];
    for (i, w) in g.iter().enumerate() {
        o[i * 4..i * 4 + 4].copy_from_slice(&w.to_le_bytes());
    }
    o
}

impl Ver {
    pub fn gen(s: &mut Src) -> Ver {
        // half the weight on the engines mods are made for
        let row = if s.chance(1, 2) { s.urange(21, ENGINES.len() - 1) } else { s.below(ENGINES.len()) };
        let (engine, o, u, cv) = ENGINES[row];
        if s.chance(3, 5) {
            let legacy = if u > 0 { *s.pick(&[-8, -7]) } else { *s.pick(&[-7, -7, -7, -8, -6, -5, -4]) };
            s.class(format!("{engine:?}"));
            return Ver { engine, ov: o, ue5: u, cv, versioned: false, legacy, records: vec![] };
        }
        s.class("versioned file");
        let mut u = u;
        let mut cv = cv;
        let mut records = vec![];
        let legacy;
        if o == 522 && s.flag() {
            u = s.range(1000, 1011) as i32;
            legacy = -8;
        } else if u > 0 {
            legacy = -8;
        } else {
            legacy = *s.pick(&[-7, -7, -8, -6, -5, -4]);
        }
        if legacy <= -6 {
            let mut order: Vec<usize> = (0..7).collect();
            for i in (1..7).rev() {
                let j = s.below(i + 1);
                order.swap(i, j);
            }
            for i in order {
                match s.below(4) {
                    0 => cv[i] = 0,
                    1 => {
                        cv[i] = s.range(0, CUSTOM_MAX[i] as i64) as i32;
                        records.push((pack_guid(&CUSTOM_GUIDS[i]), cv[i]));
                    }
                    _ => records.push((pack_guid(&CUSTOM_GUIDS[i]), cv[i])),
                }
            }
            if s.chance(1, 4) {
                let mut g = s.guid();
                g[0] |= 1;
                g[15] |= 1;
                let at = s.below(records.len() + 1);
                records.insert(at, (g, s.i32v()));
            }
        } else {
            cv = [0; 7];
        }
        Ver { engine: EngineVersion::UNKNOWN, ov: o, ue5: u, cv, versioned: true, legacy, records }
    }
    pub fn has_prop_guid(&self) -> bool {
        self.ov >= ov::PROPERTY_GUID_IN_PROPERTY_TAG
    }
    pub fn lwc(&self) -> bool {
        self.ue5 >= ue5::LARGE_WORLD_COORDINATES
    }
}

/// A value as the file states it, independent of the library's types.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum V {
    Nil,
    I(i128),
    F4(u32),
    F8(u64),
    S(Option<String>),
    N(String, i32),
    B(Vec<u8>),
    L(Vec<V>),
    T(String, Vec<V>),
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            V::Nil => write!(f, "-"),
            V::I(x) => write!(f, "{x}"),
            V::F4(x) => write!(f, "{}f", f32::from_bits(*x)),
            V::F8(x) => write!(f, "{}d", f64::from_bits(*x)),
            V::S(x) => write!(f, "{x:?}"),
            V::N(n, 0) => write!(f, "'{n}'"),
            V::N(n, k) => write!(f, "'{n}'#{k}"),
            V::B(b) => write!(f, "0x{}", b.iter().map(|e| format!("{e:02x}")).collect::<String>()),
            V::L(l) => f.debug_list().entries(l).finish(),
            V::T(t, l) => {
                write!(f, "{t}")?;
                f.debug_list().entries(l).finish()
            }
        }
    }
}
pub fn i(x: impl Into<i128>) -> V {
    V::I(x.into())
}
pub fn f4(x: f32) -> V {
    V::F4(x.to_bits())
}
pub fn f8(x: f64) -> V {
    V::F8(x.to_bits())
}
pub fn t(n: &str, v: Vec<V>) -> V {
    V::T(n.to_string(), v)
}
pub fn b(x: bool) -> V {
    V::I(x as i128)
}

/// First difference between two values, as a path and the two sides.
pub fn vdiff(path: &str, a: &V, e: &V) -> Option<(String, String)> {
    if a == e {
        return None;
    }
    match (a, e) {
        (V::L(x), V::L(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().find_map(|(k, (p, q))| vdiff(&format!("{path}[{k}]"), p, q))
        }
        (V::T(n, x), V::T(m, y)) if n == m && x.len() == y.len() => {
            x.iter().zip(y).enumerate().find_map(|(k, (p, q))| vdiff(&format!("{path}/{n}.{k}"), p, q))
        }
        _ => Some((path.to_string(), clip(&format!("got {a:?}\n    want {e:?}")))),
    }
}
/// A coarse signature of where two values differ: the innermost tag names, without indices.
pub fn vsig(path: &str) -> String {
    let p: String = path.chars().filter(|c| !c.is_ascii_digit() && *c != '[' && *c != ']').collect();
    let parts: Vec<&str> = p.split('/').collect();
    parts[parts.len().saturating_sub(2)..].join("/")
}
pub fn same(s: &mut Src, got: &V, want: &V, sig: &str, what: &str) -> Res {
    if let Some((p, d)) = vdiff("", got, want) {
        s.note(format!("{what} differs at {p}"));
        return fail(format!("{sig}:{}", vsig(&p)), format!("{what} differs at {p}\n    {d}"));
    }
    Ok(())
}

/// Encoder of one package: shared name table, growing output buffer.
pub struct Enc<'a> {
    pub s: &'a mut Src,
    pub v: Ver,
    pub names: Vec<String>,
    idx: HashMap<String, Vec<usize>>,
    pub out: Vec<u8>,
    /// number of imports and exports package indices may refer to
    pub n_imp: i32,
    pub n_exp: i32,
    pub budget: i32,
    pub map_key_over: HashMap<String, String>,
    pub map_val_over: HashMap<String, String>,
    pub kinds: std::collections::BTreeSet<String>,
    /// which kinds of properties dominate: 0 any, 1 basic values, 2 binary structs, 3 containers
    pub focus: u8,
    pub import_names: Vec<String>,
    pub row_type: Option<String>,
    /// map types learned from the class export being written, effective behind it
    pub learned: Vec<String>,
    /// the list after so many others is long
    pub long: Option<usize>,
    pub pending_key: Vec<(String, String)>,
    pub pending_val: Vec<(String, String)>,
}

const WORDS: &[&str] = &[
    "Health", "Mesh", "bEnabled", "Target", "Speed", "Items", "Owner", "Slot", "Material", "Root",
    "Value", "Count", "Location", "Rotation", "Class", "Blueprint", "/Game/Stuff/Thing", "/Script/Engine", "Default__Thing_C", "A",
];

impl<'a> Enc<'a> {
    pub fn new(s: &'a mut Src, v: Ver) -> Self {
        let mut e = Enc {
            s,
            v,
            names: vec![],
            idx: HashMap::new(),
            out: vec![],
            n_imp: 0,
            n_exp: 0,
            budget: 60,
            map_key_over: HashMap::new(),
            map_val_over: HashMap::new(),
            kinds: Default::default(),
            focus: 0,
            import_names: vec![],
            row_type: None,
            learned: vec![],
            long: None,
            pending_key: vec![],
            pending_val: vec![],
        };
        for (k, v) in [
            ("PlayerCharacterIDs", "Guid"),
            ("m_PerConditionValueToNodeMap", "Guid"),
            ("BindingIdToReferences", "Guid"),
            ("UserParameterRedirects", "NiagaraVariable"),
            ("Tracks", "MovieSceneTrackIdentifier"),
            ("ItemsToRefund", "Guid"),
            ("PlayerCharacterIDMap", "Guid"),
        ] {
            e.map_key_over.insert(k.into(), v.into());
        }
        for (k, v) in [
            ("ColorDatabase", "LinearColor"),
            ("UserParameterRedirects", "NiagaraVariable"),
            ("TrackSignatureToTrackIdentifier", "MovieSceneTrackIdentifier"),
            ("RainChanceMinMaxPerWeatherState", "FloatRange"),
        ] {
            e.map_val_over.insert(k.into(), v.into());
        }
        e.map_key_over.insert("TrackSignatureToTrackIdentifier".into(), "Guid".into());
        // names the reader itself may add
        let mut fixed = vec![
            "None", "TypeName", "PositionBaryCoordsAndDist", "NormalBaryCoordsAndDist", "TangentBaryCoordsAndDist",
            "RichCurveKey", "SectionEvaluationDataTree", "Generic",
        ];
        let k = e.s.below(fixed.len());
        fixed.rotate_left(k);
        let lead = e.s.below(5);
        for _ in 0..lead {
            let w = e.word();
            e.intern(&w);
        }
        for f in fixed {
            e.intern(f);
        }
        if e.s.chance(1, 6) {
            // duplicated value names
            let w = e.word();
            if !["None", "Class"].contains(&w.as_str()) {
                e.intern(&w);
                e.push_dup(&w);
            }
        }
        e
    }
    fn push_dup(&mut self, n: &str) {
        self.names.push(n.to_string());
        self.idx.entry(n.to_string()).or_default().push(self.names.len() - 1);
    }
    pub fn intern(&mut self, n: &str) -> usize {
        if let Some(x) = self.idx.get(n) {
            return x[0];
        }
        self.push_dup(n);
        self.names.len() - 1
    }
    pub fn word(&mut self) -> String {
        if self.s.chance(1, 5) {
            let w = if self.s.chance(1, 6) { self.s.text(10) } else { self.s.ascii_ident(14) };
            // no terminator names, no lookalikes of names with a meaning
            if !w.is_empty() && !["None", "Keys", "LowerBound", "RowStruct"].contains(&w.as_str()) && !w.contains('\0') {
                return w;
            }
        }
        self.s.pick(WORDS).to_string()
    }
    // ---- primitives
    pub fn u8(&mut self, x: u8) {
        self.out.push(x)
    }
    pub fn u16(&mut self, x: u16) {
        self.out.extend(x.to_le_bytes())
    }
    pub fn i32(&mut self, x: i32) {
        self.out.extend(x.to_le_bytes())
    }
    pub fn u32(&mut self, x: u32) {
        self.out.extend(x.to_le_bytes())
    }
    pub fn i64(&mut self, x: i64) {
        self.out.extend(x.to_le_bytes())
    }
    pub fn u64(&mut self, x: u64) {
        self.out.extend(x.to_le_bytes())
    }
    pub fn f32(&mut self, x: f32) {
        self.out.extend(x.to_le_bytes())
    }
    pub fn f64(&mut self, x: f64) {
        self.out.extend(x.to_le_bytes())
    }
    pub fn fstr(&mut self, x: &Option<String>) {
        put_fstr(&mut self.out, x.as_deref())
    }
    /// Type-like name: first entry of that text, number 0.
    pub fn tyname(&mut self, n: &str) {
        let k = self.intern(n);
        self.i32(k as i32);
        self.i32(0);
    }
    /// Value name: any of the entries with that text.
    pub fn vname(&mut self, n: &str, num: i32) -> V {
        self.intern(n);
        let c = self.idx[n].clone();
        let k = if c.len() > 1 { c[self.s.below(c.len())] } else { c[0] };
        self.i32(k as i32);
        self.i32(num);
        V::N(n.to_string(), num)
    }
    pub fn number(&mut self) -> i32 {
        match self.s.below(8) {
            0..=4 => 0,
            5 | 6 => self.s.range(1, 5) as i32,
            _ => *self.s.pick(&[i32::MAX, 1000, 255, 256, 65536]),
        }
    }
    pub fn gname(&mut self) -> V {
        let w = self.word();
        let k = self.number();
        self.vname(&w, k)
    }
    pub fn gstr(&mut self) -> V {
        let x = match self.s.below(8) {
            0 => None,
            1 => Some(String::new()),
            2 => Some(self.s.text(12)),
            _ => Some(self.s.ascii_text(16)),
        };
        let x = x.map(|e| e.replace('\0', " "));
        self.fstr(&x);
        V::S(x)
    }
    pub fn gi8(&mut self) -> V {
        let x = self.s.i8v();
        self.out.push(x as u8);
        i(x)
    }
    pub fn gu8(&mut self) -> V {
        let x = self.s.u8v();
        self.u8(x);
        i(x)
    }
    pub fn gi16(&mut self) -> V {
        let x = self.s.i16v();
        self.u16(x as u16);
        i(x)
    }
    pub fn gu16(&mut self) -> V {
        let x = self.s.u16v();
        self.u16(x);
        i(x)
    }
    pub fn gi32(&mut self) -> V {
        let x = self.s.i32v();
        self.i32(x);
        i(x)
    }
    pub fn gu32(&mut self) -> V {
        let x = self.s.u32v();
        self.u32(x);
        i(x)
    }
    pub fn gi64(&mut self) -> V {
        let x = self.s.i64v();
        self.i64(x);
        i(x)
    }
    pub fn gu64(&mut self) -> V {
        let x = self.s.u64v();
        self.u64(x);
        i(x)
    }
    pub fn gf32(&mut self) -> V {
        let x = self.s.f32v();
        self.f32(x);
        f4(x)
    }
    pub fn gf64(&mut self) -> V {
        let x = self.s.f64v();
        self.f64(x);
        f8(x)
    }
    pub fn gbool32(&mut self) -> V {
        let x = self.s.flag();
        self.i32(x as i32);
        b(x)
    }
    pub fn gbool8(&mut self) -> V {
        let x = self.s.flag();
        self.u8(x as u8);
        b(x)
    }
    /// small enumeration stored in one byte
    pub fn genum(&mut self, n: u8) -> V {
        let x = self.s.below(n as usize) as u8;
        self.u8(x);
        i(x)
    }
    pub fn gguid(&mut self) -> V {
        let x = self.s.guid();
        self.out.extend(x);
        V::B(x.to_vec())
    }
    pub fn gbytes(&mut self, n: usize) -> V {
        let x = self.s.bytes(n);
        self.out.extend(&x);
        V::B(x)
    }
    /// A package index: null, an import, an export, or (rarely) anything.
    pub fn gpkg(&mut self) -> V {
        let x = match self.s.below(8) {
            0 | 1 => 0,
            2..=4 if self.n_imp > 0 => -(1 + self.s.below(self.n_imp as usize) as i32),
            5 | 6 if self.n_exp > 0 => 1 + self.s.below(self.n_exp as usize) as i32,
            _ => self.s.range(-300, 300) as i32,
        };
        self.i32(x);
        i(x)
    }
    /// A coordinate: f64 since large world coordinates, f32 before. The value is seen as f64.
    pub fn gcoord(&mut self) -> V {
        if self.v.lwc() {
            let x = self.s.f64v();
            self.f64(x);
            f8(x)
        } else {
            let mut x = self.s.f32v();
            if x.is_nan() {
                x = f32::NAN;
            }
            self.f32(x);
            f8(x as f64)
        }
    }
    pub fn coords(&mut self, n: usize) -> Vec<V> {
        (0..n).map(|_| self.gcoord()).collect()
    }
    /// How many elements; at most one list of a package is a long one
    pub fn len(&mut self, max: usize) -> usize {
        match self.long {
            Some(0) => {
                self.long = None;
                self.kinds.insert("long list".into());
                self.s.urange(256, 300)
            }
            k => {
                self.long = k.map(|k| k - 1);
                self.s.size(max)
            }
        }
    }
    pub fn list(&mut self, max: usize, mut f: impl FnMut(&mut Self) -> V) -> V {
        let n = self.len(max);
        self.i32(n as i32);
        V::L((0..n).map(|_| f(self)).collect())
    }
    pub fn place32(&mut self) -> usize {
        self.i32(0);
        self.out.len() - 4
    }
    pub fn patch32(&mut self, at: usize, x: i32) {
        self.out[at..at + 4].copy_from_slice(&x.to_le_bytes());
    }
}

pub fn put_fstr(out: &mut Vec<u8>, x: Option<&str>) {
    match x {
        None => out.extend(0i32.to_le_bytes()),
        Some(x) if x.is_ascii() => {
            out.extend((x.len() as i32 + 1).to_le_bytes());
            out.extend(x.as_bytes());
            out.push(0);
        }
        Some(x) => {
            let w: Vec<u16> = x.encode_utf16().collect();
            out.extend((-(w.len() as i32 + 1)).to_le_bytes());
            for c in w {
                out.extend(c.to_le_bytes());
            }
            out.extend([0, 0]);
        }
    }
}
