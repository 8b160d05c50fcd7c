//! Script bytecode: one table of the expressions drives the encoder, the view and the size in memory.
//! Tokens and sizes are those of Unreal's own script serialization.
use crate::model::*;
use crate::view::nm;
use unreal_asset_base::types::vector::{Transform, Vector};
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_kismet::*;

type Ex = KismetExpression;

mod fld {
    //! views of the fields, by the kinds of the table
    use super::*;
    use ordered_float::OrderedFloat;
    pub fn ptr(p: &KismetPropertyPointer) -> V {
        match (&p.old, &p.new) {
            (Some(o), None) => t("Old", vec![i(o.index)]),
            (None, Some(n)) => t("Path", vec![V::L(n.path.iter().map(nm).collect()), i(n.resolved_owner.index)]),
            _ => V::Nil,
        }
    }
    pub fn obj(p: &PackageIndex) -> V {
        i(p.index)
    }
    pub fn name(n: &FName) -> V {
        nm(n)
    }
    #[allow(clippy::borrowed_box)]
    pub fn ex(e: &Box<Ex>) -> V {
        view(e)
    }
    pub fn oex(e: &Option<Box<Ex>>) -> V {
        e.as_ref().map_or(V::Nil, |e| view(e))
    }
    pub fn list(l: &[Ex]) -> V {
        V::L(l.iter().map(view).collect())
    }
    pub use list as counted;
    pub use list as pairs;
    pub fn n8(x: &u8) -> V {
        i(*x)
    }
    pub fn n16(x: &u16) -> V {
        i(*x)
    }
    pub fn n32(x: &u32) -> V {
        i(*x)
    }
    pub fn s32(x: &i32) -> V {
        i(*x)
    }
    pub fn n64(x: &u64) -> V {
        i(*x)
    }
    pub fn s64(x: &i64) -> V {
        i(*x)
    }
    pub fn flag(x: &bool) -> V {
        b(*x)
    }
    pub fn float(x: &OrderedFloat<f32>) -> V {
        f4(x.0)
    }
    pub fn double(x: &OrderedFloat<f64>) -> V {
        f8(x.0)
    }
    pub fn vec3(x: &Vector<OrderedFloat<f64>>) -> V {
        V::L([x.x, x.y, x.z].iter().map(|e| f8(e.0)).collect())
    }
    pub fn trans(x: &Transform<OrderedFloat<f64>>) -> V {
        let (r, t, s) = (&x.rotation, &x.translation, &x.scale);
        V::L([r.x, r.y, r.z, r.w, t.x, t.y, t.z, s.x, s.y, s.z].iter().map(|e| f8(e.0)).collect())
    }
    pub fn ascii(x: &str) -> V {
        V::S(Some(x.to_string()))
    }
    pub use ascii as wide;
    pub fn cast(x: &CastToken) -> V {
        match x {
            CastToken::Old(x) => t("OldCast", vec![i(*x as u8)]),
            CastToken::New(x) => t("NewCast", vec![i(*x as u8)]),
        }
    }
    #[allow(clippy::borrowed_box)]
    pub fn text(x: &Box<FScriptText>) -> V {
        let e = |x: &Option<Ex>| x.as_ref().map_or(V::Nil, view);
        V::L(vec![
            i(x.text_literal_type as u8),
            e(&x.localized_source),
            e(&x.localized_key),
            e(&x.localized_namespace),
            e(&x.invariant_literal_string),
            e(&x.literal_string),
            x.string_table_asset.as_ref().map_or(V::Nil, obj),
            e(&x.string_table_id),
            e(&x.string_table_key),
        ])
    }
    pub fn event(x: &EScriptInstrumentationType) -> V {
        i(*x as u8)
    }
    pub fn oname(x: &Option<FName>) -> V {
        x.as_ref().map_or(V::Nil, nm)
    }
    pub fn cases(l: &[KismetSwitchCase]) -> V {
        V::L(l.iter().map(|c| V::L(vec![view(&c.case_index_value_term), i(c.next_offset), view(&c.case_term)])).collect())
    }
}

macro_rules! table {
    ($($name:ident $tok:literal [$($k:ident $f:ident),*] $end:literal;)*) => {
        /// name, token, kinds of the fields in file order, token that ends the list
        const TABLE: &[(&str, u8, &[&str], u8)] = &[$((stringify!($name), $tok, &[$(stringify!($k)),*], $end)),*];
        #[allow(unused_variables)]
        pub fn view(x: &Ex) -> V {
            match x {
                $(Ex::$name(e) => {
                    let token: u8 = e.token.into();
                    t(if token == $tok { stringify!($name) } else { "wrong token" }, vec![$(fld::$k(&e.$f)),*])
                })*
            }
        }
    };
}
table! {
    ExLocalVariable 0x00 [ptr variable] 0;
    ExInstanceVariable 0x01 [ptr variable] 0;
    ExDefaultVariable 0x02 [ptr variable] 0;
    ExReturn 0x04 [ex return_expression] 0;
    ExJump 0x06 [n32 code_offset] 0;
    ExJumpIfNot 0x07 [n32 code_offset, ex boolean_expression] 0;
    ExAssert 0x09 [n16 line_number, flag debug_mode, ex assert_expression] 0;
    ExNothing 0x0B [] 0;
    ExLet 0x0F [ptr value, ex variable, ex expression] 0;
    ExClassContext 0x12 [ex object_expression, n32 offset, ptr r_value_pointer, ex context_expression] 0;
    ExMetaCast 0x13 [obj class_ptr, ex target_expression] 0;
    ExLetBool 0x14 [ex variable_expression, ex assignment_expression] 0;
    ExEndParmValue 0x15 [] 0;
    ExEndFunctionParms 0x16 [] 0;
    ExSelf 0x17 [] 0;
    ExSkip 0x18 [n32 code_offset, ex skip_expression] 0;
    ExContext 0x19 [ex object_expression, n32 offset, ptr r_value_pointer, ex context_expression] 0;
    ExContextFailSilent 0x1A [ex object_expression, n32 offset, ptr r_value_pointer, ex context_expression] 0;
    ExVirtualFunction 0x1B [name virtual_function_name, list parameters] 0x16;
    ExFinalFunction 0x1C [obj stack_node, list parameters] 0x16;
    ExIntConst 0x1D [s32 value] 0;
    ExFloatConst 0x1E [float value] 0;
    ExStringConst 0x1F [ascii value] 0;
    ExObjectConst 0x20 [obj value] 0;
    ExNameConst 0x21 [name value] 0;
    ExRotationConst 0x22 [vec3 rotator] 0;
    ExVectorConst 0x23 [vec3 value] 0;
    ExByteConst 0x24 [n8 value] 0;
    ExIntZero 0x25 [] 0;
    ExIntOne 0x26 [] 0;
    ExTrue 0x27 [] 0;
    ExFalse 0x28 [] 0;
    ExTextConst 0x29 [text value] 0;
    ExNoObject 0x2A [] 0;
    ExTransformConst 0x2B [trans value] 0;
    ExIntConstByte 0x2C [n8 value] 0;
    ExNoInterface 0x2D [] 0;
    ExDynamicCast 0x2E [obj class_ptr, ex target_expression] 0;
    ExStructConst 0x2F [obj struct_value, s32 struct_size, list value] 0x30;
    ExEndStructConst 0x30 [] 0;
    ExSetArray 0x31 [oex assigning_property, list elements] 0x32;
    ExEndArray 0x32 [] 0;
    ExPropertyConst 0x33 [ptr property] 0;
    ExUnicodeStringConst 0x34 [wide value] 0;
    ExInt64Const 0x35 [s64 value] 0;
    ExUInt64Const 0x36 [n64 value] 0;
    ExDoubleConst 0x37 [double value] 0;
    ExPrimitiveCast 0x38 [cast conversion_type, ex target] 0;
    ExSetSet 0x39 [ex set_property, counted elements] 0x3A;
    ExEndSet 0x3A [] 0;
    ExSetMap 0x3B [ex map_property, pairs elements] 0x3C;
    ExEndMap 0x3C [] 0;
    ExSetConst 0x3D [ptr inner_property, counted elements] 0x3E;
    ExEndSetConst 0x3E [] 0;
    ExMapConst 0x3F [ptr key_property, ptr value_property, pairs elements] 0x40;
    ExEndMapConst 0x40 [] 0;
    ExStructMemberContext 0x42 [ptr struct_member_expression, ex struct_expression] 0;
    ExLetMulticastDelegate 0x43 [ex variable_expression, ex assignment_expression] 0;
    ExLetDelegate 0x44 [ex variable_expression, ex assignment_expression] 0;
    ExLocalVirtualFunction 0x45 [name virtual_function_name, list parameters] 0x16;
    ExLocalFinalFunction 0x46 [obj stack_node, list parameters] 0x16;
    ExLocalOutVariable 0x48 [ptr variable] 0;
    ExDeprecatedOp4A 0x4A [] 0;
    ExInstanceDelegate 0x4B [name function_name] 0;
    ExPushExecutionFlow 0x4C [n32 pushing_address] 0;
    ExPopExecutionFlow 0x4D [] 0;
    ExComputedJump 0x4E [ex code_offset_expression] 0;
    ExPopExecutionFlowIfNot 0x4F [ex boolean_expression] 0;
    ExBreakpoint 0x50 [] 0;
    ExInterfaceContext 0x51 [ex interface_value] 0;
    ExObjToInterfaceCast 0x52 [obj class_ptr, ex target] 0;
    ExEndOfScript 0x53 [] 0;
    ExCrossInterfaceCast 0x54 [obj class_ptr, ex target] 0;
    ExInterfaceToObjCast 0x55 [obj class_ptr, ex target] 0;
    ExWireTracepoint 0x5A [] 0;
    ExSkipOffsetConst 0x5B [n32 value] 0;
    ExAddMulticastDelegate 0x5C [ex delegate, ex delegate_to_add] 0;
    ExClearMulticastDelegate 0x5D [ex delegate_to_clear] 0;
    ExTracepoint 0x5E [] 0;
    ExLetObj 0x5F [ex variable_expression, ex assignment_expression] 0;
    ExLetWeakObjPtr 0x60 [ex variable_expression, ex assignment_expression] 0;
    ExBindDelegate 0x61 [name function_name, ex delegate, ex object_term] 0;
    ExRemoveMulticastDelegate 0x62 [ex delegate, ex delegate_to_add] 0;
    ExCallMulticastDelegate 0x63 [obj stack_node, ex delegate, list parameters] 0x16;
    ExLetValueOnPersistentFrame 0x64 [ptr destination_property, ex assignment_expression] 0;
    ExArrayConst 0x65 [ptr inner_property, counted elements] 0x66;
    ExEndArrayConst 0x66 [] 0;
    ExSoftObjectConst 0x67 [ex value] 0;
    ExCallMath 0x68 [obj stack_node, list parameters] 0x16;
    ExSwitchValue 0x69 [n32 end_goto_offset, ex index_term, cases cases, ex default_term] 0;
    ExInstrumentationEvent 0x6A [event event_type, oname event_name] 0;
    ExArrayGetByRef 0x6B [ex array_variable, ex array_index] 0;
    ExClassSparseDataVariable 0x6C [ptr variable] 0;
    ExFieldPathConst 0x6D [ex value] 0;
}

/// Tokens without a meaning.
const UNKNOWN: &[u8] = &[0x03, 0x05, 0x08, 0x0A, 0x11, 0x41, 0x47, 0x49, 0x56, 0x70, 0x80, 0xFE];

/// Bytes an expression takes in memory: names 12, pointers 8, the rest as in the file.
pub fn mem(v: &V, lwc: bool) -> usize {
    let V::T(n, f) = v else { return 0 };
    let row = TABLE.iter().find(|e| e.0 == n).expect("an expression");
    let mut total = 1 + if row.3 != 0 { 1 } else { 0 };
    let list = |v: &V| match v {
        V::L(l) => l.iter().map(|e| mem(e, lwc)).sum::<usize>(),
        _ => 0,
    };
    for (k, x) in row.2.iter().zip(f) {
        total += match *k {
            "ptr" | "obj" | "n64" | "s64" | "double" => 8,
            "name" => 12,
            "ex" | "oex" => mem(x, lwc),
            "list" => list(x),
            "counted" | "pairs" => 4 + list(x),
            "n8" | "flag" | "cast" | "event" => 1,
            "n16" => 2,
            "n32" | "s32" | "float" => 4,
            "vec3" => 3 * if lwc { 8 } else { 4 },
            "trans" => 10 * if lwc { 8 } else { 4 },
            "ascii" => match x {
                V::S(Some(s)) => s.len() + 1,
                _ => unreachable!(),
            },
            "wide" => match x {
                V::S(Some(s)) => s.encode_utf16().count() * 2 + 2,
                _ => unreachable!(),
            },
            "oname" => {
                if *x == V::Nil {
                    0
                } else {
                    12
                }
            }
            "text" => match x {
                V::L(l) => 1 + l[1..].iter().map(|e| if matches!(e, V::I(_)) { 8 } else { mem(e, lwc) }).sum::<usize>(),
                _ => unreachable!(),
            },
            // the number of cases comes first
            "cases" => match x {
                V::L(l) => 2 + l.iter().map(|c| if let V::L(c) = c { mem(&c[0], lwc) + 4 + mem(&c[2], lwc) } else { 0 }).sum::<usize>(),
                _ => unreachable!(),
            },
            k => panic!("{k}"),
        };
    }
    total
}
pub fn mem_all(v: &V, lwc: bool) -> i32 {
    match v {
        V::L(l) => l.iter().map(|e| mem(e, lwc)).sum::<usize>() as i32,
        _ => 0,
    }
}
/// Puts the size the expressions have into every script.
pub fn fix_sizes(v: &mut V, lwc: bool) {
    match v {
        V::T(n, f) if n == "Code" => f[0] = i(mem_all(&f[1], lwc)),
        V::T(_, l) | V::L(l) => l.iter_mut().for_each(|e| fix_sizes(e, lwc)),
        _ => {}
    }
}
pub fn is_lwc(v: &Ver) -> bool {
    v.ue5 >= ue5::LARGE_WORLD_COORDINATES
}

fn ends(row: &(&str, u8, &[&str], u8)) -> bool {
    row.0.starts_with("ExEnd")
}

impl Enc<'_> {
    fn coord(&mut self) -> V {
        if is_lwc(&self.v) {
            return self.gf64();
        }
        let x = self.s.f32v();
        let x = if x.is_nan() { f32::NAN } else { x };
        self.f32(x);
        f8(x as f64)
    }
    fn ptr(&mut self) -> V {
        if self.v.ov >= 518 {
            let names = self.list(3, |e| e.gname());
            let o = self.gpkg();
            t("Path", vec![names, o])
        } else {
            let o = self.gpkg();
            t("Old", vec![o])
        }
    }
    fn exprs(&mut self, n: usize, end: u8, depth: usize) -> V {
        let l = (0..n).map(|_| self.expr(depth)).collect();
        self.u8(end);
        V::L(l)
    }

    pub fn expr(&mut self, depth: usize) -> V {
        self.budget -= 1;
        let deep = depth > 0 && self.budget > 0;
        let ok: Vec<_> = TABLE
            .iter()
            .filter(|e| !ends(e) && (deep || (e.3 == 0 && !e.2.iter().any(|k| ["ex", "text", "cases"].contains(k)))))
            .collect();
        let row = **self.s.pick(&ok);
        self.expr_of(&row, depth.saturating_sub(1))
    }
    fn expr_of(&mut self, row: &(&str, u8, &[&str], u8), depth: usize) -> V {
        self.kinds.insert(row.0.to_string());
        self.u8(row.1);
        let mut f: Vec<V> = vec![];
        if row.0 == "ExSwitchValue" {
            let n = self.len(3);
            self.u16(n as u16);
            let off = self.gu32();
            let index = self.expr(depth);
            let mut cases = vec![];
            for _ in 0..n {
                let a = self.expr(depth);
                let o = self.gu32();
                let c = self.expr(depth);
                cases.push(V::L(vec![a, o, c]));
            }
            let d = self.expr(depth);
            return t(row.0, vec![off, index, V::L(cases), d]);
        }
        for k in row.2 {
            let x = match *k {
                "ptr" => self.ptr(),
                "obj" => self.gpkg(),
                "name" => self.gname(),
                "ex" | "oex" => self.expr(depth),
                "list" => {
                    let n = self.len(4);
                    self.exprs(n, row.3, depth)
                }
                "counted" => {
                    let n = self.len(4);
                    self.i32(n as i32);
                    self.exprs(n, row.3, depth)
                }
                "pairs" => {
                    let n = self.len(3);
                    self.i32(n as i32);
                    self.exprs(2 * n, row.3, depth)
                }
                "n8" => self.gu8(),
                "n16" => self.gu16(),
                "n32" => self.gu32(),
                "s32" => self.gi32(),
                "n64" => self.gu64(),
                "s64" => self.gi64(),
                "flag" => self.gbool8(),
                "float" => self.gf32(),
                "double" => self.gf64(),
                "vec3" => V::L((0..3).map(|_| self.coord()).collect()),
                "trans" => V::L((0..10).map(|_| self.coord()).collect()),
                "ascii" => {
                    let x = self.s.ascii_text(12).replace('\0', " ");
                    self.out.extend(x.bytes());
                    self.u8(0);
                    V::S(Some(x))
                }
                "wide" => {
                    let x = self.s.text(10).replace('\0', " ");
                    for c in x.encode_utf16() {
                        self.u16(c);
                    }
                    self.u16(0);
                    V::S(Some(x))
                }
                "cast" => {
                    let (n, x) = if is_lwc(&self.v) {
                        ("NewCast", *self.s.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 255]))
                    } else {
                        ("OldCast", *self.s.pick(&[0x46u8, 0x47, 0x49, 0xff]))
                    };
                    self.u8(x);
                    t(n, vec![i(x)])
                }
                "event" => {
                    let x = self.s.range(0, 16) as u8;
                    self.u8(x);
                    i(x)
                }
                "oname" => {
                    if f[0] == i(4) {
                        self.gname()
                    } else {
                        V::Nil
                    }
                }
                "text" => {
                    let mut x = vec![V::Nil; 9];
                    let ty = self.s.below(5);
                    self.u8(ty as u8);
                    x[0] = i(ty as u8);
                    let at: &[usize] = [&[][..], &[1, 2, 3], &[4], &[5], &[6, 7, 8]][ty];
                    for k in at {
                        x[*k] = if *k == 6 { self.gpkg() } else { self.expr(depth) };
                    }
                    V::L(x)
                }
                k => panic!("{k}"),
            };
            f.push(x);
        }
        t(row.0, f)
    }

    /// A script: the size in memory, the size in the file, the code.
    pub fn script(&mut self) -> V {
        let at = self.out.len();
        self.i32(0);
        self.i32(0);
        let begin = self.out.len();
        let n = self.len(6);
        let mut l = vec![];
        let mut last = begin;
        for _ in 0..n {
            last = self.out.len();
            let x = if self.s.chance(1, 8) {
                // ends of lists and of the script stand alone, too
                let ok: Vec<_> = TABLE.iter().filter(|e| ends(e)).collect();
                let row = **self.s.pick(&ok);
                self.expr_of(&row, 0)
            } else {
                self.expr(4)
            };
            l.push(x);
        }
        let l = V::L(l);
        let out = if self.s.chance(1, 8) {
            // something unknown: the whole code is kept as it is
            self.kinds.insert("unknown code".into());
            let x = *self.s.pick(UNKNOWN);
            self.u8(x);
            let k = self.s.size(8);
            let _ = self.gbytes(k);
            let size = self.s.i32v();
            t("RawCode", vec![i(size), V::B(self.out[begin..].to_vec())])
        } else if self.out.len() > last + 1 && self.s.chance(1, 12) {
            // the last expression goes on behind the end: kept as it is
            self.kinds.insert("code cut short".into());
            let k = 1 + self.s.below((self.out.len() - last - 1).min(12));
            self.out.truncate(self.out.len() - k);
            let size = self.s.i32v();
            t("RawCode", vec![i(size), V::B(self.out[begin..].to_vec())])
        } else {
            t("Code", vec![i(mem_all(&l, is_lwc(&self.v))), l])
        };
        let V::T(_, f) = &out else { unreachable!() };
        let V::I(m) = f[0] else { unreachable!() };
        let disk = (self.out.len() - begin) as i32;
        self.out[at..at + 4].copy_from_slice(&(m as i32).to_le_bytes());
        self.out[at + 4..at + 8].copy_from_slice(&disk.to_le_bytes());
        out
    }
}
