//! C06 primitives, C07 GUIDs, C08 game paths.
use crate::pak_ref::{fstring, P};
use bitvec::prelude::*;
use std::io::Cursor;
use std::str::FromStr;
use unreal_helpers::{game_to_absolute, BitVecExt, Guid, UnrealReadExt, UnrealWriteExt};
use vkit::*;

// ---------------------------------------------------------------------------------------- C06

#[derive(Debug, Clone, PartialEq)]
enum Item {
    Str(Option<String>),
    Bool(bool),
    ArrI32(Vec<i32>),
    ArrStr(Vec<String>),
    Guid([u8; 16]),
    Raw(Vec<u8>),
}

fn gen_str(s: &mut Src) -> String {
    match s.draw(8) {
        0 => String::new(),
        1 => {
            let n = s.urange(200, 5000);
            let c = s.uchar();
            std::iter::repeat(c).take(n).collect()
        }
        2 => {
            // one wide character somewhere in ASCII
            let mut t = s.ascii_text(20);
            t.push(s.uchar());
            t.push_str(&s.ascii_text(20));
            t
        }
        _ => s.text(40),
    }
}

fn gen_item(s: &mut Src) -> Item {
    match s.draw(7) {
        0 => Item::Bool(s.flag()),
        1 => {
            let n = s.size(20);
            Item::ArrI32((0..n).map(|_| s.i32v()).collect())
        }
        2 => {
            let n = s.size(6);
            Item::ArrStr((0..n).map(|_| s.text(10)).collect())
        }
        3 => Item::Guid(s.guid()),
        4 => {
            let n = s.size(30);
            Item::Raw(s.bytes(n))
        }
        5 => Item::Str(None),
        _ => Item::Str(Some(gen_str(s))),
    }
}

fn ref_encode(i: &Item, o: &mut Vec<u8>) {
    match i {
        Item::Str(None) => o.extend_from_slice(&0i32.to_le_bytes()),
        Item::Str(Some(t)) => fstring(o, t),
        Item::Bool(b) => o.push(*b as u8),
        Item::ArrI32(v) => {
            o.extend_from_slice(&(v.len() as i32).to_le_bytes());
            for x in v {
                o.extend_from_slice(&x.to_le_bytes());
            }
        }
        Item::ArrStr(v) => {
            o.extend_from_slice(&(v.len() as i32).to_le_bytes());
            for x in v {
                fstring(o, x);
            }
        }
        Item::Guid(g) => o.extend_from_slice(g),
        Item::Raw(b) => o.extend_from_slice(b),
    }
}

fn lib_write(i: &Item, c: &mut Cursor<Vec<u8>>) -> Result<Option<usize>, String> {
    use std::io::{Error, Write};
    Ok(match i {
        Item::Str(t) => Some(c.write_fstring(t.as_deref()).map_err(|e| e.to_string())?),
        Item::Bool(b) => {
            c.write_bool(*b).map_err(|e| e.to_string())?;
            None
        }
        Item::ArrI32(v) => {
            c.write_array(v, |c, x| c.write_all(&x.to_le_bytes())).map_err(|e| e.to_string())?;
            None
        }
        Item::ArrStr(v) => {
            c.write_array(v, |c, x| c.write_fstring(Some(x)).map(|_| ()).map_err(|e| Error::new(std::io::ErrorKind::Other, e.to_string())))
                .map_err(|e| e.to_string())?;
            None
        }
        Item::Guid(g) => {
            c.write_guid(&Guid::from(*g)).map_err(|e| e.to_string())?;
            None
        }
        Item::Raw(b) => {
            c.write_all(b).map_err(|e| e.to_string())?;
            None
        }
    })
}

fn lib_read(like: &Item, c: &mut Cursor<Vec<u8>>) -> Result<Item, String> {
    use std::io::{Error, Read};
    Ok(match like {
        Item::Str(_) => Item::Str(c.read_fstring().map_err(|e| e.to_string())?),
        Item::Bool(_) => Item::Bool(c.read_bool().map_err(|e| e.to_string())?),
        Item::ArrI32(_) => Item::ArrI32(
            c.read_array(|c| {
                let mut b = [0u8; 4];
                c.read_exact(&mut b)?;
                Ok(i32::from_le_bytes(b))
            })
            .map_err(|e| e.to_string())?,
        ),
        Item::ArrStr(_) => Item::ArrStr(
            c.read_array(|c| c.read_fstring().map(|o| o.unwrap_or_else(|| "<none>".into())).map_err(|e| Error::new(std::io::ErrorKind::Other, e.to_string())))
                .map_err(|e| e.to_string())?,
        ),
        Item::Guid(_) => Item::Guid(c.read_guid().map_err(|e| e.to_string())?.into()),
        Item::Raw(b) => Item::Raw(c.read_vec(b.len()).map_err(|e| e.to_string())?),
    })
}

/// a stream of primitives: bytes equal the reference encoding, reading gives the values back and
/// consumes exactly the bytes
fn stream(s: &mut Src) -> Res {
    let n = 1 + s.size(10);
    let items: Vec<Item> = (0..n).map(|_| gen_item(s)).collect();
    s.note(clip(&format!("{items:?}")));
    for i in &items {
        s.class(match i {
            Item::Str(None) => "null string",
            Item::Str(Some(t)) if t.is_ascii() => "ascii string",
            Item::Str(Some(_)) => "wide string",
            Item::Bool(_) => "bool",
            Item::ArrI32(_) | Item::ArrStr(_) => "array",
            Item::Guid(_) => "guid",
            Item::Raw(_) => "raw",
        });
    }
    s.nontrivial();
    let mut want = vec![];
    let mut ends = vec![];
    let mut c = Cursor::new(vec![]);
    for i in &items {
        let before = want.len();
        ref_encode(i, &mut want);
        ends.push(want.len());
        let r = match lib_write(i, &mut c) {
            Ok(r) => r,
            Err(e) => return fail("write-error", format!("{i:?}: {e}")),
        };
        if let Some(sz) = r {
            ensure_eq!(s, sz, want.len() - before, "fstring-size", "size reported for {i:?}");
        }
        ensure!(s, c.get_ref() == &want, "bytes", "{i:?}: {}", bytediff(c.get_ref(), &want));
    }
    let mut c = Cursor::new(want.clone());
    for (i, end) in items.iter().zip(&ends) {
        match lib_read(i, &mut c) {
            Ok(v) => {
                ensure_eq!(s, &v, i, "value", "value read back");
            }
            Err(e) => return fail("read-error", format!("{i:?}: {e}")),
        }
        ensure_eq!(s, c.position() as usize, *end, "position", "position after {i:?}");
    }
    Ok(())
}

/// malformed strings give an error, not a panic and not a value
fn bad_strings(s: &mut Src) -> Res {
    let mut b = vec![];
    let kind = s.draw(6);
    let must_fail = match kind {
        0 => {
            // cut short
            let mut t = gen_str(s);
            t.push('x');
            fstring(&mut b, &t);
            let n = s.below(b.len());
            b.truncate(n);
            true
        }
        1 => {
            // wrong terminator
            let t = s.text(20);
            fstring(&mut b, &t);
            let l = b.len();
            b[l - 1] = 1 + s.draw(255) as u8;
            true
        }
        2 => {
            // sizes no string has
            let len = *s.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, -200_000, 200_000, 1 << 24]);
            b.extend_from_slice(&len.to_le_bytes());
            let n = s.below(64);
            b.extend_from_slice(&s.bytes(n));
            true
        }
        3 => {
            // invalid UTF-8
            let bad = *s.pick(&[0xffu8, 0xc0, 0x80, 0xf8]);
            b.extend_from_slice(&3i32.to_le_bytes());
            b.extend_from_slice(&[b'a', bad, 0]);
            true
        }
        4 => {
            // lone surrogate
            let unit = *s.pick(&[0xd800u16, 0xdbff, 0xdc00, 0xdfff]);
            b.extend_from_slice(&(-3i32).to_le_bytes());
            for u in [b'a' as u16, unit, 0] {
                b.extend_from_slice(&u.to_le_bytes());
            }
            true
        }
        _ => {
            let n = s.below(40);
            b = s.bytes(n);
            false
        }
    };
    s.class(format!("kind {kind}"));
    s.nontrivial();
    s.note(format!("kind {kind} {b:02x?}"));
    let mut c = Cursor::new(b.clone());
    let r = match guarded(|| c.read_fstring()) {
        Ok(r) => r,
        Err((_, m)) => return fail(format!("bad-string-panic:{}", norm(&m)), format!("read_fstring panics on {b:02x?}: {m}")),
    };
    if must_fail {
        ensure!(s, r.is_err(), "bad-string-accepted", "malformed string accepted as {r:?}");
    } else if let Ok(v) = r {
        // accepted: the independent reader must agree
        let mut p = P { b: &b, i: 0 };
        if let Ok(w) = p.fstring() {
            ensure_eq!(s, v.clone().unwrap_or_default(), w, "random-string-value", "random bytes");
            ensure_eq!(s, c.position() as usize, p.i, "random-string-pos", "random bytes");
        }
    }
    Ok(())
}

fn bits(s: &mut Src) -> Res {
    let n = 1 + s.below(100);
    let m = s.below(100);
    let dst: Vec<bool> = (0..n).map(|_| s.flag()).collect();
    let srcb: Vec<bool> = (0..m).map(|_| s.flag()).collect();
    let idx = s.below(n);
    let num = s.below(n - idx + 1);
    let off = s.below(m + 5);
    s.nontrivial();
    s.note(format!("set {num} bits at {idx} of {n} from {off} of {m}"));
    let mut v: BitVec<u32, Lsb0> = dst.iter().collect();
    let r: BitVec<u32, Lsb0> = srcb.iter().collect();
    v.set_range_from_range(idx as i32, num as i32, &r, off as i32);
    let want: Vec<bool> = (0..n)
        .map(|i| if i >= idx && i < idx + num { srcb.get(off + i - idx).copied().unwrap_or(false) } else { dst[i] })
        .collect();
    ensure_eq!(s, v.iter().map(|b| *b).collect::<Vec<_>>(), want, "bits", "bits");
    Ok(())
}

// ---------------------------------------------------------------------------------------- C07

fn guid(s: &mut Src) -> Res {
    let g = s.guid();
    s.note(format!("{g:02x?}"));
    s.nontrivial();
    let lib = Guid::from(g);
    ensure_eq!(s, <[u8; 16]>::from(lib), g, "guid-bytes", "bytes of {g:02x?}");
    ensure_eq!(s, lib.is_zero(), g == [0; 16], "guid-zero", "is_zero of {g:02x?}");
    let hex: String = g.iter().map(|b| format!("{b:02X}")).collect();
    let dashed = format!("{}-{}-{}-{}-{}", &hex[..8], &hex[8..12], &hex[12..16], &hex[16..20], &hex[20..]);
    let want = if g == [0; 16] { "0".to_string() } else { dashed.clone() };
    ensure_eq!(s, lib.to_string(), want, "guid-display", "text of {g:02x?}");
    // any spelling of the same digits
    let spell = match s.draw(5) {
        0 => want.clone(),
        1 => hex.clone(),
        2 => dashed.to_lowercase(),
        3 => format!("{{{dashed}}}"),
        _ => {
            let mut o = String::new();
            for c in hex.chars() {
                if s.chance(1, 8) {
                    o.push('-');
                }
                o.push(if s.flag() { c.to_ascii_lowercase() } else { c });
            }
            format!("  {o} ")
        }
    };
    match Guid::from_str(&spell) {
        Ok(p) => {
            ensure_eq!(s, p, lib, "guid-parse", "parse of {spell:?}");
        }
        Err(_) => return fail("guid-parse-error", format!("{spell:?} refused")),
    }
    // four words and one 128-bit number, little endian
    let w: Vec<u32> = g.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
    ensure_eq!(s, Guid::from_ints(w[0], w[1], w[2], w[3]), lib, "guid-from-ints", "from_ints {w:?}");
    ensure_eq!(s, Guid::from((w[0], w[1], w[2], w[3])), lib, "guid-from-tuple", "from tuple {w:?}");
    ensure_eq!(s, <(u32, u32, u32, u32)>::from(lib), (w[0], w[1], w[2], w[3]), "guid-to-tuple", "to tuple");
    let n = u128::from_le_bytes(g);
    ensure_eq!(s, Guid::from(n), lib, "guid-from-u128", "from u128");
    ensure_eq!(s, u128::from(lib), n, "guid-to-u128", "to u128");
    // equality
    let mut g2 = g;
    let k = s.below(16);
    g2[k] ^= 1 + s.draw(255) as u8;
    ensure!(s, Guid::from(g2) != lib, "guid-eq", "guids that differ in byte {k} are equal");
    // serde
    let j = serde_json::to_string(&lib).map_err(|e| Fail { sig: "guid-json".into(), msg: e.to_string() })?;
    ensure_eq!(s, j, format!("{want:?}"), "guid-json-text", "json of {g:02x?}");
    let back: Result<Guid, _> = serde_json::from_str(&j);
    ensure!(s, matches!(back, Ok(b) if b == lib), "guid-json-back", "json {j} does not read back");
    Ok(())
}

fn guid_bad(s: &mut Src) -> Res {
    let hexc = b"0123456789abcdefABCDEF";
    let text: String = match s.draw(5) {
        0 => {
            // wrong number of digits
            let mut n = s.below(70);
            if n == 32 {
                n = 31;
            }
            (0..n).map(|_| *s.pick(hexc) as char).collect::<String>()
        }
        1 => {
            // one wrong character
            let mut v: Vec<char> = (0..32).map(|_| *s.pick(hexc) as char).collect();
            let k = s.below(32);
            v[k] = *s.pick(&['g', 'z', '+', '_', ' ', 'G', '.', 'é', '中', '\u{1f600}']);
            if v[k] == ' ' && (k == 0 || k == 31) {
                v[k] = 'x';
            }
            v.into_iter().collect()
        }
        2 => s.text(40),
        3 => {
            // 32 bytes with multi-byte characters
            let mut o = String::new();
            while o.len() < 32 {
                let c = if s.chance(1, 4) { *s.pick(&['é', '中', '\u{1f600}']) } else { *s.pick(hexc) as char };
                if o.len() + c.len_utf8() <= 32 {
                    o.push(c);
                } else {
                    o.push('0');
                }
            }
            o
        }
        _ => (0..32).map(|_| *s.pick(&['+', '1', '-', '{', '}', 'f', '8'])).collect(),
    };
    s.note(format!("{text:?}"));
    s.nontrivial();
    let got = match guarded(|| Guid::from_str(&text)) {
        Ok(g) => g.ok(),
        Err((_, m)) => return fail(format!("guid-panic:{}", norm(&m)), format!("parsing {text:?} panics: {m}")),
    };
    // a guid is 32 hexadecimal digits (dashes ignored, optional braces and surrounding space), or "0"
    let t = text.replace('-', "");
    let t = t.trim();
    let t = t.strip_prefix('{').unwrap_or(t);
    let t = t.strip_suffix('}').unwrap_or(t);
    let want = if t == "0" {
        Some([0u8; 16])
    } else if t.len() == 32 && t.bytes().all(|b| b.is_ascii_hexdigit()) {
        let mut g = [0u8; 16];
        for i in 0..16 {
            g[i] = u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap();
        }
        Some(g)
    } else {
        None
    };
    s.class(if want.is_some() { "valid" } else { "invalid" });
    ensure_eq!(s, got.map(|g| <[u8; 16]>::from(g)), want, "guid-bad", "parse of {text:?}");
    Ok(())
}

// ---------------------------------------------------------------------------------------- C08

fn path(s: &mut Src) -> Res {
    let game = match s.draw(4) {
        0 => "Astro".to_string(),
        1 => s.ascii_ident(10),
        2 => format!("{}${}", s.ascii_ident(4), s.pick(&["0", "1", "{0}", "$", "name", ""])),
        _ => s.text(10).replace('/', "_").replace('\0', "_"),
    };
    let game = if game.is_empty() { "G".to_string() } else { game };
    let depth = 1 + s.below(5);
    let mut segs = vec![];
    for _ in 0..depth {
        let mut t = match s.draw(4) {
            0 => s.text(8).replace(['/', '\0', '.'], "_"),
            1 => "Game".to_string(),
            _ => s.ascii_ident(10),
        };
        if t.is_empty() {
            t.push('q');
        }
        if s.chance(1, 6) {
            t = format!("{}.{}", t, s.ascii_ident(3));
        }
        segs.push(t);
    }
    // the last segment decides about the extension
    let last = segs.last().unwrap().clone();
    let rest = segs.join("/");
    let prefix = *s.pick(&["/Game/", "/Game/", "/Game/", "/Game/", "Game/", "/game/", "/Engine/", "/Script/", "/Game", "//Game/", "x/Game/", ""]);
    let p = format!("{prefix}{rest}");
    s.note(format!("{game:?} {p:?}"));
    s.class(prefix);
    let got = game_to_absolute(&game, &p);
    let want = if p.starts_with("/Game/") {
        s.nontrivial();
        let rest = &p["/Game/".len()..];
        if last.contains('.') {
            s.class("has extension");
            Some(format!("{game}/Content/{rest}"))
        } else {
            Some(format!("{game}/Content/{rest}.uasset"))
        }
    } else {
        None
    };
    ensure_eq!(s, got, want, "path", "{p:?} in game {game:?}");
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C06",
            rule: "Streams of 1-11 primitives (null/ASCII/wide strings up to 5000 characters from all planes, booleans, arrays, GUIDs, raw bytes) against an independent encoder and decoder; malformed strings (cut, bad terminator, absurd sizes, invalid UTF-8/16, random bytes); bit ranges against a vector model. All cases are non-trivial.",
            assumptions: &["strings contain no NUL"],
            facets: vec![
                Facet { name: "stream", quick: 2_400_000, thorough: 6000000, run: stream },
                Facet { name: "bad-strings", quick: 1_600_000, thorough: 4000000, run: bad_strings },
                Facet { name: "bits", quick: 400_000, thorough: 500000, run: bits },
            ],
        },
        Property {
            id: "C07",
            rule: "Random GUIDs (zero, all ones, single byte, uniform) in all textual spellings and number forms against an independent model; random near-GUID texts against a grammar model. All cases are non-trivial.",
            assumptions: &[],
            facets: vec![
                Facet { name: "guid", quick: 1_500_000, thorough: 5000000, run: guid },
                Facet { name: "guid-bad", quick: 1_500_000, thorough: 5000000, run: guid_bad },
            ],
        },
        Property {
            id: "C08",
            rule: "Random game names (including regex metacharacters and Unicode) and paths of 1-5 segments with and without extensions and under other roots, against a string model. Non-trivial: the path is under /Game/.",
            assumptions: &["segments are non-empty, without separators; at most one dot per segment, not leading"],
            facets: vec![Facet { name: "path", quick: 2_400_000, thorough: 5000000, run: path }],
        },
    ]
}
