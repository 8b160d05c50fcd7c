//! Independent reference model of the .pak container: encoder and strict parser.
//! Written from the documented layout, shares no code with unreal_pak.

use flate2::{Compress, Compression, FlushCompress};
use std::io::Read;

pub const MAGIC: [u8; 4] = [0xE1, 0x12, 0x6F, 0x5A];

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut msg = data.to_vec();
    let bits = (data.len() as u64) * 8;
    msg.push(0x80);
    while msg.len() % 64 != 56 {
        msg.push(0);
    }
    msg.extend_from_slice(&bits.to_be_bytes());
    for chunk in msg.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([chunk[4 * i], chunk[4 * i + 1], chunk[4 * i + 2], chunk[4 * i + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let (mut a, mut b, mut c, mut d, mut e) = (h[0], h[1], h[2], h[3], h[4]);
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => ((b & c) | (!b & d), 0x5A827999u32),
                20..=39 => (b ^ c ^ d, 0x6ED9EBA1),
                40..=59 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDC),
                _ => (b ^ c ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        h[0] = h[0].wrapping_add(a);
        h[1] = h[1].wrapping_add(b);
        h[2] = h[2].wrapping_add(c);
        h[3] = h[3].wrapping_add(d);
        h[4] = h[4].wrapping_add(e);
    }
    let mut out = [0u8; 20];
    for i in 0..5 {
        out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn fstring(out: &mut Vec<u8>, s: &str) {
    if s.is_ascii() {
        out.extend_from_slice(&(s.len() as i32 + 1).to_le_bytes());
        out.extend_from_slice(s.as_bytes());
        out.push(0);
    } else {
        let u: Vec<u16> = s.encode_utf16().collect();
        out.extend_from_slice(&(-(u.len() as i32) - 1).to_le_bytes());
        for c in u {
            out.extend_from_slice(&c.to_le_bytes());
        }
        out.extend_from_slice(&[0, 0]);
    }
}

pub fn deflate(data: &[u8], level: u32) -> Vec<u8> {
    let mut c = Compress::new(Compression::new(level), true);
    let mut out = Vec::with_capacity(data.len() + data.len() / 8 + 256);
    c.compress_vec(data, &mut out, FlushCompress::Finish).unwrap();
    assert!(c.total_in() as usize == data.len());
    out
}
pub fn inflate(data: &[u8]) -> Result<Vec<u8>, String> {
    let mut d = flate2::read::ZlibDecoder::new(data);
    let mut out = vec![];
    d.read_to_end(&mut out).map_err(|e| e.to_string())?;
    if d.total_in() as usize != data.len() {
        return Err(format!("zlib stream ends at {} of {}", d.total_in(), data.len()));
    }
    Ok(out)
}

/// One entry to encode.
#[derive(Debug, Clone)]
pub struct RefEntry {
    pub name: String,
    pub data: Vec<u8>,
    /// None = stored; Some((block size, level)) = zlib
    pub zlib: Option<(usize, u32)>,
    /// bytes of unrelated filler before this entry
    pub gap: Vec<u8>,
}

#[derive(Debug, Clone)]
pub struct RefPak {
    /// 1..=11, 8 means 8B
    pub version: u32,
    pub mount: String,
    pub entries: Vec<RefEntry>,
    /// slot (1..=5) holding "Zlib" for version >= 8
    pub zlib_slot: u32,
    /// order in which entries are listed in the index
    pub order: Vec<usize>,
    pub encrypted_index: bool,
    pub guid: [u8; 16],
    /// version >= 10: include a path hash index; force wide size fields; explicit block size
    pub path_hash: bool,
    pub wide_sizes: u32,
    pub explicit_block: bool,
    pub seed: u64,
    /// the number that means Zlib before version 8
    pub old_zlib: u32,
    /// how much comes before the archive in its file
    pub base: u64,
    /// an entry, the number of its compression method and the name of that one
    pub odd: Option<(usize, u32, &'static str)>,
    /// an entry that is not compressed and the size it claims to have
    pub over: Option<(usize, u64)>,
    /// a compressed entry, one of its blocks and how much of that one's end is not there
    pub clip: Option<(usize, usize, usize)>,
}

fn u32b(o: &mut Vec<u8>, v: u32) {
    o.extend_from_slice(&v.to_le_bytes());
}
fn u64b(o: &mut Vec<u8>, v: u64) {
    o.extend_from_slice(&v.to_le_bytes());
}

struct Placed {
    offset: u64,
    stored: Vec<u8>,
    blocks: Vec<(u64, u64)>, // relative to header start
    size: u64,
    method: u32,
    block_size: u32,
    encrypted: bool,
    flags: u8,
}

fn header_len(version: u32, blocks: Option<usize>) -> u64 {
    let mut n = 8 + 8 + 8 + 4 + 20;
    if version == 1 {
        n += 8;
    }
    if version >= 3 {
        if let Some(b) = blocks {
            n += 4 + 16 * b as u64;
        }
        n += 1 + 4;
    }
    n
}

fn entry_header(version: u32, p: &Placed, in_index: bool) -> Vec<u8> {
    let mut o = vec![];
    u64b(&mut o, if in_index { p.offset } else { 0 });
    u64b(&mut o, if p.method == 0 { p.size } else { p.stored.len() as u64 });
    u64b(&mut o, p.size);
    u32b(&mut o, p.method);
    if version == 1 {
        u64b(&mut o, 0x0123_4567_89ab);
    }
    o.extend_from_slice(&sha1(&p.stored));
    if version >= 3 {
        if p.method != 0 {
            u32b(&mut o, p.blocks.len() as u32);
            let base = if version < 5 { p.offset } else { 0 };
            for (a, b) in &p.blocks {
                u64b(&mut o, base + a);
                u64b(&mut o, base + b);
            }
        }
        o.push(p.flags);
        u32b(&mut o, if p.method != 0 { p.block_size } else { 0 });
    }
    o
}

impl RefPak {
    pub fn encode(&self) -> Vec<u8> {
        self.encode_with_flag(None)
    }
    /// encode, marking one entry as encrypted
    pub fn encode_with_flag(&self, encrypted: Option<usize>) -> Vec<u8> {
        let mut out = vec![];
        let mut placed = vec![];
        for (ei, e) in self.entries.iter().enumerate() {
            out.extend_from_slice(&e.gap);
            let offset = self.base + out.len() as u64;
            let mut p = Placed {
                offset,
                stored: vec![],
                blocks: vec![],
                size: e.data.len() as u64,
                method: 0,
                block_size: 0,
                encrypted: encrypted == Some(ei),
                flags: if encrypted == Some(ei) { 1 | (self.seed & 2) as u8 } else { 0 },
            };
            match e.zlib {
                None => {
                    p.stored = e.data.clone();
                    if let Some((_, n)) = self.over.filter(|o| o.0 == ei) {
                        p.size = n;
                    }
                }
                Some((bs, level)) => {
                    p.method = if self.version >= 8 { self.zlib_slot } else { self.old_zlib };
                    if let Some((_, m, _)) = self.odd.filter(|o| o.0 == ei) {
                        p.method = m;
                    }
                    let chunks: Vec<&[u8]> = e.data.chunks(bs).collect();
                    let hl = header_len(self.version, Some(chunks.len()));
                    p.block_size = if chunks.len() == 1 { e.data.len() as u32 } else { bs as u32 };
                    for (bi, c) in chunks.into_iter().enumerate() {
                        let mut z = deflate(c, level);
                        if let Some((_, _, n)) = self.clip.filter(|o| o.0 == ei && o.1 == bi) {
                            z.truncate(z.len().saturating_sub(n));
                        }
                        let a = hl + p.stored.len() as u64;
                        p.stored.extend_from_slice(&z);
                        p.blocks.push((a, hl + p.stored.len() as u64));
                    }
                }
            }
            out.extend_from_slice(&entry_header(self.version, &p, false));
            out.extend_from_slice(&p.stored);
            placed.push(p);
        }
        let index_offset = self.base + out.len() as u64;
        let mut idx = vec![];
        fstring(&mut idx, &self.mount);
        u32b(&mut idx, self.entries.len() as u32);
        let mut tail = vec![];
        if self.version < 10 {
            for i in &self.order {
                fstring(&mut idx, &self.entries[*i].name);
                idx.extend_from_slice(&entry_header(self.version, &placed[*i], true));
            }
        } else {
            u64b(&mut idx, self.seed);
            // encoded entries
            let mut enc = vec![];
            let mut offs = vec![0u32; self.entries.len()];
            for i in &self.order {
                let p = &placed[*i];
                offs[*i] = enc.len() as u32;
                let z = p.method != 0;
                let wide = self.wide_sizes >> (3 * (*i as u32 % 10));
                // which of offset, size, stored size are encoded in 64 bits although 32 would do
                let fits = |v: u64, k: u32| v <= u32::MAX as u64 && (wide >> k) & 1 == 0;
                let mut flags = 0u32;
                let mut explicit = None;
                if z {
                    if p.block_size % 2048 == 0 && (p.block_size >> 11) < 0x3f && !self.explicit_block {
                        flags |= p.block_size >> 11;
                    } else {
                        flags |= 0x3f;
                        explicit = Some(p.block_size);
                    }
                }
                flags |= ((p.blocks.len() as u32) & 0xffff) << 6;
                flags |= p.method << 23;
                if p.encrypted {
                    flags |= 1 << 22;
                }
                if fits(p.stored.len() as u64, 2) {
                    flags |= 1 << 29;
                }
                if fits(p.size, 1) {
                    flags |= 1 << 30;
                }
                if fits(p.offset, 0) {
                    flags |= 1 << 31;
                }
                u32b(&mut enc, flags);
                if let Some(b) = explicit {
                    u32b(&mut enc, b);
                }
                let mut put = |v: u64, k: u32| {
                    if fits(v, k) {
                        u32b(&mut enc, v as u32)
                    } else {
                        u64b(&mut enc, v)
                    }
                };
                put(p.offset, 0);
                put(p.size, 1);
                if z {
                    put(p.stored.len() as u64, 2);
                    if p.blocks.len() > 1 || p.encrypted {
                        for (a, b) in &p.blocks {
                            u32b(&mut enc, (b - a) as u32);
                        }
                    }
                }
            }
            // directory index
            let mut dirs: Vec<(String, Vec<(String, u32)>)> = vec![];
            for i in &self.order {
                let name = &self.entries[*i].name;
                let (d, f) = match name.rfind('/') {
                    Some(p) => (name[..=p].to_string(), name[p + 1..].to_string()),
                    None => ("/".to_string(), name.clone()),
                };
                match dirs.iter_mut().find(|x| x.0 == d) {
                    Some(x) => x.1.push((f, offs[*i])),
                    None => dirs.push((d, vec![(f, offs[*i])])),
                }
            }
            let mut dirb = vec![];
            u32b(&mut dirb, dirs.len() as u32);
            for (d, fs) in &dirs {
                fstring(&mut dirb, d);
                u32b(&mut dirb, fs.len() as u32);
                for (f, o) in fs {
                    fstring(&mut dirb, f);
                    u32b(&mut dirb, *o);
                }
            }
            let mut phb = vec![];
            u32b(&mut phb, self.entries.len() as u32);
            for (i, o) in offs.iter().enumerate() {
                u64b(&mut phb, 0x9999 * i as u64 + self.seed);
                u32b(&mut phb, *o);
            }
            u32b(&mut phb, 0);
            let fixed = idx.len() + 4 + if self.path_hash { 36 } else { 0 } + 4 + 36 + 4 + enc.len() + 4;
            let ph_off = index_offset + fixed as u64;
            let dir_off = ph_off + if self.path_hash { phb.len() as u64 } else { 0 };
            if self.path_hash {
                u32b(&mut idx, 1);
                u64b(&mut idx, ph_off);
                u64b(&mut idx, phb.len() as u64);
                idx.extend_from_slice(&sha1(&phb));
                tail.extend_from_slice(&phb);
            } else {
                u32b(&mut idx, 0);
            }
            u32b(&mut idx, 1);
            u64b(&mut idx, dir_off);
            u64b(&mut idx, dirb.len() as u64);
            idx.extend_from_slice(&sha1(&dirb));
            tail.extend_from_slice(&dirb);
            u32b(&mut idx, enc.len() as u32);
            idx.extend_from_slice(&enc);
            u32b(&mut idx, 0);
            assert_eq!(idx.len(), fixed);
        }
        out.extend_from_slice(&idx);
        out.extend_from_slice(&tail);
        // footer
        if self.version >= 7 {
            out.extend_from_slice(&self.guid);
        }
        if self.version >= 4 {
            out.push(self.encrypted_index as u8);
        }
        out.extend_from_slice(&MAGIC);
        u32b(&mut out, self.version);
        u64b(&mut out, index_offset);
        u64b(&mut out, idx.len() as u64);
        out.extend_from_slice(&sha1(&idx));
        if self.version == 9 {
            out.push(0);
        }
        if self.version >= 8 {
            for slot in 1..=5u32 {
                let mut n = [0u8; 32];
                if let Some((_, _, name)) = self.odd.filter(|o| o.1 == slot) {
                    n[..name.len()].copy_from_slice(name.as_bytes());
                } else if slot == self.zlib_slot {
                    n[..4].copy_from_slice(b"Zlib");
                } else if slot < self.zlib_slot {
                    n[..4].copy_from_slice(b"Gzip");
                }
                out.extend_from_slice(&n);
            }
        }
        out
    }
}

// ------------------------------------------------------------------------------------------ parser

pub struct P<'a> {
    pub b: &'a [u8],
    pub i: usize,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.i + n > self.b.len() {
            return Err(format!("need {} bytes at {}, file has {}", n, self.i, self.b.len()));
        }
        let r = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(r)
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> R<u64> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn fstring(&mut self) -> R<String> {
        let n = self.u32()? as i32;
        if n == 0 {
            return Ok(String::new());
        }
        if n > 0 {
            let b = self.take(n as usize)?;
            if b[n as usize - 1] != 0 {
                return Err("string not terminated".into());
            }
            let s = &b[..n as usize - 1];
            if !s.is_ascii() {
                return Err("single byte string is not ASCII".into());
            }
            Ok(String::from_utf8(s.to_vec()).unwrap())
        } else {
            let n = n.unsigned_abs() as usize;
            let b = self.take(2 * n)?;
            let u: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            if u[n - 1] != 0 {
                return Err("wide string not terminated".into());
            }
            String::from_utf16(&u[..n - 1]).map_err(|e| e.to_string())
        }
    }
}

#[derive(Debug)]
pub struct ParsedHeader {
    pub offset: u64,
    pub size: u64,
    pub raw_size: u64,
    pub method: u32,
    pub hash: [u8; 20],
    pub blocks: Option<Vec<(u64, u64)>>,
    pub flags: u8,
    pub block_size: u32,
}

#[derive(Debug)]
pub struct ParsedEntry {
    pub name: String,
    pub hdr: ParsedHeader,
    pub data: Vec<u8>,
    pub block_lens: Vec<usize>,
    /// start and end in the file (header included)
    pub span: (u64, u64),
}
#[derive(Debug)]
pub struct Parsed {
    pub version: u32,
    pub mount: String,
    pub entries: Vec<ParsedEntry>,
    pub index_offset: u64,
    pub methods: Vec<String>,
}

fn parse_header(p: &mut P, version: u32) -> R<ParsedHeader> {
    let offset = p.u64()?;
    let size = p.u64()?;
    let raw_size = p.u64()?;
    let method = p.u32()?;
    if version == 1 {
        p.u64()?;
    }
    let hash: [u8; 20] = p.take(20)?.try_into().unwrap();
    let mut blocks = None;
    let (mut flags, mut block_size) = (0, 0);
    if version >= 3 {
        if method != 0 {
            let n = p.u32()?;
            let mut v = vec![];
            for _ in 0..n {
                v.push((p.u64()?, p.u64()?));
            }
            blocks = Some(v);
        }
        flags = p.u8()?;
        block_size = p.u32()?;
    }
    Ok(ParsedHeader { offset, size, raw_size, method, hash, blocks, flags, block_size })
}

/// Strict parse of an archive of a known version (1..=9, 8 = 8B) that must satisfy the whole format.
pub fn parse(b: &[u8], version: u32) -> R<Parsed> {
    let tail = match version {
        8 => 0xCC,
        9 => 0xCD,
        _ => 0x2C,
    };
    if b.len() < tail {
        return Err("shorter than its footer".into());
    }
    let mut p = P { b, i: b.len() - tail };
    if p.take(4)? != MAGIC {
        return Err("no magic at the footer position".into());
    }
    let v = p.u32()?;
    if v != version {
        return Err(format!("footer says version {v}"));
    }
    let index_offset = p.u64()?;
    let index_size = p.u64()?;
    let index_hash: [u8; 20] = p.take(20)?.try_into().unwrap();
    if version == 9 && p.u8()? != 0 {
        return Err("frozen index flag set".into());
    }
    let mut methods = vec![];
    if version >= 8 {
        for _ in 0..5 {
            let n = p.take(32)?;
            let end = n.iter().position(|c| *c == 0).unwrap_or(32);
            if n[end..].iter().any(|c| *c != 0) {
                return Err("compression name not zero padded".into());
            }
            methods.push(String::from_utf8_lossy(&n[..end]).to_string());
        }
    }
    if p.i != b.len() {
        return Err("footer does not end the file".into());
    }
    let pre = (if version >= 7 { 16 } else { 0 }) + (if version >= 4 { 1 } else { 0 });
    if version >= 4 && b[b.len() - tail - 1] != 0 {
        return Err("index flagged as encrypted".into());
    }
    let footer_start = b.len() - tail - pre;
    let (io, is) = (index_offset as usize, index_size as usize);
    if io.checked_add(is) != Some(footer_start) {
        return Err(format!("index {io}+{is} does not reach the footer at {footer_start}"));
    }
    if sha1(&b[io..io + is]) != index_hash {
        return Err("index hash wrong".into());
    }
    let mut p = P { b: &b[..io + is], i: io };
    let mount = p.fstring()?;
    let n = p.u32()?;
    let mut entries = vec![];
    for _ in 0..n {
        let name = p.fstring()?;
        let hdr = parse_header(&mut p, version)?;
        entries.push((name, hdr));
    }
    if p.i != io + is {
        return Err(format!("{} index bytes left over", io + is - p.i));
    }
    let mut out = vec![];
    for (name, hdr) in entries {
        let e = |m: &str| format!("entry {name:?}: {m}");
        if hdr.flags != 0 {
            return Err(e("flags set"));
        }
        if hdr.offset >= index_offset {
            return Err(e("offset behind the index"));
        }
        let start = hdr.offset as usize;
        let mut p = P { b: &b[..io], i: start };
        let local = parse_header(&mut p, version).map_err(|m| e(&m))?;
        if local.offset != 0 {
            return Err(e("offset of the in-place header is not 0"));
        }
        if (local.size, local.raw_size, local.method, local.hash, &local.blocks, local.flags, local.block_size)
            != (hdr.size, hdr.raw_size, hdr.method, hdr.hash, &hdr.blocks, hdr.flags, hdr.block_size)
        {
            return Err(e("in-place header differs from index header"));
        }
        let body = p.i;
        let stored = p.take(hdr.size as usize).map_err(|m| e(&m))?;
        if sha1(stored) != hdr.hash {
            return Err(e("hash wrong"));
        }
        let mut block_lens = vec![];
        let data = if hdr.method == 0 {
            stored.to_vec()
        } else {
            if version < 3 {
                return Err(e("compressed in a version without compression"));
            }
            let name_ok = if version >= 8 {
                methods.get(hdr.method as usize - 1).map(|s| s == "Zlib").unwrap_or(false)
            } else {
                hdr.method == 1
            };
            if !name_ok {
                return Err(e("compression method is not zlib"));
            }
            let base = if version < 5 { 0 } else { hdr.offset };
            let mut pos = body as u64;
            let mut d = vec![];
            for (a, z) in hdr.blocks.as_ref().unwrap() {
                if base + a != pos || z < a || (base + z) as usize > body + stored.len() {
                    return Err(e(&format!("block {a}..{z} not at {}", pos - base.min(pos))));
                }
                pos = base + z;
                let part = inflate(&b[(base + a) as usize..(base + z) as usize]).map_err(|m| e(&m))?;
                block_lens.push(part.len());
                d.extend_from_slice(&part);
            }
            if pos as usize != body + stored.len() {
                return Err(e("blocks do not cover the stored bytes"));
            }
            d
        };
        if data.len() as u64 != hdr.raw_size {
            return Err(e("uncompressed size wrong"));
        }
        out.push(ParsedEntry { name, span: (start as u64, (body + stored.len()) as u64), hdr, data, block_lens });
    }
    Ok(Parsed { version, mount, entries: out, index_offset, methods })
}
