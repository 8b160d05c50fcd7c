//! C01 C02 C03 C04 C05: the pak container.
use crate::pak_ref::*;
use std::collections::BTreeMap;
use std::io::Cursor;
use unreal_pak::{pakversion::PakVersion, PakMemory, PakReader, PakWriter};
use vkit::*;

/// versions the writer supports (number, name)
pub const WRITABLE: [(u32, PakVersion); 9] = [
    (8, PakVersion::FnameBasedCompressionMethod),
    (9, PakVersion::FrozenIndex),
    (7, PakVersion::EncryptionKeyGuid),
    (5, PakVersion::RelativeChunkOffsets),
    (4, PakVersion::IndexEncryption),
    (3, PakVersion::CompressionEncryption),
    (2, PakVersion::NoTimestamps),
    (6, PakVersion::DeleteRecords),
    (1, PakVersion::Initial),
];

pub fn gen_name(s: &mut Src) -> String {
    let mut out = String::new();
    match s.draw(12) {
        0 => return String::new(),
        1 => {
            // long
            let n = s.urange(100, 1500);
            for i in 0..n {
                out.push(if i % 17 == 16 { '/' } else { (b'a' + (i % 26) as u8) as char });
            }
            return out;
        }
        2 => return s.text(40),
        3 => return s.ascii_text(60),
        _ => {}
    }
    let depth = s.below(4);
    for _ in 0..depth {
        out.push_str(&s.ascii_ident(8));
        out.push('/');
    }
    if s.chance(1, 6) {
        out.push_str(&s.text(12));
    } else {
        out.push_str(&s.ascii_ident(10));
    }
    out.push_str(s.pick(&[".uasset", ".uexp", "", ".txt"]));
    out
}

pub fn gen_block(s: &mut Src) -> u32 {
    match s.draw(5) {
        0 => 0x10000,
        1 => *s.pick(&[1u32, 2, 31, 32, 33, 100, 255, 256, 1000, 2048, 4096]),
        2 => s.range(1, 300) as u32,
        3 => s.range(1, 70000) as u32,
        _ => *s.pick(&[0x10000u32, 0x8000, 0x20000, 0x7fffffff, 0xffffffff]),
    }
}

pub fn gen_len(s: &mut Src, block: u32) -> usize {
    let b = (block as usize).min(60000);
    match s.weighted(&[3, 3, 4, 4, 1]) {
        0 => s.below(40),
        1 => s.urange(28, 36),
        2 => s.below(3000),
        3 => {
            let k = s.urange(1, 3);
            let lim = if b <= 2 { 400 } else { 200_000 };
            ((k * b + s.below(3)).saturating_sub(1)).min(lim)
        }
        _ => {
            let n = if b < 200 { 3000 } else { 190_000 };
            s.below(n)
        }
    }
}

/// content: blob, or content that looks like pak structures
pub fn gen_data(s: &mut Src, len: usize) -> Vec<u8> {
    match s.weighted(&[8, 1, 1]) {
        0 => s.blob(len),
        1 => MAGIC.iter().cycle().take(len).cloned().collect(),
        _ => {
            let mut v = s.blob(len);
            if len >= 8 {
                let k = s.below(len - 7);
                v[k..k + 4].copy_from_slice(&MAGIC);
            }
            v
        }
    }
}

fn ver_name(v: u32) -> String {
    format!("v{v}")
}

struct Written {
    num: u32,
    mount: String,
    block: u32,
    entries: BTreeMap<String, (Vec<u8>, bool)>,
    bytes: Vec<u8>,
    any_compressed: bool,
}

fn write_random(s: &mut Src) -> Result<Written, Fail> {
    write_at(s, 0)
}
fn write_at(s: &mut Src, base: u64) -> Result<Written, Fail> {
    let (num, ver) = *s.pick(&WRITABLE);
    let mount = if s.chance(1, 3) { s.text(30) } else { "../../../".to_string() };
    let block = gen_block(s);
    let n = s.size(14);
    let mut model: BTreeMap<String, (Vec<u8>, bool)> = BTreeMap::new();
    let mut any_compressed = false;
    // a shared sink, so that the bytes stay reachable after finish_write
    let mut shared = SharedSink::far(base);
    let mut w2 = PakWriter::new(shared.clone(), ver);
    w2.mount_point = mount.clone();
    w2.block_size = block;
    for k in 0..n {
        let name = if k > 0 && s.chance(1, 8) {
            // an already used name: must be refused
            let i = s.below(model.len().max(1));
            model.keys().nth(i).cloned().unwrap_or_default()
        } else {
            gen_name(s)
        };
        let len = gen_len(s, block);
        let data = gen_data(s, len);
        let compress = s.flag();
        let before = shared.len();
        let r = w2.write_entry(&name, &data, compress);
        let dup = model.contains_key(&name);
        let unsupported = num < 3 && compress && data.len() >= 32;
        if dup {
            s.class("duplicate-refused");
            ensure!(s, r.is_err(), "dup-accepted", "second write of {name:?} accepted");
            ensure_eq!(s, shared.len(), before, "dup-writes-bytes", "a refused write changed the archive");
        } else if unsupported {
            s.class("compression-refused");
            ensure!(s, r.is_err(), "v2-compress-accepted", "compression accepted in version {num}");
            ensure_eq!(s, shared.len(), before, "refused-writes-bytes", "a refused write changed the archive");
        } else {
            if let Err(e) = r {
                return fail("write-entry-error", format!("write_entry failed in v{num}: {e}"));
            }
            if compress && data.len() >= 32 {
                any_compressed = true;
                if data.len() > block as usize {
                    s.class("multi-block");
                }
            }
            model.insert(name, (data, compress));
        }
    }
    {
        s.checks += 1;
        let names: Vec<String> = w2.get_entry_names().into_iter().cloned().collect();
        let mut names2 = names.clone();
        names2.sort();
        let want: Vec<String> = model.keys().cloned().collect();
        ensure_eq!(s, names2, want, "writer-names", "writer entry names");
    }
    if let Err(e) = w2.finish_write() {
        return fail("finish-error", format!("finish_write failed in v{num}: {e}"));
    }
    let bytes = shared.take();
    s.class(ver_name(num));
    if any_compressed {
        s.class("compressed");
    }
    if model.is_empty() {
        s.class("empty");
    }
    if bytes.len() < 205 {
        s.class("tiny");
    }
    s.note(format!(
        "v{num} mount={mount:?} block={block} entries={:?}",
        model.iter().map(|(k, v)| (clip_name(k), v.0.len(), v.1)).collect::<Vec<_>>()
    ));
    if !model.is_empty() {
        s.nontrivial();
    }
    Ok(Written { num, mount, block, entries: model, bytes, any_compressed })
}

fn clip_name(n: &str) -> String {
    n.chars().take(24).collect()
}

/// growable in-memory file shared with the writer
#[derive(Clone, Default, Debug)]
pub struct SharedSink(std::rc::Rc<std::cell::RefCell<Far>>);
impl SharedSink {
    pub fn far(base: u64) -> Self {
        SharedSink(std::rc::Rc::new(std::cell::RefCell::new(Far::new(base, vec![]))))
    }
    pub fn len(&self) -> usize {
        self.0.borrow().bytes.len()
    }
    pub fn take(&mut self) -> Vec<u8> {
        std::mem::take(&mut self.0.borrow_mut().bytes)
    }
}
/// A file whose first `base` bytes are zeros that are not stored.
#[derive(Clone, Default, Debug)]
pub struct Far {
    base: u64,
    pos: u64,
    bytes: Vec<u8>,
}
impl Far {
    pub fn new(base: u64, bytes: Vec<u8>) -> Self {
        Far { base, pos: base, bytes }
    }
    /// at its beginning, as a file that was just opened
    pub fn opened(base: u64, bytes: Vec<u8>) -> Self {
        Far { base, pos: 0, bytes }
    }
}
impl std::io::Read for Far {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = if self.pos < self.base {
            let n = (b.len() as u64).min(self.base - self.pos) as usize;
            b[..n].fill(0);
            n
        } else {
            let at = ((self.pos - self.base).min(self.bytes.len() as u64)) as usize;
            let n = b.len().min(self.bytes.len() - at);
            b[..n].copy_from_slice(&self.bytes[at..at + n]);
            n
        };
        self.pos += n as u64;
        Ok(n)
    }
}
impl std::io::Write for Far {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let Some(at) = self.pos.checked_sub(self.base) else { return Err(std::io::Error::other("before the beginning")) };
        let mut c = Cursor::new(std::mem::take(&mut self.bytes));
        c.set_position(at);
        c.write_all(b).unwrap();
        self.bytes = c.into_inner();
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for Far {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let to = match p {
            std::io::SeekFrom::Start(n) => Some(n),
            std::io::SeekFrom::End(n) => (self.base + self.bytes.len() as u64).checked_add_signed(n),
            std::io::SeekFrom::Current(n) => self.pos.checked_add_signed(n),
        };
        self.pos = to.ok_or_else(|| std::io::Error::other("before the start"))?;
        Ok(self.pos)
    }
}
/// how much comes before an archive
fn gen_base(s: &mut Src) -> u64 {
    let b = *s.pick(&[1u64 << 32, 1 << 31, 1 << 33, 5_000_000_000, 1 << 40, 1 << 52]);
    match s.below(3) {
        0 => b,
        1 => b - s.draw(300).min(b),
        _ => b + s.draw(1 << 20),
    }
}
impl std::io::Write for SharedSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Seek for SharedSink {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.0.borrow_mut().seek(p)
    }
}

/// all read paths of an archive must agree with `want`
pub fn read_all(s: &mut Src, bytes: &[u8], mount: &str, want: &BTreeMap<String, Vec<u8>>) -> Res {
    read_all_at(s, 0, bytes, mount, want)
}
fn read_all_at(s: &mut Src, base: u64, bytes: &[u8], mount: &str, want: &BTreeMap<String, Vec<u8>>) -> Res {
    let mut r = PakReader::new(Far::opened(base, bytes.to_vec()));
    if let Err(e) = r.load_index() {
        return fail("load-index-error", format!("load_index failed: {e}"));
    }
    ensure_eq!(s, r.mount_point, mount, "mount", "mount point");
    let mut names: Vec<String> = r.get_entry_names().into_iter().cloned().collect();
    names.sort();
    let wn: Vec<String> = want.keys().cloned().collect();
    ensure_eq!(s, names, wn, "names", "entry names");
    // random access order, with repeats
    let mut order: Vec<&String> = want.keys().collect();
    for i in (1..order.len()).rev() {
        let j = s.below(i + 1);
        order.swap(i, j);
    }
    if !order.is_empty() && s.flag() {
        let i = s.below(order.len());
        order.push(order[i]);
    }
    for name in order {
        ensure!(s, r.contains_entry(name), "contains", "contains_entry({name:?}) is false");
        match r.read_entry(name) {
            Ok(d) => {
                ensure!(s, d == want[name], "data", "entry {name:?}: {}", bytediff(&d, &want[name]));
            }
            Err(e) => return fail("read-entry-error", format!("read_entry({name:?}): {e}")),
        }
    }
    // an absent name
    let mut absent = gen_name(s);
    while want.contains_key(&absent) {
        absent.push('x');
    }
    ensure!(s, !r.contains_entry(&absent), "absent-contained", "contains_entry of an absent name");
    ensure!(s, r.read_entry(&absent).is_err(), "absent-read", "read_entry of an absent name succeeds");
    // iteration
    let mut seen = BTreeMap::new();
    for (n, d) in r.iter() {
        match d {
            Ok(d) => {
                ensure!(s, seen.insert(n.clone(), d).is_none(), "iter-dup", "iteration repeats {n:?}");
            }
            Err(e) => return fail("iter-error", format!("iteration over {n:?}: {e}")),
        }
    }
    ensure!(s, &seen == want, "iter-data", "iteration yields other entries or bytes than read_entry");
    // in memory
    let m = match PakMemory::load_from(&mut Far::opened(base, bytes.to_vec())) {
        Ok(m) => m,
        Err(e) => return fail("memory-load-error", format!("PakMemory::load_from: {e}")),
    };
    ensure_eq!(s, m.mount_point, mount, "memory-mount", "in-memory mount point");
    let got: BTreeMap<String, Vec<u8>> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    ensure!(s, &got == want, "memory-data", "in-memory load yields other entries or bytes");
    Ok(())
}

// C01
fn roundtrip(s: &mut Src) -> Res {
    let w = write_random(s)?;
    let want = w.entries.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
    read_all(s, &w.bytes, &w.mount, &want)
}
/// behind gigabytes of other data
fn roundtrip_far(s: &mut Src) -> Res {
    let base = gen_base(s);
    let w = write_at(s, base)?;
    s.note(format!("at {base:#x}"));
    let want = w.entries.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect();
    read_all_at(s, base, &w.bytes, &w.mount, &want)
}

fn unwritable(s: &mut Src) -> Res {
    let ver = *s.pick(&[PakVersion::PathHashIndex, PakVersion::Fnv64BugFix]);
    let mut m = PakMemory::new(ver);
    let n = s.size(4);
    for _ in 0..n {
        let name = gen_name(s);
        let len = s.below(100);
        let data = s.blob(len);
        m.set_entry(name, data);
    }
    s.nontrivial();
    s.note(format!("{ver:?} with {n} entries"));
    let mut out = Cursor::new(vec![]);
    ensure!(s, m.write(&mut out).is_err(), "unwritable-version", "writing {ver:?} succeeded");
    Ok(())
}

// C02
fn format(s: &mut Src) -> Res {
    let w = write_random(s)?;
    let p = match parse(&w.bytes, w.num) {
        Ok(p) => p,
        Err(e) => return fail("format", format!("v{} archive breaks the format: {e}", w.num)),
    };
    check_parsed(s, &p, &w.mount, w.block, &w.entries)?;
    if w.num >= 8 && w.any_compressed {
        ensure!(s, p.methods.contains(&"Zlib".to_string()), "methods", "footer does not list Zlib");
    }
    Ok(())
}

fn check_parsed(
    s: &mut Src,
    p: &Parsed,
    mount: &str,
    block: u32,
    entries: &BTreeMap<String, (Vec<u8>, bool)>,
) -> Res {
    ensure_eq!(s, p.mount, mount, "format-mount", "mount point in the index");
    ensure_eq!(s, p.entries.len(), entries.len(), "format-count", "entries in the index");
    let mut spans = vec![];
    for e in &p.entries {
        let Some((data, compress)) = entries.get(&e.name) else {
            return fail("format-unknown-name", format!("index lists {:?}", e.name));
        };
        ensure!(s, &e.data == data, "format-data", "entry {:?}: {}", e.name, bytediff(&e.data, data));
        let want_z = *compress && data.len() >= 32;
        ensure_eq!(s, e.hdr.method != 0, want_z, "format-method", "compression of {:?} ({} bytes, compress={compress})", e.name, data.len());
        if want_z {
            // every block but the last holds exactly one block size of content
            let n = e.block_lens.len();
            for (i, l) in e.block_lens.iter().enumerate() {
                let want = (data.len() - i * block as usize).min(block as usize);
                ensure_eq!(s, *l, want, "format-block-len", "block {i} of {n}");
            }
            let want_bs = if n == 1 { data.len() as u32 } else { block };
            ensure_eq!(s, e.hdr.block_size, want_bs, "format-block-size", "block size field of {:?}", e.name);
        }
        spans.push(e.span);
    }
    spans.sort();
    let mut pos = 0;
    for (a, b) in spans {
        ensure_eq!(s, a, pos, "format-layout", "entries overlap or leave gaps");
        pos = b;
    }
    ensure_eq!(s, pos, p.index_offset, "format-layout-index", "index does not follow the entries");
    Ok(())
}

/// the same for archives produced by the in-memory form (stored unless loaded from a zlib archive)
fn format_memory(s: &mut Src) -> Res {
    let (num, ver) = *s.pick(&WRITABLE);
    let block = gen_block(s);
    let mut m = PakMemory::new(ver);
    m.block_size = block;
    let mount = if s.chance(1, 3) { s.text(20) } else { "../../../".to_string() };
    m.mount_point = mount.clone();
    let mut model = BTreeMap::new();
    for _ in 0..s.size(8) {
        let name = gen_name(s);
        let len = gen_len(s, block);
        let data = gen_data(s, len);
        m.set_entry(name.clone(), data.clone());
        model.insert(name, (data, false));
    }
    if !model.is_empty() {
        s.nontrivial();
    }
    s.class(ver_name(num));
    s.note(format!("memory v{num} mount={mount:?} {:?}", model.iter().map(|(k, v): (&String, &(Vec<u8>, bool))| (clip_name(k), v.0.len())).collect::<Vec<_>>()));
    let mut out = Cursor::new(vec![]);
    if let Err(e) = m.write(&mut out) {
        return fail("memory-write-error", format!("PakMemory::write v{num}: {e}"));
    }
    let p = match parse(out.get_ref(), num) {
        Ok(p) => p,
        Err(e) => return fail("format-memory", format!("v{num} archive breaks the format: {e}")),
    };
    check_parsed(s, &p, &mount, block, &model)
}

// C03
pub fn gen_ref(s: &mut Src, version: u32) -> RefPak {
    let n = s.size(12);
    let mut names: Vec<String> = vec![];
    let mut entries = vec![];
    for _ in 0..n {
        let mut name = gen_name(s);
        if version >= 10 {
            // directory/file split needs a file part
            while name.ends_with('/') || name.is_empty() || name.starts_with('/') {
                name = format!("f{}", name.trim_matches('/'));
            }
        }
        if names.contains(&name) {
            continue;
        }
        names.push(name.clone());
        let block = gen_block(s).min(0x7fff_ffff);
        let mut len = gen_len(s, block);
        let zlib = if version >= 3 && s.flag() {
            len = len.max(1);
            Some((block as usize, s.draw(10) as u32))
        } else {
            None
        };
        let data = gen_data(s, len);
        let gap = if s.chance(1, 5) { let g = s.below(40); s.blob(g) } else { vec![] };
        entries.push(RefEntry { name, data, zlib, gap });
    }
    let mut order: Vec<usize> = (0..entries.len()).collect();
    if s.flag() {
        for i in (1..order.len()).rev() {
            let j = s.below(i + 1);
            order.swap(i, j);
        }
    }
    RefPak {
        version,
        mount: if s.chance(1, 3) { s.text(30) } else { "../../../".into() },
        entries,
        zlib_slot: 1 + s.draw(5) as u32,
        order,
        encrypted_index: false,
        guid: s.guid(),
        path_hash: s.flag(),
        wide_sizes: if s.flag() { s.draw(1 << 30) as u32 } else { 0 },
        explicit_block: s.flag(),
        seed: s.draw(1 << 32),
        old_zlib: *s.pick(&[1, 1, 0x10, 0x20]),
        base: 0,
        odd: None,
        over: None,
        clip: None,
    }
}

fn foreign(s: &mut Src) -> Res {
    let version = *s.pick(&[11u32, 8, 9, 7, 5, 4, 3, 2, 6, 1, 10]);
    let r = gen_ref(s, version);
    foreign_pak(s, r)
}
/// behind gigabytes of other data
fn foreign_far(s: &mut Src) -> Res {
    let version = *s.pick(&[11u32, 8, 9, 7, 5, 4, 3, 2, 6, 1, 10]);
    let mut r = gen_ref(s, version);
    r.base = gen_base(s);
    foreign_pak(s, r)
}
fn foreign_pak(s: &mut Src, r: RefPak) -> Res {
    let version = r.version;
    s.class(ver_name(version));
    if r.entries.iter().any(|e| e.zlib.is_some()) {
        s.class("compressed");
    }
    if r.entries.iter().any(|e| !e.gap.is_empty()) {
        s.class("gaps");
    }
    s.note(format!(
        "foreign v{version} at {:#x} slot={} method={:#x} mount={:?} {:?}",
        r.base,
        r.zlib_slot,
        r.old_zlib,
        r.mount,
        r.entries.iter().map(|e| (clip_name(&e.name), e.data.len(), e.zlib)).collect::<Vec<_>>()
    ));
    if !r.entries.is_empty() {
        s.nontrivial();
    }
    let want: BTreeMap<String, Vec<u8>> = r.entries.iter().map(|e| (e.name.clone(), e.data.clone())).collect();
    let bytes = r.encode();
    read_all_at(s, r.base, &bytes, &r.mount, &want)
}

// C04: stateful model of the in-memory archive
fn memory_model(s: &mut Src) -> Res {
    let (mut num, ver) = *s.pick(&WRITABLE);
    let mut m = PakMemory::new(ver);
    let mut mount = "../../../".to_string();
    let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let pool: Vec<String> = (0..6).map(|_| gen_name(s)).collect();
    let steps = 1 + s.size(24);
    let mut trace: Vec<String> = vec![];
    let mut noted = 0;
    let mut saves = 0;
    let mut overwrote = false;
    for _ in 0..steps {
        match s.weighted(&[6, 2, 2, 1, 2, 1]) {
            0 => {
                let name = s.pick(&pool).clone();
                let len = gen_len(s, 300);
                let data = gen_data(s, len);
                overwrote |= model.contains_key(&name);
                trace.push(format!("set({:?},{})", clip_name(&name), data.len()));
                m.set_entry(name.clone(), data.clone());
                model.insert(name, data);
            }
            1 => {
                let name = s.pick(&pool).clone();
                trace.push("get".into());
                ensure_eq!(s, m.get_entry(&name), model.get(&name), "get", "get_entry({name:?})");
                ensure_eq!(s, m.contains_entry(&name), model.contains_key(&name), "contains", "contains_entry({name:?})");
            }
            2 => {
                // save and reopen
                let mut out = Cursor::new(vec![]);
                trace.push(format!("save+reopen v{num}"));
                if let Err(e) = m.write(&mut out) {
                    return fail("model-write-error", format!("write v{num}: {e}"));
                }
                m = match PakMemory::load_from(&mut out) {
                    Ok(m) => m,
                    Err(e) => return fail("model-load-error", format!("load_from after write v{num}: {e}")),
                };
                saves += 1;
            }
            3 => {
                mount = s.text(20);
                trace.push(format!("mount={mount:?}"));
                m.mount_point = mount.clone();
            }
            4 => {
                // merge another archive into this one: later data wins, version and mount are taken over
                let (v2, _) = *s.pick(&WRITABLE);
                let mut other = gen_ref(s, v2);
                // the in-memory form can only write with the first compression slot
                other.zlib_slot = 1;
                for e in other.entries.iter_mut() {
                    if s.flag() {
                        e.name = s.pick(&pool).clone();
                    }
                }
                // names inside one archive stay unique
                let mut seen = std::collections::BTreeSet::new();
                other.entries.retain(|e| seen.insert(e.name.clone()));
                other.order = (0..other.entries.len()).collect();
                trace.push(format!("load(v{v2}, {:?})", other.entries.iter().map(|e| clip_name(&e.name)).collect::<Vec<_>>()));
                if let Err(e) = m.load(&mut Cursor::new(other.encode())) {
                    return fail("model-merge-error", format!("load of v{v2}: {e}"));
                }
                num = v2;
                mount = other.mount.clone();
                for e in other.entries {
                    overwrote |= model.contains_key(&e.name);
                    model.insert(e.name, e.data);
                }
                s.class("merge");
            }
            _ => {
                let b = gen_block(s).max(16);
                trace.push(format!("block={b}"));
                m.block_size = b;
            }
        }
        while noted < trace.len() {
            s.note(&trace[noted]);
            noted += 1;
        }
        ensure_eq!(s, m.mount_point, mount, "model-mount", "mount point after {trace:?}");
        let mut names: Vec<String> = m.get_entry_names().into_iter().cloned().collect();
        names.sort();
        ensure_eq!(s, names, model.keys().cloned().collect::<Vec<_>>(), "model-names", "entry names after {trace:?}");
        let got: BTreeMap<&String, &Vec<u8>> = (&m).into_iter().collect();
        ensure!(s, got.len() == model.len() && got.iter().all(|(k, v)| model.get(*k) == Some(*v)), "model-data", "contents differ from the map model after {trace:?}");
        ensure_eq!(s, m.pak_version.to_num(), num, "model-version", "version after {trace:?}");
    }
    if saves > 0 && overwrote {
        s.class("overwrite-and-save");
    }
    if saves > 0 && !model.is_empty() {
        s.nontrivial();
    }
    // final save must agree with every reader
    let mut out = Cursor::new(vec![]);
    if let Err(e) = m.write(&mut out) {
        return fail("model-write-error", format!("write v{num}: {e}"));
    }
    read_all(s, out.get_ref(), &mount, &model)
}

// C05: damaged archives
fn truncated(s: &mut Src) -> Res {
    let version = *s.pick(&[11u32, 8, 9, 7, 5, 4, 3, 2, 6, 1, 10]);
    let mut r = gen_ref(s, version);
    for e in r.entries.iter_mut() {
        e.data.truncate(400);
        // no embedded magic: a cut file must not be mistaken for a complete smaller archive
        for w in e.data.chunks_mut(2) {
            if w[0] == 0xE1 {
                w[0] = 0xE0;
            }
            if w.len() > 1 && w[1] == 0xE1 {
                w[1] = 0xE0;
            }
        }
        e.gap.clear();
        if let Some(z) = e.zlib.as_mut() {
            z.0 = z.0.max(50);
            if e.data.is_empty() {
                e.zlib = None;
            }
        }
    }
    let bytes = r.encode();
    let mut cut = s.below(bytes.len());
    if version == 8 && cut + 32 == bytes.len() {
        // without its last method name this is a complete archive of the 4.22 layout
        cut -= 1;
    }
    let b = bytes[..cut].to_vec();
    s.note(format!("v{version} {} entries, {} bytes cut to {cut}", r.entries.len(), bytes.len()));
    s.class(ver_name(version));
    if !r.entries.is_empty() {
        s.nontrivial();
    }
    let mut rd = PakReader::new(Cursor::new(b.clone()));
    let res = guarded(|| rd.load_index());
    match res {
        Err((_, m)) => return fail(format!("truncated-panic:{}", norm(&m)), format!("load_index of a cut file panicked: {m}")),
        Ok(Ok(())) => return fail("truncated-accepted", format!("a file cut at {cut} of {} loads", bytes.len())),
        Ok(Err(_)) => {}
    }
    match guarded(|| PakMemory::load_from(&mut Cursor::new(b)).is_err()) {
        Ok(true) => Ok(()),
        Ok(false) => fail("truncated-memory-accepted", "cut file loads in memory"),
        Err((_, m)) => fail(format!("truncated-memory-panic:{}", norm(&m)), m),
    }
}

/// data region damaged, structure intact: reading yields an error or bytes, never a crash; other
/// entries are unaffected
fn damaged_data(s: &mut Src) -> Res {
    let version = *s.pick(&[11u32, 8, 9, 7, 5, 4, 3, 2, 6, 1, 10]);
    let r = gen_ref(s, version);
    if r.entries.is_empty() {
        return Ok(());
    }
    let mut bytes = r.encode();
    // locate stored bytes of one entry by re-encoding with only the entries before it
    let k = s.below(r.entries.len());
    let end_of = |n: usize| -> usize {
        let mut q = r.clone();
        q.entries.truncate(n);
        q.order = (0..n).collect();
        let e = q.encode();
        // index offset from the footer
        let tail = if version >= 10 || version == 8 { 0xCC } else if version == 9 { 0xCD } else { 0x2C };
        let p = e.len() - tail + 8;
        u64::from_le_bytes(e[p..p + 8].try_into().unwrap()) as usize
    };
    let (lo, hi) = (end_of(k), end_of(k + 1));
    let e = &r.entries[k];
    let nblocks = e.zlib.map(|z| e.data.chunks(z.0).count());
    let hl = 48 + if version == 1 { 8 } else { 0 } + if version >= 3 { 5 + nblocks.map(|n| 4 + 16 * n).unwrap_or(0) } else { 0 };
    let body = lo + e.gap.len() + hl;
    if body >= hi {
        return Ok(());
    }
    let n = 1 + s.size(6);
    for _ in 0..n {
        let at = body + s.below(hi - body);
        bytes[at] ^= 1 + s.draw(255) as u8;
    }
    s.nontrivial();
    s.class(if e.zlib.is_some() { "compressed" } else { "stored" });
    s.note(format!("v{version} entry {k} of {} damaged in {n} places", r.entries.len()));
    let mut rd = PakReader::new(Cursor::new(bytes));
    if let Err(e) = rd.load_index() {
        return fail("damaged-index", format!("intact index refused: {e}"));
    }
    for (i, e) in r.entries.iter().enumerate() {
        let got = guarded(|| rd.read_entry(&e.name));
        match got {
            Err((_, m)) => return fail(format!("damaged-panic:{}", norm(&m)), format!("reading a damaged entry panicked: {m}")),
            Ok(Ok(d)) => {
                if i != k {
                    ensure!(s, d == e.data, "damaged-other", "damage in entry {k} changed entry {i}");
                } else if e.zlib.is_none() {
                    ensure_eq!(s, d.len(), e.data.len(), "damaged-stored-len", "stored entry");
                } else {
                    // the checksum of zlib
                    ensure!(s, d == e.data, "damaged-compressed", "a damaged compressed entry is returned: {}", bytediff(&d, &e.data));
                }
            }
            Ok(Err(e2)) => {
                ensure!(s, i == k && r.entries[k].zlib.is_some(), "damaged-other-error", "damage in entry {k} made entry {i} unreadable: {e2}");
            }
        }
    }
    Ok(())
}

/// structural fields damaged (index, footer, in-place headers): an error or some result, no crash
fn damaged_structure(s: &mut Src) -> Res {
    let version = *s.pick(&[11u32, 8, 9, 7, 5, 4, 3, 2, 6, 1, 10]);
    let mut r = gen_ref(s, version);
    for e in r.entries.iter_mut() {
        e.data.truncate(300);
        if let Some(z) = e.zlib.as_mut() {
            z.0 = z.0.max(30);
            if e.data.is_empty() {
                e.zlib = None;
            }
        }
    }
    let mut bytes = r.encode();
    let n = 1 + s.size(3);
    let tail = if version >= 10 || version == 8 { 0xCC } else if version == 9 { 0xCD } else { 0x2C };
    let p = bytes.len() - tail + 8;
    let index = u64::from_le_bytes(bytes[p..p + 8].try_into().unwrap()) as usize;
    for _ in 0..n {
        let at = match s.draw(4) {
            0 => s.below(bytes.len()),
            1 => s.below(index.max(1)),
            _ => index + s.below(bytes.len() - index),
        };
        match s.draw(3) {
            0 => bytes[at] ^= 1 << s.draw(8),
            1 => bytes[at] = *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
            _ => {
                // a whole field
                let w = *s.pick(&[4usize, 8]);
                let fill = *s.pick(&[0u8, 0xff, 0x7f]);
                for k in 0..w {
                    if at + k < bytes.len() {
                        bytes[at + k] = fill;
                    }
                }
            }
        }
    }
    s.class(ver_name(version));
    s.note(format!("v{version} {} entries, {n} structural damages in {} bytes", r.entries.len(), bytes.len()));
    s.nontrivial();
    let out = guarded(|| {
        let mut rd = PakReader::new(Cursor::new(bytes.clone()));
        let mut oks = 0;
        if rd.load_index().is_ok() {
            oks += 1;
            for (_, d) in rd.iter() {
                if d.is_ok() {
                    oks += 1;
                }
            }
        }
        let _ = PakMemory::load_from(&mut Cursor::new(bytes));
        oks
    });
    s.checks += 1;
    match out {
        Ok(0) => s.class("rejected"),
        Ok(_) => s.class("accepted"),
        Err((_, m)) => return fail(format!("structure-panic:{}", norm(&m)), format!("a damaged archive makes the reader panic: {m}")),
    }
    Ok(())
}

/// archives whose index or entries are flagged as encrypted
fn encrypted(s: &mut Src) -> Res {
    let version = *s.pick(&[11u32, 8, 9, 7, 5, 4, 6, 10]);
    let mut r = gen_ref(s, version);
    s.class(ver_name(version));
    if s.flag() || r.entries.is_empty() {
        r.encrypted_index = true;
        s.nontrivial();
        s.note(format!("v{version} encrypted index, {} entries", r.entries.len()));
        let b = r.encode();
        ensure!(s, PakReader::new(Cursor::new(b.clone())).load_index().is_err(), "encrypted-index-accepted", "an encrypted index is parsed");
        ensure!(s, PakMemory::load_from(&mut Cursor::new(b)).is_err(), "encrypted-index-accepted-memory", "an encrypted index is parsed");
        return Ok(());
    }
    let k = s.below(r.entries.len());
    let enc = r.entries[k].name.clone();
    let b = r.encode_with_flag(Some(k));
    s.note(format!("v{version} entry {k} of {} encrypted", r.entries.len()));
    s.nontrivial();
    let mut rd = PakReader::new(Cursor::new(b));
    if let Err(e) = rd.load_index() {
        return fail("encrypted-entry-index", format!("plain index refused: {e}"));
    }
    for e in &r.entries {
        let got = rd.read_entry(&e.name);
        if e.name == enc {
            ensure!(s, got.is_err(), "encrypted-entry-returned", "the stored bytes of an encrypted entry are returned as its data");
        } else {
            ensure!(s, got.map(|d| d == e.data).unwrap_or(false), "encrypted-other", "a plain entry next to an encrypted one is not readable");
        }
    }
    Ok(())
}

/// an entry claims to be longer than the rest of the file
fn overlong(s: &mut Src) -> Res {
    let version = *s.pick(&[11u32, 8, 9, 7, 5, 4, 6, 3, 10, 2, 1]);
    let mut r = gen_ref(s, version);
    let Some(k) = (0..r.entries.len()).find(|k| r.entries[*k].zlib.is_none()) else { return Ok(()) };
    let len = r.encode().len() as u64;
    let n = match s.below(4) {
        0 => len + s.draw(4),
        1 => len + s.draw(len),
        2 => len * (2 + s.draw(100)),
        _ => *s.pick(&[u64::MAX, 1 << 63, i64::MAX as u64, 1 << 32, 0xffff_ffff]) ,
    }
    .max(len);
    r.over = Some((k, n));
    s.class(ver_name(version));
    s.note(format!("v{version} entry {k} of {} has {} bytes but claims {n}, the file has {len}", r.entries.len(), r.entries[k].data.len()));
    s.nontrivial();
    let b = r.encode();
    let mut rd = PakReader::new(Cursor::new(b.clone()));
    if rd.load_index().is_err() {
        s.class("refused at once");
        return Ok(());
    }
    for (i, e) in r.entries.iter().enumerate() {
        let got = rd.read_entry(&e.name);
        if i == k {
            ensure!(s, got.is_err(), "overlong-returned", "an entry that claims more than the file holds is returned");
        } else {
            ensure!(s, got.map(|d| d == e.data).unwrap_or(false), "overlong-other", "another entry is not readable");
        }
    }
    ensure!(s, PakMemory::load_from(&mut Cursor::new(b)).is_err(), "overlong-memory", "loaded although an entry claims more than the file holds");
    Ok(())
}

/// the compressed data of an entry ends early
fn unended(s: &mut Src) -> Res {
    let version = *s.pick(&[11u32, 8, 9, 7, 5, 4, 6, 3, 10]);
    let mut r = gen_ref(s, version);
    let Some(k) = (0..r.entries.len()).find(|k| r.entries[*k].zlib.is_some()) else { return Ok(()) };
    let blocks = r.entries[k].data.chunks(r.entries[k].zlib.unwrap().0).count();
    let n = match s.below(3) {
        0 => 1 + s.below(4),
        1 => 4 + s.below(4),
        _ => 1 + s.size(200),
    };
    let block = s.below(blocks);
    r.clip = Some((k, block, n));
    s.class(ver_name(version));
    s.class(if n <= 4 { "part of the checksum" } else { "data" });
    s.note(format!("v{version} entry {k} of {} of {} bytes, block {block} of {blocks} lacks {n} bytes", r.entries.len(), r.entries[k].data.len()));
    s.nontrivial();
    let mut rd = PakReader::new(Cursor::new(r.encode()));
    if let Err(e) = rd.load_index() {
        return fail("unended-index", format!("intact index refused: {e}"));
    }
    for (i, e) in r.entries.iter().enumerate() {
        let got = rd.read_entry(&e.name);
        if i == k {
            ensure!(s, got.is_err(), "unended-returned", "compressed data that ends early is returned");
        } else {
            ensure!(s, got.map(|d| d == e.data).unwrap_or(false), "unended-other", "another entry is not readable");
        }
    }
    Ok(())
}

/// an entry is compressed in a way that is not supported
fn unsupported(s: &mut Src) -> Res {
    let version = *s.pick(&[11u32, 8, 9, 7, 5, 4, 6, 3, 10]);
    let mut r = gen_ref(s, version);
    let data = s.blob(60);
    let level = s.draw(10) as u32;
    let block = s.urange(1, 40);
    r.entries.push(RefEntry { name: format!("odd{}", s.draw(100)), data: [data, vec![1]].concat(), zlib: Some((block, level)), gap: vec![] });
    let k = r.entries.len() - 1;
    r.order.push(k);
    if s.flag() {
        let j = s.below(k + 1);
        r.order.swap(j, k);
    }
    let odd = r.entries[k].name.clone();
    if r.entries.iter().filter(|e| e.name == odd).count() > 1 {
        return Ok(());
    }
    let method = if version < 8 {
        *s.pick(&[2u32, 4, 3, 8, 0x40, 0x102])
    } else {
        match 1 + s.draw(8) as u32 {
            n if n == r.zlib_slot => 6,
            n if n > 5 => n + if version < 10 { s.draw(3) as u32 * 250 } else { 0 },
            n => n,
        }
    };
    let name = *s.pick(&["Oodle", "zlib", "Zlib2", "Gzip", "LZ4", "ZLIB", " Zlib", "None"]);
    r.odd = Some((k, method, name));
    s.class(ver_name(version));
    s.note(format!("v{version} entry {k} of {} has method {method} {name:?}, Zlib is {}", r.entries.len(), r.zlib_slot));
    s.nontrivial();
    let b = r.encode();
    let mut rd = PakReader::new(Cursor::new(b.clone()));
    if let Err(e) = rd.load_index() {
        return fail("unsupported-index", format!("plain index refused: {e}"));
    }
    for e in &r.entries {
        let got = rd.read_entry(&e.name);
        if e.name == odd {
            ensure!(s, got.is_err(), "unsupported-returned", "the stored bytes of an entry that cannot be decompressed are returned as its data");
        } else {
            ensure!(s, got.map(|d| d == e.data).unwrap_or(false), "unsupported-other", "another entry is not readable");
        }
    }
    ensure!(s, PakMemory::load_from(&mut Cursor::new(b)).is_err(), "unsupported-memory", "loaded although an entry cannot be decompressed");
    Ok(())
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            rule: "Random entry sets (names: ASCII/Unicode/empty/long/directories; sizes around 0, 32, block multiples, up to 200 kB; zero/periodic/text/run/incompressible/magic-laden content; stored or zlib; block sizes 1..2^32-1), random mount point, one of the 9 writable versions, with repeated names injected; also behind up to 4 PB of other data. Non-trivial: at least one entry was accepted.",
            assumptions: &["zlib (flate2 with the system zlib) is trusted", "block size 0 is outside the domain", "entry names up to 1500 characters"],
            facets: vec![
                Facet { name: "roundtrip", quick: 120_000, thorough: 1500000, run: roundtrip },
                Facet { name: "far", quick: 20_000, thorough: 300000, run: roundtrip_far },
                Facet { name: "unwritable", quick: 500, thorough: 3000, run: unwritable },
            ],
        },
        Property {
            id: "C02",
            rule: "As C01; the written archive is taken apart by an independent strict parser (own SHA-1) that checks footer, index, hashes, offsets, block tables and block contents. Non-trivial: at least one entry.",
            assumptions: &["the parser in harness/hbase/src/pak_ref.rs states the format", "zlib is trusted"],
            facets: vec![
                Facet { name: "format", quick: 100_000, thorough: 1000000, run: format },
                Facet { name: "format-memory", quick: 60_000, thorough: 500000, run: format_memory },
            ],
        },
        Property {
            id: "C03",
            rule: "Archives of versions 1-11 encoded by an independent encoder, with layouts the library's own writer never produces (other zlib levels and method slots, gaps, shuffled index order, path-hash index with encoded entries, wide size fields, explicit block sizes, all three numbers of zlib before version 8, up to 4 PB of other data in front). Non-trivial: at least one entry.",
            assumptions: &["the encoder in harness/hbase/src/pak_ref.rs states the format", "no encryption, no version 8A, no unencodable v10/v11 records"],
            facets: vec![
                Facet { name: "foreign", quick: 120_000, thorough: 1500000, run: foreign },
                Facet { name: "far", quick: 20_000, thorough: 300000, run: foreign_far },
            ],
        },
        Property {
            id: "C04",
            rule: "Random histories of set/get/save-and-reopen/merge-archive/change mount or block size against a map model, compared after every step; a final save is read by every reader. Non-trivial: saved at least once with entries.",
            assumptions: &["zlib is trusted", "merged archives keep zlib in the first method slot"],
            facets: vec![Facet { name: "history", quick: 80_000, thorough: 800000, run: memory_model }],
        },
        Property {
            id: "C05",
            rule: "Valid archives cut at a random byte, with bytes flipped inside one entry's stored data, with index/footer/header fields damaged, flagged as encrypted, with compressed data that ends early, with an entry that claims to be longer than the file, or with one whose compression method is not supported. Non-trivial: the archive had entries and damage was applied.",
            assumptions: &["archives up to a few 100 kB", "hangs and memory exhaustion end the check as inconclusive"],
            facets: vec![
                Facet { name: "truncated", quick: 120_000, thorough: 2000000, run: truncated },
                Facet { name: "damaged-data", quick: 80_000, thorough: 800000, run: damaged_data },
                Facet { name: "damaged-structure", quick: 200_000, thorough: 2000000, run: damaged_structure },
                Facet { name: "encrypted", quick: 20_000, thorough: 100000, run: encrypted },
                Facet { name: "unended", quick: 20_000, thorough: 200000, run: unended },
                Facet { name: "overlong", quick: 20_000, thorough: 100000, run: overlong },
                Facet { name: "unsupported", quick: 20_000, thorough: 100000, run: unsupported },
            ],
        },
    ]
}
